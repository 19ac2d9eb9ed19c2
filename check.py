"""python check.py <property> [--replay FILE]: run the check of a property.

The environment decides VERIF_SEED and VERIF_TIER (quick or thorough). The
code under test is imported from /repo/src, from the working tree.
"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg",
    "NPY_DISABLE_CPU_FEATURES":
        "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
    "VERIF_ENV": "1",
}


def main():
    if os.environ.get("VERIF_ENV") != "1" or any(
            os.environ.get(k) != v for k, v in ENV.items()):
        env = dict(os.environ)
        env.update(ENV)
        env.pop("PYTHONPATH", None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from vlib import core
    sys.path.insert(0, core.SRC)
    import warnings
    warnings.simplefilter("ignore")
    from vlib import pools
    pools.install()
    import permaviss
    where = os.path.realpath(permaviss.__file__)
    if not where.startswith(os.path.realpath(core.SRC)):
        sys.stderr.write("wrong permaviss: {}\n".format(where))
        return 2
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    return core.main(mod)


if __name__ == "__main__":
    sys.exit(main())
