"""Nothing to build: make sure that what the checks need is there."""
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
py = PY if os.path.exists(PY) else sys.executable
sys.exit(subprocess.call([py, "-c", "import numpy, scipy; print(numpy."
                          "__version__, scipy.__version__)"]))
