"""Point clouds found by long searches: rare features of the algorithm.

`tags` say which feature was observed when the case was recorded: d2@(q, n)
and d3@(q, n) are entries changed by higher differentials, ext n,q,k are
extensions from entry (n, q) to (n - k, q + k), inf n,q entries which survive
off the first column.
"""
import json
import os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       "mv_corpus.json")) as f:
    CORPUS = json.load(f)


def tagged(*tags):
    return [c for c in CORPUS if any(
        t.startswith(g) for t in c["tags"] for g in tags)]
