"""Calls of image_kernel which are shared by C08 and C09."""
import numpy as np

from vlib import pgens, ref


def call(case, mon):
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    A, B = case["A"], case["B"]
    F = np.array(case["F"], dtype=case["dtype"]).reshape(len(B), len(A))
    a = barcode_basis(np.array(A))
    b = barcode_basis(np.array(B))
    # bases in standard order may be marked so by sorting them
    if case["sort_a"]:
        order = a.sort(send_order=True)
        F = F[:, order]
        A = [A[i] for i in order]
    if case["sort_b"]:
        order = b.sort(send_order=True)
        F = F[order]
        B = [B[i] for i in order]
    out = mon.call(image_kernel, a, b, F, case["p"])
    mon.must(len(out) == 3, "image_kernel returns {} objects", len(out))
    Im, Ker, PreIm = out
    # the bases must be left as they were given
    mon.must(ref.bars_list(a.barcode) == [tuple(x) for x in A]
             and ref.bars_list(b.barcode) == [tuple(x) for x in B],
             "image_kernel changed its arguments")
    return a, b, A, B, F, Im, Ker, PreIm
