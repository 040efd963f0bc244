"""Singular values of unfoldings and the error bounds that follow from them."""
import numpy as np

from vlib.ref import unfold


def svals(dense):
    """Singular values of every unfolding, for k = 1 ... d-1"""
    return [
        np.linalg.svd(unfold(dense, k), compute_uv=False)
        for k in range(1, dense.ndim)
    ]


def tails(values, ranks):
    """Norm of the singular values beyond the rank, for every unfolding"""
    return np.array(
        [np.linalg.norm(s[r:]) for s, r in zip(values, ranks)]
    )


def left_defect(cores):
    """Largest deviation from left-orthonormality of the cores but the last"""
    worst = 0.0
    for c in cores[:-1]:
        mat = c.reshape(-1, c.shape[2])
        worst = max(worst, abs(mat.T @ mat - np.eye(mat.shape[1])).max(initial=0))
    return worst


def right_defect(cores):
    """Largest deviation from right-orthonormality of the cores but the first"""
    worst = 0.0
    for c in cores[1:]:
        mat = c.reshape(c.shape[0], -1)
        worst = max(worst, abs(mat @ mat.T - np.eye(mat.shape[0])).max(initial=0))
    return worst
