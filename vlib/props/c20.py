"""Reported singular values of tensor trains."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, spectra, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, equal
from vlib.props.c18 import bound_of, diagonal, make_tt, tts

from tt_sketch.tensor import TensorTrain

RULE = (
    "Cases are TTs (random, redundant sums, with prescribed decay, zero, "
    "over-sized ranks), orthogonal sums with known values down to 3e-13 of the "
    "largest, and TTs times powers of two. Non-trivial: a split with two or more "
    "non-zero singular values."
)
ASSUMPTIONS = [
    "Reference: dense SVDs; agreement up to 3e-13 times the norm of the TT of "
    "absolute values. One list of values per mode is reported: the entry of the "
    "first mode and that of the second both belong to the first split, any "
    "other one to the split before its mode.",
]


@st.composite
def cases(draw):
    return {"tt": draw(tts(dmax=7, size=400))}


def check(case):
    cores = make_tt(case["tt"])
    dense, bound = ref.tt_dense(cores), bound_of(cores)
    tt = TensorTrain([c.copy() for c in cores])
    snap = Snapshot(tensor=tt)
    got = tt.svdvals()
    snap.check("svdvals")
    d = dense.ndim
    equal("number of lists", len(got), d)
    sv = spectra.svals(dense)
    tol = 3e-13 * bound + 1e-300
    rich = False
    for mode in range(d):
        split = max(mode, 1)
        expected = sv[split - 1]
        s = np.asarray(got[mode], dtype=float)
        what = f"values of mode {mode} (split {split})"
        require(s.ndim == 1 and len(s) > 0, f"{what}: shape {s.shape}")
        require(np.all(np.isfinite(s)) and np.all(s >= 0), f"{what}: {s}")
        require(np.all(np.diff(s) <= 1e-14 * s[:-1]), f"{what}: not in decreasing order")
        n = max(len(s), len(expected))
        a, b = np.zeros(n), np.zeros(n)
        a[: len(s)], b[: len(expected)] = s, expected
        diff = float(np.max(abs(a - b)))
        require(
            diff <= tol,
            f"{what}: differ by {diff:.3e} (tolerance {tol:.1e}): {s} instead of "
            f"{expected}",
        )
        rich |= int(np.sum(expected > 1e-9 * bound)) > 1
    return rich, ["tt=" + case["tt"]["kind"], f"modes={d}"]


@st.composite
def spectra_cases(draw):
    """Orthogonal sums of products: the singular values are known"""
    terms = draw(gen.weighted((2, 1), (5, 1), (9, 1), (10, 1), (12, 2), (16, 1)))
    d = draw(st.integers(2, 4))
    return {
        "shape": [terms + draw(st.integers(0, 3)) for _ in range(d)],
        "terms": terms,
        "smallest": draw(st.sampled_from([1e-3, 1e-7, 1e-10, 3e-12, 8e-13, 3e-13])),
        "how": draw(st.sampled_from(["geometric", "gap", "equal"])),
        "power": draw(st.sampled_from([0, 0, -300, 300, -20, 20])),
        "seed": draw(gen.data_seeds()),
    }


def check_spectra(case):
    n, small = case["terms"], case["smallest"]
    values = np.geomspace(1, small, n)
    if case["how"] == "gap":
        values[1:-1] = 0.5
    elif case["how"] == "equal":
        values[1:] = small
    factor = 2.0 ** case["power"]
    rng = np.random.default_rng([case["seed"], 47])
    coeffs = rng.permutation(values) * rng.choice([-1.0, 1.0], n)
    cores = diagonal(dict(case, coeffs=coeffs * factor))
    got = TensorTrain(cores).svdvals()
    equal("number of lists", len(got), len(cores))
    for mode, s in enumerate(got):
        s = np.asarray(s, dtype=float) / factor
        require(s.ndim == 1 and len(s) >= n, f"values of mode {mode}: shape {s.shape}")
        expected = np.pad(np.sort(values)[::-1], (0, len(s) - n))
        diff = float(np.max(abs(s - expected)))
        require(
            diff <= 1e-13,
            f"values of mode {mode}: differ by {diff:.2e} times the largest: {s} "
            f"instead of {expected}",
        )
    return True, ["how=" + case["how"], f"terms={n}", f"smallest={small}"]


SUBS = [
    Sub("spectra", lambda tier: spectra_cases(), check_spectra, 300),
    Sub("svdvals", lambda tier: cases(), check, 5000),
    Sub("large", lambda tier: gen.large(cases()), check, 125),
    scaled.tt_sub(["svdvals"], 600),
]
