"""Lazily generated Gaussian entries: pure, distinct, finite."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, lazy, ref
from vlib.harness import Sub, require
from vlib.ref import equal

from tt_sketch.drm import SparseGaussianDRM

RULE = (
    "Cases are shapes with up to 2^63 entries, up to 150 positions related by "
    "strides, powers of two and corners, a side, ranks, a row range and a seed. "
    "Non-trivial: at least ten distinct columns were compared in some split."
)
ASSUMPTIONS = [
    "Any equality of two generated values counts as a collision; by chance it "
    "has probability below 1e-5 for all cases of a thorough run together.",
    "Means and variances are checked up to eight standard deviations.",
]

SEEDS = st.one_of(
    gen.seeds(), st.integers(2**32, 2**63 - 1), st.integers(0, 3)
)


@st.composite
def cases(draw, high=False):
    shape = draw(lazy.big_shapes())
    if high:
        shape = shape[:6]
    d = len(shape)
    rank = draw(gen.high_ranks(d - 1) if high else gen.ranks(d - 1, 6))
    lo = [draw(st.integers(0, r - 1)) for r in rank]
    hi = [draw(st.integers(a + 1, r)) for a, r in zip(lo, rank)]
    return {
        "shape": shape,
        "n": draw(st.integers(2, 20 if high else 150)),
        "pos": draw(gen.data_seeds()),
        "rank": rank,
        "lo": lo,
        "hi": hi,
        "right": draw(st.booleans()),
        "seed": draw(SEEDS),
    }


def check(case):
    shape = tuple(case["shape"])
    d = len(shape)
    right = case["right"]
    rank = tuple(case["rank"])
    drm = SparseGaussianDRM(rank, shape, transpose=right, seed=case["seed"])
    inds = lazy.positions(shape, case["n"], case["pos"])
    n = inds.shape[1]
    vectors = ref.drm_vectors(drm, shape, inds)
    equal("number of contractions", len(vectors), d - 1)
    compared = 0
    everything = []
    for k in range(1, d):
        vec = vectors[k - 1]
        equal(f"shape of contraction {k}", vec.shape, (rank[k - 1], n))
        require(np.all(np.isfinite(vec)), f"split {k}: values are not finite")
        require(np.all(np.abs(vec) < 9), f"split {k}: value beyond 9 sigma")
        keys = lazy.column_keys(inds, k, right)
        first = {}
        for j, key in enumerate(keys):
            first.setdefault(key, j)
        for j, key in enumerate(keys):
            require(
                np.array_equal(vec[:, j], vec[:, first[key]]),
                f"split {k}: column {key} has different values for position "
                f"{inds[:, j].tolist()}",
            )
        cols = list(first.values())
        compared = max(compared, len(cols))
        values = vec[:, cols]
        flat, counts = np.unique(values, return_counts=True)
        if np.any(counts > 1):
            r, c = np.argwhere(values == flat[np.argmax(counts > 1)])[:2].T
            keys_c = [keys[cols[x]] for x in c]
            require(
                False,
                f"split {k}: rows {r.tolist()} and columns {keys_c} collide",
            )
        everything.append(values.reshape(-1))
    total = np.concatenate(everything)
    require(
        len(np.unique(total)) == len(total),
        "entries of different splits collide",
    )
    m = len(total)
    if m >= 100:
        mean = abs(total.mean()) * np.sqrt(m)
        var = (np.mean(total**2) - 1) * np.sqrt(m / 2)
        require(mean < 8, f"mean is off by {mean:.1f} standard deviations")
        require(-8 < var < 12, f"variance is off by {var:.1f} standard deviations")
    rng = np.random.default_rng([case["pos"], 23])
    dtype = lazy.variants(drm, shape, inds, rng, vectors, "whole")
    # row range
    lo, hi = tuple(case["lo"]), tuple(case["hi"])
    part = drm.slice(lo, hi)
    part_vectors = ref.drm_vectors(part, shape, inds)
    for k in range(1, d):
        require(
            np.array_equal(
                part_vectors[k - 1], vectors[k - 1][lo[k - 1] : hi[k - 1]]
            ),
            f"split {k}: row range differs from the rows of the whole",
        )
    lazy.variants(part, shape, inds, rng, part_vectors, "row range")
    # a larger rank, and another instance
    big = SparseGaussianDRM(
        tuple(r + 2 for r in rank), shape, transpose=right, seed=case["seed"]
    )
    for k, (a, b) in enumerate(
        zip(ref.drm_vectors(big, shape, inds), vectors), start=1
    ):
        require(
            np.array_equal(a[: b.shape[0]], b),
            f"split {k}: values depend on the rank",
        )
    size = float(np.sum(np.log2(np.array(shape, dtype=float))))
    labels = [
        f"right={right}",
        f"bits={int(size) // 8 * 8}+",
        "index type=" + dtype,
    ]
    labels.append("modes<=4" if d <= 4 else "modes<=12" if d <= 12 else "modes>12")
    return compared >= 10, labels


@st.composite
def many_cases(draw):
    case = draw(cases())
    around = draw(st.sampled_from([1024, 4096, 8192, 10000, 16384, 32768, 50000, 65536]))
    case["n"] = around + draw(st.integers(-1, 1))
    case["cut"] = draw(st.integers(1, 999))
    return case


def check_many(case):
    """Thousands of indices at once"""
    shape, rank = tuple(case["shape"]), tuple(case["rank"])
    inds = lazy.many_positions(shape, case["n"], case["pos"])
    drm = SparseGaussianDRM(rank, shape, transpose=case["right"], seed=case["seed"])
    vectors = ref.drm_vectors(drm, shape, inds)
    distinct = 0
    for k, vec in enumerate(vectors, start=1):
        equal(f"shape of contraction {k}", vec.shape, (rank[k - 1], inds.shape[1]))
        require(np.all(np.abs(vec) < 10), f"split {k}: value beyond 10 sigma")
        part = inds[k:] if case["right"] else inds[:k]
        columns, first, inverse = np.unique(
            part, axis=1, return_index=True, return_inverse=True
        )
        require(
            np.array_equal(vec, vec[:, first][:, inverse.reshape(-1)]),
            f"split {k}: the same column has different values",
        )
        values = vec[:, first].reshape(-1)
        # 53 random bits: one pair may agree by chance
        repeated = len(values) - len(np.unique(values))
        require(repeated <= 1, f"split {k}: {repeated} values collide")
        distinct = max(distinct, len(first))
    lazy.in_parts(drm, shape, inds, vectors, case["cut"])
    lo, hi = tuple(case["lo"]), tuple(case["hi"])
    for k, part in enumerate(ref.drm_vectors(drm.slice(lo, hi), shape, inds)):
        require(
            np.array_equal(part, vectors[k][lo[k] : hi[k]]),
            f"split {k + 1}: row range differs from the rows of the whole",
        )
    return distinct > 500, [f"indices={case['n']}"]


SUBS = [
    Sub("entries", lambda tier: cases(), check, 1600),
    Sub("large", lambda tier: gen.large(cases()), check, 40),
    Sub("ranks", lambda tier: cases(high=True), check, 60),
    Sub("many", lambda tier: many_cases(), check_many, 40),
]
