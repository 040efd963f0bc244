"""Sparse sign DRM: number, signs, positions, and order of the options."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, lazy, ref
from vlib.harness import Sub, require
from vlib.ref import equal

from tt_sketch.drm import SparseSignDRM

RULE = (
    "Cases are shapes with up to 2^63 entries, a side, ranks, numbers of "
    "non-zeros per split (none, or from 1 to the rank), positions, a row range "
    "and a seed. Non-trivial: some split has fewer non-zeros than its rank, or "
    "(spread) at least 2000 columns were counted."
)
ASSUMPTIONS = [
    "Spread of signs and positions is judged by counts over thousands of "
    "columns at eight standard deviations.",
]

SEEDS = st.one_of(gen.seeds(), st.integers(2**32, 2**63 - 1), st.integers(0, 3))


@st.composite
def cases(draw, high=False):
    shape = draw(lazy.big_shapes())
    if high:
        shape = shape[:6]
    d = len(shape)
    rank = draw(gen.high_ranks(d - 1) if high else gen.ranks(d - 1, 9))
    lo = [draw(st.integers(0, r - 1)) for r in rank]
    hi = [draw(st.integers(a + 1, r)) for a, r in zip(lo, rank)]
    nnz = None
    if draw(st.integers(0, 4)) > 0:
        nnz = [draw(st.integers(1, r)) for r in rank]
    return {
        "shape": shape,
        "n": draw(st.integers(1, 20 if high else 60)),
        "pos": draw(gen.data_seeds()),
        "rank": rank,
        "nnz": nnz,
        "lo": lo,
        "hi": hi,
        "right": draw(st.booleans()),
        "seed": draw(SEEDS),
    }


def make(case, shape):
    kwargs = {}
    if case["nnz"] is not None:
        kwargs["num_non_zero_per_row"] = tuple(case["nnz"])
    return SparseSignDRM(
        tuple(case["rank"]),
        shape,
        transpose=case["right"],
        seed=case["seed"],
        **kwargs,
    )


def check_columns(case):
    shape = tuple(case["shape"])
    d = len(shape)
    right = case["right"]
    rank = tuple(case["rank"])
    nnz = tuple(case["nnz"] or rank)
    drm = make(case, shape)
    inds = lazy.positions(shape, case["n"], case["pos"])
    n = inds.shape[1]
    vectors = ref.drm_vectors(drm, shape, inds)
    equal("number of contractions", len(vectors), d - 1)
    for k in range(1, d):
        vec = vectors[k - 1]
        equal(f"shape of contraction {k}", vec.shape, (rank[k - 1], n))
        require(
            np.all(np.isin(vec, (-1, 0, 1))), f"split {k}: entries besides 0, +-1"
        )
        counts = np.sum(vec != 0, axis=0)
        require(
            np.all(counts == nnz[k - 1]),
            f"split {k} of rank {rank[k - 1]}: columns with {sorted(set(counts))} "
            f"instead of {nnz[k - 1]} non-zeros",
        )
        keys = lazy.column_keys(inds, k, right)
        first = {}
        for j, key in enumerate(keys):
            i = first.setdefault(key, j)
            require(
                np.array_equal(vec[:, j], vec[:, i]),
                f"split {k}: column {key} depends on the other modes",
            )
        # Unrelated columns: a coincidence has probability 2^-(rank) at least
        cols = list(first.values())
        if len(cols) > 1:
            bits = nnz[k - 1] + log2_binomial(rank[k - 1], nnz[k - 1])
            same = len(cols) - len({tuple(vec[:, j]) for j in cols})
            pairs = len(cols) * (len(cols) - 1) / 2
            mean = pairs * 2.0**-bits
            require(
                same <= mean + 10 * np.sqrt(mean) + 8,
                f"split {k}: {same} of {len(cols)} columns are repeated",
            )
    rng = np.random.default_rng([case["pos"], 23])
    dtype = lazy.variants(drm, shape, inds, rng, vectors, "whole")
    lo, hi = tuple(case["lo"]), tuple(case["hi"])
    part = drm.slice(lo, hi)
    part_vectors = ref.drm_vectors(part, shape, inds)
    for k in range(1, d):
        require(
            np.array_equal(
                part_vectors[k - 1], vectors[k - 1][lo[k - 1] : hi[k - 1]]
            ),
            f"split {k}: row range differs from the rows of the whole",
        )
    lazy.variants(part, shape, inds, rng, part_vectors, "row range")
    again = ref.drm_vectors(make(case, shape), shape, inds)
    for k, (a, b) in enumerate(zip(again, vectors), start=1):
        require(np.array_equal(a, b), f"split {k}: not determined by the seed")
    labels = [f"right={right}", "index type=" + dtype]
    labels.append("nnz given" if case["nnz"] else "nnz default")
    return any(a < b for a, b in zip(nnz, rank)), labels


def log2_binomial(n, k):
    out = 0.0
    for i in range(k):
        out += np.log2((n - i) / (i + 1))
    return out


@st.composite
def spread_cases(draw):
    kind = draw(st.sampled_from(["grid", "line", "big"]))
    if kind == "grid":
        shape = [draw(st.integers(12, 18)) for _ in range(3)]
    elif kind == "line":
        shape = [draw(st.integers(3000, 5000)), draw(st.integers(1, 1000))]
        if draw(st.booleans()):
            shape.reverse()
    else:
        shape = [draw(st.integers(2**9, 2**15)) for _ in range(draw(st.integers(2, 4)))]
    d = len(shape)
    rank = draw(gen.ranks(d - 1, 9, rmin=2))
    nnz = None
    if draw(st.integers(0, 4)) > 0:
        nnz = [draw(st.integers(1, r)) for r in rank]
    return {
        "shape": shape,
        "kind": kind,
        "rank": rank,
        "nnz": nnz,
        "pos": draw(gen.data_seeds()),
        "right": draw(st.booleans()),
        "seed": draw(SEEDS),
    }


def spread_positions(case):
    shape = case["shape"]
    if case["kind"] == "big":
        rng = np.random.default_rng([case["pos"], 31])
        return np.array([rng.integers(0, n, 4000) for n in shape])
    if case["kind"] == "line":
        long = int(np.argmax(shape))
        inds = np.zeros((2, shape[long]), dtype=np.int64)
        inds[long] = np.arange(shape[long])
        return inds
    return ref.all_positions(shape)


def check_spread(case):
    shape = tuple(case["shape"])
    right = case["right"]
    drm = make(case, shape)
    inds = spread_positions(case)
    vectors = ref.drm_vectors(drm, shape, inds)
    counted = 0
    limit = 8.0
    for k in range(1, len(shape)):
        keys = np.array(lazy.column_keys(inds, k, right))
        _, cols = np.unique(keys, axis=0, return_index=True)
        vec = vectors[k - 1][:, np.sort(cols)]
        r, n = vec.shape
        if n < 2000:
            continue
        counted += 1
        p = (case["nnz"] or case["rank"])[k - 1] / case["rank"][k - 1]

        def zscore(what, value, mean, var):
            z = np.abs(value - mean) / np.sqrt(var * n + 1e-300)
            bad = np.argmax(z)
            require(
                np.max(z) < limit,
                f"split {k}: {what}: off by {np.max(z):.1f} standard deviations",
            )

        where = vec != 0
        if p < 1:
            zscore("non-zeros per row", where.sum(axis=1), p * n, p * (1 - p))
        zscore("signs per row", vec.sum(axis=1), 0, p)
        # signs of different rows are unrelated
        nnz = (case["nnz"] or case["rank"])[k - 1]
        q = nnz * (nnz - 1) / (r * (r - 1))
        if q > 0:
            iu = np.triu_indices(r, 1)
            zscore("signs of two rows", (vec @ vec.T)[iu], 0, q)
            if q < 1 and p < 1:
                both = (where.astype(float) @ where.T.astype(float))[iu]
                zscore("non-zeros in two rows", both, q * n, q * (1 - q))
        # different columns are unrelated
        for shift in (1, 2, 16):
            a, b = vec[:, shift:], vec[:, :-shift]
            zscore(
                f"signs of columns at distance {shift}",
                np.array([np.sum(a * b)]),
                0,
                p * p * r + 1e-9,
            )
            if p < 1:
                same = np.sum((a != 0) & (b != 0), axis=0)
                mean = nnz * nnz / r
                spread = mean * (1 - p) * (r - nnz) / (r - 1)
                zscore(
                    f"non-zeros of columns at distance {shift}",
                    np.array([np.sum(same - mean)]),
                    0,
                    spread,
                )
    return counted > 0, [f"right={right}", "kind=" + case["kind"]]


@st.composite
def many_cases(draw):
    case = draw(cases())
    around = draw(st.sampled_from([1024, 4096, 8192, 10000, 16384, 32768, 50000, 65536]))
    case["n"] = around + draw(st.integers(-1, 1))
    case["cut"] = draw(st.integers(1, 999))
    return case


def check_many(case):
    """Thousands of indices at once"""
    shape, rank = tuple(case["shape"]), tuple(case["rank"])
    nnz = tuple(case["nnz"] or rank)
    inds = lazy.many_positions(shape, case["n"], case["pos"])
    drm = make(case, shape)
    vectors = ref.drm_vectors(drm, shape, inds)
    for k, vec in enumerate(vectors):
        require(np.all(np.isin(vec, (-1, 0, 1))), f"split {k + 1}: entries besides 0, +-1")
        counts = np.sum(vec != 0, axis=0)
        require(
            np.all(counts == nnz[k]),
            f"split {k + 1} of rank {rank[k]}: columns with {sorted(set(counts))} "
            f"instead of {nnz[k]} non-zeros",
        )
    lazy.in_parts(drm, shape, inds, vectors, case["cut"])
    lo, hi = tuple(case["lo"]), tuple(case["hi"])
    for k, part in enumerate(ref.drm_vectors(drm.slice(lo, hi), shape, inds)):
        require(
            np.array_equal(part, vectors[k][lo[k] : hi[k]]),
            f"split {k + 1}: row range differs from the rows of the whole",
        )
    return True, [f"indices={case['n']}"]


SUBS = [
    Sub("columns", lambda tier: cases(), check_columns, 1600),
    Sub("spread", lambda tier: spread_cases(), check_spread, 240),
    Sub("large", lambda tier: gen.large(cases()), check_columns, 40),
    Sub("ranks", lambda tier: cases(high=True), check_columns, 60),
    Sub("many", lambda tier: many_cases(), check_many, 40),
]
