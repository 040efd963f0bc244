"""Rank specifications: normalisation, trimming and the ranks of results."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import close, equal
from vlib.props.c04 import trimmed

from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tensor import TensorTrain
from tt_sketch.tt_gmres import MPO, round_tt_sum
from tt_sketch.tt_svd import tt_svd
from tt_sketch.utils import process_tt_rank, trim_ranks

RULE = (
    "Sub-check trim: shapes of 2 to 300 modes with ranks, against the closed "
    "form of the trimmed ranks. Sub-check lossless: TTs of the requested ranks, "
    "whose unfoldings have rank at most the trimmed ranks, attained for random "
    "ones. Sub-check routines: every decomposition routine and constructor with "
    "generated rank requests. Non-trivial: trimming changes a requested rank."
)
ASSUMPTIONS = [
    "Closed form: the trimmed rank of a split is the minimum over all splits of "
    "their requested rank (1 at the ends) times the sizes of the modes between.",
    "Ranks are positive.",
]

KINDS = gen.weighted(("tuple", 3), ("list", 1), ("array", 1), ("gen", 1))

NUMBERS = gen.weighted(("int", 3), ("int64", 1), ("int32", 1))


def as_kind(rank, kind):
    if isinstance(rank, (int, np.integer)):
        return np.int64(rank) if kind == "array" else rank
    return {"tuple": tuple, "list": list, "array": np.array, "gen": iter}[kind](rank)


@st.composite
def trim_cases(draw):
    kind = draw(gen.weighted(("small", 5), ("long", 2), ("huge", 2), ("chain", 1)))
    if kind == "chain":
        # Few modes longer than 1, so that limits reach far in both directions
        d = draw(st.integers(20, 300))
        dims = [1] * d
        for k in draw(st.lists(st.integers(0, d - 1), max_size=12)):
            dims[k] = draw(st.integers(2, 4))
        dims[0] = draw(st.integers(1, 64))
        dims[-1] = draw(st.integers(1, 64))
        rank = [draw(st.integers(20, 60))] * (d - 1)
        for k in draw(st.lists(st.integers(0, d - 2), max_size=5)):
            rank[k] = draw(st.integers(1, 30))
        return {
            "dims": dims, "rank": rank, "kind": draw(KINDS), "numbers": draw(NUMBERS)
        }
    if kind == "small":
        d = draw(st.integers(2, 8))
        dims = [draw(st.integers(1, 5)) for _ in range(d)]
        top = 30
    elif kind == "long":
        d = draw(st.integers(9, 150))
        n = draw(st.integers(1, 3))
        rng_dims = draw(st.lists(st.integers(1, 4), min_size=1, max_size=6))
        dims = [rng_dims[k % len(rng_dims)] if k % 3 else n for k in range(d)]
        top = 1000
    else:
        d = draw(st.integers(2, 12))
        dims = [
            draw(st.one_of(st.integers(1, 3), st.integers(1, 10**6))) for _ in range(d)
        ]
        top = 10**7
    if draw(st.integers(0, 3)) == 0:
        rank = draw(st.one_of(st.integers(1, 10), st.integers(1, top)))
    elif kind == "long":
        pattern = draw(st.lists(
            st.one_of(st.integers(1, 10), st.integers(1, top)), min_size=1, max_size=9
        ))
        rank = [pattern[(k * k + k // 5) % len(pattern)] for k in range(d - 1)]
    else:
        rank = [
            draw(st.one_of(st.integers(1, 10), st.integers(1, top)))
            for _ in range(d - 1)
        ]
    return {
        "dims": dims, "rank": rank, "kind": draw(KINDS), "numbers": draw(NUMBERS)
    }


def check_trim(case):
    dims, rank, kind = tuple(case["dims"]), case["rank"], case["kind"]
    if case["numbers"] != "int":  # Sizes and ranks from arrays
        number = getattr(np, case["numbers"])
        dims = tuple(number(n) for n in dims)
        rank = number(rank) if isinstance(rank, int) else [number(r) for r in rank]
    d = len(dims)
    single = isinstance(rank, (int, np.integer))
    full = (rank,) * (d - 1) if single else tuple(rank)
    expected = trimmed(case["dims"], [int(r) for r in full])
    plain = process_tt_rank(as_kind(rank, kind), dims, trim=False)
    equal("rank without trimming", tuple(plain), full)
    require(isinstance(plain, tuple), f"rank is a {type(plain).__name__}")
    got = process_tt_rank(as_kind(rank, kind), dims, trim=True)
    require(isinstance(got, tuple), f"rank is a {type(got).__name__}")
    equal("trimmed rank", tuple(int(r) for r in got), expected)
    equal("trim_ranks", tuple(int(r) for r in trim_ranks(dims, full)), expected)
    again = process_tt_rank(got, dims, trim=True)
    equal("rank trimmed twice", tuple(int(r) for r in again), expected)
    return expected != full, [f"modes>={d // 25 * 25}", "numbers=" + case["numbers"]]


@st.composite
def lossless_cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=6, size=200, mode=6))
    return {
        "shape": shape,
        "rank": draw(gen.ranks(len(shape) - 1, 9)),
        "seed": draw(gen.data_seeds()),
    }


def check_lossless(case):
    shape, rank = tuple(case["shape"]), tuple(case["rank"])
    spec = {"fmt": "tt", "shape": shape, "rank": rank, "seed": case["seed"]}
    m = ref.make_tensor(spec)
    t = process_tt_rank(rank, shape, trim=True)
    found = []
    for k in range(1, len(shape)):
        s = np.linalg.svd(ref.unfold(m.dense, k), compute_uv=False)
        found.append(int(np.sum(s > 1e-12 * s[0])))
    # With probability one the ranks of the unfoldings are the trimmed ranks
    require(
        all(a <= b for a, b in zip(found, t)),
        f"a TT of rank {rank} has unfoldings of rank {tuple(found)}, but the "
        f"trimmed rank is {t}",
    )
    close(
        "TT-SVD with the trimmed rank", ref.tt_dense(tt_svd(m.lib, t).cores),
        m.dense, 1e-11 * m.bound,
    )
    return tuple(t) != rank, [f"attained={tuple(found) == tuple(t)}"]


ROUTINES = [
    "stream_left", "stream_right", "orthogonal", "hmt", "tt_svd", "round",
    "sum_exact", "sum_pairwise", "sum_sketch", "sum_orth_sketch", "random",
    "random_trim", "random_orthog", "zero", "mpo",
]


@st.composite
def routine_cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=200, mode=6))
    n = len(shape) - 1
    if draw(st.integers(0, 2)) == 0:
        rank = draw(st.integers(1, 8))
        other = rank + draw(st.integers(1, 4))
    else:
        rank = draw(gen.ranks(n, 8))
        other = [r + draw(st.integers(1, 4)) for r in rank]
    routine = draw(st.sampled_from(ROUTINES))
    fmts = ("tt",) if routine in ("round",) or routine.startswith("sum") else (
        "tt", "dense", "sparse", "cp", "tucker")
    case = {
        "routine": routine, "rank": rank, "other": other, "shape": shape,
        "kind": draw(gen.weighted(("tuple", 3), ("list", 1), ("array", 1))),
        "seed": draw(st.integers(0, 1000)),
        "tensor": draw(gen.tensor_of(shape, fmts, rmax=5, sums=False)),
    }
    if routine.startswith("sum"):
        case["more"] = [
            draw(gen.tensor_of(shape, ("tt",), rmax=3, sums=False))
            for _ in range(draw(st.integers(0, 2)))
        ]
    if routine == "mpo":
        case["out_shape"] = [draw(st.integers(1, 5)) for _ in shape]
    return case


def check_routine(case):
    shape, routine = tuple(case["shape"]), case["routine"]
    d = len(shape)
    rank, other = case["rank"], case["other"]
    full = (rank,) * (d - 1) if isinstance(rank, int) else tuple(rank)
    big = (other,) * (d - 1) if isinstance(other, int) else tuple(other)
    given, larger = as_kind(rank, case["kind"]), as_kind(other, case["kind"])
    lib = ref.make_tensor(case["tensor"]).lib
    t = trimmed(shape, full)
    exact = t
    if routine in ("stream_left", "stream_right"):
        if routine == "stream_left":
            sk = stream_sketch(lib, given, larger, seed=case["seed"])
            equal("left rank", tuple(sk.left_rank), t)
            equal("right rank", tuple(sk.right_rank), big)
        else:
            sk = stream_sketch(lib, larger, given, seed=case["seed"])
            equal("right rank", tuple(sk.right_rank), t)
            equal("left rank", tuple(sk.left_rank), big)
        out = sk.to_tt()
    elif routine == "orthogonal":
        out = orthogonal_sketch(lib, given, larger, seed=case["seed"])
    elif routine == "hmt":
        out = hmt_sketch(lib, given, seed=case["seed"])
    elif routine == "tt_svd":
        out = tt_svd(lib, given)
    elif routine == "round":
        out = lib.round(max_rank=given)
        exact = None
    elif routine.startswith("sum_"):
        total = lib
        for spec in case["more"]:
            total = total + ref.make_tensor(spec).lib
        if total is lib:
            total = ref.TensorSum([lib])
        out = round_tt_sum(total, given, method=routine[4:])
        exact = t if "sketch" in routine else None
    elif routine == "random":
        out = TensorTrain.random(shape, given, seed=case["seed"])
        exact = full
    elif routine == "random_trim":
        out = TensorTrain.random(shape, given, seed=case["seed"], trim=True)
    elif routine == "random_orthog":
        out = TensorTrain.random(shape, given, seed=case["seed"], orthog=True)
    elif routine == "zero":
        out = TensorTrain.zero(shape, given)
        exact = full
    else:
        out_shape = tuple(case["out_shape"])
        out = MPO.random(given, shape, out_shape)
        t = exact = trimmed(tuple(n * m for n, m in zip(shape, out_shape)), full)
    cores = out.cores
    found = tuple(int(c.shape[-1]) for c in cores[:-1])
    equal(f"{routine}: rank attribute", tuple(out.rank), found)
    equal(
        f"{routine}: matching cores", found, tuple(int(c.shape[0]) for c in cores[1:])
    )
    require(
        all(a <= b for a, b in zip(found, full)),
        f"{routine}: rank {found} exceeds the requested {full}",
    )
    if exact is not None:
        equal(f"{routine}: rank", found, exact)
    else:
        require(
            all(a <= b for a, b in zip(found, t)),
            f"{routine}: rank {found} exceeds the trimmed rank {t}",
        )
    return t != full, ["routine=" + routine]


SUBS = [
    Sub("trim", lambda tier: trim_cases(), check_trim, 2000),
    Sub("lossless", lambda tier: lossless_cases(), check_lossless, 800),
    Sub("routines", lambda tier: routine_cases(), check_routine, 2000),
    Sub("large", lambda tier: gen.large(routine_cases()), check_routine, 50),
]
