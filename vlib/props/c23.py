"""Inconsistent requests are refused, consistent ones are accepted."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, Violation, require
from vlib.ref import Snapshot, equal
from vlib.props.c04 import trimmed

from tt_sketch.drm import (
    DenseGaussianDRM,
    SparseGaussianDRM,
    SparseSignDRM,
    TensorTrainDRM,
)
from tt_sketch.drm_base import DRM
from tt_sketch.sketch import (
    blocked_stream_sketch,
    hmt_sketch,
    orthogonal_sketch,
    stream_sketch,
)
from tt_sketch.sketch_dispatch import SketchMethod, general_sketch
from tt_sketch.sketching_methods.abstract_methods import CansketchSparse
from tt_sketch.tensor import SparseTensor, TensorSum, TensorTrain, TuckerTensor
from tt_sketch.tt_gmres import (
    MPO,
    TTLinearMapSum,
    TTPrecond,
    round_tt_sum,
    tt_sum_gmres,
)
from tt_sketch.tt_svd import tt_svd

RULE = (
    "Cases are requests (sketches with ranks, DRM types or given DRMs; rank "
    "tuples for every routine; options; linear systems) of which about half are "
    "inconsistent in at least one respect. Whether a request is consistent is "
    "decided by a separate specification. Non-trivial: an inconsistent request, "
    "or a consistent one with per-mode ranks or given DRMs."
)
ASSUMPTIONS = [
    "Ranks are positive. Given DRMs of ranks larger than the tensor's shape "
    "allows are not used for the orthogonal methods. Shapes are tuples.",
    "A request that has to be refused raises ValueError; nothing else is "
    "accepted. Which of several errors is reported is left open.",
]

FMT = {"tt", "dense", "sparse", "cp", "tucker"}


def attempt(what, valid, func):
    """Runs ``func``; it has to raise ValueError if and only if invalid"""
    try:
        out = func()
    except ValueError as exc:
        if valid:
            raise Violation(f"{what}: a consistent request was refused: {exc}")
        return None
    except Exception as exc:
        if valid:
            raise Violation(
                f"{what}: a consistent request raised {type(exc).__name__}: {exc}"
            )
        raise Violation(
            f"{what}: an inconsistent request raised {type(exc).__name__} instead "
            f"of ValueError: {exc}"
        )
    if not valid:
        raise Violation(f"{what}: an inconsistent request was accepted")
    return out


# ------------------------------------------------------------------ sketches


@st.composite
def rank_like(draw, n, base=None):
    """A rank tuple, an integer, or (rarely) one of the wrong length"""
    kind = draw(gen.weighted(("tuple", 6), ("int", 2), ("wrong", 1)))
    if kind == "int":
        return draw(st.integers(1, 6))
    if kind == "wrong":
        m = draw(st.sampled_from([k for k in (n - 1, n + 1, n + 2) if k >= 0]))
    else:
        m = n
    if base is None or len(base) < m:
        return [draw(st.integers(1, 4)) for _ in range(m)]
    return list(base[:m])


@st.composite
def sketch_cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=150, mode=6))
    n = len(shape) - 1
    routine = draw(gen.weighted(("stream", 3), ("orthogonal", 2), ("hmt", 1), ("update", 2)))
    small, large = draw(gen.rank_pair(n, rmax=3))
    if routine == "orthogonal" and small[0] > large[0]:
        small, large = large, small
    left = draw(rank_like(n, small))
    right = draw(rank_like(n, large))
    if draw(st.integers(0, 3)) == 0 and isinstance(left, list) and len(left) == n:
        # One rank that is equal or in the other order
        k = draw(st.integers(0, n - 1))
        if isinstance(right, list) and len(right) == n:
            left[k] = right[k] + draw(st.integers(-1, 2)) or 1
    case = {
        "routine": routine,
        "shape": shape,
        "left": left,
        "right": right,
        "as": draw(gen.weighted(("tuple", 3), ("list", 1))),
        "seed": draw(st.integers(0, 1000)),
    }
    types = draw(st.sampled_from([
        ("tt",), ("tt", "dense"), ("tt", "dense", "sg", "ss"),
    ]))
    for side in ("left", "right"):
        how = draw(gen.weighted(("default", 2), ("type", 2), ("drm", 4)))
        spec = {"how": how, "type": draw(st.sampled_from(types))}
        if how == "drm":
            spec["seed"] = draw(st.integers(0, 100))
            wrong = draw(gen.weighted(("no", 5), ("rank", 1), ("shape", 1), ("reversed", 1)))
            spec["wrong"] = wrong
            spec["k"] = draw(st.integers(0, 10))
            spec["by"] = draw(st.sampled_from([1, 2, -1]))
        case[side + "_drm"] = spec
    fmts = [f for f in sorted(FMT)
            if all(f in ref.DRM_FORMATS[t] for t in types)] or ["sparse"]
    if draw(st.integers(0, 4)) == 0:
        fmts = sorted(FMT)
    case["tensor"] = draw(gen.tensor_of(shape, fmts, rmax=3, nnz_max=20))
    if routine == "update":
        kind = draw(gen.weighted(("same", 4), ("shape", 2)))
        shape2 = list(shape)
        if kind == "shape":
            how = draw(st.sampled_from(["mode", "reverse", "longer", "shorter"]))
            k = draw(st.integers(0, n))
            if how == "mode":
                shape2[k] += 1
            elif how == "reverse":
                shape2.reverse()
            elif how == "longer":
                shape2.append(draw(st.integers(1, 2)))
            elif n > 1:
                shape2.pop(k)
        case["update"] = draw(
            gen.tensor_of(shape2, fmts, rmax=3, nnz_max=20)
        )
    return case


def full_rank(rank, n):
    return (rank,) * n if isinstance(rank, int) else tuple(rank)


def check_sketch(case):
    shape = tuple(case["shape"])
    n = len(shape) - 1
    routine = case["routine"]
    valid, reasons = True, []

    def bad(reason):
        reasons.append(reason)

    left, right = full_rank(case["left"], n), full_rank(case["right"], n)
    sides = {"left": left, "right": right}
    if routine == "hmt":
        del sides["left"]
    for side, rank in sides.items():
        if len(rank) != n:
            bad(f"length of {side} rank")
    left_bigger = right_bigger = False
    if len(left) == len(right) == n:
        left_bigger = all(a > b for a, b in zip(left, right))
        right_bigger = all(a < b for a, b in zip(left, right))
    if routine == "orthogonal" and not right_bigger:
        bad("order")
    if routine in ("stream", "update") and not (left_bigger or right_bigger):
        bad("order")
    formats = gen.formats_in(case["tensor"])
    kwargs = {"seed": case["seed"]}
    for side, rank in sides.items():
        spec = case[side + "_drm"]
        name = "drm" if routine == "hmt" else side + "_drm"
        if spec["how"] == "type":
            kwargs[name + "_type"] = ref.DRM_TYPES[spec["type"]]
        if spec["how"] == "drm":
            if len(rank) != n:
                rank = (2,) * n
            drm_rank, drm_shape = list(rank), list(shape)
            k = spec["k"] % n
            if spec["wrong"] == "rank":
                drm_rank[k] = max(1, drm_rank[k] + spec["by"])
            elif spec["wrong"] == "reversed":
                drm_rank.reverse()
            elif spec["wrong"] == "shape":
                drm_shape[spec["k"] % (n + 1)] += 1
            drm = ref.DRM_TYPES[spec["type"]](
                tuple(drm_rank), transpose=(side == "right"),
                shape=tuple(drm_shape), seed=spec["seed"],
            )
            kwargs[name] = drm
            if tuple(drm_rank) != rank:
                bad(f"rank of {side} DRM")
            if tuple(drm_shape) != shape:
                bad(f"shape of {side} DRM")
            if routine in ("hmt", "orthogonal") and len(rank) == n:
                if routine == "hmt" or side == "left":
                    if trimmed(shape, drm_rank) != tuple(drm_rank):
                        return False, ["out of domain"]
    # Types of the DRMs that will be used
    used = {}
    for side in sides:
        spec = case[side + "_drm"]
        used[side] = spec["type"] if spec["how"] != "default" else None
    if routine != "hmt":
        by_type = {
            s: case[s + "_drm"]["type"] for s in sides if case[s + "_drm"]["how"] == "type"
        }
        for side, other in (("left", "right"), ("right", "left")):
            if used[side] is None:
                used[side] = by_type.get(other, "tt")
    else:
        used["right"] = used["right"] or "tt"
    updates = formats | (
        gen.formats_in(case["update"]) if routine == "update" else set()
    )
    for side in sides:
        if not formats <= ref.DRM_FORMATS[used[side]]:
            bad(f"format for {side} DRM {used[side]}")
    give = tuple if case["as"] == "tuple" else list
    args = {
        s: r if isinstance(r, int) else give(r)
        for s, r in (("left", case["left"]), ("right", case["right"]))
    }
    lib = ref.make_tensor(case["tensor"]).lib
    what = f"{routine}: {', '.join(reasons) or 'consistent'}"
    valid = not reasons
    snap = Snapshot(tensor=lib)
    if routine == "hmt":
        out = attempt(what, valid, lambda: hmt_sketch(lib, args["right"], **kwargs))
    elif routine == "orthogonal":
        out = attempt(
            what, valid,
            lambda: orthogonal_sketch(lib, args["left"], args["right"], **kwargs),
        )
    else:
        out = attempt(
            what, valid,
            lambda: stream_sketch(lib, args["left"], args["right"], **kwargs),
        )
    snap.check(what)
    if out is not None:
        equal("shape", tuple(out.shape), shape)
    labels = [f"{routine}: {r}" for r in reasons] or [f"{routine}: consistent"]
    if routine == "update" and out is not None:
        spec = case["update"]
        problems = []
        if tuple(spec["shape"]) != shape:
            problems.append("shape of update")
        for side in sides:
            if not gen.formats_in(spec) <= ref.DRM_FORMATS[used[side]]:
                problems.append(f"format of update for {used[side]}")
        other = ref.make_tensor(spec).lib
        what = f"update: {', '.join(problems) or 'consistent'}"
        before = Snapshot(sketch=out)
        attempt(what, not problems, lambda: out + other)
        attempt(what, not problems, lambda: out - other)
        before.check(what)
        labels += problems or ["consistent update"]
        reasons += problems
    nontrivial = bool(reasons) or not isinstance(case["left"], int)
    return nontrivial, labels


# -------------------------------------------------------------- rank lengths

ROUTINES = [
    "TT.random", "TT.zero", "tt_svd", "round", "MPO.random", "exact", "pairwise",
    "sketch", "orth_sketch", "tt", "dense", "sg", "ss", "Tucker.random",
    "increase_left", "increase_right", "gmres", "nnz", "TT.random.trim",
    "gmres.final",
]


@st.composite
def length_cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=100, mode=5))
    n = len(shape) - 1
    routine = draw(st.sampled_from(ROUTINES))
    right = n + 1 if routine == "Tucker.random" else n
    off = draw(gen.weighted((0, 2), (-1, 1), (1, 1), (2, 1), (-2, 1)))
    m = max(0, right + off)
    return {
        "routine": routine, "shape": shape, "seed": draw(st.integers(0, 1000)),
        "rank": [draw(st.integers(1, 4)) for _ in range(m)],
        "transpose": draw(st.booleans()), "as": draw(st.sampled_from(["tuple", "list"])),
        "orthog": draw(st.booleans()),
    }


def system(shape):
    A = TTLinearMapSum([MPO.eye(shape)])
    b = TensorTrain.random(shape, 1, seed=3)
    return A, b


def check_length(case):
    shape, routine = tuple(case["shape"]), case["routine"]
    n = len(shape) - 1
    rank = tuple(case["rank"]) if case["as"] == "tuple" else list(case["rank"])
    expected = n + 1 if routine == "Tucker.random" else n
    valid = len(rank) == expected
    seed = case["seed"]
    tt = TensorTrain.random(shape, 2, seed=seed)
    sparse = SparseTensor.random(shape, min(5, gen.size_of(shape)), seed=seed)
    what = f"{routine} with {len(rank)} ranks for {n + 1} modes"
    if routine == "TT.random":
        func = lambda: TensorTrain.random(shape, rank, seed=seed)
    elif routine == "TT.random.trim":
        func = lambda: TensorTrain.random(
            shape, rank, seed=seed, trim=True, orthog=case["orthog"]
        )
    elif routine == "TT.zero":
        func = lambda: TensorTrain.zero(shape, tuple(rank))
    elif routine == "tt_svd":
        func = lambda: tt_svd(tt, rank)
    elif routine == "round":
        func = lambda: tt.round(max_rank=rank)
    elif routine == "MPO.random":
        func = lambda: MPO.random(rank, shape, shape)
    elif routine in ("exact", "pairwise", "sketch", "orth_sketch"):
        total = TensorSum([tt, TensorTrain.random(shape, 1, seed=seed + 1)])
        func = lambda: round_tt_sum(total, rank, method=routine)
    elif routine in ref.DRM_TYPES:
        func = lambda: ref.DRM_TYPES[routine](
            rank if routine == "tt" else tuple(rank),
            transpose=case["transpose"], shape=shape, seed=seed,
        )
    elif routine == "Tucker.random":
        func = lambda: TuckerTensor.random(shape, rank, seed=seed)
    elif routine.startswith("increase"):
        sk = stream_sketch(
            sparse, 1, 2, seed=seed, left_drm_type=SparseGaussianDRM,
            right_drm_type=SparseGaussianDRM,
        )
        # From the ranks of the sketch on
        up = [r + 9 for r in case["rank"]]
        if routine == "increase_left":
            new = (tuple(1 for _ in up), (20,) * n)
        else:
            new = ((1,) * n, tuple(up))
        func = lambda: sk.increase_rank(sparse, *new)
    elif routine == "nnz":
        func = lambda: SparseSignDRM(
            (4,) * n, transpose=case["transpose"], shape=shape, seed=seed,
            num_non_zero_per_row=tuple(case["rank"]),
        )
    else:
        A, b = system(shape)
        if routine == "gmres":
            func = lambda: tt_sum_gmres(A, b, rank, maxiter=2)
        else:
            func = lambda: tt_sum_gmres(A, b, 2, final_round_rank=rank, maxiter=2)
    attempt(what, valid, func)
    return True, [f"{routine}: {'right' if valid else 'wrong'} length"]


# -------------------------------------------------------------------- options


class NoSlice(CansketchSparse, DRM):
    """A DRM that can't be sliced or extended"""

    def sketch_sparse(self, tensor):
        shape = tensor.shape
        mats = [
            np.ones((r, tensor.nnz))
            for r in (self.rank[::-1] if self.transpose else self.rank)
        ]
        return iter(mats)


OPTIONS = [
    "norm_goal", "orthog_trim", "partial_dense", "direction", "method", "nnz",
    "blocked", "increase", "left_drm", "weights", "system_rhs", "system_x0",
    "system_rect", "maps_in", "maps_out", "maps_empty", "cookies", "right_seed",
    "increase_order", "update_shape_increase",
]
WORDS = ["", "LR", "norm", "norm-2", "auto ", "left-right", "Sketch", "svd", "rl ", "ll"]


@st.composite
def option_cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=4, size=80, mode=5))
    return {
        "option": draw(st.sampled_from(OPTIONS)),
        "shape": shape,
        "valid": draw(st.booleans()),
        "word": draw(st.one_of(st.sampled_from(WORDS), st.text(max_size=6))),
        "pick": draw(st.integers(0, 10)),
        "k": draw(st.integers(0, 10)),
        "seed": draw(st.integers(0, 1000)),
        "side": draw(st.booleans()),
        "types": draw(st.lists(st.sampled_from(["dense", "sg", "ss", "tt", "none"]),
                               min_size=2, max_size=2)),
    }


def check_option(case):
    option, shape, valid = case["option"], tuple(case["shape"]), case["valid"]
    n = len(shape) - 1
    seed, pick, k = case["seed"], case["pick"], case["k"]
    tt = TensorTrain.random(shape, 2, seed=seed)
    sparse = SparseTensor.random(shape, min(6, gen.size_of(shape)), seed=seed)

    def choose(words):
        word = words[pick % len(words)] if valid else case["word"]
        return word, word in words

    if option == "norm_goal":
        word, valid = choose(["norm-1", "norm-preserve"])
        func = lambda: TensorTrain.random(shape, 2, seed=seed, norm_goal=word)
    elif option == "orthog_trim":
        trim = [True, None][pick % 2] if valid else False
        func = lambda: TensorTrain.random(shape, 2, seed=seed, orthog=True, trim=trim)
    elif option == "partial_dense":
        word, valid = choose(["lr", "rl"])
        func = lambda: tt.partial_dense(word)
    elif option == "direction":
        word, valid = choose(["auto", "left", "right"])
        sk = stream_sketch(tt, 2, 3, seed=seed)
        func = lambda: sk.C_cores(direction=word)
    elif option == "method":
        word, valid = choose(["exact", "pairwise", "sketch", "orth_sketch", None])
        count = 1 + seed % 3
        func = lambda: round_tt_sum(TensorSum([tt] * count), 2, method=word)
    elif option == "nnz":
        ranks = [1 + (k + 3 * j) % 4 for j in range(n)]
        nnz = [1 + (seed + j) % r for j, r in enumerate(ranks)]
        if not valid:
            j = seed % n
            nnz[j] = ranks[j] + 1 + pick % 3
        func = lambda: SparseSignDRM(
            tuple(ranks), shape, transpose=case["side"], seed=seed,
            num_non_zero_per_row=tuple(nnz),
        )
    elif option in ("blocked", "increase", "increase_order", "update_shape_increase"):
        types = dict(ref.DRM_TYPES, none=NoSlice)
        if option in ("increase_order", "update_shape_increase"):
            kinds = ["sg", "dense"]
            lname, rname = kinds[pick % 2], kinds[k % 2]
        else:
            lname, rname = case["types"]
        lrank, rrank = (2,) * n, (3,) * n
        left = types[lname](lrank, transpose=False, shape=shape, seed=seed)
        right = types[rname](rrank, transpose=True, shape=shape, seed=seed + 1)
        if option == "blocked":
            valid = "none" not in (lname, rname)
            func = lambda: blocked_stream_sketch(
                sparse, left, right, [(0,) * n, (1,) * n, lrank], [(0,) * n, rrank]
            )
        else:
            sk = stream_sketch(sparse, lrank, rrank, left_drm=left, right_drm=right)
            new = ((3,) * n, (5,) * n)
            tensor = sparse
            if option == "increase":
                valid = {lname, rname} <= {"sg", "dense"}
            elif option == "increase_order":
                new = [list((4,) * n), list((4,) * n)]
                for j in range(n):
                    new[1][j] += 1 + (seed + j) % 3
                if not valid:
                    j = k % n
                    new[0][j] = new[1][j] + (pick % 3 if n > 1 else 0)
                new = tuple(map(tuple, new))
            elif not valid:
                shape2 = list(shape)
                shape2[k % len(shape)] += 1
                tensor = SparseTensor.random(tuple(shape2), 1, seed=seed)
            func = lambda: sk.increase_rank(tensor, *new)
    elif option == "left_drm":
        right = TensorTrainDRM((2,) * n, transpose=True, shape=shape, seed=seed)
        left = TensorTrainDRM((2,) * n, transpose=False, shape=shape, seed=seed)
        methods = [SketchMethod.streaming, SketchMethod.orthogonal]
        if valid and pick % 3 == 0:
            func = lambda: general_sketch(tt, None, right, method=SketchMethod.hmt)
        else:
            func = lambda: general_sketch(
                tt, left if valid else None, right, method=methods[pick % 2]
            )
        if trimmed(shape, (2,) * n) != (2,) * n:
            return False, ["out of domain"]
    elif option == "weights":
        count = 1 + k % 3
        total = TensorSum([tt, sparse, tt][:count])
        m = count if valid else [c for c in range(5) if c != count][pick % 4]
        weights = [1.5] * m
        if case["side"]:
            weights = np.array(weights)
        func = lambda: total * weights
    elif option.startswith("system"):
        A, b = system(shape)
        kwargs = {}
        shape2 = list(shape)
        shape2[k % len(shape)] += 1
        if pick % 3 == 0:
            shape2 = list(shape) + [2]
        elif pick % 3 == 1 and shape[::-1] != shape:
            shape2 = list(shape[::-1])
        shape2 = tuple(shape2)
        if option == "system_rhs":
            b = b if valid else TensorTrain.random(shape2, 1, seed=seed)
        elif option == "system_x0":
            kwargs["x0"] = TensorTrain.random(shape if valid else shape2, 1, seed=seed)
        elif not valid:
            b = TensorTrain.random(shape2, 1, seed=seed)
            if len(shape2) != len(shape):
                shape2 = tuple(s + 1 for s in shape)
                b = TensorTrain.random(shape2, 1, seed=seed)
            A = TTLinearMapSum([MPO.random(1, shape, shape2)])
        func = lambda: tt_sum_gmres(A, b, 2, maxiter=2, **kwargs)
    elif option.startswith("maps"):
        shape2 = list(shape)
        shape2[k % len(shape)] += 1
        shape2 = tuple(shape2)
        mpo = MPO.random(1, shape, shape)
        maps = [mpo, MPO.eye(shape), TTPrecond(np.eye(shape[0]), shape)]
        if not valid:
            if option == "maps_empty":
                maps = []
            elif option == "maps_in":
                maps.insert(pick % 4, MPO.random(1, shape2, shape))
            else:
                maps.insert(pick % 4, MPO.random(1, shape, shape2))
        func = lambda: TTLinearMapSum(maps)
    elif option == "cookies":
        from scripts.cookie_problem import prepare_cookie_problem

        count = [c for c in range(1, 16) if c not in (4, 9)][k]
        valid = False
        func = lambda: prepare_cookie_problem(3, count)
    else:
        # Seeds of any size are consistent
        valid = True
        func = lambda: stream_sketch(tt, 2, 3, seed=2**32 - 1 - seed)
    attempt(f"{option} ({'consistent' if valid else 'inconsistent'})", valid, func)
    return True, [f"{option}: {'consistent' if valid else 'inconsistent'}"]


SUBS = [
    Sub("sketch", lambda tier: sketch_cases(), check_sketch, 5000),
    Sub("length", lambda tier: length_cases(), check_length, 4000),
    Sub("option", lambda tier: option_cases(), check_option, 4000),
    Sub("large", lambda tier: gen.large(sketch_cases()), check_sketch, 125),
]
