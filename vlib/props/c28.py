"""Constructors of random and special tensors."""
import numpy as np
import scipy.stats
from hypothesis import strategies as st

from vlib import gen, ref, spectra
from vlib.harness import Sub, require
from vlib.ref import close, equal
from vlib.props.c04 import trimmed

from tt_sketch.tensor import (
    CPTensor,
    DenseTensor,
    SparseTensor,
    TensorTrain,
    TuckerTensor,
)
from tt_sketch.tt_gmres import MPO
from tt_sketch.utils import MultithreadedRNG, random_normal

RULE = (
    "Cases are calls of the random constructors with any shape (modes of 1, long "
    "modes, up to 10 modes), ranks (int, tuple, list, array; too large ones "
    "too), options and seeds (none, small, large, numpy integers), sparse ones "
    "with 0 up to all entries; refused options; up to 2^24 numbers at once; and expected norms over 400 "
    "seeds. Non-trivial: at least two modes longer than 1 and a rank above 1, "
    "or more than one non-zero."
)
ASSUMPTIONS = [
    "Sizes of Gaussian entries are compared with quantiles of the chi-square "
    "distribution at probabilities 1e-13, expected norms with 8 standard errors.",
]

SEEDS = st.one_of(
    st.none(), gen.ints(0, 50), gen.ints(0, 2**32 - 1),
    st.sampled_from([2**32 - 1, 2**31, 0]),
)


@st.composite
def cases(draw):
    kind = draw(gen.weighted(
        ("tt", 6), ("zero", 1), ("cp", 2), ("tucker", 3), ("sparse", 4), ("dense", 1),
        ("mpo", 3), ("eye", 1), ("normal", 1),
    ))
    shape = draw(gen.shapes(dmin=2, dmax=6, size=600, mode=12))
    n = len(shape) - 1
    case = {"kind": kind, "shape": shape, "seed": draw(SEEDS),
            "np_seed": draw(st.booleans()), "shape_as": draw(st.sampled_from(["tuple", "list"]))}
    if kind in ("tt", "zero", "mpo"):
        case["rank"] = draw(st.one_of(st.integers(1, 6), st.integers(7, 30), gen.ranks(n, 8)))
    elif kind == "cp":
        case["rank"] = draw(st.integers(1, 12))
    elif kind == "tucker":
        case["rank"] = draw(st.one_of(st.integers(1, 15), gen.ranks(n + 1, 6)))
        # the core has to fit in memory
        full = case["rank"] if isinstance(case["rank"], list) else [case["rank"]] * (n + 1)
    elif kind == "sparse":
        total = gen.size_of(shape)
        case["nnz"] = draw(st.one_of(
            st.integers(0, total), st.just(total), st.integers(0, min(5, total))
        ))
    if isinstance(case.get("rank"), list):
        case["rank_as"] = draw(st.sampled_from(["tuple", "list", "array"]))
    if kind == "tt":
        case["orthog"] = draw(st.booleans())
        case["trim"] = draw(st.sampled_from([None, True, False]))
        if case["orthog"] and case["trim"] is False:
            case["trim"] = True
        case["norm_goal"] = draw(st.sampled_from([None, "norm-1", "norm-preserve"]))
    if kind == "mpo":
        case["in"] = [draw(st.integers(1, 5)) for _ in shape[:6]]
        case["out"] = draw(st.one_of(
            st.just(list(case["in"])),
            st.lists(st.integers(1, 5), min_size=len(case["in"]), max_size=len(case["in"])),
        ))
        if isinstance(case["rank"], list):
            case["rank"] = case["rank"][: len(case["in"]) - 1]
    return case


def rank_given(case):
    r = case["rank"]
    if isinstance(r, list):
        return {"tuple": tuple, "list": list, "array": np.array}[case["rank_as"]](r)
    return r


def gaussian(what, array, std):
    """Independent normal entries: finite, distinct and of the right size"""
    a = np.asarray(array, dtype=float).reshape(-1)
    require(np.all(np.isfinite(a)), f"{what}: values are not finite")
    if a.size == 0:
        return
    require(
        len(np.unique(a)) == a.size, f"{what}: entries are repeated or zero"
    ) if a.size > 1 else None
    total = float(np.sum((a / std) ** 2))
    low, high = scipy.stats.chi2.ppf([1e-13, 1 - 1e-13], a.size)
    require(
        low <= total <= high,
        f"{what}: squares of {a.size} entries add up to {total:.4g} times the "
        f"variance, outside [{low:.4g}, {high:.4g}]",
    )
    mean = float(np.sum(a / std)) / np.sqrt(a.size)
    require(abs(mean) < 7.8, f"{what}: entries have a mean ({mean:.2f} standard errors)")


def random_basis(what, mat):
    """Orthonormal vectors in random directions: no zeros, no repeated values"""
    if max(mat.shape) < 3:
        return
    values = np.abs(mat).reshape(-1)
    require(
        values.min() > 1e-14 and len(np.unique(values)) == values.size,
        f"{what} of shape {mat.shape} is not random: entries are repeated or zero",
    )


def independent(what, arrays, stds):
    """No two arrays have several random numbers in common"""
    flat = [np.sort(np.asarray(a).reshape(-1) / s) for a, s in zip(arrays, stds)]
    for i, a in enumerate(flat):
        for j, b in enumerate(flat[:i]):
            at = np.searchsorted(b, a)
            near = np.minimum(
                np.abs(b[np.minimum(at, b.size - 1)] - a),
                np.abs(b[np.maximum(at - 1, 0)] - a),
            )
            common = int(np.sum(near <= 1e-13 * np.abs(a)))
            require(
                common < 3,
                f"{what}: parts {j} and {i} have {common} random numbers in common",
            )


def check(case):
    kind, shape = case["kind"], tuple(case["shape"])
    d = len(shape)
    given_shape = list(shape) if case["shape_as"] == "list" else shape
    seed = case["seed"]
    if seed is not None and case["np_seed"]:
        seed = np.int64(seed)
    kwargs = {} if case["seed"] is None else {"seed": seed}
    labels = ["kind=" + kind, f"seed={case['seed'] is not None}"]
    long_modes = sum(n > 1 for n in shape)
    if kind in ("tt", "zero"):
        asked = case["rank"]
        full = [asked] * (d - 1) if isinstance(asked, int) else list(asked)
        if kind == "zero":
            t = TensorTrain.zero(given_shape, rank_given(case))
            for c in t.cores:
                require(not np.any(c), "zero tensor has a core that is not zero")
        else:
            for key in ("orthog", "trim", "norm_goal"):
                if case[key] not in (None, False) or (key == "trim" and case[key] is False):
                    kwargs[key] = case[key]
            t = TensorTrain.random(given_shape, rank_given(case), **kwargs)
            if case["trim"] or (case["trim"] is None and case["orthog"]):
                full = trimmed(shape, full)
            labels += [f"orthog={case['orthog']}", f"trim={case['trim']}", f"goal={case['norm_goal']}"]
        require(isinstance(t, TensorTrain), "not a TT")
        equal("shape", tuple(t.shape), shape)
        rank = (1,) + tuple(full) + (1,)
        equal("rank", tuple(t.rank), tuple(full))
        for k, c in enumerate(t.cores):
            equal(f"shape of core {k}", c.shape, (rank[k], shape[k], rank[k + 1]))
        if kind == "tt":
            stds = []
            for k, c in enumerate(t.cores):
                r1, n, r2 = c.shape
                if case["orthog"] and k < d - 1:
                    m = c.reshape(r1 * n, r2)
                    close(f"orthogonality of core {k}", m.T @ m, np.eye(r2), 1e-12)
                    random_basis(f"core {k}", m)
                    continue
                std = 1 / np.sqrt(r1 if case["norm_goal"] == "norm-preserve" else r1 * n)
                gaussian(f"core {k}", c, std)
                stds.append(std)
            if not case["orthog"]:
                independent("cores", t.cores, stds)
            else:
                # The norm is that of the last core
                close("norm", ref_norm(t), np.linalg.norm(t.cores[-1]), 1e-11)
        nontrivial = long_modes > 1 and max(full) > 1
    elif kind == "cp":
        t = CPTensor.random(given_shape, case["rank"], **kwargs)
        require(isinstance(t, CPTensor), "not a CP tensor")
        equal("shape", tuple(t.shape), shape)
        equal("rank", t.rank, case["rank"])
        for k, c in enumerate(t.cores):
            equal(f"shape of factor {k}", c.shape, (shape[k], case["rank"]))
            gaussian(f"factor {k}", c, 1 / np.sqrt(shape[k]))
        independent("factors", t.cores, [1 / np.sqrt(n) for n in shape])
        nontrivial = long_modes > 1 and case["rank"] > 1
    elif kind == "tucker":
        asked = case["rank"]
        full = [asked] * d if isinstance(asked, int) else list(asked)
        full = tuple(min(r, n) for r, n in zip(full, shape))
        t = TuckerTensor.random(given_shape, rank_given(case), **kwargs)
        require(isinstance(t, TuckerTensor), "not a Tucker tensor")
        equal("shape", tuple(t.shape), shape)
        equal("rank", tuple(t.rank), full)
        equal("shape of the core", t.core.shape, full)
        gaussian("core", t.core, 1.0)
        for k, U in enumerate(t.factors):
            equal(f"shape of factor {k}", U.shape, (full[k], shape[k]))
            close(f"orthogonality of factor {k}", U @ U.T, np.eye(full[k]), 1e-12)
            random_basis(f"factor {k}", U)
        # Gram-Schmidt keeps the direction of the first row
        rows = [U[0] for U in t.factors] + [t.core.reshape(-1)]
        for k in range(d + 1):
            for j in range(k):
                m = min(len(rows[j]), len(rows[k]))
                if k == d:
                    m = len(rows[j])  # the row may not be cut before scaling
                if m < 4 or len(rows[k]) < m or (k < d and len(rows[j]) != len(rows[k])):
                    continue
                a, b = rows[j][:m], rows[k][:m]
                cos = abs(a @ b) / np.linalg.norm(a) / np.linalg.norm(b)
                require(
                    cos < 1 - 1e-9, f"parts {j} and {k} have the same random numbers"
                )
        nontrivial = long_modes > 1 and max(full) > 1
    elif kind == "sparse":
        t = SparseTensor.random(given_shape, case["nnz"], **kwargs)
        require(isinstance(t, SparseTensor), "not a sparse tensor")
        equal("shape", tuple(t.shape), shape)
        equal("nnz", t.nnz, case["nnz"])
        inds = np.asarray(t.indices)
        equal("shape of the indices", inds.shape, (d, case["nnz"]))
        for k in range(d):
            require(
                np.all((inds[k] >= 0) & (inds[k] < shape[k])),
                f"index out of range in mode {k}",
            )
        flat = np.ravel_multi_index(tuple(inds), shape) if case["nnz"] else []
        equal("distinct positions", len(np.unique(flat)), case["nnz"])
        equal("number of entries", np.asarray(t.entries).shape, (case["nnz"],))
        gaussian("entries", t.entries, 1.0)
        nontrivial = case["nnz"] > 1
    elif kind in ("dense", "normal"):
        if kind == "dense":
            t = DenseTensor.random(given_shape)
            require(isinstance(t, DenseTensor), "not a dense tensor")
            equal("shape", tuple(t.shape), shape)
            data = t.data
        else:
            if case["np_seed"]:
                data = MultithreadedRNG(shape, seed).values
            else:
                data = random_normal(shape, **kwargs)
        equal("shape of the data", data.shape, shape)
        gaussian("entries", data, 1.0)
        nontrivial = long_modes > 1
    elif kind == "mpo":
        ins, outs = case["in"], case["out"]
        d = len(ins)
        prod = [a * b for a, b in zip(ins, outs)]
        asked = case["rank"]
        full = [asked] * (d - 1) if isinstance(asked, int) else list(asked)
        full = trimmed(prod, full)
        op = MPO.random(rank_given(case), tuple(ins), tuple(outs))
        require(isinstance(op, MPO), "not an MPO")
        equal("in_shape", tuple(op.in_shape), tuple(ins))
        equal("out_shape", tuple(op.out_shape), tuple(outs))
        equal("rank", tuple(op.rank), full)
        rank = (1,) + full + (1,)
        for k, c in enumerate(op.cores):
            equal(f"shape of core {k}", c.shape, (rank[k], ins[k], outs[k], rank[k + 1]))
            require(np.all(np.isfinite(c)), f"core {k} is not finite")
            require(np.any(c), f"core {k} is zero")
            close(
                f"norm of core {k}", np.linalg.norm(c), np.sqrt(ins[k] * outs[k]),
                1e-12 * ins[k] * outs[k],
            )
            if ins[k] == outs[k]:
                close(f"symmetry of core {k}", c, c.transpose(0, 2, 1, 3), 0.0)
        nontrivial = max(full) > 1
        labels.append("square" if ins == outs else "rectangular")
    else:
        op = MPO.eye(given_shape)
        require(isinstance(op, MPO), "not an MPO")
        equal("in_shape", tuple(op.in_shape), shape)
        equal("out_shape", tuple(op.out_shape), shape)
        equal("rank", tuple(op.rank), (1,) * (d - 1))
        for k, c in enumerate(op.cores):
            close(f"core {k}", c, np.eye(shape[k]).reshape(1, shape[k], shape[k], 1), 0.0)
        nontrivial = long_modes > 1
    return nontrivial, labels


def ref_norm(tt):
    """Norm by contracting the cores with themselves"""
    G = np.ones((1, 1))
    for c in tt.cores:
        G = np.einsum("ab,aic,bid->cd", G, c, c, optimize=True)
    return np.sqrt(G[0, 0])


# ------------------------------------------------------------------ refusals


@st.composite
def wrong(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=200))
    return {
        "shape": shape,
        "what": draw(st.sampled_from([
            "orthog without trim", "goal", "rank count", "zero rank count",
            "tucker rank count", "too many non-zeros", "mpo rank count",
        ])),
        "extra": draw(st.sampled_from([-1, 1, 2])),
        "goal": draw(st.sampled_from(["norm", "", "norm-2", "NORM-1", "preserve"])),
        "rank": draw(st.integers(1, 5)),
    }


def check_wrong(case):
    shape = tuple(case["shape"])
    d, r, what = len(shape), case["rank"], case["what"]
    bad = (r,) * max(0, d - 1 + case["extra"])
    action = {
        "orthog without trim": lambda: TensorTrain.random(shape, r, orthog=True, trim=False),
        "goal": lambda: TensorTrain.random(shape, r, norm_goal=case["goal"]),
        "rank count": lambda: TensorTrain.random(shape, bad),
        "zero rank count": lambda: TensorTrain.zero(shape, bad),
        "tucker rank count": lambda: TuckerTensor.random(shape, (r,) * (d + case["extra"])),
        "too many non-zeros": lambda: SparseTensor.random(
            shape, int(np.prod(shape)) + max(1, case["extra"])
        ),
        "mpo rank count": lambda: MPO.random(bad, shape, shape),
    }[what]
    try:
        out = action()
    except ValueError:
        return True, [what]
    require(False, f"{what} was not refused: {out!r}")


# ------------------------------------------------------------------ norms


@st.composite
def norm_cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=4, size=60, mode=6))
    kind = draw(st.sampled_from(["tt", "tt", "tt", "cp", "tucker", "sparse"]))
    case = {"shape": shape, "kind": kind, "seed": draw(gen.ints(0, 10**6))}
    n = len(shape) - 1
    if kind == "tt":
        case["rank"] = draw(gen.ranks(n, 4))
        case["goal"] = draw(st.sampled_from(["norm-1", "norm-preserve"]))
        case["orthog"] = draw(st.booleans())
    elif kind == "cp":
        case["rank"] = draw(st.integers(1, 4))
    elif kind == "tucker":
        case["rank"] = [draw(st.integers(1, 4)) for _ in shape]
    else:
        case["nnz"] = draw(st.integers(1, gen.size_of(shape)))
    return case


def check_norm(case):
    shape, kind = tuple(case["shape"]), case["kind"]
    squares = []
    for k in range(400):
        seed = case["seed"] + 1000 * k
        if kind == "tt":
            t = TensorTrain.random(
                shape, tuple(case["rank"]), seed=seed, norm_goal=case["goal"],
                orthog=case["orthog"],
            )
            squares.append(ref_norm(t) ** 2)
        elif kind == "cp":
            t = CPTensor.random(shape, case["rank"], seed=seed)
            squares.append(np.linalg.norm(ref.cp_dense(t.cores)) ** 2)
        elif kind == "tucker":
            t = TuckerTensor.random(shape, tuple(case["rank"]), seed=seed)
            squares.append(np.linalg.norm(ref.tucker_dense(t.core, t.factors)) ** 2)
        else:
            t = SparseTensor.random(shape, case["nnz"], seed=seed)
            squares.append(float(np.sum(np.asarray(t.entries) ** 2)))
    if kind == "tt":
        if case["goal"] == "norm-1":
            expected = 1.0
        else:  # only the last core is scaled if the others are orthogonal
            expected = shape[-1] if case["orthog"] else np.prod(shape)
    elif kind == "cp":
        expected = case["rank"]
    elif kind == "tucker":
        expected = np.prod([min(r, n) for r, n in zip(case["rank"], shape)])
    else:
        expected = case["nnz"]
    squares = np.array(squares) / expected
    require(len(np.unique(squares)) > 390, "different seeds give the same tensor")
    # The squared norm has heavy tails: compare means in a robust way
    error = np.std(squares) / np.sqrt(len(squares))
    mean = float(np.mean(squares))
    require(
        0.4 < mean < 2.5 or abs(mean - 1) < 8 * error,
        f"mean squared norm is {mean:.3f} times what is expected ({error:.3f})",
    )
    return True, ["kind=" + kind]


# ------------------------------------------------------------------ many positions


@st.composite
def big_sparse(draw):
    shape = [draw(st.integers(1, 120)) for _ in range(draw(st.integers(2, 4)))]
    while gen.size_of(shape) > 3 * 10**6:
        shape[int(np.argmax(shape))] //= 3
    return {
        "shape": shape, "seed": draw(st.one_of(st.none(), st.integers(0, 10**6))),
        "share": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0])),
    }


def check_big_sparse(case):
    shape = tuple(case["shape"])
    total = gen.size_of(shape)
    nnz = min(60000, max(1, int(total * case["share"]))) if case["share"] else min(total, 3000)
    kwargs = {} if case["seed"] is None else {"seed": case["seed"]}
    t = SparseTensor.random(shape, nnz, **kwargs)
    equal("shape", tuple(t.shape), shape)
    inds = np.asarray(t.indices)
    equal("shape of the indices", inds.shape, (len(shape), nnz))
    require(
        np.all(inds >= 0) and np.all(inds < np.array(shape)[:, None]), "index out of range"
    )
    flat = np.ravel_multi_index(tuple(inds), shape)
    equal("number of distinct positions", len(np.unique(flat)), nnz)
    gaussian("entries", t.entries, 1.0)
    return nnz >= 100 and total >= 1000, [f"positions=10^{len(str(total)) - 1}"]


@st.composite
def state_cases(draw):
    kind = draw(st.sampled_from(["cp", "tt", "tucker", "mpo"]))
    return {
        "kind": kind,
        "modes": draw(st.integers(8, 12 if kind == "tucker" else 40)),
        "seeds": draw(st.lists(st.integers(0, 2**32 - 1), min_size=12, max_size=12)),
    }


def check_states(case):
    """Parts are independent whatever the seed"""
    d = case["modes"]
    for seed in case["seeds"]:
        if case["kind"] == "cp":
            parts = CPTensor.random((4,) * d, 2, seed=seed).cores
        elif case["kind"] == "tt":
            parts = TensorTrain.random((4,) * d, 2, seed=seed).cores[1:-1]
        elif case["kind"] == "tucker":
            parts = TuckerTensor.random((4,) * d, (2,) * d, seed=seed).factors
        else:
            np.random.seed(seed)
            parts = MPO.random(2, (2,) * d, (2,) * d).cores[1:-1]
        seen = {}
        for k, part in enumerate(parts):
            key = np.round(np.asarray(part).reshape(-1), 10).tobytes()
            require(
                key not in seen,
                f"parts {seen.get(key)} and {k} of {d} are the same with seed {seed}",
            )
            seen[key] = k
    return True, ["states=" + case["kind"]]


# ------------------------------------------------------------------ many numbers


@st.composite
def normals(draw):
    """Sizes next to where counters change"""
    top = draw(gen.weighted((2**24, 2), (2**16, 3), (2**20, 2), (2**12, 2), (10**6, 2)))
    top += draw(st.integers(-3, 40))
    rows = draw(st.sampled_from([1, 1, 2, 3, 7]))
    return {
        "shape": [rows, top // rows + 1] if rows > 1 else [top],
        "seed": draw(gen.ints(0, 2**31)),
        "threads": draw(st.sampled_from([None, None, 1, 2, 3, 5, 7, 8, 16])),
        "what": draw(st.sampled_from(["class", "class", "function"])),
    }


def check_normals(case):
    shape = tuple(case["shape"])
    junk = np.full(shape, np.nan)  # what memory that is not filled may contain
    del junk
    if case["what"] == "class":
        kwargs = {} if case["threads"] is None else {"threads": case["threads"]}
        values = MultithreadedRNG(shape, case["seed"], **kwargs).values
    else:
        values = random_normal(shape, seed=case["seed"])
    equal("shape", values.shape, shape)
    flat = values.reshape(-1)
    n = flat.size
    require(bool(np.all(np.isfinite(flat))), "values are not finite")
    # Bounds that 10^7 normal numbers keep with certainty
    require(float(np.max(np.abs(flat))) < 9.0, "values are too large")
    equal("number of zeros", n - int(np.count_nonzero(flat)), 0)
    parts = [slice(0, n)]
    for size in (30, 200, 3000, n // 16, n // 8 + 1, n // 3):
        for start in (0, n // 2, n - size):
            parts.append(slice(start, start + size))
    for part in parts:
        gaussian_size(f"entries {part.start} to {part.stop} of {n}", flat[part])
    ends = [flat[:1000], flat[n // 2 :][:1000], flat[-1000:]]
    for j, a in enumerate(ends):
        equal("repeated values", len(a) - len(np.unique(a)), 0)
        for i in range(j):
            if n > 4000:
                common = len(np.intersect1d(a, ends[i]))
                equal(f"parts {i} and {j}: values in common", common, 0)
    return True, [f"log2 size={int(np.log2(n))}", f"threads={case['threads']}"]


def gaussian_size(what, a):
    total = float(np.sum(a**2))
    z = (total - a.size) / np.sqrt(2 * a.size)
    require(
        -9 < z < 12,
        f"{what}: squares add up to {total:.5g} ({z:.1f} standard deviations)",
    )
    mean = float(np.sum(a)) / np.sqrt(a.size)
    require(abs(mean) < 7.8, f"{what}: mean is off by {mean:.1f} standard errors")


SUBS = [
    Sub("states", lambda tier: state_cases(), check_states, 60),
    Sub("normals", lambda tier: normals(), check_normals, 64, jobs=4),
    Sub("construct", lambda tier: cases(), check, 12000),
    Sub("refused", lambda tier: wrong(), check_wrong, 800),
    Sub("norms", lambda tier: norm_cases(), check_norm, 40),
    Sub("large", lambda tier: gen.large(cases()), check, 300),
    Sub("big_sparse", lambda tier: big_sparse(), check_big_sparse, 60),
]
