"""Inner products, norms and errors against dense values."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props import c03, c14

from tt_sketch.tensor import SparseTensor, TensorSum, TensorTrain

RULE = (
    "Cases are ordered pairs of tensors of one shape in any formats (sums, "
    "nested sums, sketched tensors; related tensors such as a nearly equal one; "
    "plain arrays for the error), or sparse tensors with up to 2^62 entries "
    "with a sparse, TT or CP tensor, or with hundreds to thousands of entries (sub-check "
    "many), or TTs with up to 110 modes. Non-trivial: both tensors non-zero."
)
ASSUMPTIONS = [
    "Agreement up to 1e-12 times the norms of the tensors of absolute values; "
    "norms and fast errors are compared as squares, which is the documented "
    "accuracy of formulas based on inner products.",
    "Sums have at least one term.",
]


@st.composite
def pairs(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=200, mode=7))
    scales = gen.weighted((1.0, 6), (-2.0, 1), (1e-5, 1), (1e4, 1), (1e-20, 1))

    def tensor():
        kind = draw(st.integers(0, 11))
        spec = draw(gen.tensor_of(shape, rmax=4, nnz_max=60, scales=scales))
        if kind == 0:
            other = draw(gen.tensor_of(shape, rmax=3, nnz_max=30))
            return {"fmt": "sum", "shape": list(shape), "terms": [spec, other]}
        if kind == 1:
            return {
                "fmt": "sketch",
                "shape": list(shape),
                "of": draw(
                    gen.tensor_of(shape, fmts=("tt", "dense"), rmax=2, sums=False,
                                  fills=gen.weighted(("gauss", 1)))
                ),
                "left": draw(gen.ints(1, 2)),
                "right": draw(gen.ints(3, 4)),
                "seed": draw(gen.ints(0, 1000)),
            }
        return spec

    a = tensor()
    relation = draw(
        gen.weighted(("free", 6), ("near", 2), ("same", 1), ("copy", 1), ("multiple", 1))
    )
    case = {"shape": shape, "a": a, "relation": relation}
    if relation == "free":
        case["b"] = tensor()
    elif relation == "near":
        case["eps"] = draw(st.sampled_from([1e-2, 1e-5, 1e-9, 1e-13]))
        case["b"] = draw(
            gen.tensor_of(shape, rmax=2, nnz_max=10, sums=False,
                          scales=gen.weighted((1.0, 1)))
        )
    elif relation == "multiple":
        case["c"] = draw(st.sampled_from([-1.0, 2.0, 1 + 1e-7]))
    return case


def near(x, y, tol):
    return abs(x - y) <= tol


def scalar(what, value):
    value = np.asarray(value)
    require(value.ndim == 0, f"{what} is not a number but has shape {value.shape}")
    return float(value)


def number(what, actual, expected, tol):
    actual = scalar(what, actual)
    require(
        near(actual, expected, tol),
        f"{what}: {actual!r} instead of {expected!r} (tolerance {tol:.2e})",
    )


def square(what, actual, expected, tol):
    """``actual**2`` agrees with ``expected**2`` up to ``tol``"""
    actual = scalar(what, actual)
    require(
        np.isfinite(actual) and actual >= 0, f"{what} is {actual!r}"
    )
    require(
        near(actual**2, expected**2, tol)
        or near(actual, expected, 1e-14 * expected),
        f"{what}: {actual!r} instead of {expected!r} (squares differ by "
        f"{abs(actual**2 - expected**2):.2e}, tolerance {tol:.2e})",
    )


def check_errors(name, x, y, dx, dy, bx, by, as_array=False):
    """``x.error(y)`` with all options; ``y`` may be an array"""
    size = dx.size
    err = float(np.linalg.norm(dx - dy))
    ny = float(np.linalg.norm(dy))
    tol2 = 1e-12 * (bx + by) ** 2 + 1e-300
    direct = 1e-12 * (bx + by) + 1e-300
    for fast in (False, True):
        for rmse in (False, True):
            div = np.sqrt(size) if rmse else 1.0
            what = f"{name}.error(fast={fast}, rmse={rmse})"
            got = scalar(what, x.error(y, fast=fast, rmse=rmse))
            if fast:
                square(what, got * div, err, tol2)
            else:
                number(what, got * div, err, direct)
            what = f"{name}.error(fast={fast}, rmse={rmse}, relative=True)"
            got = scalar(what, x.error(y, relative=True, fast=fast, rmse=rmse))
            if by == 0:
                require(got == np.inf, f"{what}: {got!r} instead of inf")
            elif ny > 1e-4 * by:
                slack = 1e-11 * (by / ny) ** 2
                e = got * div * ny
                if fast:
                    square(what, e, err, tol2 + slack * err**2)
                else:
                    number(what, e, err, direct + slack * err)
    plain = scalar("error", x.error(y))
    number(f"{name}.error()", plain, err, direct)


def check_pair(case):
    a = c14.build(case["a"])
    relation = case["relation"]
    if relation == "same":
        b = a
    elif relation == "copy":
        b = c14.build(case["a"])
    elif relation == "multiple":
        c = case["c"]
        b = c14.Value(a.lib * c, a.dense * c, a.bound * abs(c))
    elif relation == "near":
        p = c14.build(case["b"])
        scale = case["eps"] * np.linalg.norm(a.dense) / (np.linalg.norm(p.dense) or 1)
        if isinstance(a.lib, c14.SketchedTensorTrain):
            b = p
        else:
            b = c14.Value(
                a.lib + p.lib * scale, a.dense + p.dense * scale,
                a.bound + p.bound * scale,
            )
    else:
        b = c14.build(case["b"])
    snap = Snapshot(first=a.lib, second=b.lib)
    dot = float(np.sum(a.dense * b.dense))
    tol = 1e-12 * a.bound * b.bound + 1e-300
    number("a.dot(b)", a.lib.dot(b.lib), dot, tol)
    number("b.dot(a)", b.lib.dot(a.lib), dot, tol)
    number("a @ b", a.lib @ b.lib, dot, tol)
    number("b @ a", b.lib @ a.lib, dot, tol)
    for name, v in (("a", a), ("b", b)):
        n = float(np.linalg.norm(v.dense))
        square(f"{name}.norm()", v.lib.norm(), n, 1e-12 * v.bound**2 + 1e-300)
        if isinstance(v.lib, (TensorTrain, SparseTensor)):
            number(f"{name}.norm()", v.lib.norm(), n, 1e-12 * v.bound + 1e-300)
    check_errors("a", a.lib, b.lib, a.dense, b.dense, a.bound, b.bound)
    check_errors("b", b.lib, a.lib, b.dense, a.dense, b.bound, a.bound)
    check_errors(
        "a (array)", a.lib, b.dense.copy(), a.dense, b.dense, a.bound, b.bound
    )
    snap.check("dot, norm or error")
    fa, fb = case["a"]["fmt"], case.get("b", case["a"])["fmt"]
    return bool(np.any(a.dense) and np.any(b.dense)), [
        f"{fa}|{fb}",
        f"relation={relation}",
    ]


@st.composite
def huge(draw):
    d = draw(st.integers(2, 12))
    bits = draw(st.integers(20, 62))
    cuts = [max(0, bits // d + draw(st.integers(-2, 2))) for _ in range(d)]
    shape = []
    left = 2**62
    for c in cuts:
        n = max(1, min(left, 2 ** min(c, 30) + draw(st.integers(-1, 1))))
        shape.append(n)
        left //= n
    nnz = draw(st.integers(1, 20))
    sparse = {
        "fmt": "sparse", "shape": shape, "nnz": nnz, "seed": draw(gen.data_seeds()),
        "fill": "gauss", "idx": draw(st.sampled_from(["array", "tuple"])),
        "scale": draw(gen.weighted((1.0, 2), (-1e3, 1))),
    }
    other = draw(st.sampled_from(["sparse", "tt", "cp", "sum"]))
    total = sum(shape)
    if total > 20000:
        other = "sparse"
    return {
        "shape": shape, "sparse": sparse, "other": other,
        "seed": draw(gen.data_seeds()), "rank": draw(st.integers(1, 3)),
        "overlap": draw(st.integers(0, 10)),
    }


def values_at(lib, positions):
    """Entries and bounds of a TT or CP tensor at positions, one at a time"""
    out, bound = [], []
    for pos in positions.T:
        if isinstance(lib, TensorTrain):
            v, w = np.ones((1, 1)), np.ones((1, 1))
            for core, i in zip(lib.cores, pos):
                v, w = v @ core[:, i, :], w @ abs(core[:, i, :])
            out.append(v[0, 0])
            bound.append(w[0, 0])
        else:
            v = np.ones(lib.cores[0].shape[1])
            for core, i in zip(lib.cores, pos):
                v = v * core[i]
            out.append(v.sum())
            bound.append(abs(v).sum())
    return np.array(out), np.array(bound)


def check_huge(case):
    m = ref.make_tensor(case["sparse"], dense=False)
    positions = ref.sparse_positions(case["sparse"])
    entries = np.array(m.lib.entries)
    shape = tuple(case["shape"])
    rng = np.random.default_rng([case["seed"], 5])
    norm = float(np.linalg.norm(entries))
    number("norm", m.lib.norm(), norm, 1e-12 * norm)

    def other(kind):
        if kind == "sparse":
            spec = dict(case["sparse"], seed=case["seed"])
            pos = ref.sparse_positions(spec)
            k = min(case["overlap"], positions.shape[1])
            both = np.concatenate([positions[:, :k], pos], axis=1)
            both = np.array(list(dict.fromkeys(map(tuple, both.T)))).T
            both = both[:, rng.permutation(both.shape[1])]
            e = rng.standard_normal(both.shape[1])
            table = {tuple(p): v for p, v in zip(both.T.tolist(), e)}
            vals = np.array([table.get(tuple(p), 0.0) for p in positions.T.tolist()])
            return SparseTensor(shape, both, e), vals, abs(vals), np.linalg.norm(e)
        if kind == "tt":
            r = (1,) + (case["rank"],) * (len(shape) - 1) + (1,)
            lib = TensorTrain([
                rng.standard_normal((r[k], n, r[k + 1])) / np.sqrt(n)
                for k, n in enumerate(shape)
            ])
            gram = np.ones((1, 1))
            for c in lib.cores:
                gram = np.einsum("ij,ika,jkb->ab", gram, c, c)
            vals, b = values_at(lib, positions)
            return lib, vals, b, np.sqrt(gram[0, 0])
        lib = ref.CPTensor([
            rng.standard_normal((n, case["rank"])) / np.sqrt(n) for n in shape
        ])
        gram = np.ones((case["rank"],) * 2)
        for c in lib.cores:
            gram = gram * (c.T @ c)
        vals, b = values_at(lib, positions)
        return lib, vals, b, np.sqrt(abs(gram.sum()))

    kinds = ["sparse", "tt"] if case["other"] == "sum" else [case["other"]]
    parts = [other(k) for k in kinds]
    lib = parts[0][0] if len(parts) == 1 else TensorSum([p[0] for p in parts])
    vals = sum(p[1] for p in parts)
    tol = 1e-12 * float(sum(p[2] for p in parts) @ abs(entries)) + 1e-300
    expected = float(vals @ entries)
    number("sparse.dot(other)", m.lib.dot(lib), expected, tol)
    number("other.dot(sparse)", lib.dot(m.lib), expected, tol)
    if case["other"] in ("sparse", "tt"):
        n2 = float(parts[0][3])
        number("other.norm()", lib.norm(), n2, 1e-10 * n2)
        err = np.sqrt(max(0.0, norm**2 + n2**2 - 2 * expected))
        tol2 = 1e-10 * (norm**2 + n2**2)
        size = float(np.prod([float(n) for n in shape]))
        square("fast error", m.lib.error(lib, fast=True), err, tol2)
        square(
            "fast relative rmse error",
            m.lib.error(lib, fast=True, relative=True, rmse=True)
            * n2 * np.sqrt(size), err, tol2,
        )
        square("fast error, reversed", lib.error(m.lib, fast=True), err, tol2)
    return bool(np.any(entries)), [
        f"other={case['other']}",
        f"log2 size>={int(np.log2(float(np.prod([float(n) for n in shape])))) // 10 * 10}",
    ]


@st.composite
def long(draw):
    """TTs with many modes, most of them with more than 2^63 entries"""
    d = draw(st.integers(12, 110))
    top = draw(st.integers(2, 6))
    shape = [draw(st.integers(1, top)) for _ in range(draw(st.integers(1, 5)))]
    return {
        "shape": shape, "d": d,
        "ranks": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
        "seeds": [draw(gen.data_seeds()), draw(gen.data_seeds())],
        "relation": draw(gen.weighted(("free", 3), ("near", 2))),
        "eps": draw(st.sampled_from([1.0, 1e-3, 1e-7])),
        "nnz": draw(st.integers(0, 12)),
    }


def random_cores(shape, rank, seed):
    rng = np.random.default_rng([seed, 9])
    r = (1,) + (rank,) * (len(shape) - 1) + (1,)
    # Norms of about 1
    return [
        rng.standard_normal((r[k], n, r[k + 1])) / np.sqrt(n * r[k])
        for k, n in enumerate(shape)
    ]


def gram(c1, c2):
    g = np.ones((1, 1))
    for a, b in zip(c1, c2):
        g = np.tensordot(np.tensordot(g, a, ((0,), (0,))), b, ((0, 1), (0, 1)))
    return float(g[0, 0])


def check_long(case):
    d = case["d"]
    shape = tuple((case["shape"] * d)[:d])
    c1 = random_cores(shape, case["ranks"][0], case["seeds"][0])
    c2 = random_cores(shape, case["ranks"][1], case["seeds"][1])
    if case["relation"] == "near":
        # Another tensor in the direction of the first
        k = case["seeds"][0] % d
        c2 = [c.copy() for c in c1]
        c2[k] = c2[k] + case["eps"] * random_cores(shape, case["ranks"][0], case["seeds"][1])[k]
        diff = [c.copy() for c in c1]
        diff[k] = c1[k] - c2[k]
        err2 = gram(diff, diff)
    else:
        err2 = gram(c1, c1) + gram(c2, c2) - 2 * gram(c1, c2)
    x, y = TensorTrain([c.copy() for c in c1]), TensorTrain([c.copy() for c in c2])
    bx = np.sqrt(gram([abs(c) for c in c1], [abs(c) for c in c1]))
    by = np.sqrt(gram([abs(c) for c in c2], [abs(c) for c in c2]))
    n1, n2 = np.sqrt(abs(gram(c1, c1))), np.sqrt(abs(gram(c2, c2)))
    tol = 1e-12 * d
    number("dot", x.dot(y), gram(c1, c2), tol * bx * by)
    square("norm", x.norm(), n1, tol * bx**2)
    root = np.sqrt(float(np.prod([float(n) for n in shape])))
    err = np.sqrt(abs(err2))
    # Cancellation between the two can't be avoided in the reference, but the
    # difference of near tensors is known exactly
    slack = tol * (bx + by) ** 2
    for rmse in (False, True):
        for relative in (False, True):
            factor = (root if rmse else 1.0) * (n2 if relative else 1.0)
            what = f"error(rmse={rmse}, relative={relative})"
            got = scalar(what, x.error(y, rmse=rmse, relative=relative)) * factor
            if case["relation"] == "near":
                number(what, got, err, tol * (bx + by))
            else:
                square(what, got, err, slack)
    # A sparse tensor, of which only values at positions are needed
    rng = np.random.default_rng([case["seeds"][0], 10])
    n = case["nnz"]
    pos = np.array([rng.integers(0, m, n) for m in shape]).reshape(d, n)
    pos = np.array(list(dict.fromkeys(map(tuple, pos.T.tolist()))), int).reshape(-1, d).T
    n = pos.shape[1]
    entries = rng.standard_normal(n) * root
    sparse = SparseTensor(shape, pos, entries)
    vals, b = values_at(x, pos)
    expected = float(vals @ entries)
    tol = 1e-11 * float(b @ abs(entries)) + 1e-300
    number("sparse.dot(TT)", sparse.dot(x), expected, tol)
    number("TT.dot(sparse)", x.dot(sparse), expected, tol)
    ns = float(np.linalg.norm(entries))
    square(
        "rmse(sparse, TT)", sparse.error(x, fast=True, rmse=True) * root,
        np.sqrt(max(0.0, ns**2 + n1**2 - 2 * expected)),
        1e-10 * (ns + bx) ** 2,
    )
    return True, [
        "relation=" + case["relation"],
        f"more than 2^63 entries={root > 2**31.5}",
    ]


@st.composite
def many(draw):
    """As many entries as there may be in a block"""
    d = draw(st.integers(2, 7))
    top = draw(gen.weighted(
        (1000, 3), (1024, 3), (500, 1), (512, 1), (2000, 2), (2048, 2), (4096, 2),
        (8192, 1), (10000, 1), (100, 1), (256, 1), (3000, 1),
    ))
    nnz = top + draw(gen.weighted((0, 2), (1, 3), (-1, 1), (2, 1), (17, 1)))
    shape = [max(2, int(np.ceil((1.3 * nnz) ** (1 / d)))) + draw(st.integers(0, 2))
             for _ in range(d)]
    if draw(st.booleans()):
        shape[draw(st.integers(0, d - 1))] += draw(st.integers(0, 40))
    return {
        "shape": shape, "nnz": nnz, "seed": draw(gen.data_seeds()),
        "rank": draw(st.integers(1, 4)), "order": draw(st.booleans()),
    }


def check_many(case):
    shape, nnz = tuple(case["shape"]), case["nnz"]
    d, r = len(shape), case["rank"]
    rng = np.random.default_rng([case["seed"], 77])
    flat = rng.choice(gen.size_of(shape), size=nnz, replace=False)
    if case["order"]:
        flat = np.sort(flat)
    pos = np.array(np.unravel_index(flat, shape))
    entries = rng.standard_normal(nnz)
    sparse = SparseTensor(shape, pos, entries)
    ranks = (1,) + (r,) * (d - 1) + (1,)
    tt = TensorTrain([
        rng.standard_normal((ranks[k], n, ranks[k + 1])) for k, n in enumerate(shape)
    ])
    cp = ref.CPTensor([rng.standard_normal((n, r)) for n in shape])
    snap = Snapshot(sparse=sparse, tt=tt, cp=cp)
    others = [(tt, ref.tt_dense(tt.cores), ref.tt_dense([abs(c) for c in tt.cores])),
              (cp, ref.cp_dense(cp.cores), ref.cp_dense([abs(c) for c in cp.cores]))]
    dense = np.zeros(shape)
    dense[tuple(pos)] = entries
    for lib, values, bound in others:
        name = type(lib).__name__
        expected = float(np.sum(values * dense))
        tol = 1e-12 * float(np.sum(bound * abs(dense))) + 1e-300
        number(f"sparse.dot({name})", sparse.dot(lib), expected, tol)
        number(f"{name}.dot(sparse)", lib.dot(sparse), expected, tol)
        number(
            f"{name}.dot(dense)", lib.dot(ref.DenseTensor(dense)), expected, tol
        )
        for idx in (pos, tuple(pos)):
            got = np.asarray(lib.gather(idx)).reshape(-1)
            close(f"{name}.gather", got, values[tuple(pos)], 1e-12 * bound.max())
    perm = rng.permutation(nnz)
    again = SparseTensor(shape, pos[:, perm], entries[perm] * 2)
    number("sparse.dot(sparse)", sparse.dot(again), 2 * float(entries @ entries),
           1e-12 * float(entries @ entries))
    close("gather", np.asarray(sparse.gather(tuple(pos[:, perm]))).reshape(-1), entries[perm], 0.0)
    close("to_numpy", sparse.to_numpy(), dense, 0.0)
    snap.check("inner products")
    return True, [f"nnz={nnz}", f"d={d}"]


SUBS = [
    Sub("pair", lambda tier: pairs(), check_pair, 1400),
    Sub("many", lambda tier: many(), check_many, 160),
    Sub("huge", lambda tier: huge(), check_huge, 500),
    Sub("long", lambda tier: long(), check_long, 300),
    Sub("large", lambda tier: gen.large(pairs()), check_pair, 35),
]
