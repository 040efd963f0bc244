"""Matricisation, pseudo-inverse products, projectors and the test tensors."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import close, equal

from tt_sketch.utils import (
    dematricize,
    hilbert_tensor,
    left_mul_pinv,
    matricize,
    power_decay_tensor,
    projector,
    right_mul_pinv,
    sqrt_tensor,
)

RULE = (
    "Cases are arrays of any shape and memory layout with a mode or an ordered "
    "tuple of modes; pairs of matrices (tall, wide, square; full rank or with "
    "exactly known lower rank; badly scaled) for the pseudo-inverse products "
    "and projectors; shapes and parameters of the test tensors. Non-trivial: "
    "arrays with at least two modes longer than 1, matrices with more than one "
    "row and column, test tensors with more than one entry."
)
ASSUMPTIONS = [
    "Pseudo-inverses are computed from a construction U diag(s) V with known "
    "singular values (condition of the non-zero ones at most 1e4); results "
    "agree up to 1e-11 times the condition squared. For consistent systems of "
    "full rank (condition up to 1e10) the known solution has to be found up to "
    "1e-13 times the size and the condition.",
    "The singular values of the power-decay tensor decay like k^-pow for the last "
    "mode, and for the others up to the factor that processing the later modes "
    "can make, sqrt(n_k ... n_d).",
]


# ------------------------------------------------------------------ matricisation


@st.composite
def unfoldings(draw):
    shape = draw(gen.shapes(dmin=1, dmax=6, size=500, mode=9))
    d = len(shape)
    if draw(st.booleans()):
        mode = draw(st.integers(0, d - 1))
    else:
        mode = draw(st.permutations(list(range(d))))
        mode = mode[: draw(st.integers(1, d))]
    return {
        "shape": shape, "mode": mode, "as": draw(st.sampled_from(["tuple", "list", "array"])),
        "flat": draw(st.booleans()), "seed": draw(gen.data_seeds()),
        "layout": draw(gen.LAYOUTS), "keyword": draw(st.booleans()),
    }


def check_unfolding(case):
    shape, mode = tuple(case["shape"]), case["mode"]
    d = len(shape)
    A = ref.make_array(shape, "gauss", case["seed"], 0, case["layout"])
    keep = np.array(A)
    if isinstance(mode, int):
        given, modes = mode, [mode]
    else:
        given = {"tuple": tuple, "list": list, "array": np.array}[case["as"]](mode)
        modes = list(mode)
    if case["flat"]:
        out = matricize(A, given, mat_shape=True)
    else:
        out = matricize(A, given)
    out = np.asarray(out)
    rest = [k for k in range(d) if k not in modes]
    rows = [shape[k] for k in modes]
    cols = [shape[k] for k in rest]
    ncols = int(np.prod(cols, dtype=int))
    if case["flat"]:
        want = (int(np.prod(rows, dtype=int)), ncols)
    else:
        want = tuple(rows) + (ncols,)
    equal("shape", out.shape, want)
    table = out.reshape(tuple(rows) + tuple(cols))
    # Every entry on its own
    for position in itertools.product(*(range(n) for n in shape)):
        there = tuple(position[k] for k in modes) + tuple(position[k] for k in rest)
        require(
            table[there] == keep[position],
            f"entry {position} is not at {there} of the matricised array",
        )
    if len(modes) == 1:
        mat = out.reshape(shape[modes[0]], -1)
        copy = np.array(mat)
        back = np.asarray(dematricize(mat, modes[0], shape))
        close("dematricized", back, keep, 0.0)
        require(np.array_equal(mat, copy), "dematricize changed its argument")
        # The other way round, also for another size of that mode
        n = shape[modes[0]] + case["seed"] % 3
        other = np.random.default_rng(case["seed"]).standard_normal((n, mat.shape[1]))
        ten = np.asarray(dematricize(other, modes[0], shape))
        equal(
            "shape with another size", ten.shape,
            tuple(n if k == modes[0] else s for k, s in enumerate(shape)),
        )
        close("matricize after dematricize", matricize(ten, modes[0]), other, 0.0)
    require(np.array_equal(A, keep), "the array was changed")
    return sum(n > 1 for n in shape) > 1, [f"modes={len(modes)} of {d}", f"flat={case['flat']}"]


# ------------------------------------------------------------------ pseudo-inverse


@st.composite
def matrix_cases(draw):
    rows, cols = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    if draw(st.integers(0, 4)) == 0:
        cols = rows
    top = min(rows, cols)
    rank = top if draw(st.booleans()) else draw(st.integers(0, top))
    return {
        "rows": rows, "cols": cols, "rank": rank,
        "other": draw(st.integers(1, 9)),
        "cond": draw(st.sampled_from([1.0, 3.0, 100.0, 1e4])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-9, 1e7])),
        "seed": draw(gen.data_seeds()),
        "layout": draw(gen.LAYOUTS),
        "op": draw(st.sampled_from(["left", "right", "orth", "oblique", "oblique"])),
        "param": draw(st.sampled_from([None, None, 1e-10, 1e-3])),
        "kw": draw(st.booleans()),
    }


def known_matrix(case, rng, rows, cols, rank):
    q1 = np.linalg.qr(rng.standard_normal((rows, rows)))[0][:, :rank]
    q2 = np.linalg.qr(rng.standard_normal((cols, cols)))[0][:, :rank]
    s = np.logspace(0, -np.log10(case["cond"]), rank) if rank > 1 else np.ones(rank)
    s = s * case["scale"]
    return q1, s, q2


def check_pinv(case):
    rng = np.random.default_rng([case["seed"], 19])
    rows, cols, rank = case["rows"], case["cols"], case["rank"]
    q1, s, q2 = known_matrix(case, rng, rows, cols, rank)
    M = ref._layout(q1 @ np.diag(s) @ q2.T, case["layout"])
    keep = np.array(M)
    pinv = q2 @ np.diag(1 / s) @ q1.T
    tol = 1e-11 * case["cond"] ** 2
    op = case["op"]
    labels = ["op=" + op, "full rank" if rank == min(rows, cols) else "rank-deficient"]
    if op in ("left", "right"):
        kwargs = {}
        if case["param"] is not None and case["cond"] <= 100:
            kwargs["cond"] = case["param"]
        if op == "left":
            X = rng.standard_normal((rows, case["other"]))
            expected = pinv @ X
            X = ref._layout(X, case["layout"])
            out = left_mul_pinv(M, X, **kwargs)
        else:
            X = rng.standard_normal((case["other"], cols))
            expected = X @ pinv
            X = ref._layout(X, case["layout"])
            out = right_mul_pinv(X, M, **kwargs)
        size = np.linalg.norm(X) / (s.min() if rank else 1.0)
        close(op, out, expected, tol * size + 1e-300)
        if rank:
            # Penrose: M M+ M = M with either product
            if op == "left":
                again = M @ left_mul_pinv(M, np.array(M), **kwargs)
            else:
                again = right_mul_pinv(np.array(M), M, **kwargs) @ M
            close("M M+ M", again, keep, tol * s.max())
    else:
        # Projectors: range of X, kernel orthogonal to the range of Y
        n, r = max(rows, cols), max(1, min(rows, cols, 6))
        qx, sx, _ = known_matrix(case, rng, n, r, r)
        mix = rng.standard_normal((r, r)) + 3 * np.eye(r)
        X = qx @ np.diag(sx) @ mix
        if op == "orth":
            P = projector(ref._layout(X, case["layout"]))
            Y, gram = X, np.eye(r)
            oblique = 1.0
        else:
            # A range that is not nearly orthogonal to that of X
            W = qx + 0.5 * rng.standard_normal((n, r)) / np.sqrt(n)
            Y = W @ (rng.standard_normal((r, r)) + 3 * np.eye(r))
            qy = np.linalg.qr(Y)[0]
            cosines = np.linalg.svd(qy.T @ qx, compute_uv=False)
            if cosines.min() < 1e-2:
                return False, labels + ["ranges nearly orthogonal"]
            oblique = 1 / cosines.min()
            P = projector(ref._layout(X, case["layout"]), ref._layout(Y, case["layout"]))
        qy = np.linalg.qr(Y)[0]
        cond = np.linalg.cond(X) * np.linalg.cond(Y) * oblique
        if cond > 1e10:
            return False, labels + ["ill-conditioned"]
        tol = 1e-13 * cond * oblique * n
        equal("shape", np.asarray(P).shape, (n, n))
        expected = qx @ np.linalg.solve(qy.T @ qx, qy.T)
        close("projector", P, expected, tol)
        close("idempotent", P @ P, P, tol * 10 * oblique)
        close("range", P @ X / np.linalg.norm(X), X / np.linalg.norm(X), tol)
        v = rng.standard_normal((n, 3))
        size = np.linalg.norm(v)
        v = v - qy @ (qy.T @ v)
        close("kernel", P @ v, np.zeros((n, 3)), tol * size)
        close("rank", np.trace(P), float(r), tol * n)
        if op == "orth":
            close("symmetric", P, P.T, tol)
        return n > 1, labels
    require(np.array_equal(M, keep), "the matrix was changed")
    return rows > 1 and cols > 1 and rank > 0, labels


@st.composite
def systems(draw):
    """Consistent systems of known solution, of full rank"""
    small = draw(st.one_of(st.integers(1, 12), st.integers(13, 70)))
    return {
        "small": small, "more": draw(st.one_of(st.just(0), st.integers(0, 40))),
        "other": draw(st.integers(1, 40)),
        "cond": draw(st.sampled_from([1.0, 1e2, 1e5, 1e7, 1e9, 1e10])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-9, 1e7])),
        "steep": draw(st.booleans()),  # one small singular value, or a decay
        "seed": draw(gen.data_seeds()),
        "layout": draw(gen.LAYOUTS),
        "left": draw(st.booleans()),
    }


def check_system(case):
    rng = np.random.default_rng([case["seed"], 29])
    r, n = case["small"], case["small"] + case["more"]
    q1, s, q2 = known_matrix(case, rng, n, r, r)
    if case["steep"] and r > 1:
        s = np.full(r, case["scale"])
        s[-1] /= case["cond"]
    A = q1 @ np.diag(s) @ q2.T  # n x r, of rank r
    x = rng.standard_normal((r, case["other"]))
    if case["left"]:
        out = left_mul_pinv(ref._layout(A, case["layout"]), A @ x)
    else:
        x = x.T
        out = right_mul_pinv(x @ A.T, ref._layout(A.T, case["layout"]))
    cond = s.max() / s.min()
    tol = 1e-13 * n * cond * np.linalg.norm(x)
    close("solution of a consistent system", out, x, tol)
    return r > 1 and cond <= 1e9, [f"cond=1e{round(np.log10(cond))}", "small" if r <= 12 else "large"]


# ------------------------------------------------------------------ test tensors


@st.composite
def tensors(draw):
    kind = draw(st.sampled_from(["hilbert", "sqrt", "sqrt", "decay", "decay"]))
    case = {"kind": kind}
    if kind == "hilbert":
        case["d"] = draw(st.integers(1, 6))
        case["n"] = draw(st.integers(1, {1: 40, 2: 12, 3: 7, 4: 5}.get(case["d"], 3)))
    elif kind == "sqrt":
        case["shape"] = draw(gen.shapes(dmin=1, dmax=5, size=400, mode=9))
        case["ab"] = draw(st.sampled_from(
            [None, [0.0, 1.0], [-1.0, 1.5], [1, 2], [-0.2, 2], [0.5, 0.25], [2.0, 2.0]]
        ))
    else:
        case["shape"] = draw(gen.shapes(dmin=1, dmax=5, size=300, mode=8))
        case["pow"] = draw(st.sampled_from([None, 2.0, 1.0, 3, 0.5, 4.0]))
        case["seed"] = draw(st.one_of(st.integers(0, 10**6), st.integers(0, 2**32 - 1)))
    return case


def check_tensor(case):
    kind = case["kind"]
    if kind == "hilbert":
        d, n = case["d"], case["n"]
        out = np.asarray(hilbert_tensor(d, n))
        total = sum(np.indices((n,) * d))
        close("Hilbert tensor", out, 1 / (total + 1.0), 1e-15)
        return n > 1, [f"hilbert d={d}"]
    if kind == "sqrt":
        shape, ab = tuple(case["shape"]), case["ab"]
        out = sqrt_tensor(shape) if ab is None else sqrt_tensor(shape, a=ab[0], b=ab[1])
        a, b = ab or (-0.2, 2)
        total = np.zeros(shape)
        for k, n in enumerate(shape):
            grid = np.array([a + (b - a) * i / max(1, n - 1) for i in range(n)])
            total += grid.reshape((1,) * k + (-1,) + (1,) * (len(shape) - k - 1))
        # Where the sum vanishes its root amplifies rounding errors
        expected = np.sqrt(np.abs(total))
        norm = np.linalg.norm(expected)
        if norm < 1e-6:
            return False, ["sqrt: zero"]
        close("square-root tensor", out, expected / norm, 2e-8 / norm)
        close(
            "squares", np.asarray(out) ** 2, np.abs(total) / norm**2,
            1e-14 * (1 + 10 / norm**2),
        )
        close("norm", np.linalg.norm(out), 1.0, 1e-13)
        return len(np.ravel(total)) > 1, [f"sqrt d={len(shape)}"]
    shape, seed = tuple(case["shape"]), case["seed"]
    kwargs = {} if case["pow"] is None else {"pow": case["pow"]}
    power = case["pow"] or 2.0
    out = np.asarray(power_decay_tensor(shape, seed=seed, **kwargs))
    equal("shape", out.shape, shape)
    require(np.all(np.isfinite(out)), "values are not finite")
    again = np.asarray(power_decay_tensor(shape, seed=seed, **kwargs))
    close("the same seed again", again, out, 0.0)
    other = np.asarray(power_decay_tensor(shape, seed=seed + 1, **kwargs))
    require(not np.allclose(other, out) or out.size < 3, "another seed gives the same tensor")
    d = len(shape)
    for k in range(d):
        mat = np.moveaxis(out, k, 0).reshape(shape[k], -1)
        s = np.linalg.svd(mat, compute_uv=False)
        ideal = 1 / np.arange(1, len(s) + 1) ** float(power)
        # Modes that are processed later change the values by limited factors
        factor = np.sqrt(np.prod(shape[k:], dtype=float)) if k < d - 1 else 1.0
        require(
            np.all(s <= factor * ideal * s[0] * (1 + 1e-9) + 1e-13),
            f"singular values of mode {k} do not decay like k^-{power}: {s / s[0]}",
        )
        if k == d - 1:
            close("largest singular value of the last mode", s[0], 1.0, 1e-12)
    return out.size > 1, [f"decay d={d}"]


SUBS = [
    Sub("unfolding", lambda tier: unfoldings(), check_unfolding, 2400),
    Sub("pinv", lambda tier: matrix_cases(), check_pinv, 4000),
    Sub("systems", lambda tier: systems(), check_system, 600),
    Sub("tensors", lambda tier: tensors(), check_tensor, 2400),
    Sub("large_unfolding", lambda tier: gen.large(unfoldings()), check_unfolding, 60),
    Sub("large_tensors", lambda tier: gen.large(tensors()), check_tensor, 60),
]
