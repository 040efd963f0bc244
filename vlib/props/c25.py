"""Sums of operators, mode preconditioners and the cookie-problem operators."""
import os
import shutil
import tempfile

import numpy as np
import scipy.io
import scipy.sparse
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import SCRATCH, Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props.c24 import as_matrix, make_mpo, mpo_dense, mpo_spec

from tt_sketch.tensor import TensorSum, TensorTrain
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond

RULE = (
    "Cases are: one to four maps (TT-matrices of one shape, mode "
    "preconditioners) applied to a TT or a sum of up to four TTs, and to the "
    "outcome again; shapes that do not match; invertible matrices of any kind on any "
    "mode applied back and forth; badly conditioned ones (sub-check solve); cookie problems with 4 or 9 generated sparse "
    "symmetric matrices written to a scratch folder. Non-trivial: non-zero TTs "
    "and at least two maps, or a matrix that is not the identity."
)
ASSUMPTIONS = [
    "Reference: dense arrays. Results agree up to 1e-12 times the norms of "
    "absolute values, times the condition number (at most 1e6) for inverses; in sub-check solve the "
    "equations hold up to 1e-14 n times the norms of matrix and solution.",
]


# ------------------------------------------------------------------ matrices


@st.composite
def matrices(draw):
    return {
        "kind": draw(gen.weighted(
            ("gauss", 4), ("spd", 2), ("diag", 1), ("perm", 1), ("triu", 1),
            ("skewed", 1), ("eye", 1), ("scaled", 1)
        )),
        "seed": draw(gen.data_seeds()),
        "layout": draw(st.sampled_from(["C", "F", "S", "R"])),
    }


def make_matrix(spec, n):
    rng = np.random.default_rng([spec["seed"], 11, n])
    q1 = np.linalg.qr(rng.standard_normal((n, n)))[0]
    q2 = np.linalg.qr(rng.standard_normal((n, n)))[0]
    s = 1 + 3 * rng.random(n)
    kind = spec["kind"]
    if kind == "gauss":
        a = q1 @ np.diag(s) @ q2
    elif kind == "spd":
        a = q1 @ np.diag(s) @ q1.T
    elif kind == "diag":
        a = np.diag(s * rng.choice([-1, 1], n))
    elif kind == "perm":
        a = np.eye(n)[rng.permutation(n)]
    elif kind == "triu":
        a = np.triu(rng.standard_normal((n, n)), 1) / n + np.diag(s)
    elif kind == "skewed":
        a = q1 @ np.diag(np.logspace(0, -4, n)) @ q2
    elif kind == "eye":
        a = np.eye(n)
    else:
        a = q1 @ np.diag(s) @ q2 * 1e-7
    return ref._layout(a, spec["layout"])


def on_mode(dense, matrix, mode):
    """Matrix times the vectors along a mode"""
    return np.moveaxis(np.tensordot(matrix, dense, axes=(1, mode)), 0, mode)


# ------------------------------------------------------------------ sums


@st.composite
def sums(draw):
    d = draw(st.integers(2, 4))
    first = draw(mpo_spec(d))
    square = draw(st.booleans())
    if square:
        first["out"] = list(first["in"])
    maps = [{"type": "mpo", "spec": first}]
    for _ in range(draw(st.integers(0, 3))):
        if square and draw(st.integers(0, 2)) == 0:
            maps.append({
                "type": "precond", "mode": draw(st.integers(0, d - 1)),
                "matrix": draw(matrices()),
            })
        else:
            maps.append({
                "type": "mpo",
                "spec": draw(mpo_spec(d, list(first["in"]), list(first["out"]))),
            })
    n = draw(st.integers(0, 4))
    tts = [
        draw(gen.tensor_of(first["in"], ("tt",), rmax=3, sums=False))
        for _ in range(max(1, n))
    ]
    return {
        "maps": maps, "tts": tts, "single": n == 0, "square": square,
        "wrong": draw(st.integers(0, 3)), "wrong_mode": draw(st.integers(0, d - 1)),
        "again": draw(st.booleans()),
        # the same objects once more
        "same_map": draw(gen.weighted((None, 2), (0, 1), (1, 1))),
        "same_tt": draw(gen.weighted((None, 2), (0, 1), (1, 1))),
    }


def build_map(m, shape):
    """Library map, dense matrix and a bound for the norm"""
    if m["type"] == "mpo":
        cores = make_mpo(m["spec"])
        bound = float(np.linalg.norm(mpo_dense([abs(c) for c in cores])))
        return MPO(cores), as_matrix(mpo_dense(cores)), bound
    n = shape[m["mode"]]
    a = make_matrix(m["matrix"], n)
    inv = np.linalg.inv(a)
    eye = np.eye(gen.size_of(shape)).reshape(tuple(shape) + (-1,))
    matrix = on_mode(eye, inv, m["mode"]).reshape(gen.size_of(shape), -1)
    return (
        TTPrecond(a, tuple(shape), mode=m["mode"]), matrix,
        float(np.linalg.norm(inv)) * np.linalg.cond(a),
    )


def refused(what, action):
    try:
        out = action()
    except (ValueError, TypeError):
        return
    except Exception as e:  # noqa: BLE001
        require(False, f"{what}: not refused but {type(e).__name__}: {e}")
    require(False, f"{what}: not refused, gave {type(out).__name__}")


def check_sum(case):
    first = case["maps"][0]["spec"]
    shape, out_shape = tuple(first["in"]), tuple(first["out"])
    maps = [build_map(m, shape) for m in case["maps"]]
    if case.get("same_map") is not None:
        maps.append(maps[case["same_map"] % len(maps)])
    libs = [m[0] for m in maps]
    matrix = sum(m[1] for m in maps)
    bound = sum(m[2] for m in maps)
    total = TTLinearMapSum(list(libs))
    equal("in_shape", tuple(total.in_shape), shape)
    equal("out_shape", tuple(total.out_shape), out_shape)
    tts = [ref.make_tensor(s) for s in case["tts"]]
    if case.get("same_tt") is not None and not case["single"]:
        tts.append(tts[case["same_tt"] % len(tts)])
    x = tts[0].lib if case["single"] else TensorSum([t.lib for t in tts])
    dense = sum(t.dense for t in tts)
    xbound = sum(t.bound for t in tts)
    snap = Snapshot(argument=x, **{f"map{k}": m for k, m in enumerate(libs)})
    count = len(tts)
    for step in range(2):
        out = total(x)
        snap.check("application")
        require(isinstance(out, TensorSum), f"result is a {type(out).__name__}")
        for t in out.tensors:
            require(isinstance(t, TensorTrain), f"summand is a {type(t).__name__}")
        equal("shape", tuple(out.shape), out_shape)
        expected = (matrix @ dense.reshape(-1)).reshape(out_shape)
        value = sum(ref.tt_dense(t.cores) for t in out.tensors)
        tol = 1e-12 * bound * xbound + 1e-300
        close(f"application {step}", value, expected, tol)
        close(f"to_numpy {step}", out.to_numpy(), expected, tol)
        # Linear: the same for every summand on its own
        parts = np.zeros(out_shape)
        for t in (x.tensors if isinstance(x, TensorSum) else [x]):
            parts = parts + sum(ref.tt_dense(y.cores) for y in total(t).tensors)
        close(f"summands one by one {step}", parts, expected, tol)
        if not (case["again"] and case["square"]) or len(out.tensors) > 16:
            break
        x, dense, xbound = out, expected, bound * xbound
        count = len(out.tensors)
        snap = Snapshot(argument=x, **{f"map{k}": m for k, m in enumerate(libs)})
    # Maps that do not fit
    wrong = case["wrong"]
    if wrong == 0:
        refused("no maps", lambda: TTLinearMapSum([]))
    else:
        ins, outs = list(shape), list(out_shape)
        k = case["wrong_mode"]
        if wrong in (1, 3):
            ins[k] += 1
        if wrong in (2, 3):
            outs[k] += 1
        other = MPO([np.ones((1, n, m, 1)) for n, m in zip(ins, outs)])
        refused("maps of different shapes", lambda: TTLinearMapSum(libs + [other]))
        refused("maps of different shapes", lambda: TTLinearMapSum([other] + libs))
    labels = [f"maps={len(libs)}", f"tts={count}", f"wrong={wrong}"]
    labels += sorted({"type=" + m["type"] for m in case["maps"]})
    return len(libs) > 1 and bool(np.any(dense)), labels


# ------------------------------------------------------------------ preconditioner


@st.composite
def preconds(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=200, mode=9))
    return {
        "tt": draw(gen.tensor_of(shape, ("tt",), rmax=4, sums=False)),
        "mode": draw(st.integers(0, len(shape) - 1)),
        "matrix": draw(matrices()),
        "default": draw(st.booleans()),
    }


def check_precond(case):
    t = ref.make_tensor(case["tt"])
    shape, mode = t.dense.shape, case["mode"]
    if case["default"]:
        mode = 0
    a = make_matrix(case["matrix"], shape[mode])
    keep = np.array(a)
    inv, cond = np.linalg.inv(keep), float(np.linalg.cond(keep))
    if case["default"]:
        pre = TTPrecond(a, shape)
    else:
        pre = TTPrecond(a, shape, mode=mode)
    equal("in_shape", tuple(pre.in_shape), shape)
    equal("out_shape", tuple(pre.out_shape), shape)
    snap = Snapshot(tensor=t.lib, matrix=a)
    ninv, na = np.linalg.norm(inv), np.linalg.norm(keep)
    rank = tuple(c.shape[2] for c in t.lib.cores[:-1])

    def verify(what, out, expected, tol):
        snap.check(what)
        require(isinstance(out, TensorTrain), f"{what}: not a TT")
        equal(f"{what}: shape", tuple(out.shape), shape)
        equal(f"{what}: rank", tuple(out.rank), rank)
        close(what, ref.tt_dense(out.cores), expected, tol + 1e-300)

    back = pre(t.lib)
    verify("inverse", back, on_mode(t.dense, inv, mode), 1e-12 * cond * ninv * t.bound)
    verify(
        "backward_call", pre.backward_call(t.lib),
        on_mode(t.dense, inv, mode), 1e-12 * cond * ninv * t.bound,
    )
    forth = pre.forward_call(t.lib)
    verify("forward_call", forth, on_mode(t.dense, keep, mode), 1e-12 * na * t.bound)
    both = 1e-12 * cond * na * ninv * t.bound
    snap2 = Snapshot(back=back, forth=forth)
    verify("forward after inverse", pre.forward_call(back), t.dense, both)
    verify("inverse after forward", pre(forth), t.dense, both)
    snap2.check("composition")
    labels = ["matrix=" + case["matrix"]["kind"], f"mode={mode}", f"modes={len(shape)}"]
    return case["matrix"]["kind"] != "eye" and bool(np.any(t.dense)), labels


@st.composite
def solves(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(13, 80)))
    d = draw(st.integers(2, 3))
    mode = draw(st.integers(0, d - 1))
    shape = [draw(st.integers(1, 3)) for _ in range(d)]
    shape[mode] = n
    return {
        "shape": shape, "mode": mode, "seed": draw(gen.data_seeds()),
        "kind": draw(st.sampled_from(["diag", "rows", "columns", "svd", "one", "gauss"])),
        "cond": draw(st.sampled_from([1e2, 1e5, 1e8, 1e11, 1e13])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-9, 1e7])),
        "rank": draw(st.integers(1, 3)),
    }


def check_solve(case):
    """Badly conditioned matrices: the equations hold up to rounding errors"""
    rng = np.random.default_rng([case["seed"], 61])
    shape, mode = tuple(case["shape"]), case["mode"]
    n, d = shape[mode], len(shape)
    s = np.logspace(0, -np.log10(case["cond"]), n)[rng.permutation(n)]
    kind = case["kind"]
    q1, q2 = (np.linalg.qr(rng.standard_normal((n, n)))[0] for _ in range(2))
    if kind == "diag":
        a = np.diag(s)
    elif kind == "rows":
        a = np.diag(s) @ q1
    elif kind == "columns":
        a = q1 @ np.diag(s)
    elif kind == "svd":
        a = q1 @ np.diag(s) @ q2
    elif kind == "one":
        s = np.ones(n)
        s[rng.integers(n)] = 1 / case["cond"]
        a = q1 @ np.diag(s) @ q2
    else:
        a = rng.standard_normal((n, n))
    a = a * case["scale"]
    r = (1,) + (case["rank"],) * (d - 1) + (1,)
    cores = [rng.standard_normal((r[k], m, r[k + 1])) for k, m in enumerate(shape)]
    t = TensorTrain([c.copy() for c in cores])
    pre = TTPrecond(a.copy(), shape, mode=mode)
    out = pre(t)
    equal("shape", tuple(out.shape), shape)
    x = out.cores[mode]
    y = np.einsum("ij,ajb->aib", a, x)
    tol = 1e-14 * n * np.linalg.norm(a, 2) * np.linalg.norm(x, axis=1, keepdims=True)
    bad = np.abs(y - cores[mode]) - tol - 1e-13 * np.linalg.norm(cores[mode], axis=1, keepdims=True)
    require(
        bool(np.all(bad <= 0)),
        f"equations are not solved: off by up to {np.max(np.abs(y - cores[mode])):.2e}",
    )
    for k in range(d):
        if k != mode:
            close(f"core {k}", out.cores[k], cores[k], 0.0)
    return n > 1, [f"kind={kind}", f"cond={case['cond']:.0e}", "large" if n > 12 else "small"]


# ------------------------------------------------------------------ cookies


class Folder:
    """Scratch folder as the working directory, where the problem's files are"""

    def __enter__(self):
        self.start = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="cookie-", dir=SCRATCH)
        os.mkdir(os.path.join(self.path, "data"))
        os.chdir(self.path)
        return self.path

    def __exit__(self, *args):
        os.chdir(self.start)
        shutil.rmtree(self.path, ignore_errors=True)


@st.composite
def cookies(draw):
    cookies = draw(st.sampled_from([4, 4, 4, 9]))
    n = draw(st.integers(1, 9 if cookies == 4 else 4))
    return {
        "cookies": cookies,
        "n": n,
        "coeffs": draw(st.integers(1, 4 if cookies == 4 else 2)),
        "seed": draw(gen.data_seeds()),
        "b": draw(st.sampled_from(["row", "column"])),
        "density": draw(st.sampled_from([0.3, 0.7, 1.0])),
        "rank": draw(st.integers(1, 3)),
        "sum": draw(st.booleans()),
    }


def cookie_matrices(case):
    rng = np.random.default_rng([case["seed"], 5])
    n, out = case["n"], []
    for k in range(case["cookies"] + 1):
        a = rng.standard_normal((n, n)) * (rng.random((n, n)) < case["density"])
        a = a @ a.T + (np.eye(n) if k == 0 else 0)
        out.append(a)
    return out, rng.standard_normal(n)


def check_cookie(case):
    with Folder() as folder:
        return check_cookie_in(case, folder)


def check_cookie_in(case, folder):
    from scripts import cookie_problem

    mats, b = cookie_matrices(case)
    n, m, d = case["n"], case["coeffs"], len(mats)
    cell = np.empty((1, d), dtype=object)
    for k, a in enumerate(mats):
        cell[0, k] = scipy.sparse.csc_matrix(a)
    name = "cookies_matrices_%s.mat" % ("2x2" if case["cookies"] == 4 else "3x3")
    path = os.path.join(folder, "data", name)
    scipy.io.savemat(
        path, {"A": cell, "b": b.reshape((1, -1) if case["b"] == "row" else (-1, 1))}
    )
    total, rhs, pre = cookie_problem.prepare_cookie_problem(m, case["cookies"])
    shape = (n,) + (m,) * (d - 1)
    equal("in_shape", tuple(total.in_shape), shape)
    equal("out_shape", tuple(total.out_shape), shape)
    equal("number of maps", len(total.linear_maps), d)
    # Right-hand side: b for all parameters
    expected = np.multiply.outer(b, np.ones(shape[1:]))
    close("right-hand side", ref.tt_dense(rhs.cores), expected, 1e-13)
    coeffs = np.linspace(0, 10, m)
    scale = sum(np.linalg.norm(a) for a in mats) * 10
    x = ref.make_tensor({
        "fmt": "tt", "shape": shape, "rank": [case["rank"]] * (d - 1),
        "seed": case["seed"] + 1,
    })
    y = ref.make_tensor({
        "fmt": "tt", "shape": shape, "rank": [1] * (d - 1), "seed": case["seed"] + 2,
    })
    arg = TensorSum([x.lib, y.lib]) if case["sum"] else x.lib
    dense = x.dense + y.dense if case["sum"] else x.dense
    bound = x.bound + y.bound
    snap = Snapshot(x=x.lib, y=y.lib, rhs=rhs)
    parts = []
    for k, a in enumerate(mats):
        part = on_mode(dense, a, 0)
        if k > 0:
            part = part * coeffs.reshape((1,) * k + (-1,) + (1,) * (d - 1 - k))
        parts.append(part)
        if not case["sum"]:
            out = total.linear_maps[k](x.lib)
            require(isinstance(out, TensorTrain), f"map {k}: not a TT")
            equal(f"map {k}: shape", tuple(out.shape), shape)
            close(f"map {k}", ref.tt_dense(out.cores), part, 1e-12 * scale * bound)
    out = total(arg)
    close(
        "operator", sum(ref.tt_dense(t.cores) for t in out.tensors), sum(parts),
        1e-12 * scale * bound,
    )
    # Preconditioner: inverse of the operator for mean coefficients
    mean = mats[0] + sum(mats[1:]) * float(np.mean(coeffs))
    equal("mode of the preconditioner", tuple(pre.in_shape), shape)
    cond = float(np.linalg.cond(mean))
    close(
        "forward preconditioner", ref.tt_dense(pre.forward_call(x.lib).cores),
        on_mode(x.dense, mean, 0), 1e-12 * scale * bound,
    )
    if cond < 1e8:
        inv = np.linalg.inv(mean)
        close(
            "preconditioner", ref.tt_dense(pre(x.lib).cores), on_mode(x.dense, inv, 0),
            1e-12 * cond * np.linalg.norm(inv) * bound,
        )
    snap.check("the operators")
    for wrong in (0, 1, 2, 3, 5, 16):
        try:
            cookie_problem.prepare_cookie_problem(m, wrong)
        except ValueError:
            continue
        require(False, f"{wrong} cookies were not refused")
    return n > 1 and m > 1, [f"cookies={case['cookies']}", f"coeffs={m}"]


SUBS = [
    Sub("sums", lambda tier: sums(), check_sum, 1600),
    Sub("precond", lambda tier: preconds(), check_precond, 1600),
    Sub("solve", lambda tier: solves(), check_solve, 400),
    Sub("cookies", lambda tier: cookies(), check_cookie, 640),
    Sub("large_sums", lambda tier: gen.large(sums()), check_sum, 40),
    Sub("large_precond", lambda tier: gen.large(preconds()), check_precond, 40),
]
