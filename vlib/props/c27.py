"""The TT-GMRES solver."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props.c04 import trimmed
from vlib.props.c18 import capacity
from vlib.props.c24 import as_matrix, make_mpo, mpo_dense
from vlib.props.c25 import make_matrix, on_mode, refused

from tt_sketch.tensor import TensorTrain
from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, tt_sum_gmres

RULE = (
    "Cases are linear systems c (I + E1 + ... + Ek) x = b with TT-matrices of "
    "||E|| <= 0.35 in total, right-hand sides and guesses of any scale (zero and exact "
    "ones included), a mode preconditioner or none, rounding methods, "
    "tolerances, iteration limits and ranks that are large enough (sub-check "
    "solve) or restricted (sub-check restricted), and systems on one mode "
    "that need up to a hundred iterations (sub-check slow). Non-trivial: at least two "
    "iterations on an operator that is not the identity."
)
ASSUMPTIONS = [
    "Reference: the dense matrix. True and reported residual may differ by the "
    "error that the inexact roundings can add up to: twice the tolerance for every "
    "rounding of a sum, times the root of the number of singular values each can "
    "drop (5 to 10 times what was observed), or by 1e-9 relative. "
    "The reported ones may increase by 1e-10 of the first. In sub-check slow there is "
    "nothing to round: they agree with the smallest ones over the Krylov spaces up to 1e-5.",
    "For the sketching methods, tolerances are at least 1e-6 and the best of "
    "three runs is judged.",
    "rounding_method=None (debugging) is not covered: a sum has no TT-rank.",
]


@st.composite
def systems(draw):
    d = draw(gen.weighted((2, 2), (3, 3), (4, 1)))
    shape, left = [], 48
    for k in range(d):
        n = draw(st.integers(1 if draw(st.integers(0, 5)) == 0 else 2, max(2, min(6, left))))
        shape.append(n)
        left //= n
    symmetric = draw(gen.weighted((False, 2), (True, 1)))
    parts = []
    for _ in range(draw(gen.weighted((0, 1), (1, 3), (2, 3), (3, 1)))):
        parts.append({
            "in": shape, "out": shape, "rank": draw(gen.ranks(d - 1, 2)),
            "fill": draw(gen.weighted(("gauss", 4), ("int", 1), ("holes", 1))),
            "seed": draw(gen.data_seeds()), "layout": draw(gen.LAYOUTS),
        })
    case = {
        "shape": shape,
        "parts": parts,
        "size": draw(st.sampled_from([0.35, 0.2, 0.05, 1e-3])),
        "c": draw(gen.weighted((1.0, 3), (-2.0, 1), (1e-4, 1), (1e5, 1), (1e-13, 1), (1e10, 1))),
        "symmetric": symmetric,
        "flag": symmetric and draw(gen.weighted((True, 3), (False, 1))),
        "b": {
            "rank": draw(gen.ranks(d - 1, 3)), "seed": draw(gen.data_seeds()),
            "scale": draw(gen.weighted((1.0, 4), (1e-7, 2), (1e6, 2), (0.0, 1))),
        },
        "x0": draw(gen.weighted(
            ("none", 4), ("random", 2), ("exact", 1), ("close", 1), ("zero", 1), ("large", 1)
        )),
        "x0_rank": draw(gen.ranks(d - 1, 3)),
        "method": draw(gen.weighted(
            ("pairwise", 3), ("exact", 3), ("default", 1), ("sketch", 1), ("orth_sketch", 1)
        )),
        "final": draw(gen.weighted((None, 2), ("exact", 1), ("pairwise", 1))),
        "tol": draw(st.sampled_from([1e-6, 1e-3, 1e-8, 1e-10, 0.1, 1e-12, "default"])),
        "maxiter": draw(gen.weighted((100, 5), (1, 1), (2, 1), (3, 1), (5, 1), ("default", 1), (0, 1))),
        "rank_as": draw(st.sampled_from(["int", "tuple", "list"])),
        "final_rank": draw(st.sampled_from(["none", "int", "tuple"])),
        "save_basis": draw(st.booleans()),
    }
    if not case["flag"] and draw(st.integers(0, 2)) == 0:
        case["precond"] = {
            "mode": draw(st.integers(0, d - 1)),
            "matrix": {
                "kind": draw(st.sampled_from(["gauss", "spd", "diag", "perm", "triu"])),
                "seed": draw(gen.data_seeds()), "layout": "C",
            },
        }
    return case


def build(case):
    """Maps, dense matrix, right-hand side, guess and preconditioner"""
    shape = tuple(case["shape"])
    n = gen.size_of(shape)
    cores = [make_mpo(p) for p in case["parts"]]
    mats = [as_matrix(mpo_dense(c)) for c in cores]
    if case["symmetric"]:
        cores += [[x.transpose(0, 2, 1, 3) for x in c] for c in cores]
        mats += [m.T for m in mats]
    norm = sum(np.linalg.norm(m, 2) for m in mats) or 1.0
    f = case["c"] * case["size"] / norm
    lib = [MPO.eye(shape) * case["c"]]
    A = case["c"] * np.eye(n)
    for c, m in zip(cores, mats):
        c = [x.copy() for x in c]
        c[-1] = c[-1] * f
        lib.append(MPO(c))
        A = A + f * m
    if case["b"]["seed"] % 2:
        lib.reverse()
    precond, P = None, np.eye(n)
    if case.get("precond"):
        mode = case["precond"]["mode"]
        a = make_matrix(case["precond"]["matrix"], shape[mode])
        precond = TTPrecond(a, shape, mode=mode)
        P = on_mode(
            np.eye(n).reshape(shape + (n,)), np.linalg.inv(a), mode
        ).reshape(n, n)
        # The preconditioned operator has to be close to the identity, too
        forth = on_mode(np.eye(n).reshape(shape + (n,)), a, mode).reshape(n, n)
        lib = [Then(m, precond) for m in lib]
        A = forth @ A
    scale = case["b"]["scale"]
    b = ref.make_tensor({
        "fmt": "tt", "shape": shape, "rank": case["b"]["rank"],
        "seed": case["b"]["seed"], "scale": scale, "scale_at": 1,
    }).lib
    kind = case["x0"]
    x0 = None
    if kind in ("exact", "close"):
        # The right-hand side is made from the guess
        x0 = TensorTrain([c.copy() for c in b.cores])
        total = TTLinearMapSum(lib)(x0)
        b = total.tensors[0]
        for t in total.tensors[1:]:
            b = b.add(t)
        b = b.round(eps=1e-15)
        if kind == "close":
            x0 = x0 * (1 + 1e-4)
    elif kind in ("random", "large"):
        size = (scale or 1.0) / abs(case["c"]) * (1e3 if kind == "large" else 1)
        x0 = ref.make_tensor({
            "fmt": "tt", "shape": shape, "rank": case["x0_rank"],
            "seed": case["b"]["seed"] + 1, "scale": size,
        }).lib
    elif kind == "zero":
        x0 = TensorTrain([np.zeros(c.shape) for c in b.cores])
    return lib, A, b, x0, precond, P


class Then(MPO):
    """TT-matrix followed by the forward application of a mode matrix"""

    def __init__(self, mpo, precond):
        cores = list(mpo.cores)
        k = precond.mode
        cores[k] = np.einsum("aijb,kj->aikb", cores[k], precond.A)
        super().__init__(cores)


def args_of(case, shape):
    d = len(shape)
    cap = capacity(shape)
    if "max_rank" in case:
        rank = list(case["max_rank"])
    else:
        rank = list(cap)
    if case["rank_as"] == "int":
        rank = max(rank)
    elif case["rank_as"] == "tuple":
        rank = tuple(rank)
    kwargs = {"max_rank": rank}
    if "max_rank" in case:
        if case["final_rank"] != "none":
            kwargs["final_round_rank"] = tuple(case["final"])
    elif case["final_rank"] == "int":
        kwargs["final_round_rank"] = max(cap) + 3
    elif case["final_rank"] == "tuple":
        kwargs["final_round_rank"] = tuple(cap)
    if case["tol"] != "default":
        kwargs["tolerance"] = case["tol"]
    if case["maxiter"] != "default":
        kwargs["maxiter"] = case["maxiter"]
    if case["method"] != "default":
        kwargs["rounding_method"] = case["method"]
    if "max_rank" not in case and case["final"] is not None:
        kwargs["rounding_method_final"] = case["final"]
    if case["flag"]:
        kwargs["symmetric"] = True
    if case["save_basis"]:
        kwargs["save_basis"] = True
    return kwargs


def run(case, system):
    lib, A, b, x0, precond, P = system
    shape = tuple(case["shape"])
    total = TTLinearMapSum(list(lib))
    kwargs = args_of(case, shape)
    if x0 is not None:
        kwargs["x0"] = x0
    if precond is not None:
        kwargs["precond"] = precond
    watched = {f"map{k}": m for k, m in enumerate(lib)}
    snap = Snapshot(b=b, x0=x0, precond=precond, **watched)
    x, history = tt_sum_gmres(total, b, **kwargs)
    snap.check("solving")
    require(isinstance(x, TensorTrain), f"solution is a {type(x).__name__}")
    equal("shape of the solution", tuple(x.shape), shape)
    equal("rank of the solution", tuple(x.rank), tuple(c.shape[2] for c in x.cores[:-1]))
    return x, history


def check_history(case, system, history):
    """Stopping rule and reported residuals; gives the number of iterations"""
    lib, A, b, x0, precond, P = system
    tol = 1e-6 if case["tol"] == "default" else case["tol"]
    maxiter = 100 if case["maxiter"] == "default" else case["maxiter"]
    res = [float(r) for r in history["residual_norm"]]
    steps = len(res) - 1
    require(all(np.isfinite(res)), f"reported residuals {res}")
    require(steps <= maxiter, f"{steps} iterations instead of at most {maxiter}")
    for k, r in enumerate(res[:-1]):
        require(r > tol, f"went on after iteration {k} had residual {r:.3e} <= {tol}")
    for k in range(steps):
        require(
            res[k + 1] <= res[k] + 1e-10 * res[0],
            f"reported residual increased: {res[k]:.6e} to {res[k + 1]:.6e}",
        )
    return res, steps, tol, maxiter


def rounding_factor(case, maps, steps):
    """Sum of all errors that rounding relative to the tolerance may cause"""
    total = 1.0
    for j in range(steps):
        if case["method"] == "exact":
            total += 2
        else:
            total += max(1, maps - 1) + min(j + 1, 3 if case["flag"] else j + 1)
    return 2 * total * np.sqrt(sum(capacity(case["shape"])))


def check(case):
    system = build(case)
    lib, A, b, x0, precond, P = system
    bd = ref.tt_dense(b.cores).reshape(-1)
    x0d = 0 * bd if x0 is None else ref.tt_dense(x0.cores).reshape(-1)
    bnorm = np.linalg.norm(P @ bd)
    unit = bnorm if bnorm > 0 else 1.0
    sketching = case["method"] in ("sketch", "orth_sketch")
    case = dict(case)
    if sketching and case["tol"] != "default":
        case["tol"] = max(case["tol"], 1e-6)
    first_true = np.linalg.norm(P @ (bd - A @ x0d)) / unit
    opnorm = np.linalg.norm(P @ A, 2)
    noise = 1e-13 * (bnorm + opnorm * np.linalg.norm(x0d)) / unit
    worst = []
    for attempt in range(3 if sketching else 1):
        np.random.seed(attempt)
        x, history = run(case, system)
        problem = None
        res, steps, tol, maxiter = check_history(case, system, history)
        xd = ref.tt_dense(x.cores).reshape(-1)
        require(np.all(np.isfinite(xd)), "solution is not finite")
        true = np.linalg.norm(P @ (bd - A @ xd)) / unit
        factor = rounding_factor(case, len(lib), steps)
        slack = 1e-9 * res[0] + 100 * noise
        if sketching:
            slack = 1e-6 * res[0] + 1e-6 * noise / 1e-13
        first = abs(res[0] - first_true) - slack
        if first > 1e-9 * first_true:
            problem = f"first residual reported as {res[0]:.6e} but is {first_true:.6e}"
        elif true > res[-1] * (1 + 1e-6) + factor * tol + slack:
            problem = (
                f"residual is {true:.3e}, but {res[-1]:.3e} was reported (tolerance "
                f"{tol}, {steps} iterations)"
            )
        elif true < res[-1] - factor * tol - slack:
            problem = f"residual is {true:.3e}, but {res[-1]:.3e} was reported"
        elif res[-1] > tol and steps < maxiter and not (
            res[-1] <= slack
        ):
            problem = f"stopped after {steps} iterations at {res[-1]:.3e} > {tol}"
        elif maxiter >= 100 and res[-1] > tol + slack:
            problem = f"did not converge: {res[-1]:.3e}"
        if os.environ.get("CALIBRATE"):
            with open("/tmp/c27.cal", "a") as f:
                f.write(
                    f"{(true-res[-1])/tol/factor:.3e} {factor:.0f} {(true-res[-1])/slack:.3e} {abs(res[0]-first_true)/slack:.3e} steps={steps} max={maxiter} "
                    f"tol={tol} {case['method']} sym={case['flag']} pre={'precond' in case} x0={case['x0']} {problem}\n"
                )
        worst.append(problem)
        if problem is None:
            break
    require(worst[-1] is None, worst[-1])
    if case["save_basis"]:
        nus, y = history["nu_list"], np.asarray(history["y"])
        equal("basis and coefficients", len(nus), len(y))
        rebuilt = x0d + sum(
            (c * ref.tt_dense(t.cores).reshape(-1) for c, t in zip(y, nus)), 0 * bd
        )
        size = np.linalg.norm(x0d) + np.abs(y).sum()
        close("solution from the basis", xd, rebuilt, 1e-10 * size + (
            1e-5 * size if sketching and case["final"] is None else 0) + 1e-300)
        for t in nus:
            close("norm of a basis element", t.norm(), 1.0, 1e-8)
    labels = [
        f"method={case['method']}", f"x0={case['x0']}", f"steps={min(steps, 30) // 5 * 5}+",
        f"symmetric={case['flag']}", f"precond={precond is not None}",
        f"stopped={'tolerance' if res[-1] <= tol else 'limit'}",
        f"b={case['b']['scale']}",
    ]
    return steps >= 2 and len(lib) > 1, labels


@st.composite
def restricted(draw):
    case = draw(systems())
    d = len(case["shape"])
    case["max_rank"] = draw(gen.ranks(d - 1, 4))
    case["final"] = draw(gen.ranks(d - 1, 3))
    case["rank_as"] = draw(st.sampled_from(["tuple", "list"]))
    case["maxiter"] = draw(st.sampled_from([1, 2, 3, 5, 12]))
    case["save_basis"] = False
    case["method"] = draw(st.sampled_from(["pairwise", "exact", "sketch", "orth_sketch"]))
    case["wrong"] = draw(st.integers(0, 3))
    return case


def check_restricted(case):
    system = build(case)
    lib, A, b, x0, precond, P = system
    shape = tuple(case["shape"])
    x, history = run(case, system)
    limit = case["final"] if case["final_rank"] != "none" else case["max_rank"]
    limit = trimmed(shape, limit)
    require(
        all(r <= m for r, m in zip(x.rank, limit)),
        f"rank {x.rank} of the solution exceeds {limit}",
    )
    require(np.all(np.isfinite(ref.tt_dense(x.cores))), "solution is not finite")
    res, steps, tol, maxiter = check_history(case, system, history)
    # Requests that make no sense
    total = TTLinearMapSum(list(lib))
    longer = ref.make_tensor({
        "fmt": "tt", "shape": [n + (k == case["wrong"] % len(shape)) for k, n in enumerate(shape)],
        "rank": [1] * (len(shape) - 1),
    }).lib
    if case["wrong"] == 0:
        refused("right-hand side of another shape", lambda: tt_sum_gmres(total, longer, 2))
    elif case["wrong"] == 1:
        refused("guess of another shape", lambda: tt_sum_gmres(total, b, 2, x0=longer))
    elif case["wrong"] == 2:
        wide = TTLinearMapSum([MPO([np.ones((1, n + 1, n, 1)) for n in shape])])
        refused("operator that is not square", lambda: tt_sum_gmres(wide, b, 2))
    else:
        refused(
            "unknown rounding method",
            lambda: tt_sum_gmres(total, b, 2, rounding_method="other"),
        )
    return steps >= 2, [f"method={case['method']}", f"steps={steps}"]


# ------------------------------------------------------------------ many iterations


@st.composite
def slow(draw):
    return {
        "n": draw(st.integers(20, 90)),
        "other": draw(gen.weighted((1, 2), (2, 2), (3, 1))),
        "first": draw(st.booleans()),
        "kind": draw(st.sampled_from(["circle", "symmetric", "shift", "disk"])),
        "flag": draw(st.booleans()),
        "radius": draw(st.sampled_from([0.9, 0.97, 0.8, 0.94])),
        "seed": draw(gen.data_seeds()),
        "method": draw(st.sampled_from(["exact", "pairwise"])),
        "maxiter": draw(st.sampled_from([100, 100, 20, 45])),
        "tol": draw(st.sampled_from([1e-4, 1e-3, 1e-5])),
        "guess": draw(gen.weighted((False, 3), (True, 1))),
        "terms": draw(st.sampled_from([1, 2])),
        "scale": draw(st.sampled_from([1.0, 1e-6, 1e5])),
    }


def slow_matrix(case):
    rng = np.random.default_rng([case["seed"], 3])
    n, r, kind = case["n"], case["radius"], case["kind"]
    q = np.linalg.qr(rng.standard_normal((n, n)))[0]
    if kind == "circle":
        return np.eye(n) + r * q, rng
    if kind == "symmetric":
        return q @ np.diag(np.linspace(1 - r, 1 + r, n)) @ q.T, rng
    if kind == "shift":
        return np.eye(n) + r * np.roll(np.eye(n), 1, 0), rng
    a = rng.standard_normal((n, n))
    return np.eye(n) + r / 2 * a / np.linalg.norm(a, 2), rng


def best_residuals(A, r0, steps):
    """Smallest residuals over Krylov spaces, with repeated orthogonalization"""
    beta = np.linalg.norm(r0)
    V, H, out = [r0 / beta], np.zeros((steps + 1, steps)), [beta]
    for j in range(steps):
        w = A @ V[-1]
        for _ in range(3):
            for i, v in enumerate(V):
                c = v @ w
                H[i, j] += c
                w = w - c * v
        H[j + 1, j] = np.linalg.norm(w)
        e = np.zeros(j + 2)
        e[0] = beta
        h = H[: j + 2, : j + 1]
        y = np.linalg.lstsq(h, e, rcond=None)[0]
        out.append(float(np.linalg.norm(h @ y - e)))
        if H[j + 1, j] < 1e-12 * np.linalg.norm(A, 2):
            break
        V.append(w / H[j + 1, j])
    return np.array(out)


def check_slow(case):
    """Operators on one mode, which ranks of one are enough for"""
    A, rng = slow_matrix(case)
    n, m = case["n"], case["other"]
    b, x0 = rng.standard_normal(n) * case["scale"], rng.standard_normal(n) * case["scale"]
    if not case["guess"]:
        x0 = np.zeros(n)
    flag = case["flag"] and case["kind"] == "symmetric"
    parts = [A] if case["terms"] == 1 else [np.eye(n), A - np.eye(n)]
    side = np.ones(m) / np.sqrt(m)

    def tt(v):
        cores = [v.reshape(1, n, 1), side.reshape(1, m, 1)]
        return TensorTrain([c.copy() for c in (cores if case["first"] else cores[::-1])])

    maps = []
    for a in parts:
        cores = [a.T.reshape(1, n, n, 1), np.eye(m).reshape(1, m, m, 1)]
        maps.append(MPO([c.copy() for c in (cores if case["first"] else cores[::-1])]))
    kwargs = {"x0": tt(x0)} if case["guess"] else {}
    x, history = tt_sum_gmres(
        TTLinearMapSum(maps), tt(b), 1, tolerance=case["tol"], maxiter=case["maxiter"],
        symmetric=flag, rounding_method=case["method"], save_basis=True, **kwargs,
    )
    res = np.array([float(r) for r in history["residual_norm"]])
    steps = len(res) - 1
    require(np.all(np.isfinite(res)), f"reported residuals {res}")
    best = best_residuals(A, b - A @ x0, steps) / np.linalg.norm(b)
    count = min(len(best), len(res))
    accuracy = 1e-6 if not flag else 1e-5
    off = np.abs(res[:count] - best[:count]) - accuracy * np.sqrt(count) * best[:count]
    require(
        bool(np.all(off <= 1e-8 * res[0])),
        f"reported residuals are not the smallest ones over the Krylov spaces: after "
        f"{int(np.argmax(off))} iterations {res[np.argmax(off)]:.6e} instead of "
        f"{best[np.argmax(off)]:.6e}",
    )
    require(
        res[-1] <= case["tol"] or steps == case["maxiter"] or steps >= n - 1,
        f"stopped after {steps} iterations at {res[-1]:.3e}",
    )
    require(
        all(r > case["tol"] for r in res[:-1]),
        f"went on although the residual was {min(res[:-1], default=1):.3e}",
    )
    dense = ref.tt_dense(x.cores)
    dense = (dense if case["first"] else dense.T) @ side
    true = np.linalg.norm(b - A @ dense) / np.linalg.norm(b)
    require(
        abs(true - res[-1]) <= 1e-5 * res[-1] + 1e-8 * res[0],
        f"residual is {true:.6e}, but {res[-1]:.6e} was reported after {steps} iterations",
    )
    basis = np.array([ref.tt_dense(t.cores).reshape(-1) for t in history["nu_list"]])
    if len(basis) and not flag:
        close("orthogonality of the basis", basis @ basis.T, np.eye(len(basis)), 1e-4)
    return steps > 5, [
        f"kind={case['kind']}", f"steps={steps // 15 * 15}+", f"symmetric={flag}",
    ]


SUBS = [
    Sub("slow", lambda tier: slow(), check_slow, 200),
    Sub("solve", lambda tier: systems(), check, 2400),
    Sub("restricted", lambda tier: restricted(), check_restricted, 800),
]
