"""Results scale with the data: multiplying by a power of two changes nothing else.

A metamorphic relation: the same call on data of ordinary size and on the same
data times a power of two has to give results that differ by this factor.
"""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import close

from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tensor import TensorSum, TensorTrain
from tt_sketch.tt_gmres import round_tt_sum
from tt_sketch.tt_svd import tt_svd

POWERS = st.sampled_from([-400, -250, -120, -60, -33, 33, 64, 130, 250, 400])
FILLS = gen.weighted(("gauss", 4), ("pos", 1), ("int", 1))


def balanced(draw, d, imbalance):
    """Powers of two for the cores of a TT"""
    powers = [0] * d
    powers[draw(st.integers(0, d - 1))] = draw(POWERS)
    if imbalance and d > 1 and draw(st.booleans()):
        i, j = draw(st.permutations(range(d)))[:2]
        p = draw(st.sampled_from([-300, -200, -90, 90, 200, 300]))
        if abs(sum(powers)) > 250:
            powers = [0] * d
        powers[i] += p
        powers[j] -= p
    return powers


@st.composite
def tts(draw, ops, count=1):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=200, mode=7))
    d = len(shape)
    case = {
        "op": draw(st.sampled_from(list(ops))),
        "shape": shape,
        "terms": [
            {
                "rank": draw(gen.ranks(d - 1, 4)),
                "seed": draw(gen.data_seeds()),
                "fill": draw(FILLS),
            }
            for _ in range(draw(st.integers(1, count)))
        ],
        "powers": balanced(draw, d, True),
        "max_rank": draw(gen.ranks(d - 1, 6)),
        "seed": draw(gen.seeds()),
    }
    return case


def make_cores(case, scaled):
    out = []
    d = len(case["shape"])
    for term in case["terms"]:
        rank = [1] + list(term["rank"]) + [1]
        cores = []
        for k in range(d):
            c = ref.make_array(
                (rank[k], case["shape"][k], rank[k + 1]), term["fill"], term["seed"], k
            ).astype(float)
            # Distinct sizes, so that cutting at a rank is well-defined
            c = c * 0.7 ** np.arange(rank[k + 1])
            if scaled:
                c = c * 2.0 ** case["powers"][k]
            cores.append(c)
        out.append(cores)
    return out


def run_tt(op, tts, case):
    """Arrays that are proportional to the tensors"""
    tt = tts[0]
    rank = tuple(case["max_rank"])
    if op == "round":
        return [ref.tt_dense(tt.round(eps=1e-10).cores)]
    if op == "orthogonalize":
        return [ref.tt_dense(tt.orthogonalize().cores)]
    if op == "norm":
        return [np.array([tt.norm()])]
    if op == "svdvals":
        return [np.pad(s, (0, 60))[:60] for s in tt.svdvals()]
    if op == "dense":
        return [tt.to_numpy()]
    if op == "add":
        out = tt
        for other in tts[1:]:
            out = out.add(other)
        return [out.to_numpy()]
    total = TensorSum(list(tts))
    if op == "exact":
        return [ref.tt_dense(round_tt_sum(total, 40, eps=1e-10, method="exact").cores)]
    if op == "pairwise":
        return [ref.tt_dense(round_tt_sum(total, 40, eps=1e-10, method="pairwise").cores)]
    raise ValueError(op)


def check_tt(case):
    base = run_tt(case["op"], [TensorTrain(c) for c in make_cores(case, False)], case)
    out = run_tt(case["op"], [TensorTrain(c) for c in make_cores(case, True)], case)
    factor = 2.0 ** sum(case["powers"])
    size = sum(
        float(np.linalg.norm(ref.tt_dense([abs(x) for x in c])))
        for c in make_cores(case, False)
    )
    require(len(base) == len(out), "a different number of results")
    for k, (a, b) in enumerate(zip(base, out)):
        what = f"{case['op']} of a TT times 2^{sum(case['powers'])}: result {k}"
        close(what, np.asarray(b) / factor, a, 1e-9 * size)
    return bool(size > 0), ["op=" + case["op"], f"imbalance={np.count_nonzero(case['powers']) > 1}"]


def tt_sub(ops, quick, count=1):
    return Sub("scaled", lambda tier: tts(ops, count), check_tt, quick)


@st.composite
def sketches(draw, ops, fmts, extreme):
    shape = draw(gen.shapes(dmin=2, dmax=4, size=150, mode=7))
    d = len(shape)
    spec = draw(
        gen.tensor_of(
            shape, fmts, fills=FILLS, rmax=3, sums=False,
            scales=gen.weighted((1.0, 1)), layouts=gen.weighted(("C", 1)),
        )
    )
    spec.pop("ints", None)
    return {
        "op": draw(st.sampled_from(list(ops))),
        "tensor": spec,
        "power": draw(st.one_of(POWERS, st.sampled_from(extreme))),
        "rank": draw(gen.ranks(d - 1, 4)),
        "gap": draw(st.integers(2, 4)),
        "seed": draw(gen.seeds()),
        "column": draw(st.booleans()),  # sketches of rank 1
    }


def run_sketch(case, spec):
    m = ref.make_tensor(spec)
    d = m.dense.ndim
    rank = (1,) * (d - 1) if case["column"] else tuple(case["rank"])
    larger = tuple(r + case["gap"] for r in rank)
    op = case["op"]
    if op == "stream":
        sk = stream_sketch(m.lib, rank, larger, seed=case["seed"])
        other = stream_sketch(m.lib, larger, rank, seed=case["seed"])
        return m, [sk.to_numpy(), ref.tt_dense(sk.to_tt().cores), other.to_numpy()], sk
    if op == "orth":
        tt = orthogonal_sketch(m.lib, rank, larger, seed=case["seed"])
    elif op == "hmt":
        tt = hmt_sketch(m.lib, rank, seed=case["seed"])
    else:
        tt = tt_svd(m.lib)
    return m, [ref.tt_dense(tt.cores)], None


def worst(sk):
    """Condition of the linking matrices"""
    out = 1.0
    for omega in sk.Omega_mats:
        s = np.linalg.svd(omega, compute_uv=False)
        if s[0] == 0:
            continue
        ratio = s / s[0]
        if np.any((ratio < 1e-4) & (ratio > 1e-18)):
            return np.inf
        out = max(out, 1 / ratio[ratio > 1e-4][-1])
    return out


def check_sketch(case):
    spec = case["tensor"]
    base, expected, sk = run_sketch(case, spec)
    if sk is not None and worst(sk) > 1e4:
        return False, ["ill-conditioned"]
    factor = 2.0 ** case["power"]
    _, out, _ = run_sketch(case, dict(spec, scale=factor))
    size = max([base.bound] + [float(np.linalg.norm(e)) for e in expected])
    for k, (a, b) in enumerate(zip(expected, out)):
        what = f"{case['op']} of a tensor times 2^{case['power']}: result {k}"
        close(what, np.asarray(b) / factor, a, 1e-7 * size)
    return bool(size > 0), ["op=" + case["op"], "fmt=" + spec["fmt"]]


def sketch_sub(ops, quick, fmts=("sparse", "tt", "dense", "cp", "tucker"), extreme=(-470, 470)):
    return Sub("scaled", lambda tier: sketches(ops, fmts, extreme), check_sketch, quick)
