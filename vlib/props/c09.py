"""Slicing or enlarging a DRM keeps its rows."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.props.c08 import METHOD
from vlib.ref import Snapshot, close, equal

from tt_sketch.drm import TensorTrainDRM
from tt_sketch.tensor import TensorTrain

RULE = (
    "Cases are a DRM (any type and side, any seed or none, non-default numbers "
    "of non-zeros or given cores) and a history of slices, slices of slices, "
    "transpositions and rank increases. Non-trivial: some slice is proper, or "
    "some rank is increased."
)
ASSUMPTIONS = [
    "Slices are given by absolute ranks of the DRM they come from. Increasing "
    "the rank is tried on whole DRMs only.",
]

SEEDS = st.one_of(
    st.none(),
    gen.seeds(),
    st.integers(2**32 - 5, 2**32 + 5),
    st.integers(2**32, 2**63 - 1),
)


@st.composite
def cases(draw, high=False):
    shape = draw(gen.shapes(size=160, dmax=4 if high else 5, mode=7))
    d = len(shape)
    kind = draw(st.sampled_from(["tt", "dense", "sg", "ss", "cores"]))
    drm = {"type": "tt" if kind == "cores" else kind, "seed": draw(SEEDS)}
    rank = draw(gen.high_ranks(d - 1) if high else gen.ranks(d - 1, 7))
    if kind == "ss" and draw(st.integers(0, 2)) > 0:
        drm["nnz"] = [draw(st.integers(1, r)) for r in rank]
    if kind == "cores":
        drm["cores"] = draw(gen.data_seeds())
    ops = []
    current = [[0] * (d - 1), list(rank)]
    total = list(rank)
    whole = True
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(["slice", "reslice", "increase", "T"]))
        if op == "increase" and kind in ("dense", "sg") and whole:
            total = [r + draw(st.integers(0, 300 if high else 4)) for r in total]
            current = [[0] * (d - 1), list(total)]
            form = draw(st.sampled_from(["tuple", "int"]))
            if form == "int":
                total = [max(total)] * (d - 1)
                current[1] = list(total)
            ops.append({"op": op, "rank": list(total), "form": form})
        elif op == "T":
            ops.append({"op": op})
            shape_flip = [x[::-1] for x in current]
            current, total = shape_flip, total[::-1]
        else:
            lo = [draw(st.integers(a, b - 1)) for a, b in zip(*current)]
            hi = [draw(st.integers(a + 1, b)) for a, b in zip(lo, current[1])]
            ops.append({"op": "slice", "lo": lo, "hi": hi, "keep": op == "reslice"})
            if op == "reslice":
                current, whole = [lo, hi], False
    fmts = sorted(ref.DRM_FORMATS[drm["type"]])
    return {
        "shape": shape,
        "drm": drm,
        "rank": rank,
        "right": draw(st.booleans()),
        "ops": ops,
        "tensor": draw(
            gen.tensor_of(shape, fmts, rmax=3, sums=False, scales=st.just(1.0))
        ),
    }


def build(case, shape):
    spec, rank = case["drm"], tuple(case["rank"])
    right = case["right"]
    if "cores" not in spec:
        return ref.make_drm(spec, rank, shape, right)
    # Cores as the orthogonal sketch passes them: in the DRM's own order
    own_shape = shape[::-1] if right else shape
    own_rank = (1,) + (rank[::-1] if right else rank)
    cores = [
        ref.make_array((own_rank[k], own_shape[k], own_rank[k + 1]), "gauss",
                       spec["cores"], k)
        for k in range(len(shape) - 1)
    ]
    return TensorTrainDRM(rank, shape, transpose=right, seed=spec["seed"], cores=cores)


def given_cores_mats(case, shape):
    """Matrices that the given cores stand for"""
    rank = tuple(case["rank"])
    right = case["right"]
    drm = build(case, shape)
    mats = []
    res = np.ones((1, 1))
    for core in drm.cores:
        res = np.tensordot(res, core, axes=(1, 0)).reshape(-1, core.shape[2])
        mats.append(res.T)
    if right:
        mats = mats[::-1]
        out = []
        for k, mat in enumerate(mats, start=1):
            modes = shape[k:][::-1]
            cube = mat.reshape((mat.shape[0],) + tuple(modes))
            perm = (0,) + tuple(range(len(modes), 0, -1))
            out.append(np.transpose(cube, perm).reshape(mat.shape))
        mats = out
    return mats


def rows(out, fmt, lo, hi):
    return out[lo:hi] if fmt in ("sparse", "dense") else out[:, lo:hi]


def compare(what, drm, parent, lo, hi, shape, exact):
    """``drm`` is the part of ``parent`` (with its offset applied) given"""
    d = len(shape)
    new = ref.drm_mats(drm, shape)
    rank = tuple(b - a for a, b in zip(lo, hi))
    right = bool(drm.transpose)
    equal(f"{what}: rank", tuple(drm.rank[::-1] if right else drm.rank), rank)
    for k in range(d - 1):
        want = parent[k][lo[k] : hi[k]]
        if exact:
            require(
                new[k].shape == want.shape and np.array_equal(new[k], want),
                f"{what}: rows of split {k + 1} are not those of the DRM",
            )
        else:
            close(
                f"{what}: rows of split {k + 1}",
                new[k],
                want,
                1e-12 * (1 + np.abs(want).max(initial=0)),
            )
    return new


def check(case):
    shape = tuple(case["shape"])
    drm = build(case, shape)
    d = len(shape)
    m = ref.make_tensor(case["tensor"])
    lib, fmt = m.lib, m.fmt
    mats = ref.drm_mats(drm, shape)
    if "cores" in case["drm"]:
        for k, (a, b) in enumerate(zip(mats, given_cores_mats(case, shape))):
            close(f"given cores, split {k + 1}", a, b, 1e-10 * (1 + np.abs(b).max()))
    exact = case["drm"]["type"] != "tt"
    equal(
        "rank",
        tuple(drm.rank[::-1] if drm.transpose else drm.rank),
        tuple(case["rank"]),
    )
    outs = [np.array(x) for x in getattr(drm, METHOD[fmt])(lib)]
    proper = False
    labels = [
        "drm=" + ("cores" if "cores" in case["drm"] else case["drm"]["type"]),
        f"right={case['right']}",
        "fmt=" + fmt,
    ]
    seed = case["drm"]["seed"]
    labels.append(
        "seed=" + ("none" if seed is None else "big" if seed >= 2**32 else "32 bits")
    )
    offset = [0] * (d - 1)
    snaps = [Snapshot(drm=drm)]
    for number, op in enumerate(case["ops"]):
        what = f"step {number} ({op['op']})"
        labels.append("op=" + op["op"])
        if op["op"] == "T":
            drm, lib = drm.T, lib.T
            shape = shape[::-1]
            mats = ref.drm_mats(drm, shape)
            offset = offset[::-1]
            equal(f"{what}: shape", tuple(drm.shape), shape)
            outs2 = [np.array(x) for x in getattr(drm, METHOD[fmt])(lib)]
            for k in range(d - 1):
                a, b = outs2[k], outs[d - 2 - k]
                if fmt in ("dense", "tucker"):
                    continue  # order of the modes is the sketch's business
                close(f"{what}: contraction {k}", a, b, 1e-10 * (1 + np.abs(b).max(initial=0)))
            outs = outs2
            snaps.append(Snapshot(drm=drm))
            continue
        if op["op"] == "increase":
            rank = tuple(op["rank"])
            arg = rank[0] if op["form"] == "int" else rank
            new = drm.increase_rank(arg)
            new_mats = ref.drm_mats(new, shape)
            right = bool(new.transpose)
            equal(f"{what}: rank", tuple(new.rank[::-1] if right else new.rank), rank)
            new_outs = [np.array(x) for x in getattr(new, METHOD[fmt])(lib)]
            for k in range(d - 1):
                old = mats[k]
                require(
                    np.array_equal(new_mats[k][: old.shape[0]], old),
                    f"{what}: rows of split {k + 1} changed",
                )
                equal(f"{what}: rows of split {k + 1}", new_mats[k].shape[0], rank[k])
                a = rows(new_outs[k], fmt, 0, old.shape[0])
                close(f"{what}: contraction {k}", a, outs[k],
                      1e-12 * (1 + np.abs(outs[k]).max(initial=0)) * 100)
                proper |= rank[k] > old.shape[0]
            drm, mats, outs = new, new_mats, new_outs
            snaps.append(Snapshot(drm=drm))
            continue
        lo, hi = tuple(op["lo"]), tuple(op["hi"])
        new = drm.slice(lo, hi)
        require(bool(new.transpose) == bool(drm.transpose), f"{what}: side changed")
        rel_lo = [a - o for a, o in zip(lo, offset)]
        rel_hi = [b - o for b, o in zip(hi, offset)]
        new_mats = compare(
            what, new, mats, rel_lo, rel_hi, shape, exact
        )
        new_outs = [np.array(x) for x in getattr(new, METHOD[fmt])(lib)]
        equal(f"{what}: number of contractions", len(new_outs), d - 1)
        for k in range(d - 1):
            want = rows(outs[k], fmt, rel_lo[k], rel_hi[k])
            close(
                f"{what}: contraction {k} with {fmt}",
                new_outs[k],
                want,
                1e-12 * (1 + np.abs(outs[k]).max(initial=0)) * 100,
            )
            proper |= new_mats[k].shape[0] < mats[k].shape[0]
        if op["keep"]:
            drm, mats, outs, offset = new, new_mats, new_outs, list(lo)
            labels.append("slice kept")
            snaps.append(Snapshot(drm=drm))
    for number, snap in enumerate(snaps):
        snap.check(f"a step after {number}")
    return proper, labels


SUBS = [
    Sub("history", lambda tier: cases(), check, 1600),
    Sub("ranks", lambda tier: cases(high=True), check, 40),
    Sub("large", lambda tier: gen.large(cases()), check, 40),
]
