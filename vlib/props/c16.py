"""Looking up entries by position."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, lazy, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.tensor import CPTensor, SparseTensor, TensorTrain

RULE = (
    "Cases are a TT, CP or sparse tensor and a sequence of lookups (positions "
    "random, repeated, all, none, sorted or reversed; arrays of several integer "
    "types and layouts or tuples of arrays) with changes of the stored data in "
    "between. Sub-check huge: sparse and TT tensors too large to store densely. "
    "Non-trivial: a lookup of at least two positions of a non-zero tensor."
)
ASSUMPTIONS = [
    "Reference: numpy indexing of the dense tensor, computed from the data "
    "stored at the time of the lookup. Positions lie within the shape.",
    "Sparse tensors have at most 31 modes and 2^63 entries: numpy flattens no "
    "more, and such a lookup is refused with a ValueError.",
]

IDX = gen.weighted(("array", 3), ("tuple", 3), ("F", 1), ("strided", 1), ("reversed", 1))
DTYPES = gen.weighted(("int64", 4), ("int32", 1), ("uint32", 1), ("int16", 1), ("uint8", 1), ("uint64", 1), ("int8", 1), ("uint16", 1))


@st.composite
def cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=6, size=300, mode=8))
    spec = draw(
        gen.tensor_of(shape, fmts=("tt", "cp", "sparse"), sums=False, rmax=5)
    )
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        if steps and draw(st.integers(0, 2)) == 0:
            steps.append({
                "op": "change",
                "how": draw(st.sampled_from(["item", "inplace", "scale", "replace", "move"])),
                "k": draw(st.integers(0, 20)),
                "seed": draw(gen.data_seeds()),
            })
        steps.append({
            "op": "gather",
            "kind": draw(gen.weighted(
                ("random", 4), ("all", 1), ("none", 1), ("repeat", 2), ("stored", 2),
                ("one", 1), ("corners", 1))),
            "n": draw(st.integers(1, 40)),
            "seed": draw(gen.data_seeds()),
            "idx": draw(IDX),
            "dtype": draw(DTYPES),
        })
    return {"tensor": spec, "steps": steps}


def positions(step, shape, stored=None):
    rng = np.random.default_rng([step["seed"], 23])
    n, kind = step["n"], step["kind"]
    d = len(shape)
    rand = np.array([rng.integers(0, m, n) for m in shape]).reshape(d, n)
    if kind == "all":
        pos = ref.all_positions(shape)
        return pos[:, rng.permutation(pos.shape[1])]
    if kind == "none":
        return rand[:, :0]
    if kind == "repeat":
        return rand[:, rng.integers(0, min(3, n), n)]
    if kind == "one":
        return rand[:, :1]
    if kind == "corners":
        return np.array([rng.choice([0, m - 1], n) for m in shape]).reshape(d, n)
    if kind == "stored" and stored is not None and stored.shape[1]:
        some = stored[:, rng.integers(0, stored.shape[1], n)]
        return np.where(rng.random(n) < 0.7, some, rand)
    return rand


def as_index(pos, kind, dtype):
    info = np.iinfo(dtype)
    if pos.size and pos.max() > info.max:
        dtype = "int64"
    pos = np.ascontiguousarray(pos).astype(dtype)
    if kind == "tuple":
        return tuple(np.array(row) for row in pos)
    if kind == "F":
        return np.asfortranarray(pos)
    if kind == "strided":
        big = np.zeros((pos.shape[0], 2 * pos.shape[1]), dtype)
        big[:, ::2] = pos
        return big[:, ::2]
    if kind == "reversed":
        return np.ascontiguousarray(pos[:, ::-1])[:, ::-1]
    return pos


def change(lib, step):
    """Changes the stored data in place"""
    rng = np.random.default_rng([step["seed"], 29])
    how = step["how"]
    if isinstance(lib, SparseTensor):
        n = len(lib.entries)
        if n == 0:
            return
        j = step["k"] % n
        if how == "item":
            lib.entries[j] = rng.standard_normal()
        elif how == "inplace":
            lib.entries[:] = rng.standard_normal(n)
        elif how == "scale":
            lib.entries *= -2.5 if lib.entries.dtype.kind == "f" else -2
        elif how == "replace":
            lib.entries = rng.standard_normal(n)
        else:
            # Another order of the same positions
            perm = rng.permutation(n)
            lib.indices[...] = np.array(lib.indices)[:, perm]
        return
    k = step["k"] % len(lib.cores)
    core = lib.cores[k]
    if how == "item":
        lib[k] = rng.standard_normal(core.shape)
    elif how == "inplace":
        lib[k][...] = rng.standard_normal(core.shape)
    elif how == "scale":
        lib.cores[k] *= -2.5 if core.dtype.kind == "f" else -2
    elif how == "replace":
        lib.cores[k] = rng.standard_normal(core.shape)
    else:
        np.negative(lib.cores[k][:1], out=lib.cores[k][:1])


def bound_of(lib):
    if isinstance(lib, SparseTensor):
        return 0.0
    cores = [abs(c) for c in lib.cores]
    dense = ref.tt_dense(cores) if isinstance(lib, TensorTrain) else ref.cp_dense(cores)
    return float(np.max(dense, initial=0.0))


def check(case):
    lib = ref.make_tensor(case["tensor"]).lib
    shape = tuple(case["tensor"]["shape"])
    nontrivial, labels = False, ["format=" + case["tensor"]["fmt"]]
    for number, step in enumerate(case["steps"]):
        if step["op"] == "change":
            change(lib, step)
            labels.append("change=" + step["how"])
            continue
        dense = ref.dense_of(lib)
        stored = (
            np.array(lib.indices).astype(np.int64)
            if isinstance(lib, SparseTensor) else None
        )
        pos = positions(step, shape, stored)
        idx = as_index(pos, step["idx"], step["dtype"])
        snap = Snapshot(tensor=lib, positions=idx)
        got = lib.gather(idx)
        what = f"lookup {number}"
        require(isinstance(got, np.ndarray), f"{what}: not an array")
        close(what, got, dense[tuple(pos)], 1e-12 * bound_of(lib))
        snap.check(what)
        # The values returned do not belong to the tensor
        got[...] = 7.0
        snap.check("changing looked up values")
        nontrivial |= pos.shape[1] >= 2 and bool(np.any(dense))
        labels += ["positions=" + step["kind"], "index=" + step["idx"]]
    return nontrivial, labels


@st.composite
def huge(draw):
    shape = draw(lazy.big_shapes())[:31]
    return {
        "shape": shape,
        "fmt": draw(st.sampled_from(["sparse", "tt", "cp"])) if sum(shape) <= 200000 else "sparse",
        "n": draw(st.integers(1, 30)),
        "m": draw(
            gen.weighted(*[(m, 1) for m in (3, 1, 2, 10, 30, 60, 65, 130, 257, 600)])
        ),
        "seed": draw(gen.data_seeds()),
        "rank": draw(st.integers(1, 3)),
        "idx": draw(IDX),
    }


def check_huge(case):
    shape = tuple(case["shape"])
    rng = np.random.default_rng([case["seed"], 31])
    stored = np.asarray(lazy.positions(shape, case["n"], case["seed"]))
    asked = np.asarray(lazy.positions(shape, case["m"], case["seed"] + 1))
    asked = np.concatenate([asked, stored[:, ::2], asked[:, :1]], axis=1)
    idx = as_index(asked, case["idx"], "int64")
    n = stored.shape[1]
    if case["fmt"] == "sparse":
        entries = rng.standard_normal(n)
        lib = SparseTensor(shape, stored.copy(), entries.copy())
        table = dict(zip(map(tuple, stored.T.tolist()), entries))
        expected = [table.get(tuple(p), 0.0) for p in asked.T.tolist()]
        tol = 0.0
    else:
        from vlib.props.c15 import values_at

        r = (1,) + (case["rank"],) * (len(shape) - 1) + (1,)
        if case["fmt"] == "tt":
            lib = TensorTrain([
                rng.standard_normal((r[k], m, r[k + 1])) for k, m in enumerate(shape)
            ])
        else:
            lib = CPTensor([rng.standard_normal((m, case["rank"])) for m in shape])
        expected, bound = values_at(lib, asked)
        tol = 1e-12 * float(bound.max())
    close("lookup", lib.gather(idx), np.array(expected), tol)
    return True, [f"format={case['fmt']}"]


SUBS = [
    Sub("sequence", lambda tier: cases(), check, 4000),
    Sub("huge", lambda tier: huge(), check_huge, 1500),
    Sub("large", lambda tier: gen.large(cases()), check, 100),
]
