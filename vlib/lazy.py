"""Positions in very large tensors, for the lazily generated DRMs."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.ref import drm_vectors, require

from tt_sketch.tensor import SparseTensor


@st.composite
def big_shapes(draw, bits=62.9):
    """Shapes with up to 2^63 entries"""
    kind = draw(
        st.sampled_from(["mixed", "powers", "twos", "long", "small", "tens"])
    )
    d = draw(st.integers(2, 14))
    out, used = [], 0.0
    if kind == "twos":
        return [2] * draw(st.integers(3, 62))
    for _ in range(d):
        if kind == "powers":
            n = 2 ** draw(st.integers(0, 20))
        elif kind == "long":
            n = draw(st.integers(2, 2**40))
        elif kind == "small":
            n = draw(st.integers(1, 6))
        elif kind == "tens":
            n = 10 ** draw(st.integers(1, 6))
        else:
            n = draw(
                st.one_of(
                    st.integers(1, 20),
                    st.integers(1, 3000),
                    st.sampled_from([255, 256, 65535, 65536, 65537, 2**31, 2**32]),
                )
            )
        if used + np.log2(n) > bits:
            break
        used += np.log2(n)
        out.append(n)
    while len(out) < 2:
        n = 2 if used + 1 <= bits else 1
        used += np.log2(n)
        out.append(n)
    return out


def positions(shape, n, seed):
    """Distinct positions, many of them related by simple strides"""
    rng = np.random.default_rng([seed, 17])
    d = len(shape)
    seen = {}
    base = tuple(int(rng.integers(0, m)) for m in shape)
    for _ in range(4 * n):
        if len(seen) >= n:
            break
        kind = rng.integers(0, 6)
        if kind == 0:
            pos = tuple(int(rng.integers(0, m)) for m in shape)
        elif kind == 1:
            pos = tuple(int(rng.choice([0, m - 1])) for m in shape)
        elif kind == 2:  # neighbour of an earlier one in one mode
            pos = list(base)
            j = int(rng.integers(0, d))
            pos[j] = int(rng.integers(0, shape[j]))
            pos = tuple(pos)
        elif kind == 3:
            pos = tuple(
                int(min(m - 1, 2 ** rng.integers(0, max(1, m.bit_length()))))
                for m in shape
            )
        elif kind == 4:
            j = int(rng.integers(0, d))
            pos = tuple(
                (int(rng.integers(0, min(m, 4))) if abs(k - j) <= 1 else 0)
                for k, m in enumerate(shape)
            )
        else:
            base = tuple(
                int(rng.integers(0, min(m, 300))) for m in shape
            )
            pos = base
        seen[pos] = True
    return np.array(list(seen), dtype=np.int64).reshape(-1, d).T.copy()


def many_positions(shape, n, seed):
    """Random positions, repeats included, in ranges of different lengths"""
    rng = np.random.default_rng([seed, 41])
    rows = []
    for m in shape:
        top = min(m, int(rng.choice([4, 300, 70000, 2**62])))
        start = int(rng.integers(0, m - top + 1))
        rows.append(start + rng.integers(0, top, n))
    return np.array(rows, dtype=np.int64)


def in_parts(drm, shape, inds, vectors, cut):
    """The same values for the indices in two parts"""
    at = inds.shape[1] * cut // 1000
    for what, part in (("first", slice(0, at)), ("last", slice(at, None))):
        if inds[:, part].shape[1] == 0:
            continue
        for k, vec in enumerate(drm_vectors(drm, shape, inds[:, part].copy())):
            require(
                np.array_equal(vec, vectors[k][:, part]),
                f"split {k + 1}: values for the {what} {inds[:, part].shape[1]} of "
                f"{inds.shape[1]} indices on their own differ",
            )


def column_keys(inds, k, right):
    """The part of each position that split ``k`` depends on"""
    part = inds[k:] if right else inds[:k]
    return [tuple(int(x) for x in part[:, j]) for j in range(inds.shape[1])]


def dtypes_for(shape):
    out = ["int64", "uint64"]
    if max(shape) <= 2**31:
        out += ["int32", "uint32"]
    if max(shape) <= 2**15:
        out += ["int16"]
    if max(shape) <= 256:
        out += ["uint8"]
    return out


def variants(drm, shape, inds, rng, vectors, what):
    """Order, repeats, subsets, index types; nothing may be modified"""
    n = inds.shape[1]
    select = rng.integers(0, n, int(rng.integers(0, 2 * n + 1)))
    names = dtypes_for(shape)
    dtype = names[int(rng.integers(0, len(names)))]
    sub = inds[:, select].astype(dtype)
    layout = int(rng.integers(0, 3))
    if layout == 1:
        sub = np.asfortranarray(sub)
    elif layout == 2:
        sub = tuple(np.array(row) for row in sub)
    copy = np.array(np.stack(sub) if isinstance(sub, tuple) else sub)
    tensor = SparseTensor(tuple(shape), sub, np.ones(len(select)))
    got = [np.array(v) for v in drm.sketch_sparse(tensor)]
    require(
        len(got) == len(vectors), f"{what}: wrong number of contractions"
    )
    for k, (a, b) in enumerate(zip(got, vectors), start=1):
        want = b[:, select]
        require(
            a.shape == want.shape and np.array_equal(a, want),
            f"{what}: split {k} depends on the order, subset or type ({dtype}) "
            f"of the indices",
        )
    after = np.stack(sub) if isinstance(sub, tuple) else sub
    require(
        after.dtype == copy.dtype and np.array_equal(after, copy),
        f"{what}: indices were modified",
    )
    require(
        np.array_equal(np.asarray(tensor.indices), copy),
        f"{what}: indices of the tensor were modified",
    )
    return dtype
