"""Builds library objects from case descriptions, with dense reference values.

The reference values are computed here with plain numpy, never by the library.
"""
import copy

import numpy as np

from vlib.harness import HarnessError, Violation, require

from tt_sketch.drm import (
    DenseGaussianDRM,
    SparseGaussianDRM,
    SparseSignDRM,
    TensorTrainDRM,
)
from tt_sketch.tensor import (
    CPTensor,
    DenseTensor,
    SparseTensor,
    TensorSum,
    TensorTrain,
    TuckerTensor,
)

EPS = np.finfo(float).eps


# ---------------------------------------------------------------- arrays


def _layout(array, layout):
    if layout == "F":
        return np.asfortranarray(array)
    if layout == "S":  # strided view on a larger array
        big = np.zeros(tuple(2 * s for s in array.shape), array.dtype)
        view = big[tuple(slice(None, None, 2) for _ in array.shape)]
        view[...] = array
        return view
    if layout == "R":  # negative strides
        rev = tuple(slice(None, None, -1) for _ in array.shape)
        return np.ascontiguousarray(array[rev])[rev]
    return np.ascontiguousarray(array)


def make_array(shape, fill, seed, index=0, layout="C"):
    rng = np.random.default_rng([seed, index, 7])
    shape = tuple(shape)
    if fill == "gauss":
        a = rng.standard_normal(shape)
    elif fill == "int":
        a = rng.integers(-3, 4, shape).astype(float)
    elif fill == "ones":
        a = np.ones(shape)
    elif fill == "zero":
        a = np.zeros(shape)
    elif fill == "pos":
        a = rng.random(shape) + 0.5
    elif fill == "holes":  # many exact zeros
        a = rng.standard_normal(shape) * (rng.random(shape) < 0.4)
    elif fill in ("decay", "steep"):
        a = rng.standard_normal(shape)
        for axis, n in enumerate(shape):
            f = (0.3 if fill == "decay" else 2e-4) ** np.arange(n)
            a = a * f.reshape((1,) * axis + (-1,) + (1,) * (len(shape) - axis - 1))
    else:
        raise HarnessError(f"unknown fill {fill}")
    return _layout(a, layout)


# ---------------------------------------------------------------- dense values


def tt_dense(cores):
    res = cores[0].reshape(cores[0].shape[1:])
    for core in cores[1:]:
        res = np.tensordot(res, core, axes=(res.ndim - 1, 0))
    return res.reshape(res.shape[:-1])


def cp_dense(cores):
    rank = cores[0].shape[1]
    shape = tuple(c.shape[0] for c in cores)
    res = np.zeros(shape)
    for k in range(rank):
        term = np.ones(())
        for c in cores:
            term = np.multiply.outer(term, c[:, k])
        res += term
    return res


def tucker_dense(core, factors):
    res = core
    for U in factors:  # contracts the first axis and appends the new one
        res = np.tensordot(res, U, axes=(0, 0))
    return res


def sparse_dense(shape, indices, entries):
    res = np.zeros(tuple(shape))
    for k in range(len(entries)):
        res[tuple(int(i[k]) for i in indices)] += entries[k]
    return res


def dense_of(tensor):
    """Dense value of a library tensor from its stored data"""
    if isinstance(tensor, TensorTrain):
        return tt_dense(tensor.cores)
    if isinstance(tensor, CPTensor):
        return cp_dense(tensor.cores)
    if isinstance(tensor, TuckerTensor):
        return tucker_dense(tensor.core, tensor.factors)
    if isinstance(tensor, DenseTensor):
        return np.array(tensor.data, dtype=float)
    if isinstance(tensor, SparseTensor):
        return sparse_dense(tensor.shape, tensor.indices, tensor.entries)
    if isinstance(tensor, TensorSum):
        res = np.zeros(tuple(tensor.shape))
        for summand in tensor.tensors:
            res = res + dense_of(summand)
        return res
    raise Violation(f"unexpected type of tensor {type(tensor).__name__}")


# ---------------------------------------------------------------- tensors


class Mat:
    """A library tensor with its reference value"""

    def __init__(self, lib, dense, bound, fmt):
        self.lib = lib
        self.dense = dense  # None for huge sparse tensors
        self.bound = bound  # norm of the tensor made of absolute values
        self.fmt = fmt


def sparse_positions(spec):
    """Distinct positions as a (d, nnz) int64 array"""
    shape = [int(n) for n in spec["shape"]]
    total = 1
    for n in shape:
        total *= n
    nnz = min(spec["nnz"], total)
    rng = np.random.default_rng([spec["seed"], 3])
    if total <= 10**6:
        flat = rng.permutation(total)[:nnz]
        inds = np.array(np.unravel_index(flat, shape), dtype=np.int64)
        inds = inds.reshape(len(shape), nnz)
    else:
        # corners, structured and random positions
        seen = {}
        for k in range(4 * nnz):
            if len(seen) >= nnz:
                break
            mode = rng.integers(0, 4)
            if mode == 0:
                pos = tuple(int(rng.integers(0, n)) for n in shape)
            elif mode == 1:
                pos = tuple(int(rng.choice([0, n - 1])) for n in shape)
            elif mode == 2:
                pos = [0] * len(shape)
                j = int(rng.integers(0, len(shape)))
                pos[j] = int(rng.integers(0, shape[j]))
                pos = tuple(pos)
            else:
                pos = tuple(
                    int(min(n - 1, 2 ** rng.integers(0, max(1, n.bit_length()))))
                    for n in shape
                )
            seen[pos] = True
        inds = np.array(list(seen), dtype=np.int64).reshape(-1, len(shape)).T
    order = spec.get("order", "random")
    if order == "sorted" and inds.shape[1]:
        inds = inds[:, np.lexsort(inds[::-1])]
    return np.ascontiguousarray(inds)


def make_tensor(spec, dense=True):
    fmt = spec["fmt"]
    fill, seed = spec.get("fill", "gauss"), spec.get("seed", 0)
    scale, layout = spec.get("scale", 1.0), spec.get("layout", "C")
    if fmt == "sum":
        parts = [make_tensor(s, dense) for s in spec["terms"]]
        if spec.get("again") is not None:  # the same object twice
            parts.append(parts[spec["again"] % len(parts)])
        lib = TensorSum([p.lib for p in parts])
        value = sum(p.dense for p in parts) if dense else None
        return Mat(lib, value, sum(p.bound for p in parts), fmt)
    shape = tuple(spec["shape"])
    d = len(shape)
    whole = spec.get("ints") and fill in ("int", "ones", "zero")
    whole = whole and float(scale).is_integer() and abs(scale) <= 1000

    def stored(a):
        return _layout(a.astype(np.int64) if whole else a, layout)

    if fmt == "dense":
        data = stored(make_array(shape, fill, seed, 0) * scale)
        return Mat(
            DenseTensor(data), np.array(data), float(np.linalg.norm(data)), fmt
        )
    if fmt == "tt":
        rank = (1,) + tuple(spec["rank"]) + (1,)
        cores = [
            make_array((rank[k], shape[k], rank[k + 1]), fill, seed, k)
            for k in range(d)
        ]
        at = spec.get("scale_at", 0) % d
        cores[at] = cores[at] * scale
        cores = [stored(c) for c in cores]
        lib = TensorTrain(cores)
        value = tt_dense(cores) if dense else None
        bound = np.linalg.norm(tt_dense([abs(c) for c in cores])) if dense else None
        return Mat(lib, value, bound, fmt)
    if fmt == "cp":
        cores = [
            make_array((shape[k], spec["rank"]), fill, seed, k)
            for k in range(d)
        ]
        cores[0] = cores[0] * scale
        cores = [stored(c) for c in cores]
        return Mat(
            CPTensor(cores),
            cp_dense(cores),
            float(np.linalg.norm(cp_dense([abs(c) for c in cores]))),
            fmt,
        )
    if fmt == "tucker":
        rank = tuple(spec["rank"])
        core = stored(make_array(rank, fill, seed, d) * scale)
        factors = [
            stored(make_array((rank[k], shape[k]), fill, seed, k))
            for k in range(d)
        ]
        return Mat(
            TuckerTensor(factors, core),
            tucker_dense(core, factors),
            float(
                np.linalg.norm(tucker_dense(abs(core), [abs(U) for U in factors]))
            ),
            fmt,
        )
    if fmt == "sparse":
        inds = sparse_positions(spec)
        entries = stored(make_array((inds.shape[1],), fill, seed, 1) * scale)
        value = sparse_dense(shape, inds, entries) if dense else None
        kind = spec.get("idx", "array")
        dtype = spec.get("dtype", "int64")
        if inds.size and inds.max() > np.iinfo(dtype).max:
            dtype = "int64"
        inds = inds.astype(dtype)
        if kind == "tuple":
            inds = tuple(np.array(row) for row in inds)
        elif kind == "F":
            inds = np.asfortranarray(inds)
        if seed % 4 == 1:  # As obtained from an array
            shape = tuple(np.int64(n) for n in shape)
        lib = SparseTensor(shape, inds, entries)
        return Mat(lib, value, float(np.linalg.norm(entries)), fmt)
    raise HarnessError(f"unknown format {fmt}")


# ---------------------------------------------------------------- snapshots


def arrays_of(obj):
    """All arrays and attributes that determine the value of an object"""
    out = []
    if obj is None:
        return out
    if isinstance(obj, np.ndarray):
        return [obj]
    if isinstance(obj, (list, tuple)):
        out.append(("len", len(obj)))
        for x in obj:
            out += arrays_of(x)
        return out
    if isinstance(obj, SparseTensor):
        inds = obj.indices
        out += [("shape", tuple(obj.shape)), np.asarray(inds), obj.entries]
        return out
    for name in ("shape", "rank", "true_rank", "rank_min", "rank_max"):
        if hasattr(obj, name):
            value = getattr(obj, name)
            out.append((name, value if np.isscalar(value) else tuple(value)))
    for name in ("in_shape", "out_shape", "transpose", "seed", "mode"):
        if hasattr(obj, name):
            out.append((name, getattr(obj, name)))
    if isinstance(obj, TensorSum):
        return out + arrays_of(list(obj.tensors))
    if hasattr(obj, "left_drm"):  # sketched tensor train
        return out + arrays_of([list(obj.Psi_cores), list(obj.Omega_mats)])
    for name in ("cores", "factors", "core", "data", "sketching_mats", "nnz", "A"):
        if isinstance(obj, DenseTensor) and name != "data":
            continue
        value = getattr(obj, name, None)
        if isinstance(value, np.ndarray):
            out.append(value)
        elif isinstance(value, (list, tuple)) and not isinstance(
            obj, SparseTensor
        ):
            out += arrays_of(
                [np.asarray(v) for v in value]
            )
    return out


class Snapshot:
    """Remembers values of objects, to check that they are not modified"""

    def __init__(self, **objects):
        self.objects = objects
        self.copies = {k: self._copy(v) for k, v in objects.items()}

    @staticmethod
    def _copy(obj):
        return [
            np.array(x, copy=True) if isinstance(x, np.ndarray) else copy.copy(x)
            for x in arrays_of(obj)
        ]

    def check(self, what=""):
        for name, before in self.copies.items():
            after = arrays_of(self.objects[name])
            same = len(before) == len(after)
            if same:
                for a, b in zip(before, after):
                    if isinstance(a, np.ndarray):
                        same &= isinstance(b, np.ndarray) and a.shape == b.shape
                        same = same and np.array_equal(a, b, equal_nan=True)
                    else:
                        same &= not isinstance(b, np.ndarray) and a == b
                    if not same:
                        break
            require(same, f"{what} modified {name}")


# ---------------------------------------------------------------- comparison


def close(what, actual, expected, tol):
    """Elementwise agreement up to the absolute tolerance ``tol``"""
    actual = np.asarray(actual)
    expected = np.asarray(expected)
    require(
        actual.shape == expected.shape,
        f"{what}: shape {actual.shape} instead of {expected.shape}",
    )
    if actual.size == 0:
        return 0.0
    try:
        actual = actual.astype(float)
    except (TypeError, ValueError):
        raise Violation(f"{what}: not numeric ({actual.dtype})")
    require(np.all(np.isfinite(actual)), f"{what}: values are not finite")
    diff = float(np.max(np.abs(actual - expected)))
    require(
        diff <= tol,
        f"{what}: differs by {diff:.3e} (tolerance {tol:.3e}, "
        f"magnitude {float(np.max(np.abs(expected))):.3e})",
    )
    return diff


def equal(what, actual, expected):
    require(
        actual == expected, f"{what}: {actual!r} instead of {expected!r}"
    )


def unfold(dense, k):
    """Unfolding with the first ``k`` modes as rows"""
    rows = int(np.prod(dense.shape[:k], dtype=int))
    return dense.reshape(rows, -1)


def transpose(dense):
    return np.transpose(dense)


# ---------------------------------------------------------------- DRMs

DRM_TYPES = {
    "tt": TensorTrainDRM,
    "dense": DenseGaussianDRM,
    "sg": SparseGaussianDRM,
    "ss": SparseSignDRM,
}

DRM_FORMATS = {
    "tt": {"sparse", "tt", "dense", "cp", "tucker"},
    "dense": {"sparse", "tt", "dense"},
    "sg": {"sparse"},
    "ss": {"sparse"},
}


def given_cores(spec, rank, shape, transpose):
    """Cores of a TT to be used as DRM, from the outside to the inside"""
    d = len(shape)
    r = [rank] * (d - 1) if isinstance(rank, int) else list(rank)
    modes = list(shape)
    if transpose:
        r.reverse()
        modes.reverse()
    rng = np.random.default_rng([int(spec["seed"]), 77])
    out = []
    for r1, n, r2 in zip([1] + r, modes[:-1], r):
        if spec["cores"] == "gauss":
            core = rng.standard_normal((r1, n, r2))
        elif spec["cores"] == "small":
            core = 1e-4 * rng.standard_normal((r1, n, r2))
        elif spec["cores"] == "ones":
            core = rng.choice([-1.0, 1.0], (r1, n, r2))
        else:
            core = rng.choice([-1.0, 0.0, 0.0, 1.0], (r1, n, r2))
        out.append(core)
    return out


def make_drm(spec, rank, shape, transpose):
    """``rank`` is given from the left to the right for both sides"""
    kwargs = {}
    if spec["type"] == "ss" and spec.get("nnz") is not None:
        kwargs["num_non_zero_per_row"] = tuple(
            max(1, min(n, r)) for n, r in zip(spec["nnz"], rank)
        )
    if spec.get("cores"):
        kwargs["cores"] = given_cores(spec, rank, shape, transpose)
    return DRM_TYPES[spec["type"]](
        rank if isinstance(rank, int) else tuple(rank),
        transpose=transpose,
        shape=tuple(shape),
        seed=spec["seed"],
        **kwargs,
    )


def all_positions(shape):
    return np.indices(tuple(shape)).reshape(len(shape), -1)


def drm_vectors(drm, shape, positions):
    """Output of a DRM for positions of a sparse tensor, one per split"""
    tensor = SparseTensor(
        tuple(shape), positions, np.ones(positions.shape[1])
    )
    return [np.array(v, dtype=float) for v in drm.sketch_sparse(tensor)]


def drm_mats(drm, shape):
    """The matrices a DRM stands for: one per split, from left to right.

    Left: ``(rank, n_1 ... n_k)``; right: ``(rank, n_{k+1} ... n_d)``.
    """
    shape = tuple(shape)
    d = len(shape)
    vectors = drm_vectors(drm, shape, all_positions(shape))
    require(len(vectors) == d - 1, "DRM gives a wrong number of contractions")
    mats = []
    for k, vec in enumerate(vectors, start=1):
        require(
            vec.ndim == 2 and vec.shape[1] == int(np.prod(shape)),
            f"DRM gives a contraction of shape {vec.shape}",
        )
        rows = vec.shape[0]
        left = int(np.prod(shape[:k], dtype=int))
        cube = vec.reshape(rows, left, -1)
        if drm.transpose:
            mats.append(cube[:, 0, :].copy())
        else:
            mats.append(cube[:, :, 0].copy())
    return mats


def sketch_reference(dense, left, right):
    """Psi cores and Omega matrices by their definition"""
    shape = dense.shape
    d = len(shape)
    psis, omegas = [], []
    for k in range(d):
        n = shape[k]
        L = left[k - 1] if k > 0 else np.ones((1, 1))
        R = right[k] if k < d - 1 else np.ones((1, 1))
        lsize = int(np.prod(shape[:k], dtype=int))
        cube = dense.reshape(lsize, n, -1)
        tmp = np.tensordot(L, cube, axes=(1, 0))
        psis.append(np.tensordot(tmp, R, axes=(2, 1)))
    for k in range(1, d):
        omegas.append(left[k - 1] @ unfold(dense, k) @ right[k - 1].T)
    return psis, omegas


def sketch_reference_sparse(shape, inds, entries, left_vecs, right_vecs):
    """The same from the DRM's columns at the non-zeros only"""
    d = len(shape)
    psis, omegas = [], []
    nnz = len(entries)
    for k in range(d):
        L = left_vecs[k - 1] if k > 0 else np.ones((1, nnz))
        R = right_vecs[k] if k < d - 1 else np.ones((1, nnz))
        psi = np.zeros((L.shape[0], shape[k], R.shape[0]))
        for j in range(nnz):
            psi[:, int(inds[k][j]), :] += entries[j] * np.outer(L[:, j], R[:, j])
        psis.append(psi)
    for k in range(1, d):
        omegas.append((left_vecs[k - 1] * entries) @ right_vecs[k - 1].T)
    return psis, omegas


def compare_sketch(what, psi_act, omega_act, psi_ref, omega_ref, scales, tol):
    """``scales``: (norm bound of tensor, left norms, right norms)"""
    bound, lnorm, rnorm = scales
    d = len(psi_ref)
    equal(f"{what}: number of cores", len(psi_act), d)
    equal(f"{what}: number of linking matrices", len(omega_act), d - 1)
    tiny = 1e-300
    for k in range(d):
        s = (lnorm[k - 1] if k > 0 else 1) * (rnorm[k] if k < d - 1 else 1)
        close(f"{what}: core {k}", psi_act[k], psi_ref[k], tol * s * bound + tiny)
    for k in range(d - 1):
        s = lnorm[k] * rnorm[k]
        close(
            f"{what}: linking matrix {k}",
            omega_act[k],
            omega_ref[k],
            tol * s * bound + tiny,
        )


def norms(mats, spec=None, shape=None, transpose=False, positions=None, rank=None):
    """Sizes of the matrices of a DRM, as far as rounding errors are concerned.

    The contractions of a given TT may cancel: the bound is then the size of
    the contractions of absolute values.
    """
    out = [float(np.linalg.norm(m)) for m in mats]
    if spec is None or not spec.get("cores"):
        return out
    if rank is None:
        rank = [m.shape[0] for m in mats]
    cores = [abs(c) for c in given_cores(spec, rank, shape, transpose)]
    if positions is None:
        positions = all_positions(shape)
    if transpose:
        positions = positions[::-1]
    sizes, value = [], np.ones((positions.shape[1], 1))
    for k, core in enumerate(cores):
        value = np.einsum("na,anb->nb", value, core[:, positions[k], :])
        sizes.append(float(np.linalg.norm(value)))
    if transpose:
        sizes.reverse()
    return [max(a, b) for a, b in zip(out, sizes)]
