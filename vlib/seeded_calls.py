"""Seeded entry points of the library, run here or in another process."""
import base64
import io
import json
import os
import random
import sys

import numpy as np


def setup_child():
    """Another machine: other number of CPUs"""
    import multiprocessing

    n = int(os.environ["VERIF_CPUS"])
    os.cpu_count = lambda: n
    multiprocessing.cpu_count = lambda: n
    if hasattr(os, "process_cpu_count"):
        os.process_cpu_count = lambda: n
    allowed = sorted(os.sched_getaffinity(0))
    chosen = {allowed[int(os.environ["VERIF_PIN"]) % len(allowed)]}
    if n == 1:
        os.sched_setaffinity(0, chosen)
    os.sched_getaffinity = lambda pid=0: set(range(n))


def call(case, seed):
    """Arrays that a call returns: (exact-ish parts, assembled dense values)"""
    from vlib import ref
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
    from tt_sketch.tensor import CPTensor, SparseTensor, TensorTrain, TuckerTensor
    from tt_sketch.utils import power_decay_tensor, random_normal

    what = case["what"]
    shape = tuple(case["shape"])
    parts, dense = [], []
    if what in ("stream", "orth", "hmt"):
        m = ref.make_tensor(case["tensor"])
        lt = ref.DRM_TYPES[case["left"]] if case["left"] else None
        rt = ref.DRM_TYPES[case["right"]] if case["right"] else None
        lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
        if what == "hmt":
            res, drm = hmt_sketch(
                m.lib, lr, seed=seed, drm_type=rt, return_drm=True
            )
            drms = [drm]
        else:
            func = stream_sketch if what == "stream" else orthogonal_sketch
            res, *drms = func(
                m.lib,
                lr,
                rr,
                seed=seed,
                left_drm_type=lt,
                right_drm_type=rt,
                return_drm=True,
            )
        if what == "stream":
            parts += list(res.Psi_cores) + list(res.Omega_mats)
        else:
            dense.append(ref.tt_dense(res.cores))
        for drm in drms:
            parts += ref.drm_mats(drm, shape)
    elif what == "drm":
        kwargs = {}
        if case["left"] == "ss":
            kwargs["num_non_zero_per_row"] = tuple(
                max(1, r - 1) for r in case["left_rank"]
            )
        drm = ref.DRM_TYPES[case["left"]](
            tuple(case["left_rank"]),
            transpose=case["transpose"],
            shape=shape,
            seed=seed,
            **kwargs,
        )
        if case["grow"] and hasattr(drm, "increase_rank"):
            drm = drm.increase_rank(tuple(r + 1 for r in case["left_rank"]))
        parts += ref.drm_mats(drm, shape)
    elif what == "tt":
        res = TensorTrain.random(
            shape,
            tuple(case["left_rank"]),
            seed=seed,
            orthog=case["transpose"],
        )
        parts += list(res.cores)
    elif what == "cp":
        parts += list(CPTensor.random(shape, case["left_rank"][0], seed=seed).cores)
    elif what == "tucker":
        res = TuckerTensor.random(shape, case["left_rank"][0], seed=seed)
        parts += [res.core] + list(res.factors)
    elif what == "sparse":
        total = int(np.prod(shape))
        res = SparseTensor.random(shape, max(1, total // 2), seed=seed)
        parts += [np.asarray(res.indices, dtype=float), res.entries]
    elif what == "power":
        parts += [np.asarray(power_decay_tensor(shape, seed=seed))]
    elif what == "normal":
        parts += [random_normal(shape, seed)]
    else:
        raise ValueError(what)
    return parts, dense


def disturb(rng):
    """Use random numbers and the library in some other way"""
    kind = int(rng.integers(0, 5))
    np.random.seed(int(rng.integers(0, 2**32)))
    random.seed(int(rng.integers(0, 2**32)))
    if kind == 1:
        np.random.normal(size=7)
    elif kind == 2:
        from tt_sketch.tensor import SparseTensor, TensorTrain

        SparseTensor.random((3, 4), 5, seed=3)
        TensorTrain.random((3, 4), 2)
    elif kind == 3:
        from tt_sketch.sketch import stream_sketch
        from tt_sketch.tensor import TensorTrain

        stream_sketch(TensorTrain.random((3, 4, 2), 2), 2, 3)
    elif kind == 4:
        from tt_sketch.drm import DenseGaussianDRM

        DenseGaussianDRM(2, (3, 4), False, seed=5)


def pack(arrays):
    out = []
    for a in arrays:
        buf = io.BytesIO()
        np.save(buf, np.ascontiguousarray(a))
        out.append(base64.b64encode(buf.getvalue()).decode())
    return out


def unpack(texts):
    return [np.load(io.BytesIO(base64.b64decode(t))) for t in texts]


def main():
    import warnings

    setup_child()
    warnings.simplefilter("ignore")
    for line in sys.stdin:
        case = json.loads(line)
        np.random.seed(case["state"])
        try:
            with np.errstate(all="ignore"):
                parts, dense = call(case["case"], case["seed"])
            reply = {"parts": pack(parts), "dense": pack(dense)}
        except Exception as exc:
            reply = {"error": f"{type(exc).__name__}: {exc}"}
        sys.stdout.write(json.dumps(reply) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
