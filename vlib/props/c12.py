"""Distribution and independence of DRM entries."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import equal

from tt_sketch.sketch import orthogonal_sketch, stream_sketch
from tt_sketch.tensor import SparseTensor

RULE = (
    "Cases are a DRM type, side, shape, ranks and seeds; thousands of entries "
    "are drawn for each. Sub-check tall: "
    "matrices with many more rows than columns. Non-trivial: at least 500 (tall: 200) "
    "entries entered a statistic."
)
ASSUMPTIONS = [
    "Statistics are compared to their distribution at nine standard deviations "
    "(Kolmogorov-Smirnov: 4.3), which keeps the chance of a false alarm in a "
    "run below 1e-9.",
    "Independence is judged by shared values and by the correlations of all "
    "pairs of rows at all circular shifts.",
]

LIMIT = 9.0
TYPES = ["tt", "dense", "sg", "ss"]


def normal_cdf(x):
    from scipy.special import ndtr

    return ndtr(x)


def check_normal(what, values):
    x = np.sort(values.reshape(-1))
    n = len(x)
    z = abs(x.mean()) * np.sqrt(n)
    require(z < LIMIT, f"{what}: mean is off by {z:.1f} standard deviations")
    z = abs(np.mean(x**2) - 1) * np.sqrt(n / 2)
    require(z < LIMIT + 3, f"{what}: variance is off by {z:.1f} deviations")
    cdf = normal_cdf(x)
    grid = np.arange(n + 1) / n
    ks = np.sqrt(n) * max(np.max(cdf - grid[:-1]), np.max(grid[1:] - cdf))
    require(ks < 4.3, f"{what}: not normally distributed (KS {ks:.1f})")


def cross(what, a, b, same=False):
    """Correlations of all rows of ``a`` with those of ``b``, at all shifts"""
    n = min(a.shape[1], b.shape[1])
    if n < 100:
        return 0
    a, b = a[:, :n], b[:, :n]
    scale = np.sqrt(np.mean(a**2) * np.mean(b**2)) + 1e-300
    fa, fb = np.fft.rfft(a, axis=1), np.fft.rfft(b, axis=1)
    for name, other in (("", fb), (" (reversed)", np.conj(fb))):
        for i in range(a.shape[0]):
            corr = np.fft.irfft(fa[i] * np.conj(other), n=n, axis=1)
            z = np.abs(corr) / (scale * np.sqrt(n))
            if same and name == "":
                z[i, 0] = 0
            if same and name:
                z = z / np.sqrt(2)
            j, shift = np.unravel_index(np.argmax(z), z.shape)
            require(
                z[j, shift] < LIMIT,
                f"{what}: rows {i} and {j} are correlated at shift {shift}{name} "
                f"({z[j, shift]:.1f} standard deviations)",
            )
    return n


def shared(what, a, b):
    """Continuous values in common"""
    common = np.intersect1d(a.reshape(-1), b.reshape(-1))
    require(len(common) == 0, f"{what}: {len(common)} values in common")


@st.composite
def entry_cases(draw):
    d = draw(st.integers(2, 4))
    n = {2: (300, 1500), 3: (18, 40), 4: (7, 12)}[d]
    shape = [draw(st.integers(*n)) for _ in range(d)]
    if d > 2 and draw(st.booleans()):
        shape[draw(st.integers(0, d - 1))] = 1
        k = draw(st.integers(0, d - 1))
        shape[k] = shape[k] * 3
    rank = draw(gen.ranks(d - 1, 6, rmin=2))
    return {
        "type": draw(st.sampled_from(["dense", "sg", "ss", "sg"])),
        "shape": shape,
        "rank": rank,
        "nnz": [draw(st.integers(1, r)) for r in rank],
        "right": draw(st.booleans()),
        "seed": draw(gen.seeds()),
    }


def split_matrix(drm, shape, k):
    """Matrix of one split, through the positions that matter for it"""
    right = bool(drm.transpose)
    modes = shape[k:] if right else shape[:k]
    part = ref.all_positions(modes)
    inds = np.zeros((len(shape), part.shape[1]), dtype=np.int64)
    if right:
        inds[k:] = part
    else:
        inds[:k] = part
    tensor = SparseTensor(tuple(shape), inds, np.ones(part.shape[1]))
    out = list(drm.sketch_sparse(tensor))
    equal("number of contractions", len(out), len(shape) - 1)
    return np.array(out[k - 1], dtype=float)


def check_entries(case):
    shape = tuple(case["shape"])
    d = len(shape)
    drm = ref.make_drm(case, case["rank"], shape, case["right"])
    used = 0
    for k in range(1, d):
        modes = shape[k:] if case["right"] else shape[:k]
        if int(np.prod(modes)) < 250:
            continue
        mat = split_matrix(drm, shape, k)
        what = f"split {k}"
        used += mat.size
        if case["type"] == "ss":
            require(np.all(np.isin(mat, (-1, 0, 1))), f"{what}: other entries")
            m = np.sum(mat != 0)
            z = abs(mat.sum()) / np.sqrt(m)
            require(z < LIMIT, f"{what}: signs are off by {z:.1f} deviations")
        else:
            check_normal(what, mat)
            equal(f"{what}: repeated values", mat.size - len(np.unique(mat)), 0)
        cross(what, mat, mat, same=True)
        # columns: neighbours in each mode are unrelated
        cube = mat.reshape((mat.shape[0],) + tuple(modes))
        for axis in range(1, cube.ndim):
            if cube.shape[axis] < 2:
                continue
            lo = np.take(cube, range(cube.shape[axis] - 1), axis=axis)
            hi = np.take(cube, range(1, cube.shape[axis]), axis=axis)
            var = np.mean(mat**2) ** 2
            z = abs(np.sum(lo * hi)) / np.sqrt(var * lo.size)
            require(
                z < LIMIT,
                f"{what}: neighbouring columns in mode {axis - 1} are correlated",
            )
    return used >= 500, [f"type={case['type']}", f"right={case['right']}"]


@st.composite
def side_cases(draw):
    d = draw(st.integers(2, 7))
    n = draw(st.integers(400, 1500 if d < 5 else 600))
    mid = [draw(st.integers(1, 3 if d < 5 else 2)) for _ in range(d - 2)]
    return {
        "shape": [n] + mid + [n],
        "cube": draw(st.integers(8, 14)),
        "rank": draw(st.integers(2, 5)),
        "gap": draw(st.integers(1, 3)),
        "left": draw(st.sampled_from(TYPES)),
        "right": draw(st.sampled_from(TYPES + ["same", "same"])),
        "how": draw(st.sampled_from(["stream", "orth", "default", "one"])),
        "seed": draw(gen.seeds()),
    }


def sketch_drms(case, shape):
    tensor = SparseTensor(
        shape, np.zeros((len(shape), 1), dtype=np.int64), np.ones(1)
    )
    lt = ref.DRM_TYPES[case["left"]]
    rt = lt if case["right"] == "same" else ref.DRM_TYPES[case["right"]]
    kwargs = {"left_drm_type": lt, "right_drm_type": rt}
    if case["how"] == "default":
        kwargs = {}
    elif case["how"] == "one":
        kwargs = {"right_drm_type": lt}
    func = orthogonal_sketch if case["how"] == "orth" else stream_sketch
    r = case["rank"]
    _, left, right = func(
        tensor, r, r + case["gap"], seed=case["seed"], return_drm=True, **kwargs
    )
    return left, right


def check_sides(case):
    shape = tuple(case["shape"])
    d = len(shape)
    left, right = sketch_drms(case, shape)
    pairs = [(split_matrix(left, shape, 1), split_matrix(right, shape, d - 1))]
    cube = (case["cube"],) * 3
    left, right = sketch_drms(case, cube)
    for k in (1, 2):
        pairs.append((split_matrix(left, cube, 2), split_matrix(right, cube, k)))
    used = 0
    for number, (a, b) in enumerate(pairs):
        # First-split TT matrices are independent entries, later ones are not
        if number == 0 or "tt" not in (
            case["left"],
            case["right"],
        ) and case["how"] != "default":
            used += cross(f"left and right DRM (pair {number})", a, b)
        if left_is_gaussian(a) and left_is_gaussian(b):
            shared(f"left and right DRM (pair {number})", a, b)
    labels = [f"drm={case['left']}|{case['right']}", "how=" + case["how"]]
    return used * pairs[0][0].shape[0] >= 500, labels


def left_is_gaussian(mat):
    return not np.all(np.isin(mat, (-1, 0, 1)))


@st.composite
def seed_cases(draw):
    d = draw(st.integers(2, 3))
    n = draw(st.integers(300, 1200))
    shape = [n] + [draw(st.integers(1, 3)) for _ in range(d - 2)] + [n]
    base = draw(gen.seeds())
    other = draw(
        st.one_of(
            st.sampled_from([1, 2, 3, 4, 5, -1, -2, -3]),
            st.sampled_from([2**8, 2**16, 2**31, 1000, 999983, -(2**16)]),
            st.integers(0, 2**31),
        )
    )
    seed2 = (base + other) % (2**32 - 1)
    return {
        "shape": shape,
        "rank": draw(st.integers(2, 5)),
        "type": draw(st.sampled_from(TYPES)),
        "sides": draw(st.sampled_from(["ll", "rr", "lr", "rl"])),
        "seed": base % (2**32 - 1),
        "seed2": seed2,
    }


def check_seeds(case):
    shape = tuple(case["shape"])
    d = len(shape)
    if case["seed"] == case["seed2"]:
        return False, ["equal seeds"]
    one, two = (
        ref.DRM_TYPES[case["type"]](
            case["rank"], shape, transpose=side == "r", seed=seed
        )
        for side, seed in zip(case["sides"], (case["seed"], case["seed2"]))
    )
    used = 0

    def splits(drm):
        out = []
        for k in range(1, d):
            modes = shape[k:] if drm.transpose else shape[:k]
            if int(np.prod(modes)) <= 4000:
                out.append((k, split_matrix(drm, shape, k)))
        return out

    for k, a in splits(one):
        for j, b in splits(two):
            what = f"split {k} of seed {case['seed']}, split {j} of {case['seed2']}"
            if case["type"] != "ss":
                shared(what, a, b)
            first = [k == (d - 1 if one.transpose else 1)]
            first.append(j == (d - 1 if two.transpose else 1))
            if case["type"] != "tt" or all(first):
                used += cross(what, a, b)
    return used > 200, [f"type={case['type']}", "sides=" + case["sides"]]


@st.composite
def norm_cases(draw):
    d = draw(st.integers(2, 4))
    shape = [draw(st.integers(1, 5)) for _ in range(d)]
    if draw(st.integers(0, 3)) == 0:
        shape[draw(st.integers(0, d - 1))] = 12
    return {
        "type": draw(st.sampled_from(["tt", "tt", "tt", "dense", "sg", "ss"])),
        "shape": shape,
        "rank": [draw(st.integers(4, 9)) for _ in range(d - 1)],
        "steps": [draw(st.sampled_from([1, 2, 3, 8])) for _ in range(d - 1)],
        "right": draw(st.booleans()),
        "fill": draw(gen.weighted(("gauss", 2), ("pos", 1), ("holes", 1))),
        "data": draw(gen.data_seeds()),
        "seed": draw(st.integers(0, 2**31)),
        "stride": draw(st.sampled_from([1, 7, 100003])),
    }


def check_norms(case):
    shape = tuple(case["shape"])
    d = len(shape)
    n_seeds = 260
    right = case["right"]
    vecs = []
    for k in range(1, d):
        modes = shape[k:] if right else shape[:k]
        x = ref.make_array(modes, case["fill"], case["data"], k).reshape(-1)
        if not np.any(x):
            x[0] = 1.0
        vecs.append(x / np.linalg.norm(x))
    ratios = np.zeros((n_seeds, d - 1))
    sums = np.zeros((n_seeds, d - 1))
    for i in range(n_seeds):
        seed = (case["seed"] + i * case["stride"]) % (2**32 - 1)
        drm = ref.DRM_TYPES[case["type"]](
            tuple(case["rank"]), shape, transpose=right, seed=seed
        )
        mats = ref.drm_mats(drm, shape)
        for k in range(d - 1):
            y = mats[k] @ vecs[k]
            ratios[i, k] = np.sum(y**2) / case["rank"][k]
            sums[i, k] = np.sum(y)
    for k in range(d - 1):
        what = f"split {k + 1}"
        x = ratios[:, k]
        # heavy right tail: averages of logarithms would be biased, so compare
        # with the sample deviation and allow for the tail
        z = (x.mean() - 1) / (x.std() / np.sqrt(n_seeds) + 1e-300)
        require(
            -11 < z < LIMIT and 0.4 < x.mean() < 2.5,
            f"{what}: mean squared norm is {x.mean():.3f} ({z:.1f} deviations)",
        )
        y = sums[:, k]
        z = abs(y.mean()) / (y.std() / np.sqrt(n_seeds) + 1e-300)
        require(z < LIMIT, f"{what}: mean is off by {z:.1f} deviations")
    if case["type"] == "tt":
        check_growth(case, case["rank"][:1] + case["steps"][1:], n_seeds)
        check_growth(case, case["steps"], n_seeds)
    return True, [f"type={case['type']}", f"right={right}", f"d={d}"]


def check_growth(case, rank, n_seeds):
    """The norms of consecutive splits' matrices grow as the sizes do

    Given one split's matrix, the squared norm of the next one is an average of
    chi-squared variables of at least (mode size times rank) degrees."""
    shape, right = tuple(case["shape"]), case["right"]
    d = len(shape)
    norms = np.zeros((n_seeds, d - 1))
    for i in range(n_seeds):
        seed = (case["seed"] + i * case["stride"] + 17) % (2**32 - 1)
        drm = ref.DRM_TYPES["tt"](tuple(rank), shape, transpose=right, seed=seed)
        for k, mat in enumerate(ref.drm_mats(drm, shape)):
            norms[i, k] = np.sum(mat**2) / mat.size
    chain = list(range(d - 1))[:: -1 if right else 1]
    for before, after in zip([None] + chain, chain):
        mode = shape[after + 1] if right else shape[after]
        x = norms[:, after]
        if before is not None:
            x = x / norms[:, before]
        z = (x.mean() - 1) * np.sqrt(n_seeds * mode * rank[after] / 2)
        require(
            abs(z) < LIMIT,
            f"split {after + 1} of ranks {rank}: squared norm is {x.mean():.3f} "
            f"times what it has to be on average ({z:.1f} deviations)",
        )


@st.composite
def wide_cases(draw):
    n = draw(gen.weighted(*[(m, 1) for m in (
        1000, 2048, 4096, 4097, 8192, 10000, 16384, 20011, 30000)]))
    n += draw(st.integers(0, 40))
    d = draw(st.integers(2, 3))
    shape = [n, draw(st.integers(2, 4)), draw(st.integers(1, 3))][:d]
    right = draw(st.booleans())
    if right != (draw(st.integers(0, 7)) == 0):
        shape.reverse()
    return {
        "type": draw(gen.weighted(("dense", 3), ("tt", 2), ("sg", 1), ("ss", 1))),
        "shape": shape,
        "rank": draw(st.integers(2, 4)),
        "seed": draw(gen.seeds()),
        "right": right,
    }


def check_wide(case):
    """Tens of thousands of columns"""
    shape = tuple(case["shape"])
    d = len(shape)
    right = case["right"]
    drm = ref.make_drm(case, (case["rank"],) * (d - 1), shape, right)
    used = 0
    for k in range(1, d):
        modes = shape[k:] if right else shape[:k]
        if int(np.prod(modes)) < 900:
            continue
        mat = split_matrix(drm, shape, k)
        used += mat.size
        what = f"split {k} ({mat.shape[1]} columns)"
        if case["type"] == "ss":
            require(np.all(np.isin(mat, (-1, 0, 1))), f"{what}: other entries")
        else:
            equal(f"{what}: repeated values", mat.size - len(np.unique(mat)), 0)
        first = k == (d - 1 if right else 1)
        if case["type"] == "tt" and not first:
            continue
        if case["type"] not in ("ss", "tt"):
            check_normal(what, mat)
        cross(what, mat, mat, same=True)
    return used >= 500, [f"type={case['type']}", "wide"]


@st.composite
def tall_cases(draw):
    """More rows than columns"""
    d = draw(st.integers(2, 4))
    shape = [draw(st.integers(2, 7)) for _ in range(d)]
    return {
        "type": draw(gen.weighted(("dense", 3), ("sg", 2), ("tt", 2))),
        "shape": shape,
        "rank": [
            draw(st.one_of(st.integers(2, 60), st.integers(60, 300)))
            for _ in range(d - 1)
        ],
        "seed": draw(gen.seeds()),
        "right": draw(st.booleans()),
    }


def check_tall(case):
    shape = tuple(case["shape"])
    d = len(shape)
    right = case["right"]
    drm = ref.make_drm(case, case["rank"], shape, right)
    used = 0
    for k in range(1, d):
        mat = split_matrix(drm, shape, k)
        what = f"split {k} ({mat.shape[0]} x {mat.shape[1]})"
        equal(f"{what}: repeated values", mat.size - len(np.unique(mat)), 0)
        equal(f"{what}: values up to the sign", mat.size - len(np.unique(abs(mat))), 0)
        if case["type"] == "tt" and k != (d - 1 if right else 1):
            continue
        if mat.size >= 30:
            check_normal(what, mat)
            used += mat.size
        cross(what, mat.T, mat.T, same=True)
        top = min(mat.shape)
        if top > 1 and 4 * top <= max(mat.shape):
            # As for independent entries: extreme singular values are close to
            # the square roots of the sides, never further than by this
            s = np.linalg.svd(mat, compute_uv=False)
            wide, small = np.sqrt(max(mat.shape)), np.sqrt(top)
            require(
                s[0] < wide + small + 9,
                f"{what}: largest singular value {s[0]:.2f}",
            )
            require(
                s[-1] > wide - small - 9,
                f"{what}: smallest singular value {s[-1]:.2f}",
            )
    return used >= 200, [f"type={case['type']}", "tall"]


SUBS = [
    Sub("tall", lambda tier: tall_cases(), check_tall, 300),
    Sub("wide", lambda tier: wide_cases(), check_wide, 200),
    Sub("entries", lambda tier: entry_cases(), check_entries, 240),
    Sub("sides", lambda tier: side_cases(), check_sides, 240),
    Sub("seeds", lambda tier: seed_cases(), check_seeds, 320),
    Sub("norms", lambda tier: norm_cases(), check_norms, 56),
]
