"""Hypothesis strategies for JSON-able case descriptions."""
from hypothesis import strategies as st

ints = st.integers


def weighted(*pairs):
    """sampled_from with weights, simplest first"""
    values = []
    for value, weight in pairs:
        values += [value] * weight
    return st.sampled_from(values)


FILLS = weighted(
    ("gauss", 6), ("int", 3), ("pos", 1), ("holes", 2), ("decay", 1)
)
FILLS_ALL = weighted(
    ("gauss", 6),
    ("int", 3),
    ("pos", 1),
    ("holes", 2),
    ("decay", 1),
    ("ones", 1),
    ("zero", 1),
)
LAYOUTS = weighted(("C", 5), ("F", 2), ("S", 1), ("R", 1))
SCALES = weighted((1.0, 8), (1e-6, 1), (1e5, 1), (-3.5, 2), (1e-12, 1), (1e9, 1))


class Large:
    """Factors of the sizes, while a large case is drawn"""

    on = False
    size, mode, rank, nnz, terms = 30, 5, 6, 100, 5

    @classmethod
    def times(cls, number, what):
        return number * getattr(cls, what) if cls.on and number is not None else number


@st.composite
def large(draw, strategy):
    """Cases of the strategy with larger shapes, ranks and numbers of terms"""
    before, Large.on = Large.on, True
    try:
        return draw(strategy)
    finally:
        Large.on = before


def seeds():
    return st.one_of(
        ints(0, 40),
        ints(0, 2**32 - 1),
        st.sampled_from([2**31 - 1, 2**31, 2**32 - 3, 2**32 - 2]),
    )


def data_seeds():
    return ints(0, 10**6)


@st.composite
def shapes(draw, dmin=2, dmax=5, size=400, mode=7, big=0.1, ones=True):
    """Shapes with at most ``size`` entries, modes of 1 and long modes too"""
    size, mode = Large.times(size, "size"), Large.times(mode, "mode")
    d = draw(weighted(*[(k, 3 if 3 <= k <= 4 else 2) for k in range(dmin, dmax + 1)]))
    kind = draw(ints(0, 99))
    out = []
    left = size
    if dmax >= 5 and kind >= (70 if Large.on else 93):  # many short modes
        top = min(13 if Large.on else 10, size.bit_length() - 1)
        longest = draw(ints(2, 3))
        for _ in range(draw(ints(6, max(6, top)))):
            n = draw(ints(1, max(1, min(longest, left))))
            out.append(n)
            left //= n
        return out
    if kind < 100 * big:  # one long mode
        n = draw(ints(min(12, size), max(min(12, size), size // 2 ** (d - 1))))
        pos = draw(ints(0, d - 1))
        left = size // n
        for k in range(d):
            if k == pos:
                out.append(n)
            else:
                m = draw(ints(1, max(1, min(3, left))))
                out.append(m)
                left //= m
        return out
    lo = 1 if ones and draw(ints(0, 3)) == 0 else 2
    if 50 <= kind < 57:  # equal modes
        top = 2
        while (top + 1) ** d <= left and top < mode:
            top += 1
        if top**d <= left:
            return [draw(ints(2, top))] * d
    for k in range(d):
        rest = 2 ** (d - k - 1)
        cap = max(1, min(mode, left // rest))
        n = draw(ints(min(lo, cap), cap))
        out.append(n)
        left //= n
    if draw(st.booleans()):
        out.reverse()
    return out


@st.composite
def many_shapes(draw, size=3000):
    """Six to nine modes, most of them of 2 or 3"""
    out, left = [], size
    for _ in range(draw(ints(6, 9))):
        n = min(left, draw(weighted((2, 4), (3, 4), (4, 1), (1, 1))))
        out.append(n)
        left //= n
    return out


@st.composite
def ranks(draw, n, rmax=5, rmin=1):
    """One rank per split"""
    if Large.on and draw(ints(0, 2)) > 0:
        rmax = Large.times(rmax, "rank")
    kind = draw(ints(0, 3))
    if kind == 0:
        r = draw(ints(rmin, rmax))
        return [r] * n
    return [draw(ints(rmin, rmax)) for _ in range(n)]


@st.composite
def high_ranks(draw, n):
    """Ranks of up to some hundreds, around powers of two and ten"""
    around = st.sampled_from([16, 32, 64, 100, 128, 200, 255, 256, 300, 512])
    one = draw(around) + draw(ints(-1, 2))
    if draw(ints(0, 2)) == 0:
        return [one] * n
    return [
        draw(st.one_of(st.just(one), ints(1, 9), ints(10, 300))) for _ in range(n)
    ]


@st.composite
def tensor_of(
    draw,
    shape,
    fmts=("sparse", "tt", "dense", "cp", "tucker"),
    fills=FILLS_ALL,
    rmax=5,
    scales=SCALES,
    layouts=LAYOUTS,
    nnz_max=None,
    sums=True,
    max_terms=3,
):
    """Description of a tensor of the given shape"""
    fmts = list(fmts)
    nnz_max = Large.times(nnz_max, "nnz")
    choice = draw(ints(0, len(fmts) + (1 if sums else 0) - 1))
    if choice >= len(fmts):
        n = draw(ints(1, Large.times(max_terms, "terms")))
        if Large.on and draw(st.booleans()):
            fmts = [draw(st.sampled_from(fmts))]
        terms = [
            draw(
                tensor_of(
                    shape,
                    fmts,
                    fills,
                    rmax,
                    weighted((1.0, 3), (-2.0, 1), (1e-3, 1)),
                    layouts,
                    nnz_max,
                    sums=False,
                )
            )
            for _ in range(n)
        ]
        spec = {"fmt": "sum", "terms": terms, "shape": list(shape)}
        if draw(ints(0, 3)) == 0:  # the same object twice
            spec["again"] = draw(ints(0, n - 1))
        return spec
    fmt = fmts[choice]
    spec = {
        "fmt": fmt,
        "shape": list(shape),
        "fill": draw(fills),
        "seed": draw(data_seeds()),
        "scale": draw(scales),
        "layout": draw(layouts),
    }
    if spec["fill"] in ("int", "ones", "zero"):
        spec["ints"] = draw(st.booleans())  # stored as integers
    d = len(shape)
    if fmt == "tt":
        spec["rank"] = draw(ranks(d - 1, rmax))
        spec["scale_at"] = draw(ints(0, d - 1))
    elif fmt == "cp":
        spec["rank"] = draw(ints(1, Large.times(rmax, "rank")))
    elif fmt == "tucker":
        top = min(rmax, 4 if d <= 6 else 2)
        spec["rank"] = [draw(ints(1, max(1, top))) for _ in range(d)]
    elif fmt == "sparse":
        total = 1
        for n in shape:
            total *= n
        cap = total if nnz_max is None else min(total, nnz_max)
        spec["nnz"] = draw(
            st.one_of(ints(0, min(cap, 12)), ints(0, cap), st.just(cap))
        )
        if Large.on and cap > 1000 and draw(st.booleans()):
            around = draw(st.sampled_from([1000, 1024, 2048, 4096, 5000, 8192, 10000]))
            spec["nnz"] = min(cap, around + draw(ints(-1, 1)))
        spec["order"] = draw(st.sampled_from(["random", "sorted"]))
        spec["idx"] = draw(st.sampled_from(["array", "tuple", "F"]))
        spec["dtype"] = draw(
            weighted(("int64", 6), ("int32", 1), ("uint32", 1), ("uint64", 1),
                     ("uint8", 2), ("int16", 1), ("int8", 1), ("uint16", 1))
        )
    return spec


@st.composite
def drm_spec(draw, types=("tt", "dense", "sg", "ss"), n=None, cores=False):
    spec = {"type": draw(st.sampled_from(list(types))), "seed": draw(seeds())}
    if spec["type"] == "tt" and cores and draw(ints(0, 3)) == 0:
        # A given TT, also one with zero rows
        spec["cores"] = draw(st.sampled_from(["holes", "gauss", "ones", "small"]))
    if spec["type"] == "ss" and n is not None and draw(st.booleans()):
        spec["nnz"] = [draw(ints(1, 6)) for _ in range(n)]
    return spec


def drm_types_for(fmts):
    """DRM types that support all the formats"""
    from vlib.ref import DRM_FORMATS

    return [t for t in ("tt", "dense", "sg", "ss") if set(fmts) <= DRM_FORMATS[t]]


def formats_in(spec):
    if spec["fmt"] == "sum":
        out = set()
        for term in spec["terms"]:
            out |= formats_in(term)
        return out
    return {spec["fmt"]}


@st.composite
def rank_pair(draw, n, rmax=5, gap=4):
    """Left and right ranks that are consistently ordered"""
    gap = Large.times(gap, "terms")
    small = draw(ranks(n, rmax))
    large = [r + draw(ints(1, gap)) for r in small]
    if draw(ints(0, 2)) == 0:
        return large, small
    return small, large


def size_of(shape):
    total = 1
    for n in shape:
        total *= n
    return total
