"""M03: exponential histograms."""
import itertools
import math
from decimal import Decimal, getcontext
from functools import lru_cache
from sys import float_info

from mc.props._metrics import C, D, Reader, metrics, provider
from opentelemetry.sdk.metrics import Histogram
from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View

getcontext().prec = 60
LN2 = Decimal(2).ln()
MINN, MAXN = float_info.min, float_info.max
nxt = math.nextafter
VALS = [1, 2, nxt(2, 4), nxt(2, 1), 1.5, 4, 1024, 1e-300, 1e300, 5e-324, MINN, nxt(MINN, 1), MAXN, 0, -1, -3, -1e200, 0.5]
SMALL = [1, 3, 100, 0.25, -2, -9, 0]
TINY = [1, 2, 4, 16, 0.5]
ODD = [math.nan, 3, -100]
CONFIGS = [(160, 20), (2, 20), (4, 20), (3, 3), (2, 0), (5, -2), (160, 1), (7, 4)]


def CASES(tier):
    q = tier == "quick"
    n = 3 if q else 4
    for c in range(len(CONFIGS)):
        for w in itertools.product(range(len(VALS) + 2), repeat=n):
            yield ("vals", c, w)
    for c in (1, 2, 3) if q else range(len(CONFIGS)):
        for w in itertools.product(range(len(SMALL) + 2), repeat=n + 2):
            yield ("small", c, w)
    for c in (0, 1, 2, 3):
        for w in itertools.product(range(len(TINY) + 2), repeat=n + (2 if q else 3)):
            yield ("tiny", c, w)
    for c in range(4):
        for w in itertools.product(range(len(ODD) + 2), repeat=n + 1):
            yield ("odd", c, w)
    for s in range(-10, 21):
        for k in range(len(EDGES)):
            yield ("edge", s, k)
    for s in range(-10, 21):
        yield ("span", s)
    for bad in ((1, 20), (0, 20), (16385, 20), (4, 21), (4, -11)):
        yield ("cfg", bad)


EDGES = []
for _e in (-1074, -1073, -1060, -1023, -1022, -1021, -1000, -600, -52, -3, -2, -1, 0, 1, 2, 3, 7, 8, 51, 52, 53, 511, 512, 513, 1000, 1022, 1023):
    _v = math.ldexp(1.0, _e)
    EDGES += [x for x in (_v, nxt(_v, 0), nxt(_v, MAXN), _v * 1.25, _v * 1.9999) if 0 < x <= MAXN]
EDGES += [MAXN, 0.1, 1 / 3, 10, 1e-5, 12345.678]


@lru_cache(None)
def near2(v):
    """The power of two within rounding distance of v (but not v itself), else None."""
    m, e = math.frexp(v)
    for x in (math.ldexp(0.5, e), math.ldexp(0.5, e + 1) if e < 1024 else None):
        if x is not None and v != x and abs(v - x) <= 2e-15 * x:
            return math.frexp(x)[1] - 1
    return None


@lru_cache(None)
def idx(v, s, mx):
    """Acceptable indexes at scale s for a value first indexed at some scale in s..mx with one rounding error."""
    r = idx1(v, s)
    if mx > 0 and v >= MINN and near2(v) is not None:
        e = near2(v)
        hi = e << s if s >= 0 else e >> -s
        lo = (e << s) - 1 if s >= 0 else (e - 1) >> -s
        r = r | {hi, lo}
    return r


@lru_cache(None)
def idx1(v, s):
    """Set of acceptable bucket indexes of magnitude v at scale s: (2^(i/2^s), 2^((i+1)/2^s)]."""
    if v < MINN:
        v = MINN
    m, e = math.frexp(v)
    if m == 0.5:  # exact power of two, 2^(e-1)
        e -= 1
        return frozenset([(e << s) - 1 if s >= 0 else (e - 1) >> -s])
    if s <= 0:
        return frozenset([(e - 1) >> -s])
    x = Decimal(v).ln() / LN2 * (1 << s)
    f = int(x.to_integral_value(rounding="ROUND_FLOOR"))
    r = {f}
    if min(x - f, f + 1 - x) < Decimal(2) ** s * Decimal("2e-15") * max(1, abs(e)):
        r |= {f - 1, f + 1} & {f + 1 if f + 1 - x < x - f else f - 1}  # within rounding distance of one boundary
    return frozenset(r)


def spread(vals, s, mx):
    """Buckets needed, whichever way values at a boundary were rounded."""
    if not vals:
        return 0
    lo, hi = min(vals), max(vals)
    return max(idx(hi, s, mx)) - min(idx(lo, s, mx)) + 1 if lo != hi else 1


@lru_cache(None)
def ideal(pos, neg, size, mx):
    s = mx
    while s > -10 and (spread(pos, s, mx) > size or spread(neg, s, mx) > size):
        s -= 1
    return s


def assign(vals, offset, counts, s, mx):
    """Can vals be distributed so that bucket offset+j holds counts[j] of them?"""
    left = {}
    for j, c in enumerate(counts):
        if c:
            left[offset + j] = c
    amb = []
    for v in vals:
        a = idx(v, s, mx)
        if len(a) == 1:
            (i,) = a
            left[i] = left.get(i, 0) - 1
            if left[i] < 0:
                return False
        else:
            amb.append(a)
    for combo in itertools.product(*amb):
        l2 = dict(left)
        for i in combo:
            l2[i] = l2.get(i, 0) - 1
        if all(c == 0 for c in l2.values()):
            return True
    return False


def verify(p, vals, ever, size, mx, ctx, what):
    """p covers exactly vals; ever: everything aggregated into this series so far."""
    pos = [v for v in vals if v > 0]
    neg = [-v for v in vals if v < 0]
    zero = len(vals) - len(pos) - len(neg)
    ctx.check(p.count == len(vals) and p.zero_count == zero and p.count == p.zero_count + sum(p.positive.bucket_counts) + sum(p.negative.bucket_counts),
              "counts", lambda: f"{what}: count {p.count} zero {p.zero_count} {p.positive} {p.negative}; measurements {vals}")
    try:
        tot = math.fsum(vals)
    except OverflowError:
        tot = math.inf
    ctx.check(math.isclose(p.sum, tot, rel_tol=1e-12, abs_tol=1e-12 * max((abs(v) for v in vals), default=0)) or p.sum == tot or any(math.isinf(x) for x in (p.sum, tot)), "sum", lambda: f"{what}: sum {p.sum}, measurements {vals}")
    ctx.check((p.min, p.max) == (min(vals), max(vals)), "minmax", lambda: f"{what}: min/max {p.min} {p.max}; measurements {vals}")
    ctx.check(p.scale <= mx, "scale-max", lambda: f"{what}: scale {p.scale} above the maximum {mx}")
    for name, b, side in (("positive", p.positive, pos), ("negative", p.negative, neg)):
        ctx.check(len(b.bucket_counts) <= size and all(c >= 0 for c in b.bucket_counts), "size", lambda: f"{what}: {name} has {len(b.bucket_counts)} buckets, maximum {size}: {b}")
        ctx.check(assign(side, b.offset, b.bucket_counts, p.scale, mx), "buckets", lambda: f"{what}: {name} {b} at scale {p.scale} does not hold {side}")
    if pos or neg:
        e_ = [v for v in ever if v]
        lo = ideal(tuple(sorted({v for v in e_ if v > 0})), tuple(sorted({-v for v in e_ if v < 0})), size, mx)
        ctx.check(p.scale >= lo, "scale-low", lambda: f"{what}: scale {p.scale} although {vals} (all: {ever}) fit in {size} buckets at scale {lo}")
    ctx.state(p.scale, p.positive.offset, tuple(p.positive.bucket_counts), p.negative.offset, tuple(p.negative.bucket_counts), p.zero_count)


def build(size, mx):
    readers = [Reader(D), Reader(C)]
    v = View(instrument_name="x", aggregation=ExponentialBucketHistogramAggregation(max_size=size, max_scale=mx))
    return readers, provider(readers, (v,)).get_meter("m").create_up_down_counter("x")


def point(r):
    ms = metrics(r.scrape())
    return ms[0][1].data.data_points[0] if ms else None


def run_case(case, ctx):
    ctx.step()
    if case[0] == "cfg":
        # unusable limits are refused when the view is built or its first measurement arrives, never applied
        try:
            readers, inst = build(*case[1])
            inst.add(3)
            p = point(readers[1])
        except Exception:
            return
        ctx.check(case[1] == (4, 21) and p.scale <= 21, "bad-limits", f"{case[1]} accepted: {p}")
        return
    if case[0] == "edge":
        _, s, k = case
        v = EDGES[k]
        readers, inst = build(160, s)
        inst.add(v)
        inst.add(-v)
        for r in readers:
            verify(point(r), [v, -v], [v, -v], 160, s, ctx, f"{v!r} at scale {s}")
        return
    if case[0] == "span":
        # every pair of magnitudes in one two-bucket histogram
        s = case[1]
        for a, b in itertools.product(range(0, len(EDGES), 3), range(1, len(EDGES), 4)):
            readers, inst = build(2, s)
            vals = [EDGES[a], EDGES[b]]
            for v in vals:
                inst.add(v)
            ctx.step()
            for r in readers:
                verify(point(r), vals, vals, 2, s, ctx, f"{vals} from scale {s}")
        return
    kind, c, w = case
    size, mx = CONFIGS[c]
    alpha = {"vals": VALS, "small": SMALL, "tiny": TINY, "odd": ODD}[kind]
    readers, inst = build(size, mx)
    ever, since = [], [[], []]
    n = len(alpha)
    nan = False
    for i in list(w) + [n, n + 1]:
        ctx.step()
        if i < n:
            inst.add(alpha[i])
            if alpha[i] != alpha[i]:
                nan = True  # ignored
                continue
            ever.append(alpha[i])
            since[0].append(alpha[i])
            continue
        r = i - n
        vals = since[0] if r == 0 else ever
        p = point(readers[r])
        ctx.check((p is not None) == bool(vals) or (nan and not ever and p.count == 0), "presence", lambda: f"{case}: point {p} for {vals}")
        if p is not None and vals:
            verify(p, vals, ever, size, mx, ctx, f"max_size {size} max_scale {mx} history {[alpha[j] if j < n else ('collect-delta', 'collect-cumulative')[j - n] for j in w]} {('delta', 'cumulative')[r]}")
        if r == 0:
            since[0] = []
