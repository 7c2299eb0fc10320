"""C21: the normalised effective sample sizes."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["up to 4 samples (5 thorough), d = 1-2, weights (scale, zeros, equal) and samples symbolic; tree pyramid and HiDaisee after 1-2 real calls"]
OUTSIDE = ["all weights zero, all samples identical (0/0)", "a single sample for the autocorrelation estimate"]


def of(ctx, kind, n, d, w=None, x=None):
    lo, hi = ctx.A([-5.0] * d), ctx.A([5.0] * d)
    s = mk_sampler(ctx, kind, d, lo, hi)
    s.samples = x if x is not None else ctx.A([[float(i + j) for j in range(d)] for i in range(n)])
    s.weights = w if w is not None else ctx.A([1.0 / n] * n)
    return s


def ref(w):
    return total(w) * total(w) / (len(w) * total([v * v for v in w]))


def approx(ctx, kind, n, zeros=False):
    w = ctx.reals('w', n, 0, 9, lo_open=not zeros, hint=(.05, 3))
    ctx.assume(total(list(w)) > .01)
    s = of(ctx, kind, n, 1, w)
    v = s.get_approx_NESS()
    ctx.check_close("(sum w)^2 / (n sum w^2)", v, ref(list(w)))
    if kind in ('dm', 'lais', 'mpmc', 'hidaisee'):
        ctx.check_close("NESS of importance samplers", s.get_NESS(), ref(list(w)))
    ctx.check("at most 1", v <= 1.0 + 1e-9)
    ctx.check("at least 1/n", v * n >= 1.0 - 1e-9)
    c = ctx.real('scale', 0, 100, lo_open=True, hint=(.1, 9))
    ctx.check_close("scale invariant", of(ctx, kind, n, 1, w * c).get_approx_NESS(), v)
    for a, b in zip(ctx.flat(s.weights), list(w)):
        ctx.check_close("weights untouched", a, b)
    ctx.observe("ness", v)
    ctx.cover("done")


def equal(ctx, kind, n):
    c = ctx.real('w', 0, 9, lo_open=True, hint=(.1, 5))
    s = of(ctx, kind, n, 1, ctx.A([c] * n))
    ctx.check_close("equal weights give 1", s.get_approx_NESS(), 1.0)
    one = ctx.A([c] + [0.0] * (n - 1))
    ctx.check_close("one weight gives 1/n", of(ctx, kind, n, 1, one).get_approx_NESS(), 1.0 / n)
    ctx.cover("done")


def strict(ctx, n):
    """1 only for equal weights"""
    w = ctx.reals('w', n, 0, 9, lo_open=True, hint=(.1, 3))
    v = of(ctx, 'dm', n, 1, w).get_NESS()
    ctx.assume((w[0] - w[1]) * (w[0] - w[1]) > .01)
    ctx.check("below 1 for unequal weights", v < 1.0)
    ctx.cover("done")


def auto_ref(ctx, x):
    """n / (1 + 2 sum rho_t) / n with the variogram estimate of the autocorrelation, cut after the first pair with a negative sum"""
    n, d = len(x), len(x[0])
    mean = [total([r[j] for r in x]) / n for j in range(d)]
    W = total([(r[j] - mean[j]) * (r[j] - mean[j]) for r in x for j in range(d)]) / (n - 1)
    tot, prev, t = 0.0, 0.0, 1
    while t < n:
        V = total([(x[i + t][j] - x[i][j]) * (x[i + t][j] - x[i][j]) for i in range(n - t) for j in range(d)]) / (n - t)
        rho = 1.0 - V / (2.0 * W)
        tot = tot + rho
        if t % 2 == 0 and bool(prev + rho < 0):
            ctx.cover("cut")
            break
        prev = rho
        t += 1
    return 1.0 / (1.0 + 2.0 * tot), W


def spread(ctx, x):
    n = len(x)
    for i in range(1, n):
        ctx.assume((x[i][0] - x[0][0]) * (x[i][0] - x[0][0]) > .01)


def auto(ctx, kind, n, d):
    x = ctx.reals('x', (n, d), -5, 5, hint=(-3, 3))
    rows = rows_of(x)
    spread(ctx, rows)
    want, W = auto_ref(ctx, rows)
    s = of(ctx, kind, n, d, x=x)
    v = s.get_NESS()
    ctx.check_close("autocorrelation NESS", ctx.flat(v)[0] if hasattr(v, 'shape') else v, want, rel=1e-5)
    ctx.observe("v", v)
    ctx.cover("done")


def auto_affine(ctx, kind, n, d):
    """the estimate does not depend on where the samples lie or on their units"""
    x = ctx.reals('x', (n, d), -5, 5, hint=(-3, 3))
    spread(ctx, rows_of(x))
    c = ctx.reals('shift', d, -9, 9)
    k = ctx.real('scale', .1, 9)
    v = of(ctx, kind, n, d, x=x).get_NESS()
    u = of(ctx, kind, n, d, x=x + c).get_NESS()
    z = of(ctx, kind, n, d, x=x * k).get_NESS()
    ctx.check_close("translation invariant", u, v, rel=1e-5)
    ctx.check_close("scale invariant", z, v, rel=1e-5)
    ctx.cover("done")


def entropy(ctx, kind, n, nz=0):
    r = ctx.reals('r', n - nz, 0, 5, lo_open=True, hint=(.1, 3))
    tot = total(list(r))
    w = [v / tot for v in r] + [0.0] * nz
    s = of(ctx, kind, n, 1, ctx.A(w))
    v = s.get_NESS()
    want = ctx.np.exp(-total([p * ctx.np.log(p) for p in w[:n - nz]])) / n
    ctx.check_close("exp(entropy) / n", v, want)
    ctx.finite("finite", v)
    ctx.check("positive", v > 0)
    e = of(ctx, kind, n, 1, ctx.A([1.0 / (n - nz)] * (n - nz) + [0.0] * nz))
    ctx.check_close("equal weights", e.get_NESS(), (n - nz) / n)
    ctx.observe("v", v)
    ctx.cover("done")


def real(ctx, kind, d, ns, **kw):
    lo, hi = domain(ctx, d, cube=True)
    t = Target(ctx, d, lo, hi, two_d=kind == 'tp')
    s = mk_sampler(ctx, kind, d, lo, hi, **kw)
    for n in ns:
        x, w = s.importance_sample(t, n)
        for f in (s.get_NESS, s.get_approx_NESS):
            v = f()
            ctx.check_close("NESS of the samples returned", v, ref(ctx.flat(w)))
    ctx.observe("v", v)
    ctx.cover("done")


CASES = []
for n in (1, 2, 3, 4):
    CASES.append(Case("approx n=%d" % n, approx, dict(kind='mh', n=n), need=("done",)))
for k in ('dm', 'lais', 'mpmc', 'hidaisee'):
    CASES.append(Case("approx %s" % k, approx, dict(kind=k, n=3), need=("done",)))
    CASES.append(Case("zeros %s" % k, approx, dict(kind=k, n=2, zeros=True), need=("done",)))
CASES += [Case("equal n=%d" % n, equal, dict(kind='dm', n=n), need=("done",)) for n in (2, 3, 5)]
CASES += [Case("strict n=%d" % n, strict, dict(n=n), need=("done",)) for n in (2, 3)]
for k in ('mh', 'rejection'):
    CASES += [Case("auto %s n=2" % k, auto, dict(kind=k, n=2, d=1), need=("done",)),
              Case("auto %s n=3" % k, auto, dict(kind=k, n=3, d=1), need=("done", "cut")),
              Case("auto %s n=4" % k, auto, dict(kind=k, n=4, d=1), need=("done", "cut")),
              Case("auto %s n=3 d=2" % k, auto, dict(kind=k, n=3, d=2), need=("done", "cut"))]
CASES += [
    Case("affine n=2", auto_affine, dict(kind='mh', n=2, d=2), need=("done",)),
    Case("affine n=3", auto_affine, dict(kind='mh', n=3, d=1), need=("done",)),
]
for k in ('nested', 'multinested'):
    CASES += [Case("entropy %s n=1" % k, entropy, dict(kind=k, n=1), need=("done",)),
              Case("entropy %s n=3" % k, entropy, dict(kind=k, n=3), need=("done",)),
              Case("entropy %s zero weight" % k, entropy, dict(kind=k, n=3, nz=1), need=("done",))]
CASES += [
    Case("tp", real, dict(kind='tp', d=1, ns=(1, 3), parallel_samples=1), need=("done",)),
    Case("tp leaf", real, dict(kind='tp', d=1, ns=(1, 3), parallel_samples=1, resampling='leaf'), need=("done",)),
    Case("tp d=2", real, dict(kind='tp', d=2, ns=(1, 3), parallel_samples=1), need=("done",)),
    Case("hidaisee", real, dict(kind='hidaisee', d=1, ns=(2, 3)), need=("done",)),
    Case("dm", real, dict(kind='dm', d=1, ns=(2, 3), N=2, K=1), need=("done",)),
    T("approx n=5", approx, dict(kind='dm', n=5)),
    T("strict n=4", strict, dict(n=4)),
    T("auto n=5", auto, dict(kind='mh', n=5, d=1)),
    T("auto n=4 d=2", auto, dict(kind='mh', n=4, d=2)),
    T("affine n=4", auto_affine, dict(kind='mh', n=4, d=1)),
    T("entropy n=5", entropy, dict(kind='nested', n=5, nz=1)),
]
