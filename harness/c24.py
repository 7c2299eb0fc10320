"""C24: the Jensen-Shannon divergence."""
from vf.runner import Case, T
from harness.lib import *
from harness.c23 import setup, points, positive, norm, simplex

BOUNDS = ["1-3 evaluation points (4 thorough), d = 1-2; both densities (including zeros), support and evaluation points symbolic"]
OUTSIDE = ["infinite densities"]


def js(ctx, pairs):
    l = ctx.np.log
    t = 0.0
    for a, b in pairs:
        m = (a + b) / 2
        t = t + .5 * a * (l(a) - l(m)) + .5 * b * (l(b) - l(m))
    return t / math.log(2)


def run(ctx, n, d, zeros=False):
    lo, hi, p, q = setup(ctx, n, d, zeros)
    m = ctx.mod('metrics.divergences').CJSDivergence()
    v = m.compute(p=p, q=q, nsamples=n)
    pts = points(ctx, lo, hi, n, d)
    same_multiset(ctx, "both densities are asked about the same points", p.points, q.points)
    same_multiset(ctx, "points drawn uniformly over p's support", p.points, pts)
    pairs = positive(ctx, p, q, pts)
    if not pairs:
        ctx.check_close("1 without overlap", v, 1.0)
        ctx.check_close("value kept", m.value, 1.0)
        ctx.cover("disjoint")
        return
    if len(pairs) < n:
        ctx.cover("partial")
    P = norm(ctx, pairs)
    ctx.check_close("the divergence to the midpoint", v, js(ctx, P))
    ctx.check_close("value kept", m.value, v)
    ctx.observe("js", v)
    ctx.cover("done")


def bounds(ctx, n, upper):
    """0 <= JSD <= 1, from the bounds of the logarithm"""
    lo, hi = domain(ctx, 1)
    p, q = simplex(ctx, n, 'p', lo, hi), simplex(ctx, n, 'q', lo, hi)
    v = ctx.mod('metrics.divergences').CJSDivergence().compute(p=p, q=q, nsamples=n)
    l = ctx.np.log
    for a, b in [(p.at(r), q.at(r)) for r in points(ctx, lo, hi, n, 1)]:
        m = (a + b) / 2
        for c in (a, b):
            if upper:
                ctx.assume(c * (l(c) - l(m)) <= c * (math.log(2) + 1e-12))       # a and b are below 2 m
            else:
                ctx.assume(c * (l(c) - l(m)) >= c - m - (0 if ctx.symbolic else 1e-9))
    if upper:
        ctx.check("at most 1", v <= 1.0 + 1e-9)
    else:
        ctx.check("at least 0", v >= -1e-9)
    ctx.cover("done")


def same(ctx, n, d):
    lo, hi = domain(ctx, d)
    p = Target(ctx, d, lo, hi, name='p', two_d=True)
    c = ctx.real('c', 0, 9, lo_open=True, hint=(.1, 5))
    q = Target(ctx, d, lo, hi, name='q', two_d=True, value=lambda r: p.at(r) * c)
    v = ctx.mod('metrics.divergences').CJSDivergence().compute(p=p, q=q, nsamples=n)
    ctx.check_close("zero for the same distribution", v, 0.0)
    ctx.cover("done")


def sym(ctx, n, d, zeros):
    lo, hi, p, q = setup(ctx, n, d, zeros)
    np, M = ctx.np, ctx.mod('metrics.divergences')
    np.random.seed(3)
    v = M.CJSDivergence().compute(p=p, q=q, nsamples=n)
    np.random.seed(3)
    w = M.CJSDivergence().compute(p=q, q=p, nsamples=n)
    ctx.check_close("symmetric", v, w)
    ctx.cover("done")


def scale(ctx, n):
    lo, hi, p, q = setup(ctx, n, 1, False)
    c = ctx.real('c', 0, 9, lo_open=True, hint=(.1, 5))
    q2 = Target(ctx, 1, lo, hi, name='q2', two_d=True, value=lambda r: q.at(r) * c)
    np, M = ctx.np, ctx.mod('metrics.divergences')
    np.random.seed(3)
    v = M.CJSDivergence().compute(p=p, q=q, nsamples=n)
    np.random.seed(3)
    w = M.CJSDivergence().compute(p=p, q=q2, nsamples=n)
    ctx.check_close("scale invariant", v, w)
    ctx.cover("done")


class Nan(Target):
    """not a number at its first point"""

    def prob(self, x):
        v = list(super().prob(x))
        v[0] = math.nan
        return self.ctx.A(v)


def nan(ctx, n):
    """a point without a density on one side is left out"""
    lo, hi = domain(ctx, 1)
    p = Target(ctx, 1, lo, hi, name='p', two_d=True)
    q = Nan(ctx, 1, lo, hi, name='q', two_d=True)
    v = ctx.mod('metrics.divergences').CJSDivergence().compute(p=p, q=q, nsamples=n)
    pts = points(ctx, lo, hi, n, 1)[1:]
    ctx.check_close("NaN points left out", v, js(ctx, norm(ctx, [(p.at(r), q.at(r)) for r in pts])))
    ctx.cover("done")


def state(ctx):
    lo, hi, p, q = setup(ctx, 2, 1, False)
    r = Target(ctx, 1, lo, hi, name='r', two_d=True)
    np, M = ctx.np, ctx.mod('metrics.divergences')
    m = M.CJSDivergence()
    m.compute(p=p, q=r, nsamples=2)
    np.random.seed(3)
    v = m.compute(p=p, q=q, nsamples=2)
    np.random.seed(3)
    w = M.CJSDivergence().compute(p=p, q=q, nsamples=2)
    ctx.check_close("no memory", v, w)
    ctx.check_close("value", m.value, v)
    ctx.check("name", m.name == "JSD" and m.type == "divergence")
    ctx.cover("done")


CASES = [
    Case("n=1", run, dict(n=1, d=1), need=("done",)),
    Case("n=2", run, dict(n=2, d=1), need=("done",)),
    Case("n=3", run, dict(n=3, d=1), need=("done",)),
    Case("n=2 d=2", run, dict(n=2, d=2), need=("done",)),
    Case("zeros n=1", run, dict(n=1, d=1, zeros=True), need=("done", "disjoint")),
    Case("zeros n=2", run, dict(n=2, d=1, zeros=True), need=("done", "disjoint", "partial")),
    Case("zeros n=3", run, dict(n=3, d=1, zeros=True), need=("done", "disjoint", "partial")),
    Case("lower n=2", bounds, dict(n=2, upper=False), need=("done",)),
    Case("lower n=3", bounds, dict(n=3, upper=False), need=("done",)),
    Case("upper n=2", bounds, dict(n=2, upper=True), need=("done",)),
    Case("upper n=3", bounds, dict(n=3, upper=True), need=("done",)),
    Case("same n=1", same, dict(n=1, d=1), need=("done",)),
    Case("same n=3", same, dict(n=3, d=2), need=("done",)),
    Case("symmetric n=2", sym, dict(n=2, d=1, zeros=True), need=("done",)),
    Case("symmetric n=3", sym, dict(n=3, d=1, zeros=False), need=("done",)),
    Case("scale n=2", scale, dict(n=2), need=("done",)),
    Case("nan n=2", nan, dict(n=2), need=("done",)),
    Case("nan n=3", nan, dict(n=3), need=("done",)),
    Case("state", state, {}, need=("done",)),
    T("n=4", run, dict(n=4, d=2)),
    T("zeros n=4", run, dict(n=4, d=1, zeros=True)),
    T("lower n=4", bounds, dict(n=4, upper=False)),
    T("upper n=4", bounds, dict(n=4, upper=True)),
    T("symmetric zeros n=3", sym, dict(n=3, d=1, zeros=True)),
]
