"""C25: the expected-value error is the squared distance of the two self-normalised means."""
from vf.runner import Case, T
from harness.lib import *
from harness.c23 import setup, points

BOUNDS = ["1-4 evaluation points (6 thorough), d = 1-3; both densities (zeros included), support and evaluation points symbolic"]
OUTSIDE = ["densities that are zero at every evaluated point", "NaN densities"]


def means(pts, w):
    s = total(w)
    return [total([r[j] * v for r, v in zip(pts, w)]) / s for j in range(len(pts[0]))]


def run(ctx, n, d, zeros=False):
    lo, hi, p, q = setup(ctx, n, d, zeros)
    if zeros:
        p.on_rows = lambda rows: ctx.assume(total([p.at(r) for r in rows]) > .01)
        q.on_rows = lambda rows: ctx.assume(total([q.at(r) for r in rows]) > .01)
    m = ctx.mod('metrics.statistics').CExpectedValueMSE()
    v = m.compute(p=p, q=q, nsamples=n)
    pts = points(ctx, lo, hi, n, d)
    same_multiset(ctx, "both densities are asked about the same points", p.points, q.points)
    same_multiset(ctx, "points drawn uniformly over p's support", p.points, pts)
    a, b = means(pts, [p.at(r) for r in pts]), means(pts, [q.at(r) for r in pts])
    ctx.check_close("squared distance of the means", v, total([(x - y) * (x - y) for x, y in zip(a, b)]))
    ctx.check_close("value kept", m.value, v)
    if n * d <= 2:
        ctx.check("not negative", v >= -1e-9)
    ctx.check("one number", not getattr(v, 'shape', ()), "shape %s" % (getattr(v, 'shape', ()),))
    ctx.observe("v", v)
    ctx.cover("done")


def same(ctx, n, d):
    lo, hi = domain(ctx, d)
    p = Target(ctx, d, lo, hi, name='p', two_d=True)
    c = ctx.real('c', 0, 9, lo_open=True, hint=(.1, 5))
    q = Target(ctx, d, lo, hi, name='q', two_d=True, value=lambda r: p.at(r) * c)
    v = ctx.mod('metrics.statistics').CExpectedValueMSE().compute(p=p, q=q, nsamples=n)
    ctx.check_close("zero for the same distribution", v, 0.0)
    ctx.cover("done")


def sym(ctx, n, d):
    lo, hi, p, q = setup(ctx, n, d, False)
    np, M = ctx.np, ctx.mod('metrics.statistics')
    np.random.seed(3)
    m = M.CExpectedValueMSE()
    v = m.compute(p=p, q=q, nsamples=n)
    m.pre()
    m.post()
    ctx.check_close("pre and post leave the value", m.value, v)
    np.random.seed(3)
    w = m.compute(p=q, q=p, nsamples=n)
    ctx.check_close("symmetric", v, w)
    ctx.check("name", m.name == "EVMSE" and m.type == "statistics")
    ctx.cover("done")


CASES = [Case("n=%d d=%d" % (n, d), run, dict(n=n, d=d), need=("done",)) for n, d in ((1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3))]
CASES += [
    Case("zeros n=2", run, dict(n=2, d=1, zeros=True), need=("done",)),
    Case("zeros n=3", run, dict(n=3, d=2, zeros=True), need=("done",)),
    Case("same n=2", same, dict(n=2, d=1), need=("done",)),
    Case("same n=3", same, dict(n=3, d=2), need=("done",)),
    Case("symmetric n=2", sym, dict(n=2, d=2), need=("done",)),
    Case("symmetric n=3", sym, dict(n=3, d=1), need=("done",)),
    T("n=6 d=1", run, dict(n=6, d=1)),
    T("n=4 d=3", run, dict(n=4, d=3)),
]
