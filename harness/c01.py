"""C01: every closed-form distribution evaluates its textbook density, everywhere."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["batches of 1-2 points; Normal d=1,2 with any covariance (det > 1e-3), d=3 diagonal; Uniform and Exponential "
          "d=1,2 (3 in thorough); every parameter and every coordinate a real variable in a stated box; points far out (log densities below -746) with exp underflowing to 0"]
OUTSIDE = ['batches of more rows or dimensions', 'degenerate covariances (determinant below 1e-3)', 'floating-point rounding']


def pts(ctx, n, d, lo=-12, hi=12):
    return ctx.reals('x', (n, d), lo, hi)


def check(ctx, p, lp, i, ref, logref):
    ctx.check_close("prob", p[i], ref)
    ctx.check_close("log_prob", lp[i], logref)


def normal(ctx, d, n, kind):
    dist, mean, cov = mk_normal(ctx, d, kind)
    x = pts(ctx, n, d)
    lp = dist.log_prob(x)
    p = dist.prob(x)
    for i in range(n):
        lr = normal_logpdf(ctx, x[i], mean, cov)
        check(ctx, p, lp, i, ctx.np.exp(lr), lr)
    ctx.observe("lp", lp)


def far(ctx, d, n):
    """where the density underflows to 0 the log density is still exact"""
    D = ctx.mod('distributions')
    mean = ctx.reals('N.mean', d, -4, 4)
    var = ctx.reals('N.var', d, .5, 1.5)
    dist = D.CMultivariateNormal({"mean": mean, "sigma": ctx.np.diag(var)})
    x = ctx.reals('x', (n, d), 70, 200)
    ctx.underflow()
    lp, p = dist.log_prob(x), dist.prob(x)
    cov = ctx.np.diag(var)
    for i in range(n):
        ctx.check_close("log_prob far out", lp[i], normal_logpdf(ctx, x[i], mean, cov))
        ctx.check("prob far out", bool(p[i] == 0), "%s" % p[i])


def uniform(ctx, d, n, scalar):
    dist, c, r = mk_uniform(ctx, d, scalar)
    x = pts(ctx, n, d)
    lp, p = dist.log_prob(x), dist.prob(x)
    vol = prod(2 * v for v in r)
    for i in range(n):
        s = inside(x[i], [c[j] - r[j] for j in range(d)], [c[j] + r[j] for j in range(d)])
        if s is None:
            continue            # the boundary has measure zero: either value is a version of the density
        ctx.cover("in" if s else "out")
        check(ctx, p, lp, i, 1 / vol if s else 0.0, -ctx.np.log(vol) if s else -math.inf)
    ctx.observe("p", p)
    ctx.observe("lp", lp)


def expo(ctx, d, n, bench):
    if bench:
        dist, m = ctx.mod('distributions').BenchDenExponential({}), [1.0]
    else:
        dist, m = mk_exp(ctx, d)
    x = pts(ctx, n, d)
    lp, p = dist.log_prob(x), dist.prob(x)
    for i in range(n):
        neg = any([bool(x[i, j] < 0) for j in range(d)])
        if neg:
            ctx.cover("out")
            check(ctx, p, lp, i, 0.0, -math.inf)
        elif any([bool(x[i, j] == 0) for j in range(d)]):
            continue
        else:
            ctx.cover("in")
            lr = total(-ctx.np.log(m[j]) - x[i, j] / m[j] for j in range(d))
            check(ctx, p, lp, i, ctx.np.exp(lr), lr)
    ctx.observe("p", p)
    ctx.observe("lp", lp)


def bench(ctx, which, n):
    D = ctx.mod('distributions')
    np = ctx.np
    dist = getattr(D, which)({"dims": 2 if which == 'Banana2D' else 1})
    d = dist.dims
    x = pts(ctx, n, d, -25, 25)
    lp, p = dist.log_prob(x), dist.prob(x)
    for i in range(n):
        v = x[i, 0]
        if which == 'BenchDenUniform':
            s = inside([v], [0.0], [1.0])
            if s is None:
                continue
            ctx.cover("in" if s else "out")
            check(ctx, p, lp, i, 1.0 if s else 0.0, 0.0 if s else -math.inf)
        elif which == 'BenchDenMaxwell':
            if bool(v < 0):
                ctx.cover("out")
                check(ctx, p, lp, i, 0.0, -math.inf)
            elif bool(v > 0):
                ctx.cover("in")
                lr = np.log(v) - v * v / 2
                check(ctx, p, lp, i, np.exp(lr), lr)
        elif which == 'BenchDenLaplace':
            lr = -math.log(2) - (v if bool(v >= 0) else -v)
            check(ctx, p, lp, i, np.exp(lr), lr)
        elif which == 'BenchDenSymmetricPareto':
            a = 1 + (v if bool(v >= 0) else -v)
            r = 1 / (4 * a * np.sqrt(a))
            check(ctx, p, lp, i, r, np.log(r))
        else:
            lr = -0.5 * (0.03 * x[i, 0] ** 2 + (x[i, 1] + 0.03 * (x[i, 0] ** 2 - 100)) ** 2)
            check(ctx, p, lp, i, np.exp(lr), lr)
    ctx.observe("p", p)
    ctx.observe("lp", lp)


CASES = [Case("normal-d%d-%s" % (d, k), normal, dict(d=d, n=n, kind=k))
         for d, k, n in ((1, 'full', 2), (2, 'full', 2), (3, 'diag', 2))]
CASES += [Case("normal-far-d%d" % d, far, dict(d=d, n=2)) for d in (1, 2)]
CASES += [Case("uniform-d%d-%s" % (d, "scalar" if s else "vector"), uniform, dict(d=d, n=2, scalar=s), need=("in", "out"))
          for d in (1, 2) for s in (False, True)]
CASES += [Case("exponential-d%d" % d, expo, dict(d=d, n=2, bench=False), need=("in", "out")) for d in (1, 2)]
CASES += [Case("benchden-exponential", expo, dict(d=1, n=2, bench=True), need=("in", "out"))]
CASES += [Case(w, bench, dict(which=w, n=2)) for w in ('BenchDenUniform', 'BenchDenMaxwell', 'BenchDenLaplace',
                                                       'BenchDenSymmetricPareto', 'Banana2D')]
CASES += [T("uniform-d3-vector", uniform, dict(d=3, n=2, scalar=False)), T("exponential-d3", expo, dict(d=3, n=2, bench=False)),
          T("normal-d2-n4", normal, dict(d=2, n=4, kind='full')), T("uniform-d2-n3", uniform, dict(d=2, n=3, scalar=False)),
          T("normal-d6", normal, dict(d=6, n=2, kind='diag'))]
