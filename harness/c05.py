"""C05: sample(n) returns n x d draws from the distribution's own current parameters, inside its support."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["n = 1-3 samples (5 in thorough), d = 1-3, symbolic parameters, every value the random source can return"]
OUTSIDE = ['the statistical quality of the random source itself', 'CKernelDensity, CNearestNeighbor (no sampler of their own)']


def uniform(ctx, d, n, scalar, bench=False):
    D = ctx.mod('distributions')
    if bench:
        dist = D.BenchDenUniform({})
        lo, hi = [0.0], [1.0]
    else:
        dist, c, r = mk_uniform(ctx, d, scalar)
        lo, hi = [c[j] - r[j] for j in range(d)], [c[j] + r[j] for j in range(d)]
    ctx.draws.clear()
    s = dist.sample(n)
    ctx.check_shape("shape", s, (n, d))
    us = [u for dr in ctx.draws if dr.kind == 'uniform' for u in ctx.flat(dr.args['u'])]
    ctx.check("one draw per coordinate", len(us) == n * d, "%d uniform draws for %d coordinates" % (len(us), n * d))
    k = 0
    for i in range(n):
        for j in range(d):
            ctx.check("in-support", s[i, j] >= lo[j])
            ctx.check("in-support", s[i, j] <= hi[j])
            ctx.check_close("spread", (s[i, j] - lo[j]) / (hi[j] - lo[j]), us[k])
            k += 1
    p = dist.prob(s)
    for i in range(n):
        ctx.check("own samples have density", p[i] > 0, "a sample has density zero")
    ctx.observe("s", s)


def normal(ctx, d, n, kind, default=False):
    dist, mean, cov = mk_normal(ctx, d, kind)
    ctx.draws.clear()
    s = dist.sample() if default else dist.sample(n)
    ctx.check_shape("shape", s, (n, d))
    dr = [x for x in ctx.draws if x.kind in ('mvn', 'normal')]
    rows = []
    for x in dr:
        if x.kind == 'mvn':
            ctx.check_all_close("mean", x.args['mean'], mean)
            ctx.check_all_close("covariance", x.args['cov'], cov)
            v = x.value.reshape(-1, d)
            rows += [[v[i, j] for j in range(d)] for i in range(len(v))]
    if rows:
        ctx.check("as many draws as samples", len(rows) == n, "%d draws" % len(rows))
        for i in range(n):
            ctx.check_all_close("sample", s[i], rows[i])
    else:
        # standard normals mapped linearly: x = mean + A z with A A^T = cov
        z = [v for x in dr for v in ctx.flat(x.args['z'])]
        ctx.check("random", len(z) >= n * d, "only %d normal draws" % len(z))
    ctx.observe("s", s)


def expo(ctx, d, n, bench):
    D = ctx.mod('distributions')
    if bench:
        dist, m = D.BenchDenExponential({}), [1.0]
    else:
        dist, m = mk_exp(ctx, d)
    ctx.draws.clear()
    s = dist.sample(n)
    ctx.check_shape("shape", s, (n, d))
    es = [e for dr in ctx.draws if dr.kind == 'exponential' for e in ctx.flat(dr.args['e'])]
    ctx.check("one draw per coordinate", len(es) == n * d, "%d draws for %d coordinates" % (len(es), n * d))
    k = 0
    for i in range(n):
        for j in range(d):
            ctx.check_close("scaled", s[i, j], m[j] * es[k])
            k += 1
            ctx.check("in-support", s[i, j] >= 0)
    ctx.observe("s", s)


def mixture(ctx, d, n):
    mx, comps, w = mk_mixture(ctx, d, 2)
    ctx.draws.clear()
    s = mx.sample(n)
    ctx.check_shape("shape", s, (n, d))
    rows = [[v for v in r] for x in ctx.draws if x.kind == 'mvn' for r in x.value.reshape(-1, d)]
    ctx.check("independent rows", len(rows) == n, "%d component draws for %d samples" % (len(rows), n))
    ctx.observe("s", s)


def twice(ctx, kind, d, n):
    """two calls give fresh draws, not the same object or values"""
    dist = {'normal': mk_normal, 'uniform': mk_uniform, 'exponential': mk_exp}[kind](ctx, d)[0]
    a = dist.sample(n)
    keep = list(ctx.flat(a))
    b = dist.sample(n)
    for x, y in zip(keep, ctx.flat(a)):
        ctx.check_close("first call unchanged", x, y)
    ctx.check_shape("shape", b, (n, d))
    n0 = ctx.flat(a)
    ctx.check("fresh draws", any(ctx.is_sym(x - y) or abs(x - y) > 0 for x, y in zip(n0, ctx.flat(b))), "the same values again")
    ctx.observe("b", b)


CASES = [Case("uniform-d%d-n%d-%s" % (d, n, s), uniform, dict(d=d, n=n, scalar=s)) for d, n, s in
         ((1, 1, False), (1, 3, False), (2, 2, False), (2, 2, True), (3, 2, False))]
CASES += [Case("benchden-uniform", uniform, dict(d=1, n=2, scalar=False, bench=True))]
CASES += [Case("normal-d%d-n%d" % (d, n), normal, dict(d=d, n=n, kind='diag' if d > 2 else 'full')) for d, n in ((1, 1), (1, 3), (2, 2), (3, 2))]
CASES += [Case("normal-default", normal, dict(d=2, n=1, kind='full', default=True))]
CASES += [Case("exponential-d%d-n%d" % (d, n), expo, dict(d=d, n=n, bench=False)) for d, n in ((1, 3), (2, 2), (2, 1), (3, 3))]
CASES += [Case("benchden-exponential", expo, dict(d=1, n=3, bench=True))]
CASES += [Case("mixture-d%d-n%d" % (d, n), mixture, dict(d=d, n=n)) for d, n in ((1, 3), (2, 2))]
CASES += [Case("twice-%s" % k, twice, dict(kind=k, d=2, n=2)) for k in ('normal', 'uniform', 'exponential')]
CASES += [T("uniform-n5", uniform, dict(d=2, n=5, scalar=False)), T("normal-n6", normal, dict(d=2, n=6, kind='full')),
          T("exponential-n6", expo, dict(d=2, n=6, bench=False)), T("mixture-n5", mixture, dict(d=1, n=5))]
