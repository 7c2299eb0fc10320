"""C04: support() bounds the mass; box integrals are exact."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["uniform boxes d=1-2 (3 in thorough) against every query box a<b incl. disjoint and nested ones; delta d=1-2; support() of every "
          "family with symbolic parameters"]
OUTSIDE = ['boxes with a reversed or empty side', 'how close the Monte-Carlo integral of the base class comes for its ten million points: the estimator itself is checked, for 1-3 points']


def overlap(ctx, a, b, lo, hi):
    """length of [a,b] n [lo,hi]"""
    s = a if bool(a >= lo) else lo
    e = b if bool(b <= hi) else hi
    return e - s if bool(e > s) else 0.0


def box(ctx, name, d):
    a = ctx.reals(name + '.a', d, -12, 12)
    w = ctx.reals(name + '.w', d, 0, 20, lo_open=True, hint=(.1, 12))
    return a, a + w


def integral(ctx, d, scalar):
    dist, c, r = mk_uniform(ctx, d, scalar)
    a, b = box(ctx, 'q', d)
    got = ctx.flat(dist.integral(a, b))
    ctx.check("one-value", len(got) == 1, "%d values" % len(got))
    o = [overlap(ctx, a[j], b[j], c[j] - r[j], c[j] + r[j]) for j in range(d)]
    ref = prod(o) / prod(2 * r[j] for j in range(d))
    if any(not ctx.is_sym(v) and v == 0 for v in o):
        ctx.cover("disjoint")
    ctx.check_close("integral", got[0], ref)
    ctx.check("in-0-1", got[0] >= 0, "negative mass")
    ctx.observe("v", got[0])


def whole(ctx, d, scalar):
    dist, c, r = mk_uniform(ctx, d, scalar)
    s = dist.support()
    ctx.check_shape("support-shape", s, (2, d))
    for j in range(d):
        ctx.check_close("support-low", s[0][j], c[j] - r[j])
        ctx.check_close("support-high", s[1][j], c[j] + r[j])
    ctx.check_close("whole", ctx.flat(dist.integral(s[0], s[1]))[0], 1.0)
    a, b = box(ctx, 'q', d)
    m = ctx.real("cut", 0, 1, True, True)
    mid = a + (b - a) * m
    b1, a2 = list(ctx.flat(b)), list(ctx.flat(a))
    b1[0] = mid[0]
    a2[0] = mid[0]
    tot = ctx.flat(dist.integral(a, b))[0]
    s1 = ctx.flat(dist.integral(a, ctx.A(b1)))[0]
    s2 = ctx.flat(dist.integral(ctx.A(a2), b))[0]
    ctx.check_close("additive", s1 + s2, tot)
    ctx.observe("parts", [s1, s2, tot])


def monte_carlo(ctx, d, n, kind='any', zeros=False):
    """the fall-back integral: n points uniform in the box, the volume times the average density or times the height and the share of points
    under the curve for uniform heights"""
    D = ctx.mod('distributions')
    a, b = box(ctx, 'q', d)
    if kind == 'any':
        t = Target(ctx, d, zeros=zeros)

        class Any(D.CDistribution):
            def condition(self, dist):
                pass

            def marginal(self, dim):
                pass
        dist = Any({"type": "any", "family": "any", "dims": d, "likelihood_f": t.prob, "loglikelihood_f": None, "support": ctx.A([[-9.] * d, [9.] * d])})
        dens = t.at
    elif kind == 'normal':
        dist, mean, cov = mk_normal(ctx, d, 'diag')
        dens = lambda x: normal_pdf(ctx, x, ctx.flat(mean), [[cov[i, j] for j in range(d)] for i in range(d)])
    else:
        dist, mean = mk_exp(ctx, d)
        dens = lambda x: ctx.flat(dist.prob(ctx.A([x])))[0]
    est = ctx.flat(dist.integral(a, b, nsamples=n))
    ctx.check("one value", len(est) == 1)
    u = uniforms01(ctx)
    ctx.check("n points and at most n heights drawn", len(u) in (n * d, n * d + n), "%d uniform draws" % len(u))
    rows = [[a[j] + (b[j] - a[j]) * u[i * d + j] for j in range(d)] for i in range(n)]
    if kind == 'any':
        ctx.check("n points are evaluated", t.evals == n, "%d evaluations" % t.evals)
        if n > 1 and d > 1 and repr(key(ctx, t.points[0])) != repr(key(ctx, rows[0])):
            rows = [[a[j] + (b[j] - a[j]) * u[j * n + i] for j in range(d)] for i in range(n)]
        for p, r in zip(t.points, rows):
            ctx.check_all_close("points uniform in the box", ctx.A(p), ctx.A(r))
    p = [dens(r) for r in rows]
    vol = prod([b[j] - a[j] for j in range(d)])
    if len(u) == n * d:
        ctx.check_close("estimate", est[0], vol * total(p) / n)
    else:
        h = p[0]
        for v in p[1:]:
            h = v if bool(v > h) else h
        hits = 0
        for v, y in zip(p, u[n * d:]):
            if bool(h * y == v):      # on the curve: either way
                if bool(h == 0):
                    ctx.check_close("nothing but zeros", est[0], 0.0)
                    ctx.cover("all zero")
                return
            hits += 1 if bool(h * y < v) else 0
        ctx.check_close("estimate", est[0], vol * h * hits / n)
        ctx.cover("miss" if hits < n else "all hit")
    ctx.check("no negative mass", est[0] >= 0)
    ctx.observe("v", est[0])


def bad(ctx, d):
    dist, c, r = mk_uniform(ctx, d)
    a, b = box(ctx, 'q', d)
    ctx.expect_raises("a<b required", (AssertionError, ValueError), lambda: dist.integral(b, a))


def supports(ctx, kind, d):
    np = ctx.np
    D = ctx.mod('distributions')
    if kind == 'normal':
        dist, mean, cov = mk_normal(ctx, d)
        lo = [mean[j] - 6 * np.sqrt(cov[j, j]) for j in range(d)]
        hi = [mean[j] + 6 * np.sqrt(cov[j, j]) for j in range(d)]
    elif kind == 'exponential':
        dist, m = mk_exp(ctx, d)
        lo, hi = [0.0] * d, [4 * m[j] for j in range(d)]
    elif kind in ('given-normal', 'given-exponential', 'gmm', 'mixture'):
        lo, hi = [ctx.flat(v) for v in box(ctx, 's', d)]
        sup = ctx.A([lo, hi])
        if kind == 'given-normal':
            dist = D.CMultivariateNormal({"mean": ctx.reals('m', d, -3, 3), "sigma": spd(ctx, 'c', d), "support": sup})
        elif kind == 'given-exponential':
            dist = D.CMultivariateExponential({"mean": ctx.reals('m', d, 0, 3, lo_open=True), "support": sup})
        elif kind == 'gmm':
            dist = D.CGaussianMixtureModel({"means": ctx.reals('m', (2, d), -3, 3), "support": sup,
                                            "sigmas": ctx.reals('s', (2, d), 0, 3, lo_open=True, hint=(.1, 2))})
        else:
            n = [mk_normal(ctx, d, 'diag', 'n%d' % i)[0] for i in range(2)]
            dist = D.CMixtureModel({"models": n, "weights": ctx.reals('w', 2, 0, 1, lo_open=True), "dims": d, "support": sup})
    else:
        ref = {'BenchDenUniform': (0, 1), 'BenchDenExponential': (0, 4), 'BenchDenMaxwell': (0, 4), 'BenchDenLaplace': (-6, 6),
               'BenchDenSymmetricPareto': (-20, 20), 'Banana2D': (-10, 10)}[kind]
        dist = getattr(D, kind)({"dims": d})
        lo, hi = [float(ref[0])] * d, [float(ref[1])] * d
    ctx.check("dims", dist.dims == d, "dims %s" % (dist.dims,))
    s = dist.support()
    ctx.check_shape("support-shape", s, (2, d))
    ctx.check_all_close("support-low", s[0], lo)
    ctx.check_all_close("support-high", s[1], hi)
    for j in range(d):
        ctx.check("ordered", s[0][j] < s[1][j])
    ctx.observe("s", s)


def delta(ctx, d):
    np = ctx.np
    D = ctx.mod('distributions')
    c = ctx.reals('c', d, -5, 5)
    dist = D.CMultivariateDelta({"center": c, "support": ctx.A([[-9.] * d, [9.] * d])})
    sup = dist.support()
    ctx.check("two limits", len(sup) == 2)
    ctx.check_all_close("lower limit", sup[0], [-9.] * d)
    ctx.check_all_close("upper limit", sup[1], [9.] * d)
    a, b = box(ctx, 'q', d)
    got = ctx.flat(dist.integral(a, b))[0]
    ins = inside(c, a, b)
    if ins is not None:
        ctx.cover("in" if ins else "out")
        ctx.check_close("integral", got, 1.0 if ins else 0.0)
    ctx.check_all_close("sample", dist.sample(2), [c[j] for _ in range(2) for j in range(d)])
    off = ctx.real("off", -3, 3)
    ctx.assume(off * off > 0.01)
    pts = ctx.A([[c[j] for j in range(d)], [c[j] + (off if j == 0 else 0.0) for j in range(d)]])
    p, lp = dist.prob(pts), dist.log_prob(pts)
    ctx.check("at-centre", p[0] == math.inf and lp[0] == math.inf)
    ctx.check("elsewhere", p[1] == 0 and lp[1] == -math.inf)
    ctx.observe("v", got)


CASES = [Case("uniform-integral-d%d-%s" % (d, s), integral, dict(d=d, scalar=s), need=("disjoint",)) for d in (1, 2) for s in (False, True)]
CASES += [Case("uniform-whole-d%d-%s" % (d, s), whole, dict(d=d, scalar=s)) for d, s in ((1, False), (2, True))]
CASES += [Case("uniform-bad-box", bad, dict(d=2))]
CASES += [Case("support-%s-d%d" % (k, d), supports, dict(kind=k, d=d)) for k, d in (
    ('normal', 1), ('normal', 2), ('exponential', 1), ('exponential', 2), ('given-normal', 2), ('given-exponential', 1), ('gmm', 1), ('gmm', 2), ('mixture', 2),
    ('BenchDenUniform', 1), ('BenchDenExponential', 1), ('BenchDenMaxwell', 1), ('BenchDenLaplace', 1),
    ('BenchDenSymmetricPareto', 1), ('Banana2D', 2))]
CASES += [Case("delta-d%d" % d, delta, dict(d=d), need=("in", "out")) for d in (1, 2)]
CASES += [
    Case("monte-carlo d=1 n=2", monte_carlo, dict(d=1, n=2)),
    Case("monte-carlo d=2 n=2", monte_carlo, dict(d=2, n=2)),
    Case("monte-carlo zeros", monte_carlo, dict(d=1, n=2, zeros=True), need=("all zero",)),
    Case("monte-carlo normal", monte_carlo, dict(d=2, n=1, kind='normal')),
    Case("monte-carlo exponential", monte_carlo, dict(d=1, n=2, kind='exponential')),
    T("monte-carlo d=2 n=3", monte_carlo, dict(d=2, n=3)),
]
CASES += [T("uniform-integral-d3", integral, dict(d=3, scalar=False)), T("uniform-whole-d2", whole, dict(d=2, scalar=False))]
