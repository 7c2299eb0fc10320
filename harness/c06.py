"""C06: re-parameterising a distribution object equals building a fresh one."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["sequences of 1-3 re-parameterisations with symbolic parameters, d = 1-2, interleaved with evaluations and sampling"]
OUTSIDE = ['assigning only .scale of a normal or uniform, or .loc of an exponential: the class offers set_moments for that and never promises it']


def normal(ctx, d, steps, kind):
    np = ctx.np
    D = ctx.mod('distributions')
    dist, m0, c0 = mk_normal(ctx, d, kind)
    x = ctx.reals('x', (1, d), -6, 6)
    for s in range(steps):
        m = ctx.reals('m%d' % s, d, -4, 4)
        c = spd(ctx, 'c%d' % s, d, kind)
        dist.set_moments(m, c)
        lr = normal_logpdf(ctx, x[0], m, c)
        ctx.check_close("log density", dist.log_prob(x)[0], lr)
        ctx.check_close("density", dist.prob(x)[0], np.exp(lr))
        fresh = D.CMultivariateNormal({"mean": m, "sigma": c})
        ctx.check_close("as fresh", dist.log_prob(x)[0], fresh.log_prob(x)[0])
        ctx.check_all_close("loc", dist.loc, m)
        ctx.check_all_close("scale", dist.scale, c)
        ctx.draws.clear()
        out = dist.sample(2)
        for dr in [q for q in ctx.draws if q.kind == 'mvn']:
            ctx.check_all_close("sample mean", dr.args['mean'], m)
            ctx.check_all_close("sample covariance", dr.args['cov'], c)
        ctx.check_shape("shape", out, (2, d))
    ctx.observe("lp", dist.log_prob(x))


def degenerate(ctx, d):
    D = ctx.mod('distributions')
    dist, m0, c0 = mk_normal(ctx, d, 'diag')
    if d == 1:
        bad = ctx.A([[ctx.real('v', -3, 0)]])
    else:
        a = ctx.real('a', 0, 3, lo_open=True)
        b = ctx.real('b', -3, 3)
        c = ctx.real('c', 0, 3)
        ctx.assume(a * c - b * b <= (-1e-3 if ctx.symbolic else -1e-4))
        bad = ctx.A([[a, b], [b, c]])
    ctx.expect_raises("not positive definite", (AssertionError, ValueError), lambda: dist.set_moments(m0, bad))
    ctx.expect_raises("not positive definite", (AssertionError, ValueError),
                      lambda: D.CMultivariateNormal({"mean": m0, "sigma": bad}))
    ctx.expect_raises("wrong covariance shape", (AssertionError, ValueError),
                      lambda: dist.set_moments(m0, ctx.A([[1.0] * (d + 1)] * (d + 1))))


def moved(ctx, kind, d, steps):
    """assigning a new location acts like building the distribution there"""
    np = ctx.np
    D = ctx.mod('distributions')
    if kind == 'normal':
        dist, _, cov = mk_normal(ctx, d, 'diag')
        fresh = lambda c: D.CMultivariateNormal({"mean": c, "sigma": cov})
    elif kind == 'uniform':
        dist, _, rad = mk_uniform(ctx, d)
        fresh = lambda c: D.CMultivariateUniform({"center": c, "radius": ctx.A(rad)})
    else:
        sup = ctx.A([[-9.] * d, [9.] * d])
        dist = D.CMultivariateDelta({"center": ctx.reals('c', d, -4, 4), "support": sup})
        fresh = lambda c: D.CMultivariateDelta({"center": c, "support": sup})
    x = ctx.reals('x', (1, d), -6, 6)
    dist.prob(x)
    for s in range(steps):
        c = ctx.reals('c%d' % s, d, -4, 4)
        dist.loc = c
        f = fresh(c)
        pts = x if kind != 'delta' else ctx.A([list(c), [v + 1.0 for v in c]])
        a, b, la, lb = dist.prob(pts), f.prob(pts), dist.log_prob(pts), f.log_prob(pts)
        for i in range(len(pts)):
            ctx.check_close("density as fresh", a[i], b[i])
            ctx.check_close("log density as fresh", la[i], lb[i])
        ctx.check_all_close("loc", dist.loc, c)
        ctx.draws.clear()
        dist.sample(1)
        one = [dict(q.args) for q in ctx.draws]
        ctx.draws.clear()
        f.sample(1)
        two = [dict(q.args) for q in ctx.draws]
        ctx.check("same draws", len(one) == len(two))
        for q, r in zip(one, two):
            for n in ('low', 'high', 'mean', 'cov'):
                if n in r:
                    ctx.check_all_close("draws as fresh", q[n], r[n])
    ctx.observe("p", dist.prob(x))


def expo(ctx, d, steps):
    np = ctx.np
    dist, m0 = mk_exp(ctx, d)
    x = ctx.reals('x', (1, d), 0, 6, lo_open=True)
    for s in range(steps):
        m = ctx.reals('m%d' % s, d, 0, 5, lo_open=True, hint=(.1, 4))
        dist.set_moments(m)
        lr = total(-np.log(m[j]) - x[0, j] / m[j] for j in range(d))
        ctx.check_close("log density", dist.log_prob(x)[0], lr)
        ctx.check_close("density", dist.prob(x)[0], np.exp(lr))
        ctx.draws.clear()
        out = dist.sample(1)
        es = [e for dr in ctx.draws if dr.kind == 'exponential' for e in ctx.flat(dr.args['e'])]
        for j in range(d):
            ctx.check_close("sample", out[0, j], m[j] * es[j])
    ctx.observe("lp", dist.log_prob(x))


def base_fn(ctx, which):
    """set_likelihood_f / set_loglikelihood_f replace what prob / log_prob answer"""
    np = ctx.np
    D = ctx.mod('distributions')

    class Cd(D.CDistribution):
        def condition(self, dist):
            pass

        def marginal(self, dim):
            pass
    a, b = ctx.real('a', 0, 3, lo_open=True, hint=(.1, 2)), ctx.real('b', 0, 3, lo_open=True, hint=(.1, 2))
    f = lambda k: (lambda x: np.exp(-k * (x * x).sum(axis=1)))
    lf = lambda k: (lambda x: -k * (x * x).sum(axis=1))
    par = {"type": "t", "family": "f", "dims": 2, "support": ctx.A([[-5., -5.], [5., 5.]]),
           "likelihood_f": f(a) if which == 'like' else None, "loglikelihood_f": lf(a) if which == 'log' else None}
    dist = Cd(par)
    x = ctx.reals('x', (2, 2), -2, 2)
    dist.prob(x)
    (dist.set_likelihood_f if which == 'like' else dist.set_loglikelihood_f)(f(b) if which == 'like' else lf(b))
    q = (x * x).sum(axis=1)
    for i in range(2):
        ctx.check_close("prob", dist.prob(x)[i], np.exp(-b * q[i]))
        ctx.check_close("log_prob", dist.log_prob(x)[i], -b * q[i])
    ctx.observe("p", dist.prob(x))


def mixture(ctx, d, k, steps, moments):
    """set_weights, and new moments of a component, act at once on prob, log_prob and sample"""
    np = ctx.np
    m, comps, w0 = mk_mixture(ctx, d, k)
    par = [(list(mean), cov) for _, mean, cov in comps]
    x = ctx.reals('x', (1, d), -6, 6)
    m.log_prob(x)
    w = w0
    for s in range(steps):
        if not moments or s % 2 == 0:
            w = ctx.reals('w%d' % s, k, 0, 5, lo_open=True, hint=(.05, 2))
            m.set_weights(w)
        if moments:
            i = s % k
            mean = ctx.reals('m%d' % s, d, -4, 4)
            cov = spd(ctx, 'c%d' % s, d, 'diag')
            m.models[i].set_moments(mean, cov)
            par[i] = (list(mean), cov)
        tot = total(w)
        ref = total([w[j] * normal_pdf(ctx, x[0], par[j][0], par[j][1]) for j in range(k)]) / tot
        ctx.check_close("density", m.prob(x)[0], ref)
        ctx.check_close("log density", np.exp(m.log_prob(x)[0]), ref)
        ctx.draws.clear()
        m.sample(1)
        sel = selections(ctx)
        ctx.check("one selection", len(sel) == 1)
        for j in range(k):
            ctx.check_close("selection probabilities", sel[0][0][j] * tot, w[j])
        q = [dr for dr in ctx.draws if dr.kind == 'mvn']
        ctx.check("one draw", len(q) == 1)
        ctx.check_all_close("drawn from the selected component", q[0].args['mean'], par[sel[0][1]][0])
        ctx.check_all_close("drawn from the selected component", q[0].args['cov'], par[sel[0][1]][1])
    ctx.observe("p", m.prob(x))
    ctx.cover("done")


CASES = [Case("mixture d=%d k=%d x%d%s" % (d, k, s, " moments" if mo else ""), mixture, dict(d=d, k=k, steps=s, moments=mo), need=("done",))
         for d, k, s, mo in ((1, 2, 2, False), (2, 2, 1, False), (1, 3, 1, False), (1, 2, 2, True), (2, 2, 1, True))]
CASES += [Case("normal-d%d-%s-x%d" % (d, k, s), normal, dict(d=d, steps=s, kind=k)) for d, k, s in
         ((1, 'full', 1), (1, 'full', 2), (2, 'full', 1), (2, 'full', 2), (2, 'diag', 3), (3, 'diag', 2))]
CASES += [Case("moved-%s-d%d" % (k, d), moved, dict(kind=k, d=d, steps=2)) for k, d in
         (('normal', 2), ('uniform', 1), ('uniform', 2), ('delta', 1))]
CASES += [Case("degenerate-d%d" % d, degenerate, dict(d=d)) for d in (1, 2)]
CASES += [Case("exponential-d%d-x%d" % (d, s), expo, dict(d=d, steps=s)) for d, s in ((1, 2), (2, 2))]
CASES += [Case("base-%s" % w, base_fn, dict(which=w)) for w in ('like', 'log')]
CASES += [T("normal-deep", normal, dict(d=2, steps=5, kind='full')), T("normal-d5", normal, dict(d=5, steps=3, kind='diag')),
          T("exponential-deep", expo, dict(d=3, steps=4))]
