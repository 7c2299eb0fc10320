"""C08: ABC posterior = surrogate likelihood x prior; conditioned generative models."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["1-2 latent rows (3 thorough), 1-2 dimensions, symbolic prior, noise, observation, slack and generator output"]
OUTSIDE = ['GenericNoisyFunction.sample shapes beyond the stated batch', 'larger batches']


def surrogate(ctx):
    def ll(o, o_hat, slack):
        d = o_hat - o
        return -((d * d).sum(axis=1)) / slack
    return ll


def rnp_(ctx, rows):
    return ctx.A(rows)


def abc(ctx, d, n, mode):
    np = ctx.np
    D = ctx.mod('distributions')
    prior, mean, cov = mk_normal(ctx, d, 'diag', 'prior')
    a = ctx.reals('gain', d, -2, 2)
    seen = []
    base = D.CDistribution

    class Gen(base):
        def condition(self, z):
            self.z = np.array(z)
            seen.append(z)

        def marginal(self, dim):
            pass

        def sample(self, nsamples=1):
            return self.z * a + 0.5

    class Sensor(Gen):
        def sample(self, nsamples=1):
            return self.z * 3.0 - 1.0
    gen = Gen({"type": "g", "family": "g", "dims": d, "support": ctx.A([[-5.] * d, [5.] * d]), "likelihood_f": None, "loglikelihood_f": None})
    sensor = Sensor(gen.params)
    ll = surrogate(ctx)
    slack = ctx.real('slack', 0, 4, lo_open=True, hint=(.2, 3))
    dist = D.ABCDistribution({"dims": d, "prior_d": prior, "sensor_d": sensor, "gen_d": gen, "slack": slack,
                              "support": ctx.A([[-5.] * d, [5.] * d]),
                              "likelihood_f": None if mode == 'log' else (lambda o, h, s: np.exp(ll(o, h, s))),
                              "loglikelihood_f": None if mode == 'lin' else ll})
    z = ctx.reals('z', (n, d), -3, 3)
    ctx.expect_raises("needs an observation", ValueError, lambda: dist.prob(z))
    ctx.expect_raises("needs an observation", ValueError, lambda: dist.log_prob(z))

    def between(k):
        """what may happen between two evaluations at the same array"""
        if k == 2:
            ctx.draws.clear()
            x = dist.sample(n)
            ctx.check_shape("sample-shape", x, (n, d))
            z0 = rows_of(rnp_(ctx, [r for _, r in drawn(ctx, 'mvn')]))
            ctx.check("one prior draw per sample", len(z0) == n)
            for i in range(n):
                for j in range(d):
                    ctx.check_close("sensor(generator(prior draw))", x[i, j], (z0[i][j] * a[j] + 0.5) * 3.0 - 1.0)
        elif k == 3:
            gen.condition(ctx.reals('zz', (n, d), -3, 3))
        elif k == 4:
            for j in range(d):
                z[0, j] = ctx.real('z.new%d' % j, -3, 3)
    o = None
    for k in range(5):
        if k < 2:
            o = ctx.reals('o%d' % k, d, -3, 3)
            dist.condition(o)
        between(k)
        p, lp = dist.prob(z), dist.log_prob(z)
        ctx.check_shape("prob-shape", p, (n,))
        ctx.check_shape("log_prob-shape", lp, (n,))
        for i in range(n):
            e = 0.0
            for j in range(d):
                h = z[i, j] * a[j] + 0.5
                e = e + (h - o[j]) * (h - o[j])
            ref = -e / slack + normal_logpdf(ctx, [z[i, j] for j in range(d)], mean, cov)
            ctx.check_close("log posterior", lp[i], ref)
            ctx.check_close("posterior", p[i], np.exp(ref))
        ctx.observe("lp", lp)


def noisy(ctx, d, n):
    np = ctx.np
    D = ctx.mod('distributions')
    noise, mean, cov = mk_normal(ctx, d, 'diag', 'noise')
    a = ctx.real('a', -2, 2)
    dist = D.GenericNoisyFunction({"noise_model": noise, "function": lambda x, z: x * x + z, "dims": d,
                                   "support": ctx.A([[-5.] * d, [5.] * d])})
    x = ctx.reals('x', (n, d), -3, 3)
    ctx.expect_raises("needs conditioning", ValueError, lambda: dist.prob(x))
    ctx.expect_raises("needs conditioning", ValueError, lambda: dist.log_prob(x))
    for k in range(2):
        if k:
            x, a = ctx.reals('x1', (n, d), -3, 3), ctx.real('a1', -2, 2)
        dist.condition(x)
        dist.set_params(a)
        ctx.draws.clear()
        s = dist.sample()
        ctx.check_shape("one noisy value per row", s, (n, d))
        z = [v for dr in ctx.draws if dr.kind == 'mvn' for v in ctx.flat(dr.value)]
        ctx.check("one noise draw per row", len(z) == n * d)
        for i in range(n):
            for j in range(d):
                ctx.check_close("f(x) + noise", s[i, j], x[i, j] * x[i, j] + a + z[i * d + j])
        y = ctx.reals('y%d' % k, (n, d), -5, 5)
        lp, p = dist.log_prob(y), dist.prob(y)
        ctx.check_shape("shape", lp, (n,))
        for i in range(n):
            ref = normal_logpdf(ctx, [y[i, j] - x[i, j] for j in range(d)], mean, cov)
            ctx.check_close("log", lp[i], ref)
            ctx.check_close("prob", p[i], np.exp(ref))
    ctx.observe("s", s)


def nuisance(ctx, n, m):
    D = ctx.mod('distributions')
    nd, _, _ = mk_normal(ctx, 1, 'diag', 'nuis')
    calls = []

    class Out:
        def __init__(self, v):
            self.v = v

        def detach(self):
            return self.v

    def gen(z, k):
        calls.append((z, k))
        return Out(z)
    dist = D.GenericNuisanceGenModel({"gen_function": gen, "params_mask": ctx.np.array([True, False]), "noise_sigma": 0.1,
                                      "nuisance_dist": nd, "dims": 2, "support": ctx.A([[-5.] * 2, [5.] * 2])})
    ctx.expect_raises("needs conditioning", ValueError, lambda: dist.sample())
    z = ctx.reals('z', (n, 2), -3, 3)
    dist.condition(z)
    ctx.draws.clear()
    r = dist.sample(m)
    ctx.check("generator called once", len(calls) == 1)
    ctx.check_shape("one nuisance value per generated row", calls[0][1], (n * m, 1))
    ctx.check_all_close("latents passed on", calls[0][0], z)
    ctx.check_all_close("output returned", r, z)
    ctx.expect_raises("shape", ValueError, lambda: dist.condition(ctx.reals('bad', (2, 3), 0, 1)))
    ctx.check_all_close("deterministic model", dist.prob(z), [1.0] * n)
    ctx.check_all_close("deterministic model", dist.log_prob(z), [0.0] * n)
    ctx.observe("k", calls[0][1])


def composed(ctx, n, d=1):
    """the shipped models fit together: sensor(generator(prior draw)) with the noise of both, and the posterior sees one generated value per row"""
    D = ctx.mod('distributions')
    prior, pm, pc = mk_normal(ctx, d, 'diag', 'prior')
    g, h = ctx.real('gain', -2, 2), ctx.real('offset', -2, 2)
    n1, m1, c1 = mk_normal(ctx, d, 'diag', 'n1')
    n2, m2, c2 = mk_normal(ctx, d, 'diag', 'n2')
    fun = lambda f, noise: D.GenericNoisyFunction({"noise_model": noise, "function": f, "dims": d, "support": ctx.A([[-5.] * d, [5.] * d])})
    gen, sensor = fun(lambda x, z: x * g, n1), fun(lambda x, z: x * h, n2)
    slack = ctx.real('slack', 0, 4, lo_open=True, hint=(.2, 3))
    dist = D.ABCDistribution({"dims": d, "prior_d": prior, "sensor_d": sensor, "gen_d": gen, "slack": slack, "support": ctx.A([[-5.] * d, [5.] * d]),
                              "likelihood_f": None, "loglikelihood_f": surrogate(ctx)})
    for k in (n, 1):
        ctx.draws.clear()
        x = dist.sample(k)
        ctx.check_shape("sample-shape", x, (k, d))
        r = [v for dr in ctx.draws if dr.kind == 'mvn' for v in ctx.flat(dr.value)]
        ctx.check("a prior draw and both noises per sample", len(r) == 3 * k * d, "%d" % len(r))
        for i in range(k):
            for j in range(d):
                z, a, b = r[i * d + j], r[(k + i) * d + j], r[(2 * k + i) * d + j]
                ctx.check_close("sensor(generator(prior draw))", x[i, j], (z * g + a) * h + b)
    z, o = ctx.reals('z', (n, d), -3, 3), ctx.reals('o', d, -3, 3)
    dist.condition(o)
    ctx.draws.clear()
    lp = dist.log_prob(z)
    e = [v for dr in ctx.draws if dr.kind == 'mvn' for v in ctx.flat(dr.value)]
    ctx.check("one generated value per row", len(e) == n * d, "%d" % len(e))
    ctx.check_shape("log_prob-shape", lp, (n,))
    for i in range(n):
        s = 0.0
        for j in range(d):
            y = z[i, j] * g + e[i * d + j] - o[j]
            s = s + y * y
        ctx.check_close("log posterior", lp[i], -s / slack + normal_logpdf(ctx, [z[i, j] for j in range(d)], pm, pc))
    ctx.observe("lp", lp)


CASES = [Case("composed-d%d-n%d" % (d, n), composed, dict(d=d, n=n)) for d, n in ((1, 2), (2, 2))]
CASES += [Case("abc-%s-d%d-n%d" % (m, d, n), abc, dict(d=d, n=n, mode=m)) for m, d, n in
         (('log', 1, 2), ('lin', 1, 2), ('both', 2, 1), ('lin', 2, 2))]
CASES += [Case("noisy-d%d-n%d" % (d, n), noisy, dict(d=d, n=n)) for d, n in ((1, 2), (2, 2))]
CASES += [Case("nuisance-n%d-m%d" % (n, m), nuisance, dict(n=n, m=m)) for n, m in ((2, 1), (2, 2))]
CASES += [T("abc-both-d2-n3", abc, dict(d=2, n=3, mode='both')), T("noisy-d3-n3", noisy, dict(d=3, n=3))]
