"""C02: prob / log_prob agree, one finite non-negative density per row, rows independent, nothing mutated."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["batches of 1-3 rows, d = 1-2 (3 in thorough), 1-2 mixture components, all parameters and coordinates symbolic"]
OUTSIDE = ['larger batches', 'floating-point rounding (overflow and underflow of exp)']


def zoo(ctx, kind, d):
    D = ctx.mod('distributions')
    if kind == 'normal':
        return mk_normal(ctx, d)[0]
    if kind == 'normal-diag':
        return mk_normal(ctx, d, 'diag')[0]
    if kind == 'uniform':
        return mk_uniform(ctx, d)[0]
    if kind == 'uniform-scalar':
        return mk_uniform(ctx, d, True)[0]
    if kind == 'exponential':
        return mk_exp(ctx, d)[0]
    if kind == 'mixture':
        return mk_mixture(ctx, d, 2)[0]
    if kind == 'gmm':
        m = [ctx.reals("m%d" % i, d, -3, 3) for i in range(2)]
        s = [ctx.reals("s%d" % i, d, 0, 3, lo_open=True, hint=(.1, 2)) for i in range(2)]
        return D.CGaussianMixtureModel({"means": m, "sigmas": s, "weights": ctx.reals("w", 2, 0, 3, lo_open=True, hint=(.1, 2)),
                                        "support": ctx.A([[-9.] * d, [9.] * d])})
    if kind in ('like', 'loglike', 'both'):
        base = D.CDistribution

        class Cd(base):
            def condition(self, dist):
                pass

            def marginal(self, dim):
                pass
        a = ctx.real("a", 0, 3, lo_open=True, hint=(.1, 2))

        def f(x):
            return ctx.np.exp(-a * (x * x).sum(axis=1))

        def lf(x):
            return -a * (x * x).sum(axis=1)
        return Cd({"type": "t", "family": "f", "dims": d, "support": ctx.A([[-5.] * d, [5.] * d]),
                   "likelihood_f": f if kind != 'loglike' else None, "loglikelihood_f": lf if kind != 'like' else None})
    return getattr(D, kind)({"dims": d})


def coherent(ctx, kind, d, n, lo=-7, hi=7):
    np = ctx.np
    dist = zoo(ctx, kind, d)
    x = ctx.reals('x', (n, d), lo, hi)
    keep = [x[i, j] for i in range(n) for j in range(d)]
    lp = dist.log_prob(x)
    p = dist.prob(x)
    ctx.check_shape("prob-shape", p, (n,))
    ctx.check_shape("log_prob-shape", lp, (n,))
    for i in range(n):
        ctx.check("not-nan", not ctx.isnan(p[i]) and not ctx.isnan(lp[i]), "nan density")
        ctx.check("non-negative", p[i] >= 0, "negative density")
        ctx.check_close("exp-log", np.exp(lp[i]), p[i])
        one, lone = dist.prob(x[i:i + 1]), dist.log_prob(x[i:i + 1])
        ctx.check_shape("single-shape", one, (1,))
        ctx.check_shape("single-shape", lone, (1,))
        ctx.check_close("row-independent", one[0], p[i])
        ctx.check_close("row-independent-log", lone[0], lp[i])
    r = dist.prob(x[::-1])
    for i in range(n):
        ctx.check_close("permutation", r[n - 1 - i], p[i])
    if kind not in ('like', 'loglike', 'both'):
        ctx.check_close("single-vector", ctx.flat(dist.prob(x[0]))[0], p[0])
        ctx.check_close("single-vector-log", ctx.flat(dist.log_prob(x[0]))[0], lp[0])
    now = [x[i, j] for i in range(n) for j in range(d)]
    for a, b in zip(keep, now):
        ctx.check_close("input-unchanged", b, a)
    ctx.observe("p", p)
    ctx.observe("lp", lp)


def bad_shape(ctx, kind, d):
    dist = zoo(ctx, kind, d)
    x = ctx.reals('x', (2, d + 1), -3, 3)
    ctx.expect_raises("wrong-dims", (ValueError, AssertionError), lambda: dist.prob(x))
    ctx.expect_raises("wrong-dims", (ValueError, AssertionError), lambda: dist.log_prob(x))
    # a single point with a wrong number of coordinates, also when it is a multiple of the dimension
    for m in ((d - 1, d + 1, 2 * d, 3 * d) if d > 1 else ()):
        v = ctx.reals('v%d' % m, m, -3, 3)
        ctx.expect_raises("wrong-point", (ValueError, AssertionError), lambda: dist.prob(v))
        ctx.expect_raises("wrong-point", (ValueError, AssertionError), lambda: dist.log_prob(v))
    # a stack of batches is no batch
    t = ctx.reals('t', (2, 1, d), -3, 3)
    ctx.expect_raises("wrong-rank", (ValueError, AssertionError), lambda: dist.prob(t))
    ctx.expect_raises("wrong-rank", (ValueError, AssertionError), lambda: dist.log_prob(t))


KINDS = [('normal', 1), ('normal', 2), ('uniform', 1), ('uniform', 2), ('uniform-scalar', 2), ('exponential', 1),
         ('exponential', 2), ('mixture', 1), ('mixture', 2), ('gmm', 1), ('gmm', 2), ('like', 2), ('loglike', 2), ('both', 1),
         ('BenchDenUniform', 1), ('BenchDenExponential', 1), ('BenchDenMaxwell', 1), ('BenchDenLaplace', 1),
         ('BenchDenSymmetricPareto', 1), ('Banana2D', 2)]
CASES = [Case("%s-d%d" % (k, d), coherent, dict(kind=k, d=d, n=2)) for k, d in KINDS]
CASES += [Case("n3-%s-d%d" % (k, d), coherent, dict(kind=k, d=d, n=3)) for k, d in KINDS if k in ('normal', 'mixture', 'loglike')]
CASES += [Case("wrong-dims-%s" % k, bad_shape, dict(kind=k, d=d)) for k, d in
          (('normal', 2), ('uniform', 2), ('exponential', 2), ('mixture', 2), ('like', 2), ('BenchDenLaplace', 1), ('Banana2D', 2),
           ('BenchDenSymmetricPareto', 1), ('BenchDenMaxwell', 1))]
CASES += [T("n3-%s-d%d" % (k, d), coherent, dict(kind=k, d=d, n=3)) for k, d in KINDS if k not in ('normal', 'mixture', 'loglike')]
CASES += [T("d3-%s" % k, coherent, dict(kind=k, d=3, n=2)) for k in ('normal-diag', 'uniform', 'exponential')]
CASES += [T("n6-%s" % k, coherent, dict(kind=k, d=2, n=6)) for k in ('normal', 'mixture', 'gmm', 'like')]
