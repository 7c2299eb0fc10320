"""C31: generated Gaussian mixtures have the requested components, proper weights and a support that covers them."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["1-3 components (5 thorough) in d = 1-3; space, ranges of the deviations and draws symbolic; egg-box grids of up to 3 points per axis"]
OUTSIDE = ["spaces smaller than ten deviations", "all random weights exactly zero"]


def random_gmm(ctx, d, n):
    U = ctx.mod('utils.misc')
    lo = ctx.reals('lo', d, -9, 0)
    hi = ctx.reals('hi', d, 12, 20)
    smin = ctx.reals('smin', d, .01, .4)
    smax = ctx.reals('smax', d, .5, 1)
    g = U.generateRandomGMM(lo, hi, n, smin, smax)
    us = [dr for dr in ctx.draws if dr.kind == 'uniform']
    ctx.check("components", len(g.means) == len(g.sigmas) == len(g.models) == n)
    ctx.check("dimensions", g.dims == d)
    weighty(ctx, us, n)
    sup = g.support()
    ctx.check_shape("support", sup, (2, d))
    for i in range(n):
        m, s = g.means[i], g.sigmas[i]
        for j in range(d):
            ctx.check("deviation in its range", s[j] >= smin[j])
            ctx.check("deviation in its range", s[j] <= smax[j])
            ctx.check("mean away from the border", m[j] - 5 * s[j] >= lo[j] - 1e-9)
            ctx.check("mean away from the border", m[j] + 5 * s[j] <= hi[j] + 1e-9)
            ctx.check("the support covers the component", sup[0][j] <= m[j] - 5 * s[j] + 1e-9)
            ctx.check("the support covers the component", sup[1][j] >= m[j] + 5 * s[j] - 1e-9)
    for j in range(d):
        for e, sg in ((0, -5), (1, 5)):
            ends = [g.means[i][j] + sg * g.sigmas[i][j] for i in range(n)]
            ctx.check("tight support", key(ctx, [sup[e][j]]) in [key(ctx, [v]) for v in ends] or any(bool(ctx.close(sup[e][j], v)) for v in ends))
    ctx.check_close("weights sum to one", total([w for w in ctx.flat(g.weights)]), 1.0)
    x = ctx.reals('x', (1, d), -9, 9)
    p = total([g.weights[i] * normal_pdf(ctx, x[0], g.means[i], [[g.sigmas[i][a] if a == b else 0.0 for b in range(d)] for a in range(d)]) for i in range(n)])
    if n == 1:
        ctx.check_close("density of the mixture", g.prob(x)[0], p)
    ctx.observe("s", sup)
    ctx.cover("done")


def weighty(ctx, us, n):
    """not all the weights are zero"""
    ctx.assume(total([v for dr in us for v in ctx.flat(dr.args['u'])][-n:]) > .01)


def independent(ctx, d, n):
    """every component gets its own draws, the full range of the space and of the deviations can be reached"""
    U = ctx.mod('utils.misc')
    lo, hi = ctx.A([-8.0] * d), ctx.A([8.0 + j for j in range(d)])
    smin, smax = [.1] * d, [.2 + .1 * j for j in range(d)]
    g = U.generateRandomGMM(lo, hi, n, smin, smax)
    us = [v for dr in ctx.draws if dr.kind == 'uniform' for v in ctx.flat(dr.args['u'])]
    ctx.check("number of draws", len(us) == n * (2 * d + 1), "%d draws" % len(us))
    free = list(range(len(us)))

    def takes(label, v, f):
        """v = f(u) for a draw of its own"""
        for k in free:
            e = v - f(us[k])
            if key(ctx, [e]) == key(ctx, [v - v]) or (not ctx.is_sym(e) and abs(float(e)) < 1e-9):
                free.remove(k)
                ctx.check(label, True)
                return
        ctx.check(label, False, "%s is not the image of a fresh draw" % (v,))
    for i in range(n):
        for j in range(d):
            s, m = g.sigmas[i][j], g.means[i][j]
            takes("deviations are uniform in their range", s, lambda u: smin[j] + (smax[j] - smin[j]) * u)
            a, b = lo[j] + 5 * s, hi[j] - 5 * s
            takes("means are uniform in the space", m, lambda u: a + (b - a) * u)
    tw = total([us[k] for k in free])
    ctx.assume(tw > .01)
    for i in range(n):
        takes("weights proportional to uniform draws", g.weights[i] * tw, lambda u: u)
    ctx.cover("done")


def eggbox(ctx, d):
    U = ctx.mod('utils.misc')
    lo = ctx.reals('lo', d, -4, 4)
    k = [1 + ctx.pick('k%d' % j, 3) for j in range(d)]
    res = ctx.reals('res', d, .5, 3)
    hi = ctx.A([lo[j] + res[j] * (k[j] + .5) for j in range(d)])
    s = ctx.real('sigma', .01, 2)
    g = U.generateEggBoxGMM(lo, hi, res, s)
    n = int(prod(k))
    ctx.check("one component per grid point", len(g.means) == len(g.sigmas) == len(g.models) == n, "%d, expected %d" % (len(g.means), n))
    want = [[]]
    for j in range(d):
        ax = [lo[j] + (hi[j] - lo[j]) * i / max(1, k[j] - 1) for i in range(k[j])]
        want = [p + [v] for p in want for v in ax]
    ctx.check("grid points", len(g.means) == len(want))
    for a, b in zip(rows_of(g.means), want):
        ctx.check_all_close("means on the grid", a, b)
    for i in range(n):
        ctx.check_all_close("same deviation everywhere", g.sigmas[i], [s] * d)
        ctx.check_close("equal weights", g.weights[i], 1.0 / n)
    sup = g.support()
    for j in range(d):
        ctx.check_close("support", sup[0][j], lo[j] - 5 * s)
        ctx.check_close("support", sup[1][j], hi[j] + 5 * s)
    ctx.cover("done")


N = ("done",)
CASES = [Case("random d=%d n=%d" % (d, n), random_gmm, dict(d=d, n=n), need=N) for d, n in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1))]
CASES += [Case("draws d=%d n=%d" % (d, n), independent, dict(d=d, n=n), need=N) for d, n in ((1, 1), (2, 2), (3, 1), (1, 3))]
CASES += [Case("eggbox d=%d" % d, eggbox, dict(d=d), need=N) for d in (1, 2)]
CASES += [T("random d=3 n=2", random_gmm, dict(d=3, n=2)), T("random d=1 n=3", random_gmm, dict(d=1, n=3)), T("draws d=3 n=5", independent, dict(d=3, n=5))]
