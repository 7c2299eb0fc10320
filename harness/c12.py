"""C12: M-PMC weights and mixture adaptation."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["N = 1-2 components, K = 1-2 samples per iteration (3-5 at fixed drawn values, 3 thorough), 1-2 iterations from a fresh mixture, one from an arbitrary adapted mixture, "
          "d = 1-2; target values, proposals, drawn values symbolic"]
OUTSIDE = ["more components, samples or iterations"]


def rho_of(ctx, new, mus, covs, al):
    n = len(mus)
    comp = [[normal_pdf(ctx, r, mus[k], covs[k]) for r in new] for k in range(n)]
    q = [total([al[k] * comp[k][i] for k in range(n)]) for i in range(len(new))]
    return q, [[al[k] * comp[k][i] / q[i] for i in range(len(new))] for k in range(n)]


def iteration(ctx, d, N, K, cov, adapted=False, its=1, fixed=()):
    sigma = ctx.real('sigma', 0, 3, lo_open=True, hint=(.1, 2))
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi)
    s = mk_sampler(ctx, 'mpmc', d, lo, hi, N=N, K=K, sigma=sigma)
    mus = locs(s)
    for m in mus:
        for j in range(d):
            ctx.check("initial proposals in the domain", m[j] >= lo[j])
            ctx.check("initial proposals in the domain", m[j] <= hi[j])
    spread(ctx, mus, lo, hi)
    covs = [[[sigma if a == b else 0.0 for b in range(d)] for a in range(d)]] * N
    al = [1.0 / N] * N
    if adapted:
        # an arbitrary state the adaptation can reach
        a0 = ctx.real('alpha', 0, 1, lo_open=True, hi_open=True, hint=(.1, .9))
        al = [a0, 1 - a0] if N == 2 else [1.0]
        mus = [[ctx.real('mu%d.%d' % (k, j), -3, 3) for j in range(d)] for k in range(N)]
        covs = [spd(ctx, 'S%d' % k, d, 'diag') for k in range(N)]
        if adapted == 'weights':        # only the component weights are symbolic
            mus = [[-.6 + 1.1 * k + .2 * j for j in range(d)] for k in range(N)]
            covs = [ctx.A([[.5 + .3 * k if a == b else 0.0 for b in range(d)] for a in range(d)]) for k in range(N)]
        for k in range(N):
            s.proposals[k].set_moments(ctx.A(mus[k]), covs[k])
        s.wproposals = ctx.A(al)
        s.model.set_weights(ctx.A(al))

    if adapted == 'weights':
        s.adapt = lambda *a, **k: None      # this case is about the weights alone

    done = []

    def general(pts):
        pts = pts[len(olds):]
        if len(pts) >= d + 1 and len(olds) not in done:
            done.append(len(olds))
            a = [[pts[i][j] - pts[0][j] for j in range(d)] for i in range(1, d + 1)]
            det = a[0][0] if d == 1 else a[0][0] * a[1][1] - a[0][1] * a[1][0]
            ctx.assume(det * det > .01)
    t.on_rows = general
    olds, oldw = [], []
    ctx.fixed_normals = list(fixed)
    for _ in range(its):
        ctx.draws.clear()
        x, w = s.importance_sample(t, len(olds) + K)
        ctx.check_shape("shape", x, (len(olds) + K, d))
        new = rows_of(x)[len(olds):]
        for i, r in enumerate(olds):
            ctx.check_all_close("earlier samples kept", x[i], r)
            ctx.check_close("earlier weights kept", w[i], oldw[i])
        ctx.check("one weight per sample", len(w) == len(x))
        # the samples come from the mixture: a component by its weight, then a point of that component
        sel = selections(ctx)
        dr = drawn(ctx, 'mvn')
        ctx.check("one draw per sample", len(dr) == K, "%d draws" % len(dr))
        same_multiset(ctx, "samples are the draws", new, [r for _, r in dr])
        ctx.check("one component choice per sample", len(sel) == K, "%d choices" % len(sel))
        for p, _ in sel:
            ctx.check_all_close("component probabilities", p, al)
        same_multiset(ctx, "drawn from the chosen components", [[v for v in q.args['mean']] for q, _ in dr], [mus[i] for _, i in sel])
        q, rho = rho_of(ctx, new, mus, covs, al)
        raw = [t.at(new[i]) / q[i] for i in range(K)]
        w0, w = w, w[len(olds):]
        check_normalised(ctx, "weight", w, raw)
        if adapted == 'weights':
            ctx.observe("w", w)
            ctx.cover("done")
            return
        ctx.check_close("weights sum to one", total(ctx.flat(w)), 1.0)
        wn = [r / total(raw) for r in raw]
        al2 = [total([wn[i] * rho[k][i] for i in range(K)]) for k in range(N)]
        for k in range(N):
            ctx.check_close("component weight", s.wproposals[k], al2[k])
            ctx.check_close("component weight in the model", s.model.weights[k], al2[k])
        mu2 = [[total([wn[i] * rho[k][i] * new[i][j] for i in range(K)]) / al2[k] for j in range(d)] for k in range(N)]
        for k in range(N):
            ctx.check_all_close("component mean", s.proposals[k].loc, mu2[k])
            sc = s.proposals[k].scale
            for a in range(d):
                if d == 1:
                    ctx.check("positive variance", sc[a, a] > 0)
                for b in range(a):
                    ctx.check_close("symmetric covariance", sc[a, b], sc[b, a])
        if cov:
            for k in range(N):
                for a in range(d):
                    for b in range(d):
                        ref = total([wn[i] * rho[k][i] * (new[i][a] - mu2[k][a]) * (new[i][b] - mu2[k][b]) for i in range(K)]) / al2[k]
                        ctx.check_close("component covariance", s.proposals[k].scale[a, b], ref)
        olds, oldw = rows_of(x), [v for v in w0]
        mus, al = locs(s), [v for v in s.wproposals]
        covs = [q.scale for q in s.proposals]
    x2, w2 = s.importance_sample(t, K)
    ctx.check("no more samples than asked", len(x2) == its * K)
    ctx.check_all_close("weights unchanged", w2, oldw)
    ctx.observe("w", w2)
    ctx.cover("done")


CASES = [Case("d=1 N=1 K=2", iteration, dict(d=1, N=1, K=2, cov=False), need=("done",)),
         Case("d=1 N=2 K=2", iteration, dict(d=1, N=2, K=2, cov=False), need=("done",)),
         Case("d=1 N=1 K=2 x2", iteration, dict(d=1, N=1, K=2, cov=False, its=2), need=("done",)),
         Case("fixed draws d=1 N=1 K=3", iteration, dict(d=1, N=1, K=3, cov=False, fixed=(-.4, .3, 1.1)), need=("done",)),
         Case("fixed draws d=2 N=1 K=3", iteration, dict(d=2, N=1, K=3, cov=False, fixed=(-.4, .3, .5, -.2, .1, 1.)), need=("done",)),
         Case("fixed draws d=1 N=1 K=5", iteration, dict(d=1, N=1, K=5, cov=False, fixed=(-.4, .3, 1.1, -.7, .9)), need=("done",)),
         T("d=1 N=1 K=3", iteration, dict(d=1, N=1, K=3, cov=False), need=("done",)),
         T("d=2 N=1 K=3", iteration, dict(d=2, N=1, K=3, cov=False), need=("done",)),
         Case("adapted d=1 N=1 K=2", iteration, dict(d=1, N=1, K=2, cov=False, adapted=True), need=("done",)),
         Case("adapted weights d=1 N=2 K=2", iteration, dict(d=1, N=2, K=2, cov=False, adapted='weights'), need=("done",)),
         Case("adapted weights d=2 N=2 K=1", iteration, dict(d=2, N=2, K=1, cov=False, adapted='weights'), need=("done",)),
         T("adapted d=1 N=2 K=2", iteration, dict(d=1, N=2, K=2, cov=False, adapted=True)),
         T("d=1 N=2 K=3", iteration, dict(d=1, N=2, K=3, cov=False)),
         Case("covariance d=1 N=1 K=2", iteration, dict(d=1, N=1, K=2, cov=True))]
