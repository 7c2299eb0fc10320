"""C11: DM-AIS and LAIS compute deterministic-mixture weights and adapt their proposals as their algorithms say."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["N = 1-2 proposals (3 thorough), K = 1-2 samples each, L = 1-2 MCMC moves, 1-2 iterations, d = 1-2; target values, initial proposals, every "
          "drawn value and selection symbolic"]
OUTSIDE = ["more iterations, proposals or dimensions; target densities of zero at every sample of an iteration"]


def setup(ctx, kind, d, N, K, sigma, zeros=False, **kw):
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi, zeros=zeros)
    s = mk_sampler(ctx, kind, d, lo, hi, N=N, K=K, sigma=sigma, **kw)
    ctx.check("N proposals", len(s.proposals) == N)
    return s, t, lo, hi


def batch(ctx, s, t, n, mus, N, K, sigma, d, olds, raws):
    """one iteration: new rows, their weights against the mixture in force when they were drawn"""
    x, w = s.importance_sample(t, n)
    ctx.check("iteration size", len(x) == len(olds) + N * K, "%d samples, expected %d" % (len(x), len(olds) + N * K))
    ctx.check_shape("shape", x, (len(olds) + N * K, d))
    rows = rows_of(x)
    for a, b in zip(olds, rows):
        ctx.check_all_close("earlier samples kept", b, a)
    new = rows[len(olds):]
    raws = raws + [t.at(r) / mixture_pdf(ctx, r, mus, sigma) for r in new]
    if t.zeros:
        ctx.assume(total(raws) > 0)
    check_normalised(ctx, "weight", w, raws)
    tot = total(ctx.flat(w))
    ctx.check_close("weights sum to one", tot, 1.0)
    return rows, new, raws


def check_proposal_draws(ctx, dr, mus, K, sigma, d, new):
    """K rows from each proposal, with its mean and sigma I"""
    ctx.check("K draws per proposal", len(dr) == len(mus) * K, "%d rows drawn for %d proposals x %d" % (len(dr), len(mus), K))
    same_multiset(ctx, "drawn from the proposals", [[v for v in q.args['mean']] for q, _ in dr], [m for m in mus for _ in range(K)],
                  "means of the draws")
    for q, _ in dr:
        for i in range(d):
            for j in range(d):
                ctx.check_close("proposal covariance", q.args['cov'][i, j], sigma if i == j else 0.0)
    same_multiset(ctx, "samples are the draws", new, [r for _, r in dr])


def dm(ctx, d, N, K, its):
    sigma = ctx.real('sigma', 0, 3, lo_open=True, hint=(.1, 2))
    s, t, lo, hi = setup(ctx, 'dm', d, N, K, sigma)
    mus = locs(s)
    for m in mus:
        for j in range(d):
            ctx.check("initial proposals in the domain", m[j] >= lo[j])
            ctx.check("initial proposals in the domain", m[j] <= hi[j])
    spread(ctx, mus, lo, hi)
    olds, raws = [], []
    for it in range(its):
        ctx.draws.clear()
        before = len(raws)
        olds, new, raws = batch(ctx, s, t, (it + 1) * N * K, mus, N, K, sigma, d, olds, raws)
        check_proposal_draws(ctx, drawn(ctx, 'mvn'), mus, K, sigma, d, new)
        # adaptation: every proposal moves to one of the new samples, with probability proportional to its weight
        r = raws[before:]
        sel = selections(ctx)
        ctx.check("one resampled mean per proposal", len(sel) == N, "%d selections for %d proposals" % (len(sel), N))
        for p, i in sel:
            check_normalised(ctx, "resampling probability", p, r)
        mus = [new[i] for p, i in sel]
        check_state(ctx, s, mus, sigma, d)
    x2, w2 = s.importance_sample(t, 1)
    ctx.check("no more samples than asked", len(x2) == len(olds))
    check_normalised(ctx, "weights unchanged", w2, raws)
    ctx.observe("w", w2)
    ctx.cover("done")


def dm_zero(ctx, d, N, K):
    """an iteration whose samples all miss the support of the target"""
    sigma = ctx.real('sigma', 0, 3, lo_open=True, hint=(.1, 2))
    lo, hi = domain(ctx, d)
    hit = ctx.flag('second iteration hits')
    t = Target(ctx, d, lo, hi, zeros=True, value=lambda pt: 0.0 if len(t.points) <= N * K or not hit else 1.0)
    s = mk_sampler(ctx, 'dm', d, lo, hi, N=N, K=K, sigma=sigma)
    s.importance_sample(t, N * K)
    first = locs(s)
    for m in first:
        for v in m:
            ctx.check("proposals stay finite", not ctx.isnan(v))
    x, w = s.importance_sample(t, 2 * N * K)
    ctx.check_shape("shape", x, (2 * N * K, d))
    if hit:
        raw = [0.0] * (N * K) + [1.0 / mixture_pdf(ctx, r, first, sigma) for r in rows_of(x)[N * K:]]
        check_normalised(ctx, "weight", w, raw)
    ctx.cover("done")


def check_state(ctx, s, mus, sigma, d):
    now = locs(s)
    for a, b in zip(now, mus):
        ctx.check_all_close("adapted mean", a, b)
    for q in s.proposals:
        for i in range(d):
            for j in range(d):
                ctx.check_close("covariance stays sigma I", q.scale[i, j], sigma if i == j else 0.0)
    pt = ctx.reals('pt', (1, d), -3, 3)
    ctx.check_close("model is the iso-weighted mixture of the adapted proposals", s.prob(pt)[0], mixture_pdf(ctx, pt[0], mus, sigma))


def lais(ctx, d, N, K, L, its, zeros=False):
    sigma = ctx.real('sigma', 0, 3, lo_open=True, hint=(.1, 2))
    mh = ctx.real('mh', 0, 3, lo_open=True, hint=(.1, 2))
    s, t, lo, hi = setup(ctx, 'lais', d, N, K, sigma, zeros=zeros, L=L, mh_sigma=mh)
    mus = locs(s)
    spread(ctx, mus, lo, hi)
    olds, raws = [], []
    for it in range(its):
        ctx.draws.clear()
        olds, new, raws = batch(ctx, s, t, (it + 1) * N * K, mus, N, K, sigma, d, olds, raws)
        dr = drawn(ctx, 'mvn')
        ctx.check("draws", len(dr) == N * K + N * L, "%d rows drawn" % len(dr))
        check_proposal_draws(ctx, dr[:N * K], mus, K, sigma, d, new)
        moves, us = dr[N * K:], uniforms01(ctx)
        ctx.check("one acceptance draw per move", len(us) == N * L, "%d uniforms" % len(us))
        mus2 = []
        k = 0
        for n in range(N):
            x = mus[n]
            for l in range(L):
                q, delta = moves[k]
                for i in range(d):
                    ctx.check_close("random walk is centred", q.args['mean'][i], 0.0)
                    for j in range(d):
                        ctx.check_close("random walk covariance", q.args['cov'][i, j], mh if i == j else 0.0)
                y = [clip(x[j] + delta[j], lo[j], hi[j]) for j in range(d)]
                if zeros and bool(t.at(x) == 0):
                    ctx.cover("from zero")
                if bool(t.at(y) > us[k] * t.at(x)):
                    x = y
                    ctx.cover("accepted")
                else:
                    ctx.cover("rejected")
                k += 1
            mus2.append(x)
        mus = mus2
        check_state(ctx, s, mus, sigma, d)
        for m in mus:
            for j in range(d):
                ctx.check("proposals stay in the domain", m[j] >= lo[j])
                ctx.check("proposals stay in the domain", m[j] <= hi[j])
    x2, w2 = s.importance_sample(t, 1)
    ctx.check("no more samples than asked", len(x2) == len(olds))
    check_normalised(ctx, "weights unchanged", w2, raws)
    ctx.observe("w", w2)
    ctx.cover("done")


def clip(v, lo, hi):
    if bool(v < lo):
        return lo
    if bool(v > hi):
        return hi
    return v


CASES = []
for d in (1, 2):
    CASES.append(Case("dm d=%d N=2 K=1 x1" % d, dm, dict(d=d, N=2, K=1, its=1), need=("done",)))
    CASES.append(Case("dm d=%d N=1 K=2 x2" % d, dm, dict(d=d, N=1, K=2, its=2), need=("done",)))
    CASES.append(Case("dm d=%d N=1 K=1 x2" % d, dm, dict(d=d, N=1, K=1, its=2), need=("done",)))
    CASES.append(Case("lais d=%d N=1 K=2 L=1 x1" % d, lais, dict(d=d, N=1, K=2, L=1, its=1), need=("done", "accepted", "rejected")))
    CASES.append(Case("lais d=%d N=1 K=1 L=1 x1" % d, lais, dict(d=d, N=1, K=1, L=1, its=1), need=("done", "accepted", "rejected")))
CASES.append(Case("dm d=1 N=2 K=2 x1", dm, dict(d=1, N=2, K=2, its=1), need=("done",)))
CASES.append(Case("dm d=1 N=2 K=1 x2", dm, dict(d=1, N=2, K=1, its=2), need=("done",)))
CASES.append(Case("lais d=1 N=2 K=1 L=1 x1", lais, dict(d=1, N=2, K=1, L=1, its=1), need=("done", "accepted", "rejected")))
CASES.append(Case("lais d=1 N=1 K=2 L=2 x1", lais, dict(d=1, N=1, K=2, L=2, its=1), need=("done", "accepted", "rejected")))
CASES.append(Case("lais d=1 N=1 K=2 L=1 x2", lais, dict(d=1, N=1, K=2, L=1, its=2), need=("done", "accepted", "rejected")))
CASES.append(Case("lais zeros d=1", lais, dict(d=1, N=1, K=1, L=1, its=1, zeros=True), need=("done", "accepted", "rejected", "from zero")))
CASES.append(Case("lais zeros d=1 L=2", lais, dict(d=1, N=1, K=1, L=2, its=1, zeros=True), need=("done", "accepted", "rejected", "from zero")))
CASES.append(Case("lais zeros d=2", lais, dict(d=2, N=1, K=2, L=1, its=1, zeros=True), need=("done", "accepted", "rejected", "from zero")))
CASES.append(Case('dm zero', dm_zero, dict(d=1, N=1, K=2), need=('done',)))
CASES.append(T("dm d=1 N=3 K=1 x1", dm, dict(d=1, N=3, K=1, its=1)))
CASES.append(T("dm d=2 N=2 K=1 x2", dm, dict(d=2, N=2, K=1, its=2)))
CASES.append(T("lais d=1 N=2 K=1 L=2 x1", lais, dict(d=1, N=2, K=1, L=2, its=1)))
CASES.append(T("lais d=2 N=2 K=1 L=1 x1", lais, dict(d=2, N=2, K=1, L=1, its=1)))
