"""C22: the density a sampler reports is one coherent model of its samples, refreshed by every call."""
from vf.runner import Case, T
from harness.lib import *
from harness.c10 import setup

BOUNDS = ["all nine samplers, d = 1-2, 1-2 calls of up to 2 samples, 1-2 kernels, 1-2 query points; domain, bandwidth, target values and draws symbolic; "
          "retry loops (rejection, MH, nested) up to the stated number of random draws"]
OUTSIDE = ["runs that reach their time limit", "tree-pyramid methods 'dm' and 'mixture'", "query points on the border of a tree cell"]


def query(ctx, d, lo, hi, k):
    q = ctx.reals('q', (k, d), 0.01, .99, hint=(.05, .95))
    return ctx.A([[lo[j] + q[i, j] * (hi[j] - lo[j]) for j in range(d)] for i in range(k)])


def coherent(ctx, s, x, k):
    if x.shape[1] == 1:
        p, lp = s.prob(x), s.log_prob(x)
    else:
        lp, p = s.log_prob(x), s.prob(x)
    fp, fl = ctx.flat(p), ctx.flat(lp)
    ctx.check("one density per point", len(fp) == k and len(fl) == k, "%d, %d for %d" % (len(fp), len(fl), k))
    for i in range(k):
        ctx.check("densities are not negative", fp[i] >= 0)
        ctx.check_close("prob is exp(log_prob)", ctx.np.exp(fl[i]), fp[i])
        one = ctx.A([[x[i, j] for j in range(x.shape[1])]])
        ctx.check_close("a row at a time", ctx.flat(s.prob(one))[0], fp[i])
    return fp


def kde(ctx, kind, d, ns, m, k=1, **kw):
    """rejection, MH and nested samplers: an equal mixture of m normals around samples picked uniformly"""
    bw = ctx.real('bw', .01, 2, hint=(.1, 1))
    s, t, lo, hi = setup(ctx, kind, d, False, dict(kw, kde_bw=bw, n_samples_kde=m))
    x = query(ctx, d, lo, hi, k)
    for n in ns:
        ctx.draws.clear()
        smp, w = s.importance_sample(t, n)
        rows = rows_of(smp)
        picks = [(dr, int(v)) for dr in ctx.draws if dr.kind in ('randint', 'choice') for v in ctx.flat(dr.value)][-m:]
        ctx.check("kernels picked among all the samples", len(picks) == m and all(dr.args.get('low', 0) == 0 and dr.args.get('high', dr.args.get('n')) == len(rows)
                                                                                  for dr, _ in picks), "%s" % [(dr.args, v) for dr, v in picks])
        fp = coherent(ctx, s, x, k)
        for i in range(k):
            want = mixture_pdf(ctx, [x[i, j] for j in range(d)], [rows[v] for _, v in picks], bw)
            ctx.check_close("kernel density of the samples", fp[i], want)
    ctx.observe("p", ctx.A(fp))
    ctx.cover("done")


def draws(ctx, kind, d, m, n, **kw):
    """sample() draws from that mixture"""
    s, t, lo, hi = setup(ctx, kind, d, False, dict(kw, kde_bw=.25, n_samples_kde=m))
    smp, w = s.importance_sample(t, 1)
    rows = rows_of(smp)
    ctx.draws.clear()
    y = s.sample(n)
    ctx.check_shape("n x d", y, (n, d))
    mv = drawn(ctx, 'mvn')
    sel = selections(ctx)
    ctx.check("one selection per draw", len(sel) == n and len(mv) == n, "%d, %d" % (len(sel), len(mv)))
    for p, _ in sel:
        for v in ctx.flat(p):
            ctx.check_close("equal weights", v, 1.0 / m)
    for q, _ in mv:
        ctx.check("around a sample", any(all(bool(ctx.close(q.args['mean'][j], r[j])) for j in range(d)) for r in rows))
        for i in range(d):
            for j in range(d):
                ctx.check_close("bandwidth", q.args['cov'][i, j], .25 if i == j else 0.0)
    ctx.cover("done")


def mixture(ctx, kind, d, ns, k=1, **kw):
    s, t, lo, hi = setup(ctx, kind, d, False, kw)
    x = query(ctx, d, lo, hi, k)
    for n in ns:
        s.importance_sample(t, n)
        fp = coherent(ctx, s, x, k)
        if kind in ('dm', 'lais'):
            want = [mixture_pdf(ctx, [x[i, j] for j in range(d)], locs_of(s), kw['sigma']) for i in range(k)]
            for a, b in zip(fp, want):
                ctx.check_close("equal mixture of the current proposals", a, b)
    ctx.observe("p", ctx.A(fp))
    ctx.cover("done")


def locs_of(s):
    return [[v for v in q.loc.reshape(-1)] for q in s.proposals]


B = dict(max_time=50, deep=dict(max_time=400, max_paths=20000))
CASES = []
for d in (1, 2):
    CASES += [
        Case("rejection d=%d" % d, kde, dict(kind='rejection', d=d, ns=(1,), m=1), opts=dict(rng_limit=5), need=("done",), **B),
        Case("mh d=%d" % d, kde, dict(kind='mh', d=d, ns=(1,), m=1, n_burnin=0), opts=dict(rng_limit=4), need=("done",), **B),
        Case("nested d=%d" % d, kde, dict(kind='nested', d=d, ns=(1,), m=1), opts=dict(rng_limit=4), need=("done",), **B),
        Case("dm d=%d" % d, mixture, dict(kind='dm', d=d, ns=(2, 4), N=2, K=1, sigma=.5), need=("done",), **B),
        Case("lais d=%d" % d, mixture, dict(kind='lais', d=d, ns=(1, 2), N=1, K=1, L=1, sigma=.5), need=("done",), **B),
        Case("hidaisee d=%d" % d, mixture, dict(kind='hidaisee', d=d, ns=(2, 3)), need=("done",), **B),
        Case("tp d=%d" % d, mixture, dict(kind='tp', d=d, ns=(1, 3), parallel_samples=1), need=("done",), **B),
    ]
CASES += [
    Case("rejection refreshed", kde, dict(kind='rejection', d=1, ns=(1, 2), m=1, k=2), opts=dict(rng_limit=7), need=("done",), **B),
    Case("rejection two kernels", kde, dict(kind='rejection', d=1, ns=(2,), m=2), opts=dict(rng_limit=5), need=("done",), **B),
    Case("mh refreshed", kde, dict(kind='mh', d=1, ns=(1, 2), m=1, n_burnin=0), opts=dict(rng_limit=7), need=("done",), **B),
    Case("nested refreshed", kde, dict(kind='nested', d=1, ns=(1, 2), m=1, N=1), opts=dict(rng_limit=7), need=("done",), **B),
    Case("multinested", kde, dict(kind='multinested', d=1, ns=(1,), m=2, N=2), opts=dict(rng_limit=3), need=("done",), **B),
    Case("lais N=2", mixture, dict(kind='lais', d=1, ns=(2,), N=2, K=1, L=1, sigma=.5), need=("done",), **B),
    Case("mpmc", mixture, dict(kind='mpmc', d=1, ns=(2, 4), N=1, K=2, k=2), need=("done",), **B),
    Case("tp leaf", mixture, dict(kind='tp', d=1, ns=(1, 3), parallel_samples=1, resampling='leaf', k=2), need=("done",), **B),
    Case("draws rejection", draws, dict(kind='rejection', d=1, m=2, n=2), opts=dict(rng_limit=12), need=("done",), **B),
    Case("draws nested", draws, dict(kind="nested", d=1, m=1, n=1, N=1), opts=dict(rng_limit=6), need=("done",), **B),
    T("rejection m=3", kde, dict(kind='rejection', d=2, ns=(2, 3), m=3, k=2), opts=dict(rng_limit=10)),
    T("mh long", kde, dict(kind='mh', d=1, ns=(1, 3), m=2, n_burnin=1), opts=dict(rng_limit=12)),
]
