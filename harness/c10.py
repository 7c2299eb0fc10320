"""C10: every sampler accumulates a growing, aligned set of weighted samples and answers from it."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["all nine samplers, d = 1-2, up to 4 samples (6 thorough) over 2-3 successive calls; domain, target values and draws symbolic; retry loops "
          "(rejection, MH, nested) up to the stated number of random draws"]
OUTSIDE = ["runs that reach their time limit", "targets that are zero at every sample of an iteration", "tree-pyramid methods 'dm' and 'mixture' with the haar kernel and no resampling: they stop with an exception (see DESIGN.md)"]

EXACT = ('rejection', 'mh', 'nested', 'hidaisee')          # return exactly n
ORDERED = ('dm', 'lais', 'mpmc', 'rejection', 'mh', 'nested', 'multinested')
INSIDE = ('rejection', 'mh', 'nested', 'multinested', 'hidaisee', 'tp')
NORM = ('dm', 'lais', 'rejection', 'mh', 'nested', 'multinested')


def setup(ctx, kind, d, zeros, kw):
    lo, hi = domain(ctx, d, cube=(kind == 'tp'))
    t = Target(ctx, d, lo, hi, zeros=zeros, two_d=kind in ('rejection', 'nested', 'multinested', 'tp', 'mh'))
    kw = dict(kw)
    if kind == 'rejection':
        # the envelope must lie above the target: volume of the domain x 5 (the largest target value)
        kw['scaling'] = 5.0 * prod([hi[j] - lo[j] for j in range(d)])
    s = mk_sampler(ctx, kind, d, lo, hi, **kw)
    if kind == 'mpmc':
        t.on_rows = lambda rows: general(ctx, d, rows)
    return s, t, lo, hi


def general(ctx, d, rows):
    """the d + 1 samples of an iteration do not lie on a line (their scatter is a covariance)"""
    if len(rows) % (d + 1) == 0:
        p = rows[-(d + 1):]
        a = [[p[i][j] - p[0][j] for j in range(d)] for i in range(1, d + 1)]
        det = a[0][0] if d == 1 else a[0][0] * a[1][1] - a[0][1] * a[1][0]
        ctx.assume(det * det > (.01 if ctx.symbolic else .009))


def look(ctx, kind, d, lo, hi, n, x, w, olds, gauss):
    rows, fw = rows_of(x), ctx.flat(w)
    ctx.check("N x d samples", len(x.shape) == 2 and x.shape[1] == d, "shape %s" % (x.shape,))
    ctx.check("one weight per sample", len(fw) == len(rows), "%d weights for %d samples" % (len(fw), len(rows)))
    ctx.finite("finite samples", x)
    ctx.finite("finite weights", w)
    for v in fw:
        ctx.check("weights are not negative", v >= 0)
    if kind in EXACT:
        ctx.check("as many as requested", len(rows) == max(n, len(olds)), "%d for %d" % (len(rows), n))
    elif kind != 'multinested':
        ctx.check("at least as many as requested", len(rows) >= n, "%d for %d" % (len(rows), n))
    else:
        ctx.check("every call adds samples", len(rows) > len(olds))
    if kind in NORM:
        ctx.check_close("weights sum to one", total(fw), 1.0)
    if kind in INSIDE and not gauss:
        for r in rows[len(olds) if kind in ORDERED else 0:]:
            for j in range(d):
                ctx.check("samples in the domain", r[j] >= lo[j] - 1e-9)
                ctx.check("samples in the domain", r[j] <= hi[j] + 1e-9)
    if kind in ORDERED:
        for a, b in zip(olds, rows):
            ctx.check_all_close("earlier samples kept", b, a)
    elif kind != 'tp':             # the tree pyramid returns the samples of its current leaves
        have = [repr(key(ctx, r)) for r in rows]
        for a in olds:
            k = repr(key(ctx, a))
            ctx.check("earlier samples kept", k in have, "%s not in %s" % (k, have[:5]))
            have.remove(k)
    return rows, fw


def grow(ctx, kind, d, ns, zeros=False, **kw):
    s, t, lo, hi = setup(ctx, kind, d, zeros, kw)
    rows = []
    for n in ns:
        had = len(rows)
        before, fw = (rows, fw) if rows else ([], [])
        ev = t.evals
        x, w = s.importance_sample(t, n)
        rows, fw = look(ctx, kind, d, lo, hi, n, x, w, rows, kw.get('kernel') == 'normal')
        if n <= had and kind != 'multinested':
            ctx.check("no new samples when enough are held", len(rows) == had)
            same_multiset(ctx, "same samples", rows, before)
            ctx.check_all_close("same weights", sorted_by(ctx, rows, fw), sorted_by(ctx, before, keepw))
            ctx.cover("again")
        keepw = fw
        ctx.check("the state holds what was returned", len(s.samples) == len(rows), "%d held, %d returned" % (len(s.samples), len(rows))) if kind != 'tp' else None
    ctx.observe("n", len(rows))
    ctx.observe("w", w)
    ctx.cover("done")


def sorted_by(ctx, rows, w):
    return [v for _, v in sorted(zip([repr(key(ctx, r)) for r in rows], w), key=lambda p: p[0])]


def split(ctx, kind, d, n1, n2, **kw):
    """two successive calls give what one call for the total gives on the same random stream"""
    np = ctx.np
    np.random.seed(7)
    a, t, lo, hi = setup(ctx, kind, d, False, kw)
    a.importance_sample(t, n1)
    x, w = a.importance_sample(t, n2)
    np.random.seed(7)
    b = mk_sampler(ctx, kind, d, lo, hi, **kw)
    y, v = b.importance_sample(t, n2)
    ctx.check_all_close("same samples in one call", x, y)
    ctx.check_all_close("same weights in one call", w, v)
    ctx.observe("w", w)
    ctx.cover("done")


R = dict(rng_limit=9)
CASES = []
for d in (1, 2):
    CASES += [
        Case("dm d=%d" % d, grow, dict(kind='dm', d=d, ns=(2, 4, 3), N=2, K=1), need=("done", "again")),
        Case("lais d=%d" % d, grow, dict(kind='lais', d=d, ns=(1, 2, 1), N=1, K=1, L=1), need=("done", "again")),
        Case("rejection d=%d" % d, grow, dict(kind='rejection', d=d, ns=(1, 2, 1), n_samples_kde=1), opts=dict(rng_limit=9), need=("done", "again")),
        Case("mh d=%d" % d, grow, dict(kind='mh', d=d, ns=(1, 2, 1) if d == 1 else (1, 1), n_burnin=0, n_samples_kde=1), opts=dict(rng_limit=8 if d == 1 else 5),
             need=("done", "again"), max_time=60, deep=dict(max_time=500, max_paths=20000)),
        Case("nested d=%d" % d, grow, dict(kind='nested', d=d, ns=(1, 2, 1) if d == 1 else (1, 1), n_samples_kde=1), opts=dict(rng_limit=8 if d == 1 else 5),
             need=("done", "again"), max_time=60, deep=dict(max_time=500, max_paths=20000)),
        Case("hidaisee d=%d" % d, grow, dict(kind='hidaisee', d=d, ns=(2, 3, 1)), need=("done", "again")),
        Case("tp d=%d none" % d, grow, dict(kind='tp', d=d, ns=(1, 2, 2), parallel_samples=1), need=("done", "again")),
        Case("tp d=%d leaf" % d, grow, dict(kind='tp', d=d, ns=(1, 2, 2), parallel_samples=1, resampling='leaf'), need=("done", "again")),
    ]
CASES += [
    Case("mpmc d=1", grow, dict(kind='mpmc', d=1, ns=(2, 1, 4), N=1, K=2), need=("done", "again")),
    T("mpmc d=2", grow, dict(kind='mpmc', d=2, ns=(3, 2), N=1, K=3)),
    Case("nested retry", grow, dict(kind='nested', d=1, ns=(1,), n_samples_kde=1), opts=dict(rng_limit=5), need=("done",), max_time=60),
    Case("multinested d=1", grow, dict(kind='multinested', d=1, ns=(1, 2), N=2, n_samples_kde=1), opts=dict(rng_limit=7), need=("done",), max_time=60),
    Case("rejection zeros", grow, dict(kind='rejection', d=1, ns=(2,), n_samples_kde=1, zeros=True), opts=dict(rng_limit=7), need=("done",)),
    Case("hidaisee many at once", grow, dict(kind='hidaisee', d=1, ns=(3,)), need=("done",)),
    Case("tp normal", grow, dict(kind='tp', d=1, ns=(1, 3), parallel_samples=2, kernel='normal'), need=("done",)),
    Case("split dm", split, dict(kind='dm', d=1, n1=2, n2=4, N=2, K=1), need=("done",)),
    Case("split lais", split, dict(kind='lais', d=1, n1=1, n2=2, N=1, K=1, L=1), need=("done",)),
    Case("split mpmc", split, dict(kind='mpmc', d=1, n1=2, n2=4, N=1, K=2), need=("done",)),
    Case("split hidaisee", split, dict(kind='hidaisee', d=1, n1=2, n2=3), need=("done",)),
    Case("split hidaisee 4", split, dict(kind='hidaisee', d=1, n1=2, n2=4, n_min=1), need=("done",)),
    T("split hidaisee d=2", split, dict(kind="hidaisee", d=2, n1=3, n2=4, n_min=1)),
    Case("split tp", split, dict(kind='tp', d=1, n1=2, n2=4, parallel_samples=1), need=("done",)),
    Case("split tp leaf", split, dict(kind='tp', d=1, n1=2, n2=3, parallel_samples=1, resampling='leaf'), need=("done",)),
    Case("tp mixture leaf", grow, dict(kind='tp', d=1, ns=(1, 3, 2), method='mixture', resampling='leaf'), need=("done", "again")),
    Case("tp dm leaf", grow, dict(kind='tp', d=1, ns=(1, 2, 1), method='dm', resampling='leaf'), need=("done", "again")),
    Case("tp mixture normal", grow, dict(kind='tp', d=1, ns=(1, 3, 2), method='mixture', kernel='normal'), need=("done", "again")),
    T("tp mixture leaf d=2", grow, dict(kind='tp', d=2, ns=(1, 3, 2), method='mixture', resampling='leaf')),
    Case("tp dm normal leaf", grow, dict(kind='tp', d=1, ns=(1, 3, 2), method='dm', kernel='normal', resampling='leaf'), need=("done", "again")),
    T("hidaisee 4", grow, dict(kind='hidaisee', d=1, ns=(2, 4, 1))),
    T("tp d=2 x", grow, dict(kind='tp', d=2, ns=(1, 5, 9, 2), parallel_samples=1)),
    T("nested long", grow, dict(kind='nested', d=1, ns=(1, 3), n_samples_kde=1), opts=dict(rng_limit=14)),
    T("mh long", grow, dict(kind='mh', d=1, ns=(1, 3), n_burnin=1, n_samples_kde=1), opts=dict(rng_limit=14)),
    T("rejection long", grow, dict(kind='rejection', d=1, ns=(2, 3), n_samples_kde=2), opts=dict(rng_limit=14)),
    T("multinested 3", grow, dict(kind='multinested', d=1, ns=(1, 3), N=4, n_samples_kde=1), opts=dict(rng_limit=12)),
]
