"""C20: reset() forgets everything: a used sampler behaves like one that was never used."""
from vf.runner import Case, T
from harness.lib import *
from harness.c10 import setup

BOUNDS = ["all nine samplers, d = 1-2, 1-2 calls before and one call after the reset, up to 3 samples; domain, target values and draws symbolic; retry loops "
          "(rejection, MH, nested) up to the stated number of random draws"]
OUTSIDE = ["runs that reach their time limit", "tree-pyramid methods 'dm' and 'mixture'"]


STEPS = dict(mh=8, nested=5, multinested=4, rejection=7)      # draws of the run after the reset (retries included)


def state(s):
    return [s.num_target_evals, s.num_proposal_samples, s.num_proposal_evals]


def run(ctx, kind, d, before, n, probe=True, **kw):
    np = ctx.np
    a, t, lo, hi = setup(ctx, kind, d, False, kw)
    for k in before:
        a.importance_sample(t, k)
    if kind in STEPS:                     # the budget of random draws starts anew for the compared runs
        ctx.rng_limit = ctx.rng_total + STEPS[kind]
    np.random.seed(7)
    a.reset()
    ctx.check("counters zero after reset", state(a) == [0, 0, 0], "%s" % state(a))
    ctx.check("no samples after reset", len(a.samples) == 0 or kind == 'tp', "%d samples" % len(a.samples))
    ctx.check("no weights after reset", len(a.weights) == 0 or kind == 'tp', "%d weights" % len(a.weights))
    x, w = a.importance_sample(t, n)
    if kind == 'rejection':
        kw = dict(kw, scaling=5.0 * prod([hi[j] - lo[j] for j in range(d)]))
    ctx.rng_limit = 400
    b = mk_sampler(ctx, kind, d, lo, hi, **kw)
    np.random.seed(7)
    b.reset()
    y, v = b.importance_sample(t, n)
    ctx.check("as many samples as a new sampler", len(x) == len(y) and len(w) == len(v), "%d, new %d" % (len(x), len(y)))
    ctx.check_all_close("same samples as a new sampler", x, y)
    ctx.check_all_close("same weights as a new sampler", w, v)
    ctx.check("same counters as a new sampler", state(a) == state(b), "%s, new %s" % (state(a), state(b)))
    if probe:
        p = ctx.A([[lo[j] + ctx.real('p%d' % j, 0.05, .95) * (hi[j] - lo[j]) for j in range(d)]])
        ctx.check_all_close("same density as a new sampler", a.prob(p), b.prob(p))
    ctx.check_close("same NESS as a new sampler", a.get_approx_NESS(), b.get_approx_NESS()) if kind != 'tp' else None
    ctx.observe("x", x)
    ctx.observe("w", w)
    ctx.cover("done")


def fresh(ctx, kind, d, n, **kw):
    """the constructor leaves the state a reset would"""
    np = ctx.np
    lo, hi = domain(ctx, d, cube=(kind == 'tp'))
    t = Target(ctx, d, lo, hi, two_d=kind == 'tp')
    np.random.seed(7)
    a = mk_sampler(ctx, kind, d, lo, hi, **kw)
    x, w = a.importance_sample(t, n)
    b = mk_sampler(ctx, kind, d, lo, hi, **kw)
    np.random.seed(7)
    b.reset()
    y, v = b.importance_sample(t, n)
    ctx.check_all_close("samples", x, y)
    ctx.check_all_close("weights", w, v)
    ctx.observe("w", w)
    ctx.cover("done")


def adapted(ctx, d, N, K):
    """M-PMC in any state an adaptation can leave it in: reset() starts from new proposals with equal weights"""
    np = ctx.np
    a, t, lo, hi = setup(ctx, 'mpmc', d, False, dict(N=N, K=K))
    for k in range(N):
        a.proposals[k].set_moments(ctx.reals('mu%d' % k, d, -3, 3), spd(ctx, 'S%d' % k, d, 'diag'))
    al = ctx.reals('al', N, 0, 1, lo_open=True, hint=(.1, .9))
    a.wproposals = al / total(al)
    a.model.set_weights(a.wproposals)
    np.random.seed(7)
    a.reset()
    ctx.check("counters zero after reset", state(a) == [0, 0, 0], "%s" % state(a))
    b = mk_sampler(ctx, 'mpmc', d, lo, hi, N=N, K=K)
    np.random.seed(7)
    b.reset()
    for k in range(N):
        ctx.check_all_close("proposal means of a new sampler", a.proposals[k].loc, b.proposals[k].loc)
        ctx.check_all_close("proposal covariances of a new sampler", a.proposals[k].scale, b.proposals[k].scale)
        ctx.check_close("equal component weights", a.wproposals[k] * N, 1.0)
    p = ctx.A([[lo[j] + ctx.real('p%d' % j, 0.05, .95) * (hi[j] - lo[j]) for j in range(d)]])
    ctx.check_all_close("same density as a new sampler", a.prob(p), b.prob(p))
    ctx.check_all_close("same samples as a new sampler", a.sample(1), b.sample(1)) if N == 1 else None
    ctx.observe("p", a.prob(p))
    ctx.cover("done")


D1 = dict(max_time=60, deep=dict(max_time=400, max_paths=20000))
CASES = []
for d in (1, 2):
    CASES += [
        Case("dm d=%d" % d, run, dict(kind='dm', d=d, before=(2,), n=2, N=2, K=1), need=("done",)),
        Case("lais d=%d" % d, run, dict(kind='lais', d=d, before=(1,), n=1, N=1, K=1, L=1), need=("done",)),
        Case("rejection d=%d" % d, run, dict(kind='rejection', d=d, before=(1,), n=1, n_samples_kde=1), opts=dict(rng_limit=4), need=("done",)),
        Case("mh d=%d" % d, run, dict(kind='mh', d=d, before=(1,), n=1, n_burnin=0 if d == 2 else 1, n_samples_kde=1), opts=dict(rng_limit=6 if d == 1 else 4), need=("done",), **D1),
        Case("nested d=%d" % d, run, dict(kind='nested', d=d, before=(1,), n=1, n_samples_kde=1), opts=dict(rng_limit=4), need=("done",), **D1),
        Case("hidaisee d=%d" % d, run, dict(kind='hidaisee', d=d, before=(2,), n=2), need=("done",)),
        Case("tp d=%d" % d, run, dict(kind='tp', d=d, before=(1, 3), n=3, parallel_samples=1), need=("done",)),
        Case("tp d=%d leaf" % d, run, dict(kind='tp', d=d, before=(1, 3), n=3, parallel_samples=1, resampling='leaf'), need=("done",)),
    ]
CASES += [
    Case("mpmc", run, dict(kind='mpmc', d=1, before=(2,), n=2, N=1, K=2), need=("done",), **D1),
    Case("mpmc adapted N=2", adapted, dict(d=1, N=2, K=2), need=("done",)),
    Case("mpmc adapted N=3 d=2", adapted, dict(d=2, N=3, K=2), need=("done",)),
    Case("multinested", run, dict(kind='multinested', d=1, before=(1,), n=1, N=2, n_samples_kde=1), opts=dict(rng_limit=3), need=("done",), **D1),
    Case("hidaisee two calls", run, dict(kind='hidaisee', d=1, before=(2, 3), n=2), need=("done",), **D1),
    Case("fresh dm", fresh, dict(kind='dm', d=1, n=2, N=2, K=1), need=("done",)),
    Case("fresh lais", fresh, dict(kind='lais', d=1, n=1, N=1, K=1, L=1), need=("done",)),
    Case("fresh hidaisee", fresh, dict(kind='hidaisee', d=1, n=2), need=("done",)),
    Case("fresh tp", fresh, dict(kind='tp', d=1, n=3, parallel_samples=1), need=("done",)),
]
