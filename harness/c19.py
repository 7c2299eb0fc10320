"""C19: the work counters are exact."""
from vf.runner import Case, T
from harness.lib import *
from harness.c10 import setup

BOUNDS = ["all nine samplers, d = 1-2, 1-2 calls of up to 3 samples; domain, target values and draws symbolic; retry loops (rejection, MH, nested) up to the "
          "stated number of random draws"]
OUTSIDE = ["runs that reach their time limit", "tree-pyramid methods 'dm' and 'mixture' with the haar kernel and no resampling: they stop with an exception (see DESIGN.md)"]


def made(ctx, kind, t, rows, d, mixed):
    """draws made from proposal distributions since the start"""
    n = len(drawn(ctx, 'mvn'))
    if mixed:
        return n                         # the points that choose the cells to divide are drawn from the model too
    if kind in ('dm', 'lais', 'mpmc', 'nested', 'multinested'):
        return n
    if kind == 'mh':
        return n - 1                     # the starting state is not a proposed move
    if kind == 'hidaisee':
        return len(rows)
    return t.evals                       # rejection, tp: every draw is evaluated once


def evaluated(kind, t, rows, N, q):
    """evaluations of proposal densities since the start"""
    return {'dm': len(rows), 'lais': len(rows), 'mpmc': len(rows) * (1 + N), 'rejection': t.evals, 'mh': 2 * q, 'nested': 0, 'multinested': 0,
            'hidaisee': t.evals, 'tp': t.evals}[kind]


def count(ctx, kind, d, ns, **kw):
    s, t, lo, hi = setup(ctx, kind, d, False, kw)
    for a, b in (("target", s.num_target_evals), ("proposal draws", s.num_proposal_samples), ("proposal evaluations", s.num_proposal_evals)):
        ctx.check("counters start at zero", b == 0, "%s %s" % (a, b))
    for n in ns:
        x, w = s.importance_sample(t, n)
        rows = rows_of(x)
        q = made(ctx, kind, t, rows, d, 'method' in kw)
        ctx.check("target evaluations", s.num_target_evals == t.evals, "%s counted, %d made" % (s.num_target_evals, t.evals))
        ctx.check("proposal draws", s.num_proposal_samples == q, "%s counted, %d made" % (s.num_proposal_samples, q))
        e = evaluated(kind, t, rows, kw.get('N', 2), q)
        ctx.check("proposal evaluations", s.num_proposal_evals == e, "%s counted, %d made" % (s.num_proposal_evals, e))
        st = s.get_stats()
        want = {"proposal_samples": q, "proposal_evals": e, "target_evals": t.evals, "n_samples": len(rows)}
        ctx.check("get_stats", all(st.get(k) == v for k, v in want.items()), "%s, expected %s" % (st, want))
        if "NESS" in st:
            fw = ctx.flat(w)
            ctx.check_close("NESS in get_stats", st["NESS"] * len(fw) * total([v * v for v in fw]), total(fw) * total(fw))
        ctx.check_close("acceptance rate", s.get_acceptance_rate(), len(rows) / q)
    ctx.observe("counts", ctx.A([float(t.evals), float(q), float(e)]))
    ctx.cover("done")


def own(ctx, kind, d, n, **kw):
    """samples drawn from the sampler's model count as proposal draws"""
    s, t, lo, hi = setup(ctx, kind, d, False, kw)
    s.importance_sample(t, n)
    q, p = s.num_proposal_samples, s.num_target_evals
    s.sample(2)
    ctx.check("draws from the model count", s.num_proposal_samples == q + 2, "%s after %s" % (s.num_proposal_samples, q))
    ctx.check("no target evaluation", s.num_target_evals == p == t.evals)
    ctx.cover("done")


D1 = dict(max_time=60, deep=dict(max_time=400, max_paths=20000))
CASES = []
for d in (1, 2):
    CASES += [
        Case("dm d=%d" % d, count, dict(kind='dm', d=d, ns=(2, 4), N=2, K=1), need=("done",)),
        Case("dm d=%d K=2" % d, count, dict(kind='dm', d=d, ns=(1,), N=1, K=2), need=("done",)),
        Case("lais d=%d" % d, count, dict(kind='lais', d=d, ns=(1, 2), N=1, K=1, L=1), need=("done",)),
        Case("rejection d=%d" % d, count, dict(kind='rejection', d=d, ns=(1, 2), n_samples_kde=1), opts=dict(rng_limit=9), need=("done",)),
        Case("mh d=%d" % d, count, dict(kind='mh', d=d, ns=(1, 2) if d == 1 else (1,), n_burnin=0, n_samples_kde=1), opts=dict(rng_limit=8 if d == 1 else 5), need=("done",), **D1),
        Case("nested d=%d" % d, count, dict(kind='nested', d=d, ns=(1, 2) if d == 1 else (1,), n_samples_kde=1), opts=dict(rng_limit=7 if d == 1 else 4), need=("done",), **D1),
        Case("hidaisee d=%d" % d, count, dict(kind='hidaisee', d=d, ns=(2, 3)), need=("done",)),
        Case("tp d=%d" % d, count, dict(kind='tp', d=d, ns=(1, 3), parallel_samples=1), need=("done",)),
        Case("tp d=%d leaf" % d, count, dict(kind='tp', d=d, ns=(1, 3), parallel_samples=1, resampling='leaf'), need=("done",)),
    ]
CASES += [
    Case("lais L=2", count, dict(kind='lais', d=1, ns=(1,), N=1, K=2, L=2), need=("done",)),
    Case("lais N=2", count, dict(kind='lais', d=1, ns=(2,), N=2, K=1, L=1), need=("done",)),
    Case("mpmc d=1", count, dict(kind='mpmc', d=1, ns=(2, 4), N=1, K=2), need=("done",), **D1),
    Case("mpmc N=2", count, dict(kind='mpmc', d=1, ns=(2,), N=2, K=2), need=("done",), **D1),
    Case("mh burn", count, dict(kind='mh', d=1, ns=(1,), n_burnin=1, n_steps=2, n_samples_kde=1), opts=dict(rng_limit=8), need=("done",), **D1),
    Case("nested n=2", count, dict(kind='nested', d=1, ns=(2,), n_samples_kde=1), opts=dict(rng_limit=7), need=("done",), **D1),
    Case("multinested d=1", count, dict(kind='multinested', d=1, ns=(1, 1), N=2, n_samples_kde=1), opts=dict(rng_limit=5), need=("done",), **D1),
    Case("multinested retry", count, dict(kind='multinested', d=1, ns=(1,), N=2, n_samples_kde=1), opts=dict(rng_limit=4), need=("done",), **D1),
    Case("hidaisee 4", count, dict(kind='hidaisee', d=1, ns=(4,)), need=("done",), **D1),
    Case("tp batch", count, dict(kind='tp', d=1, ns=(1, 2, 4), parallel_samples=2), need=("done",)),
    Case("tp batch leaf", count, dict(kind='tp', d=2, ns=(1, 2, 4), parallel_samples=2, resampling='leaf'), need=("done",)),
    Case("tp normal", count, dict(kind='tp', d=1, ns=(1, 3), parallel_samples=2, kernel='normal'), need=("done",)),
    Case("own dm", own, dict(kind='dm', d=1, n=2, N=2, K=1), need=("done",)),
    Case("own mpmc", own, dict(kind='mpmc', d=1, n=2, N=1, K=2), need=("done",)),
    Case("own rejection", own, dict(kind='rejection', d=1, n=1, n_samples_kde=1), opts=dict(rng_limit=8), need=("done",)),
    Case("tp mixture normal", count, dict(kind='tp', d=1, ns=(1, 3), method='mixture', kernel='normal'), need=("done",)),
    Case("tp mixture normal d=2", count, dict(kind='tp', d=2, ns=(1, 2), method='mixture', kernel='normal'), need=("done",)),
    Case("tp mixture normal leaf", count, dict(kind='tp', d=1, ns=(1, 2), method='mixture', kernel='normal', resampling='leaf'), need=("done",)),
    Case("tp dm normal leaf", count, dict(kind='tp', d=1, ns=(1, 3), method='dm', kernel='normal', resampling='leaf'), need=("done",)),
    T("mh long", count, dict(kind='mh', d=1, ns=(1, 3), n_burnin=1, n_samples_kde=1), opts=dict(rng_limit=12)),
    T("rejection long", count, dict(kind='rejection', d=1, ns=(2, 3), n_samples_kde=1), opts=dict(rng_limit=12)),
    T("hidaisee d=1 5", count, dict(kind='hidaisee', d=1, ns=(2, 5))),
    T("tp d=2 long", count, dict(kind='tp', d=2, ns=(1, 5, 9), parallel_samples=2, resampling='leaf')),
]
