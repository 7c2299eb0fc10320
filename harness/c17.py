"""C17: Metropolis-Hastings: acceptance rule, chain, burn-in and thinning, trajectory."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["burn-in 0-2, thinning 1-3, 1-3 samples over 1-2 calls, up to the stated number of draws (retries), d = 1-2, symmetric and arbitrary "
          "(asymmetric) step proposals; target values, domain and draws symbolic; target densities that are 0 or underflow (log densities of any size)"]
OUTSIDE = ["runs that reach their time limit", "the ratio 0/0 of densities"]


class Step:
    """a step proposal with an arbitrary density: one fresh value per distinct step"""

    def __init__(self, ctx, d, flat=False):
        self.ctx, self.d = ctx, d
        self.t = Target(ctx, d, name='step', value=(lambda pt: 1.0) if flat else None)
        self.made = []

    def sample(self, n=1):
        i = len(self.made)
        v = self.ctx.reals('step%d' % i, (n, self.d), -3, 3)
        self.made += rows_of(v)
        return v

    def prob(self, x):
        return self.t.prob(x)

    def log_prob(self, x):
        return self.t.log_prob(x)


def clip(x, lo, hi):
    out = []
    for v, a, b in zip(x, lo, hi):
        if bool(v < a):
            out.append(a)
        elif bool(v > b):
            out.append(b)
        else:
            out.append(v)
    return out


def run(ctx, d, burn, thin, ns, asym=False, deep=False, zeros=False, wide=False):
    lo, hi = domain(ctx, d) if not wide else (ctx.A([-60.0] * d), ctx.A([60.0] * d))      # wide: no step reaches the border
    t = (Deep if deep else Target)(ctx, d, lo, hi, zeros=zeros)
    if deep:                # target densities below the smallest double: the ratio is taken between log densities
        t.offset = ctx.real('offset', -1500, -1000)
        ctx.underflow()
    sig = ctx.real('sigma', 0, 3, lo_open=True, hint=(.1, 2))
    kw = {}
    if asym or wide:
        kw['proposal_d'] = st = Step(ctx, d, flat=not asym)
    s = mk_sampler(ctx, 'mh', d, lo, hi, n_burnin=burn, n_steps=thin, proposal_sigma=sig, n_samples_kde=1, **kw)
    M = type(s)

    def steps(checks):
        if asym or wide:
            return list(st.made)
        for q, _ in drawn(ctx, 'mvn') if checks else ():
            for i in range(d):
                ctx.check_close("steps are centred", q.args['mean'][i], 0.0)
                for j in range(d):
                    ctx.check_close("step covariance", q.args['cov'][i, j], sig if i == j else 0.0)
        return [r for _, r in drawn(ctx, 'mvn')]

    def rule(checks=True):
        """the chain by the definition from the draws so far: states kept, proposed states, their types, moves left over"""
        ds, us = steps(checks), [u for dr in ctx.draws if dr.kind == 'uniform' for u in ctx.flat(dr.args['u'])]
        cur = ds[0]                       # the chain starts at a draw of the step proposal
        moves, extra = 0, 0
        done, traj, types = [], [], []
        for dlt, u in zip(ds[1:], us):
            if len(done) == want:
                extra += 1
            new = clip([a + b for a, b in zip(cur, dlt)], lo, hi)
            traj.append(new)
            if zeros:
                ctx.assume(t.at(cur) > 0)      # a ratio of 0 to 0 is not defined
            ratio = t.at(new) / t.at(cur)
            if asym:
                back, fwd = [a - b for a, b in zip(cur, new)], [b - a for a, b in zip(cur, new)]
                ratio = ratio * st.t.at(back) / st.t.at(fwd)
            if bool(ratio > u):
                cur = new
                moves += 1
                ctx.cover("accepted")
                if moves <= burn:
                    types.append(M.BURN_IN)
                elif (moves - burn) % thin:
                    types.append(M.DECORRELATION)
                else:
                    types.append(M.SAMPLE)
                    done.append(new)
            else:
                ctx.cover("rejected")
                types.append(M.REJECT)
        return ds, us, done, traj, types, extra

    def unfinished():
        extra = rule(False)[-1]
        ctx.check("the chain stops at its last sample", extra == 0, "%d moves proposed after the last sample" % extra)
    want = 0
    ctx.on_cut = unfinished
    for n in ns:
        want = n
        x, w = s.importance_sample(t, n)
    ctx.on_cut = None
    ds, us, done, traj, types, extra = rule()
    ctx.check("one uniform draw per proposed move", len(us) == len(ds) - 1, "%d uniforms, %d moves" % (len(us), len(ds) - 1))
    rows = rows_of(x)
    ctx.check_shape("shape", x, (max(ns), d))
    ctx.check("chain moves exactly on pi ratio > u", len(rows) == len(done), "%d samples, %d by the rule" % (len(rows), len(done)))
    for a, b in zip(rows, done):
        ctx.check_all_close("samples are the chain after burn-in and thinning", a, b)
    for r in rows:
        for j in range(d):
            ctx.check("samples in the domain", r[j] >= lo[j])
            ctx.check("samples in the domain", r[j] <= hi[j])
    ctx.check_all_close("equal weights", w, [1.0 / len(rows)] * len(rows))
    ctx.check("trajectory length", len(s.trajectory_samples) == len(traj) == len(s.trajectory_types))
    for a, b in zip(s.trajectory_samples, traj):
        ctx.check_all_close("trajectory holds every proposed state", a, b)
    ctx.check("trajectory types", list(s.trajectory_types) == types, "%s, expected %s" % (s.trajectory_types, types))
    ctx.observe("x", x)
    ctx.cover("done")


def direct(ctx, d, n, thin):
    """sample(n) continues the chain and returns n states"""
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi)
    s = mk_sampler(ctx, 'mh', d, lo, hi, n_burnin=0, n_steps=thin, proposal_sigma=.5, n_samples_kde=1)
    s.importance_sample(t, 1)
    x = s.sample(n)
    ctx.check_shape("sample(n)", x, (n, d))
    for i in range(n):
        tr = [r for r, k in zip(s.trajectory_samples, s.trajectory_types) if k == s.SAMPLE]
        ctx.check_all_close("sample(n) are chain states", x[i], tr[len(tr) - n + i])
    ctx.observe("x", x)
    ctx.cover("done")


def stay(ctx, d):
    """a rejected move is a step of the chain: the old state is repeated"""
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi)
    s = mk_sampler(ctx, 'mh', d, lo, hi, n_burnin=0, n_steps=1, proposal_sigma=.5, n_samples_kde=1)
    x, w = s.importance_sample(t, 2)
    ctx.check("one proposed move per step", len(drawn(ctx, 'mvn')) == 3, "%d moves for 2 samples" % (len(drawn(ctx, 'mvn')) - 1))
    ctx.cover("done")


NEED = ("done", "accepted", "rejected")
CASES = [
    Case("d=1 n=1", run, dict(d=1, burn=0, thin=1, ns=(1,)), opts=dict(rng_limit=8), need=NEED, max_time=60),
    Case("d=1 burn=1", run, dict(d=1, burn=1, thin=1, ns=(1,)), opts=dict(rng_limit=6), need=("done", "accepted"), max_time=60),
    Case("d=1 burn=1 retry", run, dict(d=1, burn=1, thin=1, ns=(1,)), opts=dict(rng_limit=8), need=NEED, max_time=100),
    Case("d=1 thin=2", run, dict(d=1, burn=0, thin=2, ns=(1,)), opts=dict(rng_limit=8), need=NEED, max_time=100),
    Case("d=1 burn=1 thin=2", run, dict(d=1, burn=1, thin=2, ns=(1,)), opts=dict(rng_limit=8), need=("done", "accepted"), max_time=100),
    Case("d=1 n=2", run, dict(d=1, burn=0, thin=1, ns=(2,)), opts=dict(rng_limit=8), need=NEED, max_time=100),
    Case("d=1 n=1,2", run, dict(d=1, burn=0, thin=1, ns=(1, 2)), opts=dict(rng_limit=9), need=NEED, max_time=100),
    Case("d=1 burn n=1,2", run, dict(d=1, burn=1, thin=1, ns=(1, 2)), opts=dict(rng_limit=9), need=("done", "accepted"), max_time=100),
    Case("d=2 n=1", run, dict(d=2, burn=0, thin=1, ns=(1,)), opts=dict(rng_limit=6), need=NEED, max_time=100),
    Case("asymmetric d=1", run, dict(d=1, burn=0, thin=1, ns=(1,), asym=True), opts=dict(rng_limit=3), need=NEED, max_time=60),
    Case("asymmetric d=1 n=2", run, dict(d=1, burn=0, thin=1, ns=(2,), asym=True), opts=dict(rng_limit=3), need=("done", "accepted"), max_time=60),
    Case("sample(n) d=1", direct, dict(d=1, n=2, thin=1), opts=dict(rng_limit=8), need=("done",), max_time=60),
    Case("stay on rejection", stay, dict(d=1), opts=dict(rng_limit=10), max_time=60),
    Case("far d=1 n=1", run, dict(d=1, burn=0, thin=1, ns=(1,), deep=True), opts=dict(rng_limit=8), need=NEED, max_time=60),
    Case("zeros d=1 n=1", run, dict(d=1, burn=0, thin=1, ns=(1,), zeros=True), opts=dict(rng_limit=6), need=NEED, max_time=60),
    Case("wide burn=2", run, dict(d=1, burn=2, thin=1, ns=(1,), wide=True), opts=dict(rng_limit=6), need=NEED, max_time=60),
    Case("wide burn=2 thin=2", run, dict(d=1, burn=2, thin=2, ns=(1,), wide=True), opts=dict(rng_limit=7), need=NEED, max_time=60),
    T("wide burn=2 thin=2 n=1,2", run, dict(d=1, burn=2, thin=2, ns=(1, 2), wide=True), opts=dict(rng_limit=9), need=NEED),
    Case("wide burn=1 thin=3", run, dict(d=2, burn=1, thin=3, ns=(1,), wide=True), opts=dict(rng_limit=7), need=NEED, max_time=60),
    Case("wide n=3", run, dict(d=1, burn=0, thin=1, ns=(3,), wide=True), opts=dict(rng_limit=7), need=NEED, max_time=60),
    T("wide deep burn=3", run, dict(d=1, burn=3, thin=2, ns=(2,), wide=True), opts=dict(rng_limit=11), need=NEED),
    T("d=1 burn=2 thin=2", run, dict(d=1, burn=2, thin=2, ns=(1,)), opts=dict(rng_limit=12)),
    T("d=2 n=2", run, dict(d=2, burn=0, thin=1, ns=(2,)), opts=dict(rng_limit=8)),
    T("d=1 n=3", run, dict(d=1, burn=0, thin=1, ns=(3,)), opts=dict(rng_limit=11)),
    T("sample(n) d=1 thin", direct, dict(d=1, n=2, thin=2), opts=dict(rng_limit=13)),
]
