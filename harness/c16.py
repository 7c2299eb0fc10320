"""C16: rejection sampling accepts a proposal exactly when the target exceeds the scaled envelope at a uniform height."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["n = 1-3 samples over 1-2 calls, up to the stated number of proposals, d = 1-2, uniform proposals and proposals with an arbitrary positive density, any scaling; target "
          "values (including 0), domain and draws symbolic"]
OUTSIDE = ["runs that reach their time limit"]


class Proposal:
    """a proposal with arbitrary draws and an arbitrary positive density"""

    def __init__(self, ctx, d, lo, hi):
        self.ctx, self.d, self.lo, self.hi = ctx, d, lo, hi
        self.t = Target(ctx, d, name='q')
        self.made = []

    def sample(self, n=1):
        rows = []
        for i in range(n):
            u = self.ctx.reals('prop%d' % len(self.made), self.d, 0, 1)
            r = [self.lo[j] + u[j] * (self.hi[j] - self.lo[j]) for j in range(self.d)]
            rows.append(r)
            self.made.append(r)
        return self.ctx.A(rows)

    def prob(self, x):
        return self.t.prob(x)

    def log_prob(self, x):
        return self.t.log_prob(x)


def run(ctx, d, ns, proposal='uniform', zeros=True):
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi, zeros=zeros, two_d=True)
    c = ctx.real('scaling', 0, 20, lo_open=True, hint=(.3, 6))
    kw = {}
    if proposal == 'any':
        st = Proposal(ctx, d, lo, hi)
        ctx.mod('sampling_methods').CRejectionSampling.__init__.__globals__['STUB'] = st
        kw['proposal'] = 'STUB'
    s = mk_sampler(ctx, 'rejection', d, lo, hi, scaling=c, n_samples_kde=1, **kw)
    vol = prod([hi[j] - lo[j] for j in range(d)])
    if proposal == 'uniform':
        q = lambda r: 1 / vol
    else:
        q = st.t.at
    def seen(p0):
        """proposals evaluated since p0, the uniform heights drawn, the points drawn"""
        pts = t.points[p0:]
        keys = set(repr(key(ctx, r)) for r in pts)
        us, drawn_pts = [], []
        if proposal == 'any':
            drawn_pts += st.made[p0:]
        for dr in ctx.draws:
            if dr.kind == 'uniform':
                v = ctx.flat(dr.value)
                unit = ctx.flat(dr.args['u'])
                spread = [lo[i % d] + (hi[i % d] - lo[i % d]) * z for i, z in enumerate(unit)]
                for val in (v, spread):         # drawn inside the domain, or drawn in [0, 1) and spread over it
                    rows = [val[i:i + d] for i in range(0, len(val), d)]
                    if proposal == 'uniform' and len(val) % d == 0 and all(repr(key(ctx, r)) in keys for r in rows):
                        drawn_pts += rows
                        break
                else:
                    us += ctx.flat(dr.args['u'])
        return pts, us, drawn_pts

    def unfinished():
        pts, us, _ = seen(p0)
        k, extra = len(acc), 0
        for r, u in zip(pts, us):
            extra += k >= n
            k += bool(t.at(r) > u * (c * q(r)))
        ctx.check("stops at the last accepted sample", extra == 0, "%d proposals after the last sample" % extra)
    ctx.on_cut = unfinished
    acc = []
    for n in ns:
        had = len(acc)
        ctx.draws.clear()
        p0 = len(t.points)
        x, w = s.importance_sample(t, n)
        pts, us, drawn_pts = seen(p0)
        ctx.check("one uniform height per proposal", len(us) == len(pts), "%d heights, %d proposals" % (len(us), len(pts)))
        same_multiset(ctx, "the target is asked about the proposals drawn", pts, drawn_pts)
        for r, u in zip(pts, us):
            if bool(t.at(r) > u * (c * q(r))):
                acc.append(r)
                ctx.cover("accepted")
            else:
                ctx.cover("rejected")
        rows = rows_of(x)
        ctx.check("accepted exactly when pi > u c q", len(rows) == len(acc), "%d samples, %d proposals fulfil the rule" % (len(rows), len(acc)))
        for a, b in zip(rows, acc):
            ctx.check_all_close("samples are the accepted proposals", a, b)
        ctx.check("as many as requested", len(rows) == max(n, had))
        ctx.check("no proposals beyond what is missing", len(pts) == 0 or n > had)
        ctx.check_all_close("equal weights", w, [1.0 / len(rows)] * len(rows))
    ctx.observe("x", x)
    ctx.cover("done")


NEED = ("done", "accepted", "rejected")
CASES = []
for d in (1, 2):
    CASES += [
        Case("uniform d=%d n=1" % d, run, dict(d=d, ns=(1,)), opts=dict(rng_limit=9), need=NEED),
        Case("uniform d=%d n=2" % d, run, dict(d=d, ns=(2,)), opts=dict(rng_limit=9), need=NEED),
        Case("uniform d=%d calls" % d, run, dict(d=d, ns=(1, 2)), opts=dict(rng_limit=8), need=NEED),
        Case("any d=%d n=1" % d, run, dict(d=d, ns=(1,), proposal='any'), opts=dict(rng_limit=4), need=NEED),
    ]
CASES += [
    Case("any d=1 n=2", run, dict(d=1, ns=(2,), proposal='any'), opts=dict(rng_limit=4), need=NEED),
    Case("fewer", run, dict(d=1, ns=(2, 1)), opts=dict(rng_limit=8), need=NEED),
    Case("uniform d=1 n=3", run, dict(d=1, ns=(3,)), opts=dict(rng_limit=8), need=NEED),
    T("uniform d=1 n=4", run, dict(d=1, ns=(4,)), opts=dict(rng_limit=11)),
    T("uniform d=2 n=3 calls", run, dict(d=2, ns=(1, 3)), opts=dict(rng_limit=12)),
    T("any d=2 n=3", run, dict(d=2, ns=(3,), proposal='any'), opts=dict(rng_limit=4)),
]
