"""C18: nested sampling moves the lowest live point out, replaces it with a better one and weights by prior-mass shrinkage."""
from vf.runner import Case, T
from harness.lib import *
from harness.c17 import clip

BOUNDS = ["2-3 live points (4 for two clusters), 1-3 samples over 1-2 calls, up to the stated number of random draws (replacement retries), d = 1-2; "
          "subdivisions of 3-6 points of d = 1 (two to six coordinates symbolic), ellipsoids of 2-4 points in d = 1-2; "
          "target values, domain, draws, selection of the base point and cluster labels symbolic"]
OUTSIDE = ["runs that reach their time limit", "zero target densities", "which clusters k-means proposes (arbitrary labels; for 6 points arbitrary consecutive runs), "
           "subdivisions of more than 4 free points or in d > 1"]


def lowest(ctx, t, live, among, row):
    """index of the live point that left as the sample `row`"""
    at = [j for j in among if key(ctx, live[j]) == key(ctx, row)]
    ctx.check("a sample is a live point", len(at) > 0)
    j = at[0]
    for k in among:
        ctx.check("the lowest live point leaves", t.at(live[j]) <= t.at(live[k]))
    return j


def weights(ctx, t, rows, w, N):
    X = [math.exp(-i / N) for i in range(len(rows))]
    W = [X[0]] + [X[i - 1] - X[i] for i in range(1, len(rows))]
    check_normalised(ctx, "weights are likelihood times shrinkage", w, [t.at(r) * m for r, m in zip(rows, W)])
    ctx.check_close("weights sum to one", total(ctx.flat(w)), 1.0)


def start(ctx, s, d, N, lo, hi):
    us = [u for dr in ctx.draws if dr.kind == 'uniform' for u in ctx.flat(dr.args['u'])]
    ctx.check("one uniform draw per live coordinate", len(us) == N * d, "%d draws" % len(us))
    live = [[lo[j] + us[i * d + j] * (hi[j] - lo[j]) for j in range(d)] for i in range(N)]
    ctx.check_shape("live points", s.live_points, (N, d))
    for a, b in zip(rows_of(s.live_points), live):
        ctx.check_all_close("live points start uniform over the domain", a, b)
    return rows_of(s.live_points)


def stays(ctx, pts, lo, hi):
    for r in pts:
        for j in range(len(lo)):
            ctx.check("live points in the domain", r[j] >= lo[j])
            ctx.check("live points in the domain", r[j] <= hi[j])


def nested(ctx, d, N, ns, sigma=.01):
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi, two_d=True)
    s = mk_sampler(ctx, 'nested', d, lo, hi, N=N, n_samples_kde=1,
                   proposal='CMultivariateNormal({"mean": np.zeros(self.ndims), "sigma": np.diag(np.ones(self.ndims) * %r)})' % sigma)
    live = start(ctx, s, d, N, lo, hi)
    have = 0
    for n in ns:
        ctx.draws.clear()
        x, w = s.importance_sample(t, n)
        rows = rows_of(x)
        ctx.check("exactly the samples asked for", len(rows) == max(n, have), "%d of %d" % (len(rows), n))
        new = rows[have:]
        bases = [int(v) for dr in ctx.draws if dr.kind in ('randint', 'choice') for v in ctx.flat(dr.value)][:len(new)] if N > 1 else [0] * len(new)
        zs = drawn(ctx, 'mvn')
        for q, _ in zs:
            for i in range(d):
                ctx.check_close("steps are centred", q.args['mean'][i], 0.0)
                for j in range(d):
                    ctx.check_close("step covariance", q.args['cov'][i, j], sigma if i == j else 0.0)
        zs = [z for _, z in zs]
        ctx.check("a base point per iteration", len(bases) == len(new))
        for row, b in zip(new, bases):
            j = lowest(ctx, t, live, range(N), row)
            L = t.at(live[j])
            tries = 0
            while True:
                ctx.check("every replacement is drawn", len(zs) > 0)
                cand = clip([u + v for u, v in zip(live[b], zs.pop(0))], lo, hi)
                tries += 1
                if bool(t.at(cand) >= L):
                    break
            if tries > 1:
                ctx.cover("retried")
            live[j] = cand
        ctx.check("no further replacement draws", not zs, "%d left" % len(zs))
        have = len(rows)
        for a, b in zip(rows_of(s.live_points), live):
            ctx.check_all_close("only the replaced point changes", a, b)
        stays(ctx, rows_of(s.live_points), lo, hi)
        weights(ctx, t, rows, w, N)
    ctx.observe("x", x)
    ctx.observe("w", w)
    ctx.cover("done")


def multi(ctx, d, N, ns, radius=0.0, k=1, debug=False):
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi, two_d=True)
    s = mk_sampler(ctx, 'multinested', d, lo, hi, N=N, n_samples_kde=1, converged_radius=radius, inflate_factor=1.0)
    s.debug = debug
    live = start(ctx, s, d, N, lo, hi)
    rows = []
    for n in ns:
        ctx.draws.clear()
        had = len(rows)
        x, w = s.importance_sample(t, n)
        for a, b in zip(rows_of(x), rows):
            ctx.check_all_close("earlier samples kept", a, b)
        rows = rows_of(x)
        new = rows[had:]
        groups = [[i for i in range(N) if bool(e.indices[i])] for e in s.ellipsoids]
        ctx.check("every live point in one cluster", sorted(sum(groups, [])) == list(range(N)), "%s" % (groups,))
        per = max(1, int((n - had) / len(groups)))
        ctx.check("the same number of samples per cluster", len(new) == per * len(groups), "%d new for %s" % (len(new), groups))
        means = [[total([live[i][j] for i in g]) / len(g) for j in range(d)] for g in groups]
        zs = drawn(ctx, 'mvn')
        it = iter(new)
        for g, m in zip(groups, means):
            for _ in range(per):
                j = lowest(ctx, t, live, g, next(it))
                L = t.at(live[j])
                tries = 0
                while True:
                    ctx.check("every replacement is drawn", len(zs) > 0)
                    q, z = zs.pop(0)
                    ctx.check_all_close("replacements come from the cluster's ellipsoid", q.args['mean'], m)
                    tries += 1
                    cand = clip(z, lo, hi)
                    if bool(t.at(cand) >= L) or radius > 100:
                        break
                if tries > 1:
                    ctx.cover("retried")
                live[j] = cand
        ctx.check("no further replacement draws", not zs, "%d left" % len(zs))
        for a, b in zip(rows_of(s.live_points), live):
            ctx.check_all_close("only the replaced point changes", a, b)
        stays(ctx, rows_of(s.live_points), lo, hi)
        weights(ctx, t, rows, w, N)
        if len(groups) == k:
            ctx.cover("clusters")
    ctx.observe("x", x)
    ctx.observe("w", w)
    ctx.cover("done")


def spread(pts, d):
    """mean, covariance (d > 1: unbiased, as numpy.cov) and its determinant"""
    n = len(pts)
    m = [total([r[j] for r in pts]) / n for j in range(d)]
    c = [[total([(r[i] - m[i]) * (r[j] - m[j]) for r in pts]) / (n - 1 if d > 1 else n) for j in range(d)] for i in range(d)]
    det = c[0][0] if d == 1 else c[0][0] * c[1][1] - c[0][1] * c[1][0]
    return m, c, det


def ball(d):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1)


def fitted(ctx, e, pts, d, f, tag):
    """the ellipsoid of a cluster has its mean and covariance (times the inflation) and the volume that goes with it"""
    m, c, det = spread(pts, d)
    ctx.check_all_close("centred on its points" + tag, ctx.flat(e.loc), m)
    if bool(det > 0):
        ctx.cover("fitted")
        v2 = ball(d) ** 2 * f ** d * det
    elif bool(det <= 0):
        c = [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]
        v2 = ball(d) ** 2 * f ** d
        ctx.cover("degenerate")
    ctx.check("volume is not negative", e.volume >= 0)
    ctx.check_close("volume" + tag, e.volume * e.volume, v2)
    ctx.draws.clear()
    e.sample()
    (q, _), = drawn(ctx, 'mvn')
    ctx.check_all_close("draws around the centre" + tag, ctx.flat(q.args['mean']), m)
    for i in range(d):
        for j in range(d):
            ctx.check_close("draws with the covariance" + tag, q.args['cov'][i, j], c[i][j] * f)
    return v2


def ellipsoid(ctx, d, n, f=1.5):
    from_ = ctx.mod('sampling_methods.multi_nested').CEllipsoid
    pts = ctx.reals('p', (n, d), -4, 4)
    e = from_.fit(pts, f)
    fitted(ctx, e, rows_of(pts), d, f, "")
    ctx.observe("v", e.volume)


AT = {None: ((0.0, 0.0), (.25, .5), (2.0, 0.0), (2.25, 1.0), (5.0, 3.0)), 'three': ((0.0,), (.002,), (.04,), (.042,), (.44,)), 'near': ((0.0,), (.001,), (.02,), (.021,), (.22,))}


def clusters(ctx, d, n, f=1.0, fixed=0, at=None):
    """every accepted subdivision has clusters of enough points, less volume and enough distance, and no other one is accepted"""
    np = ctx.np
    lo, hi = domain(ctx, d)
    s = mk_sampler(ctx, 'multinested', d, lo, hi, N=2, n_samples_kde=1)
    pts = ctx.reals('p', (n, d), -4, 4)
    for i in range(fixed):
        for j in range(d):
            pts[i, j] = AT[at][i][j]
    ratio, far = .8, .2
    ctx.kmeans.clear()
    out, ells = s.recursive_clustering(pts, None, ratio, far, f)
    for a, b in zip(rows_of(out), rows_of(pts)):
        ctx.check_all_close("points unchanged", a, b)
    P = rows_of(pts)
    groups = [[i for i in range(n) if bool(e.indices[i])] for e in ells]
    ctx.check("every live point in one cluster", sorted(sum(groups, [])) == list(range(n)), "%s" % (groups,))
    cur = [list(range(n))]
    for k, lab in list(ctx.kmeans):
        ctx.check("one more cluster is tried", k == len(cur) + 1, "%d after %d" % (k, len(cur)))
        new = [[i for i in range(n) if lab[i] == c] for c in range(k)]
        ok = all(len(g) >= d + 1 for g in new)
        if ok:
            vol = lambda g: ball(d) * ctx.np.sqrt(f ** d * spread([P[i] for i in g], d)[2])
            for g in cur + new:
                if not bool(spread([P[i] for i in g], d)[2] > 1e-9):
                    return
            ok = bool(total([vol(g) for g in new]) <= ratio * total([vol(g) for g in cur]))
        if ok:
            ms = [spread([P[i] for i in g], d)[0] for g in new]
            ds = [ctx.np.sqrt(total([(a - b) ** 2 for a, b in zip(ms[i], ms[j])])) for i in range(k) for j in range(i + 1, k)]
            ok = bool(total(ds) >= far * len(ds))
        if not ok:
            break
        cur = new
        ctx.cover("accepted")
        if k == 3:
            ctx.cover("accepted twice")
    else:
        ctx.check("stops at a rejected subdivision", False, "%s" % (cur,))
    ctx.check("the last accepted subdivision is used", sorted(cur) == sorted(groups), "%s, expected %s" % (groups, cur))
    for e, g in zip(ells, groups):
        fitted(ctx, e, [P[i] for i in g], d, f, " (cluster)")
    ctx.cover("done")


CASES = [
    Case("nested d=1 N=2", nested, dict(d=1, N=2, ns=(1,)), opts=dict(rng_limit=5), need=("done", "retried"), max_time=90),
    Case("nested d=1 N=2 n=2", nested, dict(d=1, N=2, ns=(2,)), opts=dict(rng_limit=7), need=("done", "retried"), max_time=90),
    Case("nested d=1 N=2 calls", nested, dict(d=1, N=2, ns=(1, 2)), opts=dict(rng_limit=7), need=("done",), max_time=90),
    Case("nested d=1 N=3", nested, dict(d=1, N=3, ns=(1,)), opts=dict(rng_limit=4), need=("done",), max_time=90),
    Case("nested d=2 N=2", nested, dict(d=2, N=2, ns=(1,), sigma=.25), opts=dict(rng_limit=4), need=("done",), max_time=90),
    Case("nested d=1 N=1", nested, dict(d=1, N=1, ns=(2,)), opts=dict(rng_limit=7), need=("done", "retried"), max_time=90),
    Case("multi d=1 N=2", multi, dict(d=1, N=2, ns=(1,)), opts=dict(rng_limit=4), need=("done", "retried", "clusters"), max_time=90),
    Case("multi d=1 N=2 n=2", multi, dict(d=1, N=2, ns=(2,)), opts=dict(rng_limit=4), need=("done", "clusters"), max_time=90),
    Case("multi d=1 N=2 calls", multi, dict(d=1, N=2, ns=(1, 1)), opts=dict(rng_limit=5), need=("done", "clusters"), max_time=90),
    Case("multi d=1 N=2 converged", multi, dict(d=1, N=2, ns=(1,), radius=1e6), opts=dict(rng_limit=4), need=("done", "clusters"), max_time=90),
    Case("multi d=1 N=3", multi, dict(d=1, N=3, ns=(1,), radius=1e6), opts=dict(rng_limit=3), need=("done", "clusters"), max_time=90),
    Case("multi d=1 two clusters", multi, dict(d=1, N=4, ns=(1,), radius=1e6, k=2), opts=dict(rng_limit=4), need=("done", "clusters"), max_time=120),
    Case("multi d=1 N=2 debug", multi, dict(d=1, N=2, ns=(1,), debug=True), opts=dict(rng_limit=4), need=("done", "retried", "clusters"), max_time=90),
    Case("ellipsoid d=1 n=2", ellipsoid, dict(d=1, n=2), need=("fitted", "degenerate")),
    Case("ellipsoid d=1 n=3", ellipsoid, dict(d=1, n=3), need=("fitted", "degenerate")),
    Case("ellipsoid d=2 n=3", ellipsoid, dict(d=2, n=3), need=("fitted", "degenerate")),
    Case("clusters d=1 n=3", clusters, dict(d=1, n=3), need=("done",)),
    Case("clusters d=1 n=4", clusters, dict(d=1, n=4, fixed=2), need=("done", "accepted")),
    Case("clusters d=1 n=6", clusters, dict(d=1, n=6, fixed=5, at='three'), opts=dict(kmeans_runs=True), need=("done", "accepted", "accepted twice")),
    Case("clusters d=1 n=6 near", clusters, dict(d=1, n=6, fixed=5, at='near'), opts=dict(kmeans_runs=True), need=("done", "accepted")),
    T("ellipsoid d=2 n=4", ellipsoid, dict(d=2, n=4), need=("fitted", "degenerate")),
    T("nested d=1 N=3 n=2", nested, dict(d=1, N=3, ns=(2,)), opts=dict(rng_limit=6)),
    T("nested d=2 N=3", nested, dict(d=2, N=3, ns=(1, 2)), opts=dict(rng_limit=6)),
    T("nested d=1 N=2 n=3", nested, dict(d=1, N=2, ns=(3,)), opts=dict(rng_limit=10)),
    T("multi d=1 N=2 long", multi, dict(d=1, N=2, ns=(1, 3)), opts=dict(rng_limit=8)),
    T("multi d=2 N=2", multi, dict(d=2, N=2, ns=(1,), radius=1e6), opts=dict(rng_limit=4)),
]
