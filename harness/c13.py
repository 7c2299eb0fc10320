"""C13: Tree-pyramid samples, weights and piecewise density."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["d = 1-2, trees of up to 3 expansion rounds (d=1) or 1 (d=2), parallel_samples 1-2, methods simple, dm and mixture, haar and normal kernels, resampling none and leaf; domain "
          "(cube), target values and drawn values symbolic"]
OUTSIDE = ["methods 'dm' and 'mixture' with the haar kernel and no resampling: they stop with an exception (see DESIGN.md)", "deeper trees", "domains that are not cubes: the root is the smallest cube around them"]


def make(ctx, d, kernel, resampling, ess=2.0, par=1, n_min=1, zeros=False, method='simple'):
    lo, hi = domain(ctx, d, cube=True)
    t = Target(ctx, d, lo, hi, zeros=zeros)
    s = mk_sampler(ctx, 'tp', d, lo, hi, kernel=kernel, resampling=resampling, ess_target=ess, parallel_samples=par, n_min=n_min, method=method)
    return s, t, lo, hi


def cells(s):
    """the leaves as (center, half width) from the tree itself"""
    return [([v for v in l.center], l.radius.reshape(-1)[0] if hasattr(l.radius, 'reshape') else l.radius) for l in s.T.leaves]


def cell_of(ctx, x, cs):
    """index of the leaf whose closed cell holds x, by the solver"""
    for k, (c, r) in enumerate(cs):
        if all(bool(x[j] >= c[j] - r) and bool(x[j] <= c[j] + r) for j in range(len(c))):
            return k
    return None


def volume(r, d):
    return prod([2 * r] * d)


def expected_raw(ctx, t, x, c, r, d, kernel, resampled):
    """target density over the density the sample was drawn from"""
    p = t.at(x)
    if kernel == 'haar':
        return p * volume(r, d)
    var = r / 4
    if resampled:
        # x = c + 2 r z with z ~ N(0, I/2)
        var = 0.5 * 4 * r * r
    return p / normal_pdf(ctx, x, c, [[var if a == b else 0.0 for b in range(d)] for a in range(d)])


def weights(ctx, d, kernel, resampling, par, rounds, calls, method='simple'):
    s, t, lo, hi = make(ctx, d, kernel, resampling, par=par, method=method)
    n = 2
    for call in range(calls):
        n = max(n, (len(s.T.leaves) if call else 1) + 1)
        x, w = s.importance_sample(t, n)
    for _ in range(rounds - 1):
        x, w = s.importance_sample(t, len(s.T.leaves) + 1)
    cs = cells(s)
    L = len(cs)
    ctx.check("one sample per leaf", len(x) == L, "%d samples for %d leaves" % (len(x), L))
    ctx.check_shape("shape", x, (L, d))
    ctx.check("one weight per sample", len(ctx.flat(w)) == L)
    rows, fw = rows_of(x), ctx.flat(w)
    if kernel == 'haar':
        # every sample sits in the cell of its leaf; the returned rows are matched with leaves by position in the domain
        raw, own = [], []
        for i in range(L):
            k = cell_of(ctx, rows[i], cs)
            ctx.check("sample inside a leaf", k is not None)
            own.append(k)
        # a sample on a shared face fits two leaves: only claim a full matching away from the faces
        if len(set(own)) == L:
            for i in range(L):
                raw.append(expected_raw(ctx, t, rows[i], cs[own[i]][0], cs[own[i]][1], d, kernel, resampling == 'leaf'))
            check_normalised(ctx, "weight", w, raw)
            ctx.cover("weights")
        for i in range(L):
            for j in range(d):
                ctx.check("sample in the domain", rows[i][j] >= lo[j])
                ctx.check("sample in the domain", rows[i][j] <= hi[j])
    else:
        raw = []
        byk = dict((id(l), l) for l in s.T.leaves)
        nodes = [q for q in s.T.nodes if id(q) in byk]      # returned in node order
        for i, l in enumerate(nodes):
            c, r = [v for v in l.center], l.radius.reshape(-1)[0]
            raw.append(expected_raw(ctx, t, rows[i], c, r, d, kernel, resampling == 'leaf'))
        check_normalised(ctx, "weight", w, raw)
        ctx.cover("weights")
    ctx.check_close("weights sum to one", total(fw), 1.0)
    ctx.observe("w", w)
    x2, w2 = s.importance_sample(t, 1)
    ctx.check("no more samples than asked", len(x2) == L)
    ctx.check_all_close("weights unchanged", w2, w)
    ctx.check_all_close("samples unchanged", x2, x)


def mixture(ctx, d, method, rounds):
    """normal kernel: every new sample is drawn from the mixture of the leaves' normals and weighted by target / mixture density; leaves that are
    not divided keep their sample and weight"""
    s, t, lo, hi = make(ctx, d, 'normal', 'none', method=method)
    x, w = s.importance_sample(t, 1)
    ctx.check_close("a single weight is one", ctx.flat(w)[0], 1.0)
    root = s.T.root
    means, sds, mix = [[v for v in root.center]], [root.radius.reshape(-1)[0]], [1.0]
    old = {id(root): (rows_of(x)[0], t.at(rows_of(x)[0]) / normal_pdf(ctx, rows_of(x)[0], means[0], diag(sds[0] / 4, d)))}
    for r in range(rounds):
        n0 = len(drawn(ctx, 'mvn'))
        x, w = s.importance_sample(t, len(s.T.leaves) + 1)
        for dr, _ in drawn(ctx, 'mvn')[n0:]:
            ctx.check("drawn from a leaf's normal", any(near(ctx, list(dr.args['mean']), m) and near(ctx, ctx.flat(dr.args['cov']), sum(diag(v, d), []))
                                                        for m, v in zip(means, sds)))
        ids = dict((id(l), l) for l in s.T.leaves)
        nodes = [q for q in s.T.nodes if id(q) in ids]
        rows, raw, new = rows_of(x), [], {}
        ctx.check("one sample per leaf", len(rows) == len(nodes))
        for q, row in zip(nodes, rows):
            if id(q) in old:
                ctx.check_all_close("undivided leaf keeps its sample", ctx.A(row), ctx.A(old[id(q)][0]))
                raw.append(old[id(q)][1])
            else:
                dens = total([a * normal_pdf(ctx, row, m, diag(v, d)) for a, m, v in zip(mix, means, sds)])
                raw.append(t.at(row) / dens)
            new[id(q)] = (row, raw[-1])
        check_normalised(ctx, "weight", w, raw)
        means, sds = [[v for v in q.center] for q in nodes], [q.radius.reshape(-1)[0] for q in nodes]
        mix, old = ctx.flat(w), new
        ctx.cover("weights")
    z = ctx.reals('q', (1, d), -8, 8)
    pt = [z[0, j] for j in range(d)]
    ctx.check_close("the sampler's density is the mixture of its leaves", s.prob(z)[0], total([a * normal_pdf(ctx, pt, m, diag(v, d))
                                                                                          for a, m, v in zip(mix, means, sds)]))
    ctx.observe("w", w)


def diag(v, d):
    return [[v if a == b else 0.0 for b in range(d)] for a in range(d)]


def near(ctx, a, b):
    return len(a) == len(b) and all(bool(ctx.close(p, q)) for p, q in zip(a, b))


def density(ctx, d, resampling, rounds):
    """haar: prob(x) is the leaf's normalised weight spread evenly over its cell, zero outside the tree; it integrates to one"""
    np = ctx.np
    s, t, lo, hi = make(ctx, d, 'haar', resampling)
    for _ in range(rounds):
        x, w = s.importance_sample(t, len(s.T.leaves) + 1)
    cs = cells(s)
    fw, rows = ctx.flat(w), rows_of(x)
    q = ctx.reals('q', (1, d), -8, 8)
    pt = [q[0, j] for j in range(d)]
    p, lp = s.prob(q), s.log_prob(q)
    ctx.check("one value", len(p) == 1 and len(lp) == 1)
    k = None
    for i, (c, r) in enumerate(cs):
        ins = inside(pt, [c[j] - r for j in range(d)], [c[j] + r for j in range(d)])
        if ins is None:
            return
        if ins:
            k = i
    if k is None:
        ctx.cover("outside")
        ctx.check_close("zero outside the tree", p[0], 0.0)
    else:
        ctx.cover("inside")
        own = [cell_of(ctx, r, cs) for r in rows]
        mine = [i for i in range(len(rows)) if own[i] == k]
        if len(set(own)) == len(cs):      # a sample on a shared face fits two leaves
            ctx.check_close("leaf weight over cell volume", p[0], fw[mine[0]] / volume(cs[k][1], d))
        ctx.check_close("log density", np.exp(lp[0]), p[0])
    m = s.model.prob(q)
    ctx.check_close("model density agrees", m[0], p[0])
    ctx.observe("p", p)


def history(ctx, d, par, want, resampling='none', first=0):
    """ess_target <= 1: every positive-weight draw kept in the leaves is returned with its own weight"""
    s, t, lo, hi = make(ctx, d, 'haar', resampling, ess=1.0, par=par, n_min=2)
    if first:
        s.importance_sample(t, first)
    x, w = s.importance_sample(t, want)
    rows, fw = rows_of(x), ctx.flat(w)
    ctx.check("one weight per sample", len(rows) == len(fw))
    ctx.check("as many samples as asked", len(rows) >= want, "%d of %d" % (len(rows), want))
    cs = cells(s)
    own = [cell_of(ctx, r, cs) for r in rows]
    for i in range(len(rows)):
        ctx.check("sample inside a leaf", own[i] is not None)
    # the samples are pairwise different draws, each with target / leaf density as its weight
    keys = [repr(key(ctx, r)) for r in rows]
    ctx.check("no sample returned twice or lost", len(set(keys)) == len(keys), "repeated rows in %s" % keys)
    for i in range(len(rows)):
        strict = inside(rows[i], [cs[own[i]][0][j] - cs[own[i]][1] for j in range(d)], [cs[own[i]][0][j] + cs[own[i]][1] for j in range(d)])
        if strict:
            ctx.check_close("weight", fw[i], t.at(rows[i]) * volume(cs[own[i]][1], d))
            ctx.cover("weights")
    ctx.observe("w", w)


CASES = [
    Case("haar none d=1 r1", weights, dict(d=1, kernel='haar', resampling='none', par=1, rounds=1, calls=1), need=("weights",)),
    Case("haar none d=1 r2", weights, dict(d=1, kernel='haar', resampling='none', par=1, rounds=2, calls=1), need=("weights",)),
    Case("haar leaf d=1 r2", weights, dict(d=1, kernel='haar', resampling='leaf', par=1, rounds=2, calls=1), need=("weights",)),
    Case("haar none d=2 r1", weights, dict(d=2, kernel='haar', resampling='none', par=2, rounds=1, calls=1), need=("weights",)),
    Case("haar leaf d=2 r1", weights, dict(d=2, kernel='haar', resampling='leaf', par=2, rounds=1, calls=1), need=("weights",)),
    Case("normal none d=1 r1", weights, dict(d=1, kernel='normal', resampling='none', par=1, rounds=1, calls=1), need=("weights",)),
    Case("normal leaf d=1 r1", weights, dict(d=1, kernel='normal', resampling='leaf', par=1, rounds=1, calls=1), need=("weights",)),
    Case("normal leaf d=1 r2", weights, dict(d=1, kernel='normal', resampling='leaf', par=1, rounds=2, calls=1), need=("weights",)),
    Case("normal none d=2 r1", weights, dict(d=2, kernel='normal', resampling='none', par=2, rounds=1, calls=1), need=("weights",)),
    Case("mixture haar leaf d=1", weights, dict(d=1, kernel='haar', resampling='leaf', par=1, rounds=1, calls=1, method='mixture'), need=("weights",)),
    T("dm haar leaf d=1 r2", weights, dict(d=1, kernel='haar', resampling='leaf', par=1, rounds=2, calls=1, method='dm')),
    Case("dm normal leaf d=1 r2", weights, dict(d=1, kernel='normal', resampling='leaf', par=1, rounds=2, calls=1, method='dm'), need=("weights",)),
    T("mixture haar leaf d=2", weights, dict(d=2, kernel='haar', resampling='leaf', par=1, rounds=1, calls=1, method='mixture')),
    Case("mixture normal d=1", mixture, dict(d=1, method='mixture', rounds=1), need=("weights",)),
    Case("dm normal d=1", mixture, dict(d=1, method='dm', rounds=2), need=("weights",)),
    Case("mixture normal d=2", mixture, dict(d=2, method='mixture', rounds=1), need=("weights",)),
    Case("density d=1 none", density, dict(d=1, resampling='none', rounds=2), need=("inside", "outside")),
    Case("density d=1 leaf", density, dict(d=1, resampling='leaf', rounds=1), need=("inside", "outside")),
    Case("density d=2 none", density, dict(d=2, resampling='none', rounds=1), need=("inside", "outside")),
    Case("history d=1", history, dict(d=1, par=1, want=4), need=("weights",)),
    Case("history leaf d=1", history, dict(d=1, par=1, want=3, resampling='leaf'), need=("weights",)),
    Case("history leaf d=1 par=2", history, dict(d=1, par=2, want=4, resampling='leaf'), need=("weights",)),
    Case("history two calls", history, dict(d=1, par=1, want=4, first=2), need=("weights",)),
    Case("history leaf two calls", history, dict(d=1, par=1, want=4, first=2, resampling='leaf'), need=("weights",)),
    Case("history d=2", history, dict(d=2, par=1, want=3), need=("weights",)),
    T("history leaf d=2", history, dict(d=2, par=1, want=4, resampling='leaf')),
    T("haar none d=1 r3", weights, dict(d=1, kernel='haar', resampling='none', par=1, rounds=3, calls=1)),
    T("haar leaf d=1 r3", weights, dict(d=1, kernel='haar', resampling='leaf', par=1, rounds=3, calls=1)),
    T("haar none d=2 r2", weights, dict(d=2, kernel='haar', resampling='none', par=1, rounds=2, calls=1)),
]
