"""C14: the tree pyramid is always an exact dyadic partition with consistent indices, refined where the importance volume is largest."""
import itertools
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["d = 1-2 (3 structural), every sequence of up to 3 expansions (leaf choice symbolic), up to 2 sampling rounds; domain, target values, "
          "draws and query points symbolic"]
OUTSIDE = ['query points on a face shared by two cells: either neighbour is right', 'longer expansion histories']


def mk_tree(ctx, d, kernel='haar', cube=True):
    lo, hi = domain(ctx, d, cube=cube)
    m = ctx.world.load('ais_benchmarks.sampling_methods.tree_pyramid')
    return m.CTreePyramid(lo, hi, kernel), lo, hi


def rad(n):
    return ctx_flat(n.radius)[0]


def ctx_flat(x):
    return list(x.reshape(-1)) if hasattr(x, 'reshape') else [x]


def structure(ctx, T, d, lo, hi):
    """every bookkeeping fact of the tree"""
    n = len(T.nodes)
    ctx.check("arrays per node", len(T.centers) == n and len(T.radii) == n and len(T.samples) == n and len(T.weights) == n and len(T.leaves_idx) == n,
              "%d nodes" % n)
    seen = []

    def walk(node, depth):
        seen.append(node)
        ctx.check("level", node.level == depth)
        kids = [c for c in node.children if c is not None]
        if node.is_leaf():
            ctx.check("leaf has no children", not kids)
            return
        ctx.check("2^d children", len(kids) == 2 ** d, "%d children" % len(kids))
        offs = set()
        for c in kids:
            o = []
            for j in range(d):
                dlt = c.center[j] - node.center[j]
                ctx.check_close("child half width", rad(c) * 2, rad(node))
                up = bool(dlt > 0)
                ctx.check_close("child centre", dlt, rad(node) / 2 if up else -rad(node) / 2)
                o.append(up)
            offs.add(tuple(o))
        ctx.check("children cover every orthant once", len(offs) == 2 ** d, "%s" % sorted(offs))
        for c in kids:
            walk(c, depth + 1)
    walk(T.root, 0)
    ctx.check("nodes are the tree", len(seen) == n and set(map(id, seen)) == set(map(id, T.nodes)))
    leaves = [q for q in seen if q.is_leaf()]
    ctx.check("leaves are the tree's leaves", len(leaves) == len(T.leaves) and set(map(id, leaves)) == set(map(id, T.leaves)))
    ctx.check("number of leaves", len(leaves) == 1 + (n - 1) // 2 ** d * (2 ** d - 1))
    for i, q in enumerate(T.nodes):
        ctx.check("node index", q.node_idx == i)
        ctx.check("leaf mask", bool(T.leaves_idx[i]) == q.is_leaf())
        ctx.check_all_close("cached centre", T.centers[i], q.center)
        ctx.check_close("cached half width", ctx.flat(T.radii[i])[0], rad(q))
    for i, q in enumerate(T.leaves):
        ctx.check("leaf index", q.leaf_idx == i)
    for j in range(d):
        ctx.check("root covers the domain", T.root.center[j] - rad(T.root) <= lo[j] + 1e-9)
        ctx.check("root covers the domain", T.root.center[j] + rad(T.root) >= hi[j] - 1e-9)


def expansions(ctx, d, steps, kernel, cube):
    T_, lo, hi = mk_tree(ctx, d, kernel, cube)
    structure(ctx, T_, d, lo, hi)
    for s in range(steps):
        leaf = T_.leaves[ctx.pick('leaf%d' % s, len(T_.leaves))]
        leaf.weight_hist, leaf.coords_hist = ctx.A([1.0]), ctx.A([[0.0] * d])
        before = len(T_.nodes)
        new = T_.expand(leaf)
        ctx.check("expansion returns the children", len(new) == 2 ** d and all(a is b for a, b in zip(new, leaf.children)))
        ctx.check("expanded node is no leaf", not leaf.is_leaf())
        ctx.check("nodes added", len(T_.nodes) == before + 2 ** d)
        structure(ctx, T_, d, lo, hi)
    try:
        T_.expand(T_.root)
        ok = False
    except AssertionError:
        ok = True
    ctx.check("only leaves can be expanded", ok)
    ctx.observe("c", T_.centers)


def find(ctx, d, steps):
    T_, lo, hi = mk_tree(ctx, d)
    for s in range(steps):
        leaf = T_.leaves[ctx.pick('leaf%d' % s, len(T_.leaves))]
        leaf.weight_hist, leaf.coords_hist = ctx.A([1.0]), ctx.A([[0.0] * d])
        T_.expand(leaf)
    q = ctx.A([lo[j] + (hi[j] - lo[j]) * ctx.real('f%d' % j, 0, 1) for j in range(d)])
    n = T_.find(q)
    ctx.check("finds a leaf", n is not None and n.is_leaf())
    for j in range(d):
        ctx.check("the leaf holds the point", q[j] >= n.center[j] - rad(n) - 1e-9)
        ctx.check("the leaf holds the point", q[j] <= n.center[j] + rad(n) + 1e-9)
    ctx.cover("found")


def criterion(ctx, n, n_min, zeros):
    """the ESS rule of expand()"""
    T_, lo, hi = mk_tree(ctx, 1)
    w = ctx.reals('w', n, 0, 5, lo_open=not zeros, hint=(.1, 4))
    if zeros:
        ctx.assume(total(ctx.flat(w)) > .01)
    target = ctx.real('ess', 0, 1, lo_open=True)
    leaf = T_.root
    leaf.weight_hist, leaf.coords_hist = w, ctx.reals('c', (n, 1), -1, 1)
    out = T_.expand(leaf, target, n_min)
    s1, s2 = total(ctx.flat(w)), total([v * v for v in ctx.flat(w)])
    if n < n_min:
        ctx.check("too few samples: kept", out is None)
        ctx.cover("few")
    elif bool(s1 * s1 > target * n * s2):
        ctx.check("good ESS: kept", out is None)
        ctx.cover("kept")
    elif bool(s1 * s1 < target * n * s2):
        ctx.check("poor ESS: expanded", out is not None and len(out) == 2)
        ctx.cover("expanded")
    structure(ctx, T_, 1, lo, hi)
    if out is None:
        ctx.check("kept leaf keeps its history", len(leaf.weight_hist) == n)


def rounds(ctx, d, par, steps, resampling):
    """sampling rounds expand the leaves of largest importance volume and keep the tree consistent"""
    lo, hi = domain(ctx, d, cube=True)
    t = Target(ctx, d, lo, hi)
    s = mk_sampler(ctx, 'tp', d, lo, hi, parallel_samples=par, resampling=resampling)
    for k in range(steps):
        if k:
            # one target evaluation per leaf: its importance volume is density x volume^2 (haar), kept in the node
            old = list(s.T.leaves)
            vol = [q.weight.reshape(-1)[0] * rad(q) ** d if hasattr(q.weight, 'reshape') else q.weight * rad(q) ** d for q in old]
        n0 = len(s.T.leaves)
        s.importance_sample(t, (n0 if k else 1) + 1)
        structure(ctx, s.T, d, lo, hi)
        for q in s.T.leaves:
            ctx.check("leaf sampled", q.weight_hist is not None and len(q.weight_hist) == 1)
            for j in range(d):
                ctx.check("leaf sample in its cell", q.coords[0, j] >= q.center[j] - rad(q) - 1e-9)
                ctx.check("leaf sample in its cell", q.coords[0, j] <= q.center[j] + rad(q) + 1e-9)
        if k:
            split = [i for i, q in enumerate(old) if not q.is_leaf()]
            ctx.check("at least one leaf is refined", len(split) >= 1)
            ctx.check("no more than needed", (len(split) - 1) * 2 ** d <= par, "%d leaves refined" % len(split))
            for i in split:
                for j in range(len(old)):
                    if j not in split:
                        ctx.check("the largest importance volume is refined first", vol[i] * (1 + 1e-9) >= vol[j])
            ctx.cover("refined")
    ctx.observe("w", s.T.weights)


def chosen(ctx, d, method, resampling, steps):
    """dm / mixture: the leaves that hold the points drawn from the current mixture (brought into the domain) are the ones divided, each once"""
    lo, hi = domain(ctx, d, cube=True)
    t = Target(ctx, d, lo, hi)
    s = mk_sampler(ctx, 'tp', d, lo, hi, kernel='normal', method=method, resampling=resampling)
    s.importance_sample(t, 1)
    for k in range(steps):
        old, n0 = list(s.T.leaves), len(drawn(ctx, 'mvn'))
        evals = t.evals
        s.importance_sample(t, len(old) + 1)
        structure(ctx, s.T, d, lo, hi)
        split = [q for q in old if not q.is_leaf()]
        new = [q for q in s.T.leaves if not any(q is p for p in old)]
        ctx.check("the divided leaves are replaced by their children", len(new) == len(split) * 2 ** d and len(split) >= 1, "%d new, %d divided" % (len(new), len(split)))
        own = [repr(key(ctx, ctx.flat(q.coords))) for q in new]
        pts = [r for _, r in drawn(ctx, 'mvn')[n0:] if repr(key(ctx, r)) not in own]
        for q in split:
            ctx.check("a divided leaf holds a drawn point", any(all(holds(r[j], q.center[j] - rad(q), q.center[j] + rad(q), lo[j], hi[j]) for j in range(d)) for r in pts))
        if resampling == 'none':
            ctx.check("only the new leaves are evaluated", t.evals == evals + len(new), "%d evaluations" % (t.evals - evals))
        ctx.cover("refined")
    ctx.observe("w", s.T.weights)


def unique(ctx, d, n):
    """the leaves that hold some points, each once, with the number of points in it"""
    lo, hi = domain(ctx, d, cube=True)
    s = mk_sampler(ctx, 'tp', d, lo, hi)
    T_ = s.T
    T_.expand(T_.root)
    pts = lo + ctx.reals('u', (n, d), 0, 1) * (hi - lo)
    f = getattr(s, 'find_unique', None)
    if f is None:
        # no longer offered as a method of its own
        ctx.cover("done")
        ctx.cover("twice")
        return
    nodes, freqs = f(pts)
    ctx.check("each leaf once", len(set(map(id, nodes))) == len(nodes) == len(freqs), "%d nodes, %d counts" % (len(nodes), len(freqs)))
    ctx.check("every point counted", int(total(list(freqs))) == n, "%s" % (list(freqs),))
    for q, c in zip(nodes, freqs):
        ctx.check("a leaf", q.is_leaf())
        at = [all(bool(r[j] >= q.center[j] - rad(q)) and bool(r[j] <= q.center[j] + rad(q)) for j in range(d)) for r in rows_of(pts)]
        inner = [all(bool(r[j] > q.center[j] - rad(q)) and bool(r[j] < q.center[j] + rad(q)) for j in range(d)) for r in rows_of(pts)]
        ctx.check("as many points as it holds", sum(inner) <= int(c) <= sum(at), "%d of %s" % (int(c), at))
        if int(c) > 1:
            ctx.cover("twice")
    ctx.cover("done")


def holds(v, a, b, lo, hi):
    v = lo if bool(v < lo) else hi if bool(v > hi) else v
    return bool(v >= a - 1e-9) and bool(v <= b + 1e-9)


CASES = []
for d in (1, 2, 3):
    for cube in (True, False):
        if d == 1 and not cube:
            continue
        CASES.append(Case("expand d=%d %s" % (d, 'cube' if cube else 'box'), expansions,
                          dict(d=d, steps={1: 3, 2: 2, 3: 1}[d], kernel='haar', cube=cube), deep=dict(params=dict(d=d, steps={1: 4, 2: 2, 3: 1}[d], kernel='haar', cube=cube))))
CASES += [
    Case("expand normal d=1", expansions, dict(d=1, steps=2, kernel='normal', cube=True)),
    Case("find d=1", find, dict(d=1, steps=3), need=("found",)),
    Case("find d=2", find, dict(d=2, steps=2), need=("found",)),
    Case("ess few", criterion, dict(n=2, n_min=3, zeros=False), need=("few",)),
    Case("ess n=2", criterion, dict(n=2, n_min=2, zeros=False), need=("kept", "expanded")),
    Case("ess n=3", criterion, dict(n=3, n_min=2, zeros=True), need=("kept", "expanded")),
    Case("rounds d=1 par=1", rounds, dict(d=1, par=1, steps=3, resampling='none'), need=("refined",)),
    Case("rounds d=1 par=2", rounds, dict(d=1, par=2, steps=3, resampling='none'), need=("refined",)),
    Case("rounds d=2 par=1", rounds, dict(d=2, par=1, steps=2, resampling='none'), need=("refined",)),
    Case("rounds d=1 leaf", rounds, dict(d=1, par=1, steps=3, resampling='leaf'), need=("refined",)),
    Case("mixture d=1", chosen, dict(d=1, method='mixture', resampling='none', steps=2), need=("refined",)),
    Case("dm leaf d=1", chosen, dict(d=1, method='dm', resampling='leaf', steps=2), need=("refined",)),
    Case("dm d=2", chosen, dict(d=2, method='dm', resampling='none', steps=1), need=("refined",)),
    Case("unique d=1 n=3", unique, dict(d=1, n=3), need=("done", "twice")),
    Case("unique d=2 n=2", unique, dict(d=2, n=2), need=("done", "twice")),
    T("unique d=1 n=4", unique, dict(d=1, n=4), need=("done", "twice")),
    T("rounds d=1 par=1 x4", rounds, dict(d=1, par=1, steps=4, resampling='none')),
    T("rounds d=2 par=5", rounds, dict(d=2, par=5, steps=3, resampling='none')),
]
