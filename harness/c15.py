"""C15: HiDaisee: leaf selection, importance weights, evidence bookkeeping and splitting."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["d = 1-2, 3-4 samples (6 thorough), n_min 1-2, tau and target ESS symbolic; domain, target values and draws symbolic"]
OUTSIDE = ["the optimism boost of the very first sample (log 0) is overwritten by the second one and not used"]


def boxes(s):
    return [(i, s.T.nodes[i]) for i in s.T.leaves]


def lohi(n, d):
    return [n.center[j] - n.radius[j] for j in range(d)], [n.center[j] + n.radius[j] for j in range(d)]


def vol(n, d):
    return prod([2 * n.radius[j] for j in range(d)])


def flat(x):
    return list(x.reshape(-1)) if hasattr(x, 'reshape') else list(x)


def tree_ok(ctx, s, d, lo, hi):
    """the leaves are exactly the nodes without children, halves of their parents along one axis"""
    T_ = s.T
    l, h = lohi(T_.nodes[0], d)
    ctx.check_all_close("root is the domain", l + h, list(flat(lo)) + list(flat(hi)))
    leaves = []
    for i, n in enumerate(T_.nodes):
        ctx.check("node index", n.idx == i)
        ctx.check("both children or none", (n.left is None) == (n.right is None))
        if n.left is None:
            leaves.append(i)
            continue
        ctx.check("children know their parent", n.left.parent == i and n.right.parent == i)
        pl, ph = lohi(n, d)
        ll, lh = lohi(n.left, d)
        rl, rh = lohi(n.right, d)
        cut = []
        for j in range(d):
            same = not bool(abs_(lh[j] - ph[j]) > 1e-9 * (1 + 0))
            if not same:
                cut.append(j)
                ctx.check_close("halves", lh[j], (pl[j] + ph[j]) / 2)
                ctx.check_close("halves meet", rl[j], lh[j])
                ctx.check_close("left keeps the low side", ll[j], pl[j])
                ctx.check_close("right keeps the high side", rh[j], ph[j])
            else:
                for a, b in ((ll, pl), (lh, ph), (rl, pl), (rh, ph)):
                    ctx.check_close("other axes unchanged", a[j], b[j])
        ctx.check("cut along one axis", len(cut) == 1, "%s" % cut)
    ctx.check("leaf list", sorted(T_.leaves) == leaves, "%s vs %s" % (T_.leaves, leaves))


def abs_(v):
    return v if bool(v >= 0) else -v


def contents_ok(ctx, s, t, d, n_total):
    """samples live in the leaf that holds them, with target x volume as their weight"""
    cnt = 0
    for i, n in boxes(s):
        l, h = lohi(n, d)
        rows = rows_of(n.samples) if n.N else []
        w = flat(n.weights)
        ctx.check("N counts the samples", n.N == len(rows) == len(w))
        for r, v in zip(rows, w):
            for j in range(d):
                ctx.check("sample in its leaf", r[j] >= l[j] - 1e-9)
                ctx.check("sample in its leaf", r[j] <= h[j] + 1e-9)
            ctx.check_close("weight", v, t.at(r) * vol(n, d))
        if rows:
            s1, s2 = total(w), total([v * v for v in w])
            ctx.check_close("ESS", n.ESS * s2, s1 * s1)
        cnt += len(rows)
    ctx.check("every sample is in one leaf", cnt == n_total, "%d of %d" % (cnt, n_total))


def run(ctx, d, n, n_min, sym_ess, debug=False):
    np = ctx.np
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi)
    tau = ctx.real('tau', 0, 1, lo_open=True)
    ess = ctx.real('ess', 0, 1, lo_open=True, hi_open=True, hint=(.3, .98)) if sym_ess else .9
    s = mk_sampler(ctx, 'hidaisee', d, lo, hi, target_ess=ess, n_min=n_min, tau=tau)
    s.debug = debug
    ctx.check("start at the whole domain", len(s.T.nodes) == 1 and s.T.leaves == [0])
    sig = math.sqrt(4.14 * math.log2(2 * math.e)) * tau
    seen = []
    for k in range(1, n + 1):
        kids = {i: (q.left.idx, q.right.idx) if q.left is not None else None for i, q in enumerate(s.T.nodes)}
        qs = {i: q.q for i, q in enumerate(s.T.nodes)}
        leaves = list(s.T.leaves)
        before = {i: (flat(s.T.nodes[i].weights), rows_of(s.T.nodes[i].samples) if s.T.nodes[i].N else []) for i in leaves}
        ctx.draws.clear()
        x, w = s.importance_sample(t, k)
        us = uniforms01(ctx)
        # descent
        cur, path, ui = 0, [0], 0
        while kids[cur] is not None:
            a, b = kids[cur]
            cur = a if bool(us[ui] < qs[a] / (qs[a] + qs[b])) else b
            path.append(cur)
            ui += 1
        ctx.check("random numbers used", len(us) == ui + d, "%d uniforms for depth %d" % (len(us), ui))
        n_ = s.T.nodes[cur]
        l, h = lohi(n_, d)
        new = [l[j] + (h[j] - l[j]) * us[ui + j] for j in range(d)]
        seen.append(new)
        # its leaf: evidence, boost, share
        ws = before[cur][0] + [t.at(new) * vol(n_, d)]
        if k >= 2:
            lt = math.log(k - 1)
            den = 0.0
            for i in leaves:
                wi = ws if i == cur else before[i][0]
                if wi:
                    den = den + total(wi) / len(wi) + sig * math.sqrt(lt / len(wi))
            ctx.check_close("leaf share (eq. 8)", n_.q * den, total(ws) / len(ws) + sig * math.sqrt(lt / len(ws)))
            for p in path[:-1]:
                a, b = kids[p]
                ctx.check_close("ancestor share is the sum of its children (eq. 19)", s.T.nodes[p].q, s.T.nodes[a].q + s.T.nodes[b].q)
            if len(path) > 2:
                ctx.cover("deep")
        # split rule
        m = len(ws)
        s1, s2 = total(ws), total([v * v for v in ws])
        was_split = n_.left is not None
        if m < n_min:
            ctx.check("not split below n_min", not was_split)
        elif bool(s1 * s1 < ess * m * s2):
            ctx.check("split on a poor ESS", was_split)
            ctx.cover("split")
            ctx.check_close("children share equally", n_.left.q, n_.q / 2) if k >= 2 else None
            ctx.check_close("children share equally", n_.right.q, n_.q / 2) if k >= 2 else None
        elif bool(s1 * s1 > ess * m * s2):
            ctx.check("kept on a good ESS", not was_split)
            ctx.cover("kept")
        ctx.check("one split at most", len(s.T.nodes) == len(kids) + (2 if was_split else 0))
        if was_split or k == n:
            tree_ok(ctx, s, d, lo, hi)
            contents_ok(ctx, s, t, d, k)
        same_multiset(ctx, "all the draws are kept", [r for i, q in boxes(s) if q.N for r in rows_of(q.samples)], seen)
        # the returned arrays
        ctx.check_shape("shape", x, (k, d))
        ctx.check("one weight per sample", len(flat(w)) == k)
        rows, fw = rows_of(x), flat(w)
        same_multiset(ctx, "returned samples", rows, seen)
        own = {repr(key(ctx, r)): q for i, q in boxes(s) if q.N for r in rows_of(q.samples)}
        for r, v in zip(rows, fw):
            ctx.check_close("returned weight", v, t.at(r) * vol(own[repr(key(ctx, r))], d))
    ctx.observe("w", w)
    x2, w2 = s.importance_sample(t, 1)
    ctx.check("no more samples than asked", len(x2) == n)


def model(ctx, d, n):
    """after sampling, q(x) is the mixture of the leaf boxes weighted by their mean importance weight"""
    lo, hi = domain(ctx, d)
    t = Target(ctx, d, lo, hi)
    s = mk_sampler(ctx, 'hidaisee', d, lo, hi, target_ess=.9, n_min=2, tau=.1)
    s.importance_sample(t, n)
    q = ctx.reals('q', (1, d), -8, 8)
    pt = [q[0, j] for j in range(d)]
    p = s.prob(q)
    ctx.check("one value", len(p) == 1)
    z = [(c, total(flat(c.weights)) / c.N if c.N else 0.0) for _, c in boxes(s)]
    ref = 0.0
    for c, e in z:
        l, h = lohi(c, d)
        ins = inside(pt, l, h)
        if ins is None:
            return
        if ins:
            ref = ref + e / vol(c, d)
            ctx.cover("inside")
    if not ctx.is_sym(ref) and ref == 0:
        ctx.cover("outside")
    ctx.check_close("density", p[0] * total([e for _, e in z]), ref)
    ctx.observe("p", p)


CASES = [
    Case("d=1 n=3 n_min=2", run, dict(d=1, n=3, n_min=2, sym_ess=True), need=("split", "kept")),
    Case("d=1 n=4 n_min=2", run, dict(d=1, n=4, n_min=2, sym_ess=False), need=("split", "kept", "deep"), max_time=200),
    Case("d=1 n=3 debug", run, dict(d=1, n=3, n_min=2, sym_ess=False, debug=True), need=("split", "kept")),
    T("d=1 n=4 n_min=1", run, dict(d=1, n=4, n_min=1, sym_ess=False)),
    Case("d=2 n=3 n_min=2", run, dict(d=2, n=3, n_min=2, sym_ess=False), need=("split", "kept")),
    Case("model d=1 n=3", model, dict(d=1, n=3), need=("inside", "outside")),
    Case("model d=2 n=2", model, dict(d=2, n=2), need=("inside", "outside")),
    T("d=1 n=6 n_min=2", run, dict(d=1, n=6, n_min=2, sym_ess=False)),
    T("d=1 n=4 n_min=2", run, dict(d=1, n=4, n_min=2, sym_ess=True)),
    T("d=2 n=4 n_min=2", run, dict(d=2, n=4, n_min=2, sym_ess=False)),
]
