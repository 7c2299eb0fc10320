"""C23: the Kullback-Leibler divergence is the divergence of the two densities normalised over the evaluated points."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["1-3 evaluation points (4 thorough), d = 1-2; both densities (including zeros), support and evaluation points symbolic; log densities of any size (exp underflowing to 0)"]
OUTSIDE = ["NaN densities"]


def setup(ctx, n, d, zeros):
    lo, hi = domain(ctx, d)
    p = Target(ctx, d, lo, hi, name='p', zeros=zeros, two_d=True)
    q = Target(ctx, d, lo, hi, name='q', zeros=zeros, two_d=True)
    return lo, hi, p, q


def far(ctx, n, d):
    """densities below the smallest double: the divergence is computed from log densities"""
    lo, hi = domain(ctx, d)
    p = Deep(ctx, d, lo, hi, name='p', two_d=True)
    q = Deep(ctx, d, lo, hi, name='q', two_d=True)
    p.offset, q.offset = ctx.real('p.offset', -1500, -1000), ctx.real('q.offset', -1500, -1000)
    ctx.underflow()
    v = ctx.mod('metrics.divergences').CKLDivergence().compute(p=p, q=q, nsamples=n)
    pts = points(ctx, lo, hi, n, d)
    ctx.check_close("sum P log(P/Q)", v, kl(ctx, norm(ctx, [(p.at(r), q.at(r)) for r in pts])))
    ctx.cover("done")


def points(ctx, lo, hi, n, d):
    us = [u for dr in ctx.draws if dr.kind == 'uniform' for u in ctx.flat(dr.args['u'])]
    ctx.check("one point per sample asked for", len(us) == n * d, "%d draws" % len(us))
    return [[lo[j] + us[i * d + j] * (hi[j] - lo[j]) for j in range(d)] for i in range(n)]


def positive(ctx, p, q, pts):
    out = []
    for r in pts:
        a, b = p.at(r), q.at(r)
        if bool(a > 0) and bool(b > 0):
            out.append((a, b))
    return out


def norm(ctx, pairs):
    sp, sq = total([a for a, _ in pairs]), total([b for _, b in pairs])
    return [(a / sp, b / sq) for a, b in pairs]


def kl(ctx, pairs):
    return total([a * (ctx.np.log(a) - ctx.np.log(b)) for a, b in pairs])


def lemma(ctx, r):
    """ln r <= r - 1 and ln r >= 1 - 1/r, true of every positive r"""
    l = ctx.np.log(r)
    ctx.assume(l <= r - 1 + (0 if ctx.symbolic else 1e-9))
    ctx.assume(l >= 1 - 1 / r - (0 if ctx.symbolic else 1e-9))


def run(ctx, n, d, zeros=False):
    lo, hi, p, q = setup(ctx, n, d, zeros)
    m = ctx.mod('metrics.divergences').CKLDivergence()
    v = m.compute(p=p, q=q, nsamples=n)
    pts = points(ctx, lo, hi, n, d)
    same_multiset(ctx, "both densities are asked about the same points", p.points, q.points)
    same_multiset(ctx, "points drawn uniformly over p's support", p.points, pts)
    pairs = positive(ctx, p, q, pts)
    if not pairs:
        ctx.check("infinite without overlap", bool(v == math.inf), "%s" % v)
        ctx.check("value kept", bool(m.value == math.inf))
        ctx.cover("disjoint")
        return
    if len(pairs) < n:
        ctx.cover("partial")
    P = norm(ctx, pairs)
    ctx.check_close("sum P log(P/Q)", v, kl(ctx, P))
    ctx.check_close("value kept", m.value, v)
    for a, b in P:
        lemma(ctx, a / b)
    ctx.check("not negative", v >= -1e-9)
    ctx.observe("kl", v)
    ctx.cover("done")


def same(ctx, n, d):
    """0 for proportional densities"""
    lo, hi = domain(ctx, d)
    p = Target(ctx, d, lo, hi, name='p', two_d=True)
    c = ctx.real('c', 0, 9, lo_open=True, hint=(.1, 5))
    q = Target(ctx, d, lo, hi, name='q', two_d=True, value=lambda r: p.at(r) * c)
    v = ctx.mod('metrics.divergences').CKLDivergence().compute(p=p, q=q, nsamples=n)
    ctx.check_close("zero for the same distribution", v, 0.0)
    ctx.cover("done")


def simplex(ctx, n, name, lo, hi):
    """a target whose densities at the n evaluated points sum to one (general densities: see the scale cases)"""
    v = [ctx.real("%s.%d" % (name, i), 0, 1, lo_open=True, hi_open=True, hint=(.05, .9 / (n - 1))) for i in range(n - 1)]
    v.append(1 - total(v))
    ctx.assume(v[-1] > 0)
    t = Target(ctx, 1, lo, hi, name=name, two_d=True)
    seen = []

    def at(pt):
        k = key(ctx, pt)
        if k not in seen:
            seen.append(k)
        return v[seen.index(k)]
    t.value = at
    return t


def differ(ctx, n):
    """positive for different distributions"""
    lo, hi = domain(ctx, 1)
    p, q = simplex(ctx, n, 'p', lo, hi), simplex(ctx, n, 'q', lo, hi)
    v = ctx.mod('metrics.divergences').CKLDivergence().compute(p=p, q=q, nsamples=n)
    pairs = [(p.at(r), q.at(r)) for r in points(ctx, lo, hi, n, 1)]
    l = ctx.np.log
    ctx.assume(pairs[0][0] > 1.2 * pairs[0][1])
    for i, (a, b) in enumerate(pairs):
        # ln r >= 1 - 1/r, and ln r >= 1 - 1/r + 0.015 for r > 1.2
        ctx.assume(a * (l(a) - l(b)) >= a - b + (.015 * a if i == 0 else 0) - (0 if ctx.symbolic else 1e-9))
    ctx.check("positive for different distributions", v > 0)
    ctx.cover("done")


def scale(ctx, n, d):
    """the densities need not be normalised"""
    lo, hi, p, q = setup(ctx, n, d, False)
    c = ctx.real('c', 0, 9, lo_open=True, hint=(.1, 5))
    q2 = Target(ctx, d, lo, hi, name='q2', two_d=True, value=lambda r: q.at(r) * c)
    np, M = ctx.np, ctx.mod('metrics.divergences')
    np.random.seed(3)
    v = M.CKLDivergence().compute(p=p, q=q, nsamples=n)
    np.random.seed(3)
    w = M.CKLDivergence().compute(p=p, q=q2, nsamples=n)
    ctx.check_close("scale invariant", v, w)
    ctx.cover("done")


def static(ctx, n, zeros):
    """compute_from_probs and compute_from_log_probs give the same components"""
    M = ctx.mod('metrics.divergences').CKLDivergence
    p = ctx.reals('p', n, 0, 5, lo_open=not zeros, hint=(.05, 2))
    q = ctx.reals('q', n, 0, 5, lo_open=not zeros, hint=(.05, 2))
    pairs = [(a, b) for a, b in zip(list(p), list(q)) if bool(a > 0) and bool(b > 0)]
    np = ctx.np
    a = M.compute_from_log_probs(np.log(p), np.log(q))
    b = M.compute_from_probs(ctx.A(list(p)), ctx.A(list(q)))
    if not pairs:
        ctx.check("infinite without overlap", bool(np.sum(a) == math.inf) and bool(np.sum(b) == math.inf))
        return
    want = kl(ctx, norm(ctx, pairs))
    ctx.check_close("from log probabilities", np.sum(a), want)
    ctx.check_close("from probabilities", np.sum(b), want)
    ctx.cover("done")


def state(ctx):
    """one instance used twice does not remember"""
    lo, hi, p, q = setup(ctx, 2, 1, False)
    r = Target(ctx, 1, lo, hi, name='r', two_d=True)
    np, M = ctx.np, ctx.mod('metrics.divergences')
    m = M.CKLDivergence()
    m.compute(p=p, q=r, nsamples=2)
    m.pre()
    m.post()
    np.random.seed(3)
    v = m.compute(p=p, q=q, nsamples=2)
    np.random.seed(3)
    w = M.CKLDivergence().compute(p=p, q=q, nsamples=2)
    ctx.check_close("no memory", v, w)
    ctx.check_close("value", m.value, v)
    ctx.check("name", m.name == "KL" and m.type == "divergence")
    ctx.cover("done")


CASES = [
    Case("n=1", run, dict(n=1, d=1), need=("done",)),
    Case("n=2", run, dict(n=2, d=1), need=("done",)),
    Case("n=3", run, dict(n=3, d=1), need=("done",)),
    Case("n=2 d=2", run, dict(n=2, d=2), need=("done",)),
    Case("zeros n=1", run, dict(n=1, d=1, zeros=True), need=("done", "disjoint")),
    Case("zeros n=2", run, dict(n=2, d=1, zeros=True), need=("done", "disjoint", "partial")),
    Case("zeros n=3", run, dict(n=3, d=1, zeros=True), need=("done", "disjoint", "partial")),
    Case("same n=1", same, dict(n=1, d=1), need=("done",)),
    Case("same n=3", same, dict(n=3, d=2), need=("done",)),
    Case("differ n=2", differ, dict(n=2), need=("done",)),
    Case("scale n=2", scale, dict(n=2, d=1), need=("done",)),
    Case("scale n=3", scale, dict(n=3, d=1), need=("done",)),
    Case("static n=2", static, dict(n=2, zeros=False), need=("done",)),
    Case("static zeros n=3", static, dict(n=3, zeros=True), need=("done",)),
    Case("far n=2", far, dict(n=2, d=1), need=("done",)),
    Case("far n=3", far, dict(n=3, d=2), need=("done",)),
    Case("state", state, {}, need=("done",)),
    T("n=4", run, dict(n=4, d=2)),
    T("zeros n=4", run, dict(n=4, d=1, zeros=True)),
    T("differ n=3", differ, dict(n=3)),
    T("static n=4", static, dict(n=4, zeros=True)),
]
