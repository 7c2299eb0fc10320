"""C03: a mixture is the weighted sum of its components, for every weight vector, and samples accordingly."""
import math
from vf.runner import Case, T
from harness.lib import *
from vf.sym import Unsupported

BOUNDS = ["2-3 components, d=1-2, batches of 1-2 points, every weight pattern positive/zero/negative/NaN, 1-3 samples; component densities that underflow (log densities of any size)"]
OUTSIDE = ['more components', 'weight vectors of the wrong length', 'infinite weights']


def weights(ctx, pat, name='w'):
    ws = []
    for i, c in enumerate(pat):
        if c == 'p':
            ws.append(ctx.real("%s%d" % (name, i), 0, 5, lo_open=True, hint=(.05, 3)))
        elif c == 'z':
            ws.append(0.0)
        elif c == 'm':
            ws.append(ctx.real("%s%d" % (name, i), -5, 0, hi_open=True, hint=(-3, -.05)))
        elif c == 'n':
            ws.append(float('nan'))
        else:                       # 'a': any sign
            ws.append(ctx.real("%s%d" % (name, i), -1, 2))
    return ctx.A(ws)


def clean(ctx, w):
    """sanitised, normalised weights"""
    ws = []
    for v in ctx.flat(w):
        if ctx.isnan(v) or bool(v <= 0):
            ws.append(0.0)
        else:
            ws.append(v)
    if all((not ctx.is_sym(v)) and v == 0 for v in ws):
        return [1.0 / len(ws)] * len(ws)
    t = total(ws)
    return [v / t for v in ws]


def comps_(ctx, d, k):
    return [mk_normal(ctx, d, 'diag', "c%d" % i) for i in range(k)]


def density(ctx, pat, d, n, via, pat2=None):
    np = ctx.np
    D = ctx.mod('distributions')
    k = len(pat)
    cs = comps_(ctx, d, k)
    w = weights(ctx, pat)
    keep = ctx.flat(w)
    sup = ctx.A([[-9.] * d, [9.] * d])
    if via == 'gmm':
        mx = D.CGaussianMixtureModel({"means": [c[1] for c in cs], "sigmas": [np.diag(c[2]) for c in cs], "weights": w,
                                      "support": sup})
    elif via == 'gmm-default':
        mx = D.CGaussianMixtureModel({"means": [c[1] for c in cs], "sigmas": [np.diag(c[2]) for c in cs], "support": sup})
    else:
        mx = D.CMixtureModel({"models": [c[0] for c in cs], "weights": w, "dims": d, "support": sup})
    if pat2:
        w = weights(ctx, pat2, 'v')
        keep = ctx.flat(w)
        mx.set_weights(w)
    for a, b in zip(keep, ctx.flat(w)):
        ctx.check_close("weights-argument-unchanged", b, a)
    cw = clean(ctx, keep) if via != 'gmm-default' else [1.0 / k] * k
    x = ctx.reals('x', (n, d), -6, 6)
    p, lp = mx.prob(x), mx.log_prob(x)
    for i in range(n):
        ref = total(cw[j] * normal_pdf(ctx, x[i], cs[j][1], cs[j][2]) for j in range(k))
        ctx.check_close("density", p[i], ref)
        ctx.check_close("log-density", lp[i], np.log(ref))
    if via == 'mixture':
        ctx.check_all_close("stored-weights", mx.weights, cw)
        ctx.check_close("weights-sum", total(ctx.flat(mx.weights)), 1.0)
    ctx.observe("p", p)
    ctx.observe("lp", lp)


def far(ctx, d, k, n, via):
    """where every component's density underflows the mixture's log density is still exact"""
    np = ctx.np
    D = ctx.mod('distributions')
    mean = ctx.reals('mean', d, -4, 4)
    var = ctx.reals('var', d, .5, 1.5)
    w = ctx.reals('w', k, 0, 5, lo_open=True, hint=(.05, 3))
    # the components share one shape and differ by a step, small enough for all to matter
    ms = [mean + .0 * i for i in range(k)]
    sup = ctx.A([[-9.] * d, [9.] * d])
    if via == 'gmm':
        mx = D.CGaussianMixtureModel({"means": ms, "sigmas": [var] * k, "weights": w, "support": sup})
    else:
        mx = D.CMixtureModel({"models": [D.CMultivariateNormal({"mean": m, "sigma": np.diag(var)}) for m in ms],
                              "weights": w, "dims": d, "support": sup})
    x = ctx.reals('x', (n, d), 70, 200)
    ctx.underflow()
    lp, p = mx.log_prob(x), mx.prob(x)
    for i in range(n):
        ctx.check_close("log-density far out", lp[i], normal_logpdf(ctx, x[i], mean, np.diag(var)))
        ctx.check("density far out", bool(p[i] == 0), "%s" % p[i])
    ctx.observe("lp", lp)


def match_rows(ctx, out, draws, n, d):
    """assign every output row to a distinct row of some mvn draw; returns the draws used"""
    avail = []
    for dr in draws:
        rows = dr.value.reshape(-1, d)
        for r in range(len(rows)):
            avail.append((rows[r], dr))
    used = []
    for i in range(n):
        hit = None
        for q, (row, dr) in enumerate(avail):
            if all(_same(ctx, out[i, j], row[j]) for j in range(d)):
                hit = q
                break
        ctx.check("sample-from-component", hit is not None, "row %d is no component draw" % i)
        used.append(avail.pop(hit)[1])
    return used


def _same(ctx, a, b):
    if ctx.is_sym(a) or ctx.is_sym(b):
        d = a - b
        return (not ctx.is_sym(d)) and abs(d) < 1e-9
    return abs(float(a) - float(b)) < 1e-9


def sampling(ctx, pat, d, n, via):
    np = ctx.np
    D = ctx.mod('distributions')
    k = len(pat)
    cs = comps_(ctx, d, k)
    w = weights(ctx, pat)
    cw = clean(ctx, w)
    sup = ctx.A([[-9.] * d, [9.] * d])
    if via == 'gmm':
        mx = D.CGaussianMixtureModel({"means": [c[1] for c in cs], "sigmas": [np.diag(c[2]) for c in cs], "weights": w,
                                      "support": sup})
    else:
        mx = D.CMixtureModel({"models": [c[0] for c in cs], "weights": w, "dims": d, "support": sup})
    ctx.draws.clear()
    out = mx.sample(n)
    ctx.check_shape("sample-shape", out, (n, d))
    disc = [x for x in ctx.draws if x.kind in ('multinomial', 'choice')]
    counts = [0] * k
    for x in disc:
        if x.kind == 'multinomial':
            ctx.check_all_close("selection-probabilities", x.args['p'], cw)
            v = rnp.asarray(x.value).reshape(-1, k).sum(axis=0)
            for j in range(k):
                counts[j] += int(v[j])
        else:
            if x.args['p'] is None:
                ctx.check("selection-probabilities", k == 1 or all(bool(abs(c - 1.0 / k) < 1e-9) for c in cw), "uniform choice")
            else:
                ctx.check_all_close("selection-probabilities", x.args['p'], cw)
            for j in rnp.asarray(x.args['idx']).reshape(-1):
                counts[int(j)] += 1
    used = match_rows(ctx, out, [x for x in ctx.draws if x.kind == 'mvn'], n, d)
    got = [0] * k
    seq = []
    for dr in used:
        for j in range(k):
            if all(_same(ctx, dr.args['mean'][a], cs[j][1][a]) for a in range(d)):
                ctx.check_all_close("component-covariance", dr.args['cov'], cs[j][2])
                got[j] += 1
                seq.append(j)
                break
        else:
            ctx.check("component-mean", False, "a draw does not belong to any component")
    if disc:
        ctx.check("component-counts", counts == got, "selected %s, sampled from %s" % (counts, got))
        # every row follows the weights on its own: row i comes from the i-th selection, unless the rows are shuffled afterwards
        if not any(x.kind == 'permutation' for x in ctx.draws) and len(set(seq)) > 1:
            sel = [j for _, j in selections(ctx)]
            ctx.check("row-order", all(x.kind == 'choice' or int(x.args['n']) == 1 for x in disc) and seq in (sel, sel[::-1]),
                      "the rows come from components %s, selected as %s in draws of %s" % (seq, sel, [x.kind for x in disc]))
    elif k > 1:
        # inverse transform: the i-th uniform number falls in the stretch of the weights of the component of row i
        u = uniforms01(ctx)
        if len(u) < n:
            raise Unsupported("the components are selected in a way this harness does not know")
        cum = [0.0]
        for c in cw:
            cum.append(cum[-1] + c)
        for i in range(n):
            ctx.check("selected-by-weight", u[i] >= cum[seq[i]] - 1e-9, "row %d of component %d" % (i, seq[i]))
            ctx.check("selected-by-weight", u[i] <= cum[seq[i] + 1] + 1e-9, "row %d of component %d" % (i, seq[i]))
    for j in range(k):
        if got[j]:
            ctx.cover("component%d" % j)
            ctx.check("zero-weight-component", cw[j] > 0, "sampled from a component of weight zero")
    ctx.observe("out", out)


def mismatch(ctx):
    D = ctx.mod('distributions')
    cs = comps_(ctx, 1, 2)
    sup = ctx.A([[-9.], [9.]])
    ctx.expect_raises("length-mismatch", (AssertionError, ValueError), lambda: D.CMixtureModel(
        {"models": [c[0] for c in cs], "weights": weights(ctx, 'ppp'), "dims": 1, "support": sup}))
    mx = D.CMixtureModel({"models": [c[0] for c in cs], "weights": weights(ctx, 'pp'), "dims": 1, "support": sup})
    ctx.expect_raises("length-mismatch", (AssertionError, ValueError), lambda: mx.set_weights(weights(ctx, 'ppp')))


CASES = [Case("density-%s-d%d" % (p, d), density, dict(pat=p, d=d, n=n, via='mixture'))
         for p, d, n in (('p', 1, 2), ('pp', 1, 2), ('pp', 2, 2), ('ppp', 1, 1), ('pz', 1, 2), ('mp', 1, 1), ('np', 1, 1), ('zz', 1, 1),
                         ('mn', 1, 1), ('zmn', 1, 1), ('pnp', 1, 1), ('aa', 1, 1), ('aaa', 1, 1), ('nnn', 1, 1))]
CASES += [Case("gmm-%s-d%d" % (p, d), density, dict(pat=p, d=d, n=2, via='gmm')) for p, d in (('pp', 1), ('pp', 2), ('pzp', 1))]
CASES += [Case("far-%s-d%d" % (v, d), far, dict(d=d, k=k, n=2, via=v)) for v, d, k in (('mixture', 1, 1), ('mixture', 2, 2), ('gmm', 1, 2))]
CASES += [Case("gmm-default", density, dict(pat='ppp', d=1, n=1, via='gmm-default'))]
CASES += [Case("reweight-%s-%s" % (a, b), density, dict(pat=a, d=1, n=1, via='mixture', pat2=b))
          for a, b in (('pp', 'pp'), ('pz', 'zp'), ('pp', 'zz'), ('nn', 'pp'), ('pp', 'aa'))]
CASES += [Case("sample-%s-d%d-n%d" % (p, d, n), sampling, dict(pat=p, d=d, n=n, via='mixture'))
          for p, d, n in (('pp', 1, 2), ('ppp', 1, 2), ('pzp', 2, 2), ('pp', 2, 3), ('zz', 1, 2), ('np', 1, 1), ('p', 2, 2))]
CASES += [Case("sample-gmm", sampling, dict(pat='pp', d=2, n=2, via='gmm'), need=("component0", "component1"))]
CASES += [Case("length-mismatch", mismatch)]
CASES += [T("density-deep-%s-d%d" % (p, d), density, dict(pat=p, d=d, n=2, via='mixture'))
          for p, d in (('aaaa', 1), ('ppppp', 2), ('aaa', 2))]
CASES += [T("sample-deep-%s-n%d" % (p, n), sampling, dict(pat=p, d=1, n=n, via='mixture')) for p, n in (('ppp', 4), ('pppp', 3), ('aaa', 3))]
