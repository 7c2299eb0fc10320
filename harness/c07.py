"""C07: a kernel density estimate is the weighted sum of scaled kernels centred on the samples."""
import math
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["1-3 data points, d = 1-2, 1-2 query points, the four kernels, all locations, weights and (inverse) bandwidths symbolic"]
OUTSIDE = ['query points exactly on a jump of a discontinuous kernel', 'more data points']
KERNELS = ('kernel_normal', 'kernel_uniform', 'kernel_triangular', 'kernel_epanechnikov')


def ref_kernel(ctx, name, u):
    """textbook kernel; None exactly on the edge of a discontinuous one"""
    if name == 'kernel_normal':
        return ctx.np.exp(-u * u / 2) / math.sqrt(2 * math.pi)
    if bool(u < -1) or bool(u > 1):
        return 0.0
    if name == 'kernel_uniform':
        return 0.5 if bool(u > -1) and bool(u < 1) else None
    if name == 'kernel_triangular':
        return 1 - (u if bool(u >= 0) else -u)
    return 0.75 * (1 - u * u)


def kernel(ctx, name, n):
    D = ctx.mod('distributions')
    f = getattr(D.CKernel, name)
    u = ctx.reals('u', (n, 1), -3, 3)
    v = f(u)
    ctx.check_shape("shape", v, (n, 1))
    for i in range(n):
        r = ref_kernel(ctx, name, u[i, 0])
        if r is not None:
            ctx.check_close("kernel", v[i, 0], r)
        ctx.check("non-negative", v[i, 0] >= 0)
    m = f(-u)
    for i in range(n):
        ctx.check_close("symmetric", m[i, 0], v[i, 0])
    ctx.observe("v", v)


def kde(ctx, name, d, n, m):
    np = ctx.np
    D = ctx.mod('distributions')
    xs = ctx.reals('x', (n, d), -3, 3)
    bw = ctx.reals('bw', d, 0, 4, lo_open=True, hint=(.2, 3))
    w = ctx.reals('w', n, 0, 3, lo_open=True, hint=(.1, 2))
    keep = list(ctx.flat(w))
    dist = D.CKernelDensity({"samples": xs, "weights": w, "kernel_f": getattr(D.CKernel, name), "kernel_bw": bw,
                             "support": ctx.A([[-9.] * d, [9.] * d])})
    q = ctx.reals('q', (m, d), -5, 5)
    p = dist.prob(q)
    ctx.check_shape("shape", p, (m,))
    tw = total(keep)
    for i in range(m):
        ref, edge = 0.0, False
        for k in range(n):
            t = keep[k] / tw
            for j in range(d):
                r = ref_kernel(ctx, name, (q[i, j] - xs[k, j]) * bw[j])
                edge = edge or r is None
                t = t * (0.0 if r is None else r) * bw[j]
            ref = ref + t
        if not edge:
            ctx.check_close("density", p[i], ref)
        ctx.check("non-negative", p[i] >= 0)
    ctx.check_all_close("weights untouched", w, keep)
    ctx.check("dims", dist.dims == d)
    ctx.observe("p", p)


def logp(ctx, name, d):
    np = ctx.np
    D = ctx.mod('distributions')
    xs = ctx.reals('x', (2, d), -1, 1)
    bw = ctx.reals('bw', d, 0, 1, lo_open=True, hint=(.2, .9))
    dist = D.CKernelDensity({"samples": xs, "weights": ctx.A([.25, .75]), "kernel_f": getattr(D.CKernel, name), "kernel_bw": bw,
                             "support": ctx.A([[-9.] * d, [9.] * d])})
    q = ctx.reals('q', (2, d), -2, 2)
    p, lp = dist.prob(q), dist.log_prob(q)
    ctx.check_shape("shape", lp, (2,))
    for i in range(2):
        if not ctx.is_sym(p[i]) and p[i] == 0:
            ctx.check("log of zero", lp[i] == -math.inf)
        else:
            ctx.check_close("log", np.exp(lp[i]), p[i])
    ctx.observe("lp", lp)


CASES = [Case("kernel-%s" % k, kernel, dict(name=k, n=2)) for k in KERNELS]
CASES += [Case("kde-%s-d%d-n%d-m%d" % (k, d, n, m), kde, dict(name=k, d=d, n=n, m=m)) for k in KERNELS for d, n, m in
          ((1, 2, 2), (2, 2, 1))]
CASES += [Case("log-%s" % k, logp, dict(name=k, d=1)) for k in KERNELS]
CASES += [T("kde-%s-n3" % k, kde, dict(name=k, d=2, n=3, m=1)) for k in KERNELS]
