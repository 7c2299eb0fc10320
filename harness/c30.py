"""C30: evaluation grids are the Cartesian product of evenly spaced axes, and times split into hours, minutes and seconds."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["d = 1-3 with up to 4 points per axis (6 thorough); limits, resolutions and densities symbolic; times up to 3 hours (30 thorough)"]
OUTSIDE = ["negative resolutions", "negative times", "the row order of grids of three and more dimensions"]


def box(ctx, d, most):
    lo = ctx.reals('lo', d, -4, 4)
    w = ctx.reals('w', d, 0, 6, lo_open=True, hint=(.2, 5))
    r = ctx.reals('res', d, .05, 8, hint=(.3, 6))
    hi = lo + w
    for j in range(d):
        ctx.assume(w[j] < (most + 1) * r[j])
    return lo, hi, w, r


def counts(ctx, w, r, d, most):
    """points per axis: how often the resolution fits, at least one"""
    out = []
    for j in range(d):
        n = 1
        while n < most + 1 and bool(w[j] >= (n + 1) * r[j]):
            n += 1
        out.append(n)
        if n > 1 or bool(w[j] >= r[j]):
            # away from the exact multiples, where doubles decide either way
            ctx.assume(w[j] > n * r[j] * (1 + 1e-9))
        ctx.assume(w[j] < (n + 1) * r[j] * (1 - 1e-9))
    return out


def grid(ctx, module, d, most):
    M = ctx.mod(module)
    lo, hi, w, r = box(ctx, d, most)
    ns = counts(ctx, w, r, d, most)
    g, dims, shape = M.make_grid(lo, hi, r)
    ctx.check("points per axis", [int(v) for v in shape] == ns, "%s, expected %s" % (list(shape), ns))
    ctx.check("one axis per dimension", len(dims) == d)
    n = prod(ns)
    ctx.check_shape("grid", g, (int(n), d))
    for j in range(d):
        ctx.check_shape("axis", dims[j], (ns[j],))
        for i in range(ns[j]):
            v = lo[j] if ns[j] == 1 else lo[j] + (hi[j] - lo[j]) * i / (ns[j] - 1)
            ctx.check_close("evenly spaced axis", dims[j][i], v)
    # every combination exactly once
    want = [[]]
    for j in range(d):
        want = [p + [dims[j][i]] for p in want for i in range(ns[j])]
    same_multiset(ctx, "every combination once", rows_of(g), want)
    if d <= 2:
        for a, b in zip(rows_of(g), want):
            ctx.check_all_close("rows follow the shape", a, b)
    ctx.observe("g", g)
    ctx.cover("done")
    if max(ns) > 1:
        ctx.cover("more than one point")


def sampled(ctx, module, d, most, log):
    """the grid comes with the density of the distribution at every one of its points"""
    M = ctx.mod(module)
    lo, hi, w, r = box(ctx, d, most)
    ns = counts(ctx, w, r, d, most)
    t = Target(ctx, d, lo, hi, two_d=True)
    g, p, dims, shape = M.grid_sample_distribution(t, lo, hi, r)
    g2, dims2, shape2 = M.make_grid(lo, hi, r)
    ctx.check_all_close("the points of the grid", g, g2)
    ctx.check("the shape of the grid", [int(v) for v in shape] == [int(v) for v in shape2] == ns)
    ctx.check_shape("one value per point", p, (len(g2),))
    for i, row in enumerate(rows_of(g)):
        v = t.at(row)
        ctx.check_close("density at the point", p[i], ctx.np.log(v) if log else v)
    ctx.cover("done")


def hms(ctx, top):
    U = ctx.mod('utils.misc')
    t = ctx.real('t', 0, top)
    h, m, s = U.time_to_hms(t)
    ctx.check_close("adds up", h * 3600 + m * 60 + s, t)
    for v, l in ((h, "hours"), (m, "minutes")):
        ctx.check("whole " + l, int(v) == v)
    ctx.check("minutes below an hour", m >= 0)
    ctx.check("minutes below an hour", m < 60)
    ctx.check("seconds below a minute", s >= 0)
    ctx.check("seconds below a minute", s < 60)
    ctx.check("hours", h >= 0)
    ctx.cover("done")


B, U = 'sampling_methods.base', 'utils.plot_utils'
N = ("done", "more than one point")
CASES = [Case("grid %s d=%d" % (m.split('.')[-1], d), grid, dict(module=m, d=d, most=k), need=N) for m in (B, U) for d, k in ((1, 4), (2, 3), (3, 2))]
CASES += [Case("sampled %s d=%d" % (m.split('.')[-1], d), sampled, dict(module=m, d=d, most=2, log=m == B), need=("done",)) for m in (B, U) for d in (1, 2)]
CASES += [Case("time", hms, dict(top=10800), need=("done",)),
          T("time 30 h", hms, dict(top=108000)),
          T("grid base d=2 6", grid, dict(module=B, d=2, most=6)), T("grid plot_utils d=3 3", grid, dict(module=U, d=3, most=3))]
