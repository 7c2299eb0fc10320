"""C34: drawings show the values they stand for: curves, level sets, cells, samples and visual items at their coordinates."""
import types
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["curves of 2-3 points, level sets on grids of 2x2 to 2x3 points (an arbitrary density), trees of 1-2 expansions in d = 1-3, samplers after one round of 2-3 samples, "
          "sequences of up to 4 items with any equality pattern of their identifiers; domains, densities, weights, scales, positions symbolic"]
OUTSIDE = ["colours, line styles, labels and everything matplotlib does with what it is given", "visualization/manim", "the sampler drawings that fit a kernel density first, in d = 2"]


class Artist:
    def __init__(self, kind=None, a=(), k=None):
        self.kind, self.a, self.k = kind, a, k or {}
        self.on = True

    def remove(self):
        if not self.on:
            raise ValueError("list.remove(x): x not in list")
        self.on = False

    def __getattr__(self, n):
        if n.startswith('__') or n in ('collections',):
            raise AttributeError(n)
        return lambda *a, **k: None


class Shape(Artist):
    def __init__(self, *a, **k):
        super().__init__('shape', a, k)
        names = ('xy', 'width', 'height')
        for i, v in enumerate(a[:3]):
            setattr(self, names[i], v)
        for n in names:
            if n in k:
                setattr(self, n, k[n])


class Group(Artist):
    def __init__(self, members=(), *a, **k):
        super().__init__('group', (members,) + a, k)
        self.members = list(members)


class Axes:
    """remembers what it is asked to draw"""

    def __init__(self):
        self.items = []

    def _add(self, kind, a, k):
        it = Artist(kind, a, k)
        self.items.append(it)
        return it

    def plot(self, *a, **k):
        return [self._add('plot', a, k)]

    def plot3D(self, *a, **k):
        return [self._add('plot3D', a, k)]

    def add_patch(self, p):
        self.items.append(p)
        return p

    add_collection = add_artist = add_line = add_patch

    def get_ylim(self):
        return (0.0, 1.0)

    get_xlim = get_ylim

    def clear(self):
        for i in self.items:
            i.on = False

    cla = clf = clear

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: self._add(n, a, k)

    def of(self, *kinds):
        return [i for i in self.items if i.kind in kinds and i.on]


class Mod(types.ModuleType):
    def __init__(self, name, dflt, **k):
        super().__init__(name)
        self.__dict__.update(k)
        self.__dict__['_dflt'] = dflt

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self._dflt


def stage(ctx):
    """matplotlib with recording axes"""
    import numpy
    ax = Axes()
    colour = lambda *a, **k: numpy.ones((1, 4))
    nop = lambda *a, **k: None
    cm = Mod('matplotlib.cm', colour)
    pa = Mod('matplotlib.patches', Shape)
    co = Mod('matplotlib.collections', Group)
    li = Mod('matplotlib.lines', None, Line2D=lambda *a, **k: Artist('line', a, k))
    pp = Mod('matplotlib.pyplot', nop, gca=lambda *a, **k: ax, clf=ax.clear, cla=ax.clear, cm=cm)
    for n in ('plot', 'scatter', 'text', 'vlines', 'contour'):
        setattr(pp, n, getattr(ax, n))
    ctx.world.stubs.update({'matplotlib.cm': cm, 'matplotlib.patches': pa, 'matplotlib.collections': co, 'matplotlib.lines': li, 'matplotlib.pyplot': pp,
                            'matplotlib': Mod('matplotlib', nop, cm=cm, patches=pa, collections=co, lines=li, pyplot=pp)})
    return ax


def xy(ctx, it):
    """the coordinates of a plotted line"""
    n = 3 if it.kind == 'plot3D' else 2
    a = [v for v in it.a if not isinstance(v, str)]
    if not a:
        a = [it.k[s] for s in ('xs', 'ys', 'zs')]
    c = [ctx.flat(v) for v in a]
    ctx.check("as many coordinates on every axis", len(set(map(len, c))) == 1, "%s" % [len(v) for v in c])
    return c


def curve_is(ctx, label, c, f, lo, hi, detail=''):
    """(xs, ys) shows f between lo and hi"""
    xs, ys = c
    n = len(xs)
    ctx.check(label + ": from end to end", n >= 2)
    for i in range(n):
        ctx.check_close(label + ": evenly spread", xs[i] * (n - 1), lo * (n - 1) + (hi - lo) * i, detail=detail)
        ctx.check_close(label, ys[i], f(xs[i]), detail=detail)


def scalar(ctx, v):
    f = ctx.flat(v)
    ctx.check("a single number", len(f) == 1, "%d numbers" % len(f))
    return f[0]


def span(ctx, d, w, name='dom'):
    lo = ctx.reals(name + '.lo', d, -1, 1)
    return lo, lo + ctx.reals(name + '.w', d, w[0], w[1], lo_open=True, hi_open=True)


# ------------------------------------------------------------------ densities
def curve(ctx, w, res, n):
    ax = stage(ctx)
    P = ctx.mod('utils.plot_utils')
    lo, hi = span(ctx, 1, w)
    t = Target(ctx, 1, zeros=True)
    s = ctx.real('scale', 0, 5)
    out = P.plot_pdf(ax, t, lo, hi, resolution=res, scale=s)
    ctx.check("one curve", len(ax.items) == 1 and len(out) == 1)
    c = xy(ctx, ax.items[0])
    ctx.check("resolution", n[0] <= len(c[0]) <= n[1], "%d points" % len(c[0]))
    curve_is(ctx, "the curve is the scaled density", c, lambda x: s * t.at([x]), lo[0], hi[0])
    ctx.observe("y", c[1][0])
    ctx.cover("done")


def level_sets(ctx, it, f, lo, hi, label="level sets"):
    """a contour call shows f over the box; f(x, y)"""
    a = list(it.a)
    ctx.check(label + ": x, y, z", len(a) >= 3)
    X, Y, Z = a[:3]
    z = Z.shape
    ctx.check(label + ": a grid", len(z) == 2 and z[0] >= 1 and z[1] >= 1)
    at = lambda V, j, i, k: V[j, i] if len(V.shape) == 2 else V[k]
    ctx.check(label + ": grid sizes", (X.shape == z or X.shape == (z[1],)) and (Y.shape == z or Y.shape == (z[0],)), "%s %s %s" % (X.shape, Y.shape, z))
    for j in range(z[0]):
        for i in range(z[1]):
            x, y = at(X, j, i, i), at(Y, j, i, j)
            ctx.check_close(label + ": x evenly spread", x * max(z[1] - 1, 1), lo[0] * max(z[1] - 1, 1) + (hi[0] - lo[0]) * i)
            ctx.check_close(label + ": y evenly spread", y * max(z[0] - 1, 1), lo[1] * max(z[0] - 1, 1) + (hi[1] - lo[1]) * j)
            ctx.check_close(label, Z[j, i], f(x, y))
    lv = it.k.get('levels', a[3] if len(a) > 3 else None)
    if lv is not None and hasattr(lv, '__len__'):
        lv = ctx.flat(lv)
        zs = ctx.flat(Z)
        for v, u in zip(lv, lv[1:]):
            ctx.check(label + ": levels increase", v < u)
        ctx.check(label + ": there are levels", len(lv) >= 2)
        low = high = zs[0]
        for v in zs[1:]:
            low, high = (v if bool(v < low) else low), (v if bool(v > high) else high)
        for v in (lv[0], lv[-1]):
            ctx.check(label + ": levels are heights of the density", (low - 1e-7 <= v) & (v <= high + 1e-7) if ctx.symbolic else low - 1e-6 <= v <= high + 1e-6)
    return X, Y, Z


def contour(ctx, w, res, flat=False):
    ax = stage(ctx)
    P = ctx.mod('utils.plot_utils')
    lo = ctx.reals('lo', 2, -1, 1)
    hi = lo + ctx.A([ctx.real('w%d' % j, w[j], w[j] + .3 * res, lo_open=True, hi_open=True) for j in range(2)])
    t = Target(ctx, 2, zeros=True)
    if flat:
        v = ctx.real('height', 0, 3)
        t.value = lambda pt: v
    s = ctx.real('scale', .1, 4)
    out = P.plot_pdf2d(ax, t, lo, hi, resolution=res, scale=s)
    if len(ax.items) == 0:
        vals = list(t.vals.values()) if not flat else []
        for u in vals[1:]:
            ctx.check_close("nothing drawn only of a flat density", s * u, s * vals[0])
        ctx.check("nothing returned when nothing is drawn", len(out) == 0)
        ctx.cover("flat")
        return
    ctx.check("one set of levels", len(ax.items) == 1 and ax.items[0].kind in ('contour', 'contourf', 'tricontour'))
    ctx.check("the artist is returned", len(out) == 1 and out[0] is ax.items[0])
    X, Y, Z = level_sets(ctx, ax.items[0], lambda x, y: s * t.at([x, y]), lo, hi)
    ctx.observe("z", Z)
    ctx.cover("done")


def flat_over(ctx, f, lo, hi):
    """a density without level sets: the same value on the 2x2 grid"""
    z = [f(x, y) for x in (lo[0], hi[0]) for y in (lo[1], hi[1])]
    for v in z[1:]:
        ctx.check_close("only a flat density has no level sets", v, z[0])


def all_level_sets(ctx, ax, f, lo, hi):
    its = ax.of('contour')
    for it in its:
        level_sets(ctx, it, f, lo, hi)
    if not its:
        flat_over(ctx, f, lo, hi)


def dist_draw(ctx, d):
    ax = stage(ctx)
    D = ctx.mod('distributions')
    w = (.9, .99) if d == 1 else (.17, .24)
    lo, hi = span(ctx, d, w)
    t = Target(ctx, d, zeros=True)
    b = ctx.mod('distributions.distributions').CDistribution
    no = lambda *a, **k: None
    q = type('Arbitrary', (b,), {n: no for n in getattr(b, '__abstractmethods__', ())})({"type": "x", "family": "y", "dims": d, "support": ctx.A([lo, hi]), "likelihood_f": t.prob, "loglikelihood_f": t.log_prob})
    if d == 1:
        q.draw(ax, resolution=.4)
        ctx.check("one curve", len(ax.items) == 1)
        m = (hi[0] - lo[0]) * .1
        curve_is(ctx, "the density over its support and a tenth more", xy(ctx, ax.items[0]), lambda x: t.at([x]), lo[0] - m, hi[0] + m)
    else:
        m = (hi - lo) * .1
        q.draw(ax)
        if ax.items:
            level_sets(ctx, ax.items[0], lambda x, y: t.at([x, y]), lo - m, hi + m)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def delta_draw(ctx, d):
    ax = stage(ctx)
    D = ctx.mod('distributions')
    c = ctx.reals('c', d, -2, 2)
    q = D.CMultivariateDelta({"center": c, "support": ctx.A([c - 1, c + 1])})
    q.draw(ax)
    ctx.check("one mark", len(ax.items) == 1)
    p = xy(ctx, ax.items[0])
    for j in range(d):
        for v in p[j]:
            ctx.check_close("at its location", v, c[j])
    if d == 1:
        ctx.check_close("from 0", p[1][0], 0.0)
        ctx.check_close("upwards", p[1][-1], 1.0)
    ctx.observe("p", p[0])
    ctx.cover("done")


def band(ctx, who, n, flat=False, label=None):
    """models with noise: the mean of what they generate and 3 standard deviations around it"""
    ax = stage(ctx)
    D = ctx.mod('distributions')
    lo, hi = span(ctx, 1, (.5, 2))
    g, h, c = ctx.real('gain', -2, 2), ctx.real('offset', -2, 2), ctx.real('noise', .01, 1)

    class Noise(D.CDistribution):
        k = 0

        def condition(self, z):
            pass

        def marginal(self, dim):
            pass

        def sample(self, nsamples=1):
            self.k += 1
            return ctx.A([[c if self.k % 2 else -c]] * nsamples)
    nz = lambda: Noise({"type": "n", "family": "n", "dims": 1, "support": ctx.A([[-5.], [5.]]), "likelihood_f": None, "loglikelihood_f": None})
    sup = ctx.A([lo[0], hi[0]]) if flat else ctx.A([[lo[0]], [hi[0]]])
    fun = lambda f, noise: D.GenericNoisyFunction({"noise_model": noise, "function": f, "dims": 1, "support": sup})
    q = fun(lambda x, z: x * g + h, nz())
    f = lambda x: g * x + h
    sd, slack = c, .05
    if who == 'abc':
        silent = nz()
        silent.sample = lambda nsamples=1: ctx.A([[0.0]] * nsamples)
        q = D.ABCDistribution({"dims": 1, "prior_d": nz(), "sensor_d": fun(lambda x, z: 3.0 * x - 1.0, silent), "gen_d": q, "slack": .5, "support": sup,
                               "likelihood_f": None, "loglikelihood_f": lambda o, y, s: y})
        f = lambda x: 3.0 * (g * x + h) - 1.0
        sd = 3.0 * c
    q.draw(ax, n_points=n, label=label)
    lines, bands = ax.of('plot'), ax.of('fill_between')
    ctx.check("one curve and one band", len(lines) == len(bands) == 1, "%d, %d" % (len(lines), len(bands)))
    xs, ys = xy(ctx, lines[0])
    bx, b0, b1 = [ctx.flat(v) for v in bands[0].a[:3]]
    ctx.check("a value per point", len(xs) == len(ys) == len(bx) == len(b0) == len(b1) == n, "%s" % [len(v) for v in (xs, ys, bx, b0, b1)])
    for i in range(n):
        ctx.check_close("evenly spread", xs[i] * (n - 1), lo[0] * (n - 1) + (hi[0] - lo[0]) * i)
        ctx.check_close("evenly spread", bx[i], xs[i])
        m = ys[i] - f(xs[i])
        ctx.check("the mean of what is generated", m <= slack * sd)
        ctx.check("the mean of what is generated", m >= -slack * sd)
        ctx.check_close("around the mean", b0[i] + b1[i], 2 * ys[i])
        ctx.check("three standard deviations", b1[i] - b0[i] <= 6 * (1 + slack) * sd)
        ctx.check("three standard deviations", b1[i] - b0[i] >= 6 * (1 - slack) * sd)
    ctx.observe("y", ys[0])
    ctx.cover("done")


# ------------------------------------------------------------------ trees
def mk_tree(ctx, d, depth):
    lo, hi = domain(ctx, d, cube=True)
    m = ctx.world.load('ais_benchmarks.sampling_methods.tree_pyramid')
    T = m.CTreePyramid(lo, hi, 'haar')
    for k in range(depth):
        T.expand(T.leaves[0 if k == 0 else ctx.pick('leaf%d' % k, len(T.leaves))])
    for i, n in enumerate(T.leaves):
        n.weight = ctx.A([ctx.real('w%d' % i, 0, 3)])
        n.value = ctx.A([ctx.real('v%d' % i, 0, 3)])
    return T, lo, hi, m


def cell(ctx, n, d):
    c, r = ctx.flat(n.center), ctx.flat(n.radius)
    r = r if len(r) == d else r * d
    return [(c[j] - r[j], c[j] + r[j]) for j in range(d)]


def rects(ctx, ax):
    out = []
    for i in ax.items:
        for m in (i.members if isinstance(i, Group) else [i]):
            ctx.check("a rectangle", isinstance(m, Shape))
            dims = {getattr(v, 'ndim', 0) for v in (m.xy[0], m.xy[1], m.xy[0] + m.width, m.xy[1] + m.height)}
            ctx.check("corners of one shape", len(dims) == 1, "%s" % dims)
            xy0 = ctx.flat(m.xy)
            out.append((xy0[0], xy0[1], scalar(ctx, m.width), scalar(ctx, m.height)))
    return out


def same(p, q):
    return all(bool(abs(a - b) <= 1e-9) for a, b in zip(p, q))


def among(ctx, p, qs):
    return any(all(ctx.near(a, b) for a, b in zip(p, q)) for q in qs) or any(same(p, q) for q in qs)


def match(ctx, label, shown, want):
    """the same boxes up to order"""
    ctx.check(label + ": number", len(shown) == len(want), "%d for %d" % (len(shown), len(want)))
    left = list(want)
    for s in shown:
        hit = next((q for q in left if all(ctx.near(a, b) for a, b in zip(s, q))), None)
        if hit is None:
            hit = next((q for q in left if same(s, q)), None)
        ctx.check(label, hit is not None, "%s is none of them" % (s,))
        left = [q for q in left if q is not hit]


def tree_bars(ctx, depth, what):
    ax = stage(ctx)
    T, lo, hi, m = mk_tree(ctx, 1, depth)
    P = ctx.mod('utils.plot_utils')
    s = ctx.real('scale', .1, 4)
    out = getattr(P, 'plot_tpyramid_' + what)(ax, T, scale=s, label="x")
    want = []
    for n in T.leaves:
        (a, b), = cell(ctx, n, 1)
        h = n.weight[0] * s
        want.append((a, 0.0, b - a, h if what == 'weights' else h / (b - a)))
    match(ctx, "one bar per leaf", rects(ctx, ax), want)
    ctx.check("the bars are returned", len(out) == len(want) and all(any(o is i for i in ax.items) for o in out))
    ctx.observe("w", [q[2] for q in rects(ctx, ax)])
    ctx.cover("done")


def tree_cells(ctx, d, depth):
    ax = stage(ctx)
    T, lo, hi, m = mk_tree(ctx, d, depth)
    s = ctx.world.load('ais_benchmarks.sampling_methods.tree_pyramid').CTreePyramidSampling
    if d == 2:
        out = s.draw_2d_tree(T, ax)
        want = [(a, p, b - a, q - p) for (a, b), (p, q) in (cell(ctx, n, 2) for n in T.leaves)]
        match(ctx, "the cells of the leaves", rects(ctx, ax), want)
        ctx.check("one artist per leaf", len(out) == len(want))
    else:
        out = s.draw_3d_tree(T, ax)
        ctx.check("one artist per leaf", len(out) == len(T.leaves) == len(ax.items))
        for n, it in zip(T.leaves, ax.items):
            b = cell(ctx, n, 3)
            p = xy(ctx, it)
            k = len(p[0])
            side = [[None] * k for _ in range(3)]
            for j in range(3):
                for i in range(k):
                    up = bool(p[j][i] > (b[j][0] + b[j][1]) / 2)
                    side[j][i] = up
                    ctx.check_close("corners of the cell", p[j][i], b[j][1] if up else b[j][0])
                ctx.check("the whole cell is outlined", any(side[j]) and not all(side[j]))
            for i in range(k - 1):
                ctx.check("lines are edges of the cell", sum(side[j][i] != side[j][i + 1] for j in range(3)) <= 1)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def hd_cells(ctx, n):
    ax = stage(ctx)
    lo, hi = domain(ctx, 2)
    s = mk_sampler(ctx, 'hidaisee', 2, lo, hi)
    t = Target(ctx, 2, lo, hi)
    for k in range(n):
        ls = list(s.T.leaves)
        x = s.T.nodes[ls[ctx.pick('leaf%d' % k, len(ls))]]
        s.T.split(x.idx, t)
    out = s.draw2d(ax)
    want = []
    for l in s.T.leaves:
        (a, b), (p, q) = cell(ctx, s.T.nodes[l], 2)
        want.append((a, p, b - a, q - p))
    match(ctx, "the cells of the leaves", rects(ctx, ax), want)
    area = total([w[2] * w[3] for w in rects(ctx, ax)])
    ctx.check_close("the cells fill the domain", area, (hi[0] - lo[0]) * (hi[1] - lo[1]))
    ctx.check("one artist per leaf", len(out) == n + 1)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def prism_faces(ctx, ax, boxes):
    """every box is shown by its six faces, and nothing else is"""
    faces = []
    for it in ax.items:
        ctx.check("a surface", it.kind in ('plot_surface', 'plot_wireframe'))
        a = [v if hasattr(v, 'shape') else ctx.A(v) for v in it.a[:3]]
        ctx.check("two dimensional heights", len(a[2].shape) == 2)
        a = ctx.world.np.broadcast_arrays(*a)
        p = [ctx.flat(v) for v in a]
        if it.kind == 'plot_surface':
            faces.append(list(zip(*p)))
    ctx.check("six faces each", len(faces) == 6 * len(boxes), "%d faces" % len(faces))
    k = 0
    for b in boxes:
        seen = set()
        for f in faces[k:k + 6]:
            cs = set()
            for pt in f:
                c = []
                for j in range(3):
                    up = bool(pt[j] > (b[j][0] + b[j][1]) / 2)
                    ctx.check_close("faces lie on the box", pt[j], b[j][1] if up else b[j][0])
                    c.append(up)
                cs.add(tuple(c))
            ctx.check("a face", len(cs) == 4)
            fixed = [j for j in range(3) if len({c[j] for c in cs}) == 1]
            ctx.check("a side of the box", len(fixed) == 1)
            seen.add((fixed[0], next(iter(cs))[fixed[0]]))
        ctx.check("all six sides", len(seen) == 6)
        k += 6


def prism(ctx):
    ax = stage(ctx)
    P = ctx.mod('utils.plot_utils')
    lo = ctx.reals('lo', 3, -2, 2)
    hi = lo + ctx.reals('w', 3, .1, 2)
    P.rect_prism(ax, [lo[0], hi[0]], [lo[1], hi[1]], [lo[2], hi[2]])
    prism_faces(ctx, ax, [[(lo[j], hi[j]) for j in range(3)]])
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def volume(ctx, grid):
    ax = stage(ctx)
    P = ctx.mod('utils.plot_utils')
    boxes = []
    if grid:
        pts, v, r = ctx.reals('p', (2, 2), -2, 2), ctx.reals('v', 2, .1, 2), ctx.real('r', .1, 1)
        P.plot_grid_volume(ax, pts, v, r)
        for i in range(2):
            boxes.append([(pts[i, 0] - r / 2, pts[i, 0] + r / 2), (pts[i, 1] - r / 2, pts[i, 1] + r / 2), (0.0, v[i])])
    else:
        T, lo, hi, m = mk_tree(ctx, 2, 1)
        P.plot_tpyramid_volume(ax, T)
        for n in T.leaves:
            ctx.assume(n.weight[0] > .1)
            b = cell(ctx, n, 2)
            boxes.append(b + [(0.0, n.weight[0] / ((b[0][1] - b[0][0]) * (b[1][1] - b[1][0])))])
    prism_faces(ctx, ax, boxes)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def grid_bars(ctx, n):
    ax = stage(ctx)
    P = ctx.mod('utils.plot_utils')
    pts, v, r = ctx.reals('p', (n, 1), -2, 2), ctx.reals('v', n, 0, 2), ctx.real('r', .1, 1)
    P.plot_grid_area(ax, pts, v, r)
    match(ctx, "one bar of area value per point", rects(ctx, ax), [(pts[i, 0] - r / 2, 0.0, r, v[i] / r) for i in range(n)])
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


# ------------------------------------------------------------------ samplers
def is_curve(ctx, c, f):
    v = [(y, f(x)) for x, y in zip(*c)]
    return all(ctx.near(y, u) for y, u in v) or all(bool(ctx.close(y, u)) for y, u in v)


def curves(ctx, ax, lo, hi, want):
    """every curve with more than a point is one of `want` [(name, f)] and every one of them is shown"""
    seen = set()
    for it in ax.of('plot'):
        c = xy(ctx, it)
        if len(c[0]) < 2:
            continue
        n = len(c[0])
        for i in range(n):
            ctx.check_close("curves run over the domain", c[0][i] * (n - 1), lo[0] * (n - 1) + (hi[0] - lo[0]) * i)
        hit = None
        for k, f in want:
            if all(ctx.near(y, f(x)) for x, y in zip(*c)):
                hit = k
                break
        for k, f in want:
            if hit is None and is_curve(ctx, c, f):
                hit = k
        ctx.check("every curve is one of the densities", hit is not None, "a curve of %d points" % n)
        seen.add(hit)
        for k, f in want:
            if k not in seen and all(ctx.near(y, f(x)) for x, y in zip(*c)):
                seen.add(k)
    missing = [k for k, _ in want if k not in seen]
    ctx.check("every density is drawn", not missing, "missing: %s" % missing)


def one(ctx, q):
    return lambda x: ctx.flat(q.prob(ctx.A([[x]])))[0]


def sampler_1d(ctx, kind, n, fixed=(), **kw):
    ax = stage(ctx)
    lo, hi = ctx.A([0.0]), ctx.A([.035])
    s = mk_sampler(ctx, kind, 1, lo, hi, **kw)
    ctx.fixed_normals = list(fixed)
    t = Target(ctx, 1, lo, hi)
    s.importance_sample(t, n)
    s.draw(ax)
    want = [("proposal %d" % i, (lambda q, w: lambda x: w * one(ctx, q)(x))(q, w)) for i, (q, w) in enumerate(zip(s.model.models, ctx.flat(s.model.weights)))]
    curves(ctx, ax, lo, hi, want + [("q(x)", one(ctx, s))])
    shown = []
    for it in ax.of('vlines'):
        a = list(it.a) + [it.k[x] for x in ('x', 'ymin', 'ymax') if x in it.k]
        x, a0, a1 = [ctx.flat(v) for v in a[:3]]
        for i in range(len(x)):
            shown.append((x[i], a0[i % len(a0)], a1[i % len(a1)]))
    pairs = [(p[0], 0.0, w) for p, w in zip(rows_of(s.samples), ctx.flat(s.weights))]
    for p in pairs:
        ctx.check("every sample is shown with its weight", among(ctx, p, shown), "%s" % (p,))
    for q in shown:
        ctx.check("only samples with their weights are shown", among(ctx, q, pairs), "%s" % (q,))
    ctx.observe("w", s.weights)
    ctx.cover("done")


def tp_1d(ctx, kernel):
    ax = stage(ctx)
    lo, hi = ctx.A([0.0]), ctx.A([.025])
    s = mk_sampler(ctx, 'tp', 1, lo, hi, kernel=kernel)
    t = Target(ctx, 1, lo, hi)
    s.importance_sample(t, 2)
    s.draw(ax)
    want = [("q(x)", one(ctx, s))]
    if kernel == 'normal':
        want += [("leaf %d" % i, (lambda q: lambda x: ctx.flat(q.weight)[0] * one(ctx, q.sampler)(x))(q)) for i, q in enumerate(s.T.leaves)]
    curves(ctx, ax, lo, hi, want)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def points(ctx, ax, d):
    """the single points drawn, as (coordinates, style)"""
    out = []
    for it in ax.of('plot', 'scatter'):
        c = xy(ctx, it)
        if len(c[0]) == 1:
            sty = tuple(sorted((k, str(v)) for k, v in it.k.items() if k != 'label')) + tuple(v for v in it.a if isinstance(v, str))
            out.append(([v[0] for v in c], sty, 'label' in it.k))
    return out


def nested_1d(ctx, kind, n):
    ax = stage(ctx)
    lo, hi = ctx.A([0.0]), ctx.A([.025])
    s = mk_sampler(ctx, kind, 1, lo, hi, N=n)
    m = ctx.mod('distributions').CMultivariateUniform({"center": ctx.A([.0125]), "radius": ctx.A([.0125])})
    s.model = m
    s.draw(ax)
    curves(ctx, ax, lo, hi, [("q(x)", one(ctx, m))])
    live = [r[0] for r in rows_of(s.live_points)]
    pts = [p[0][0] for p in points(ctx, ax, 1)]
    for v in live:
        ctx.check("every live point is shown", among(ctx, [v], [[p] for p in pts]))
    for p in pts:
        ctx.check("only live points are shown", among(ctx, [p], [[v] for v in live]))
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def nested_2d(ctx, kind, n):
    ax = stage(ctx)
    lo, hi = ctx.A([0.0, .5]), ctx.A([.05, .55])
    s = mk_sampler(ctx, kind, 2, lo, hi, N=n)
    t = Target(ctx, 2, lo, hi)
    s.model = t
    s.draw(ax)
    live = rows_of(s.live_points)
    pts = [p[0] for p in points(ctx, ax, 2)]
    for v in live:
        ctx.check("every live point is shown", among(ctx, v, pts))
    for p in pts:
        ctx.check("only live points are shown", among(ctx, p, live))
    all_level_sets(ctx, ax, lambda x, y: t.at([x, y]), lo, hi)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def rejection(ctx, d):
    ax = stage(ctx)
    lo, hi = (ctx.A([0.0]), ctx.A([.025])) if d == 1 else (ctx.A([0.0, .5]), ctx.A([.05, .55]))
    sc = ctx.real('scaling', .1, 9)
    s = mk_sampler(ctx, 'rejection', d, lo, hi, scaling=sc)
    t, q = Target(ctx, d, lo, hi), Target(ctx, d, lo, hi, name='q')
    s.model, s.proposal_dist = t, q
    s.draw(ax)
    if d == 1:
        curves(ctx, ax, lo, hi, [("scaled proposal", lambda x: sc * q.at([x])), ("q(x)", lambda x: t.at([x]))])
    else:
        all_level_sets(ctx, ax, lambda x, y: sc * q.at([x, y]), lo, hi)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def chain(ctx, d, n):
    """the trajectory of the Markov chain: every state is shown where it is, by its kind"""
    ax = stage(ctx)
    lo, hi = (ctx.A([0.0]), ctx.A([.25])) if d == 1 else (ctx.A([0.0] * d), ctx.A([.15] * d))
    s = mk_sampler(ctx, 'mh', d, lo, hi)
    t = Target(ctx, d, lo, hi)
    s.model = t
    tr = ctx.reals('traj', (n, d), 0.0, .15)
    kinds = [ctx.pick('kind%d' % i, 4) for i in range(n)]
    s.trajectory_samples = [tr[i] for i in range(n)]
    codes = [s.BURN_IN, s.REJECT, s.DECORRELATION, s.SAMPLE]
    ctx.check("distinct kinds", len(set(codes)) == 4)
    s.trajectory_types = [codes[k] for k in kinds]
    s.draw(ax)
    pts = [p for p in points(ctx, ax, d) if not p[2]]
    for i in range(n):
        # kept samples need no mark of their own, and rejected ones none in three dimensions
        if kinds[i] == 3 or (d == 3 and kinds[i] == 1):
            continue
        ctx.check("every state of the chain is shown", among(ctx, [tr[i, j] for j in range(d)], [p[0][:d] for p in pts]), "state %d of kind %d" % (i, kinds[i]))
    for p in pts:
        ctx.check("only states of the chain are shown", among(ctx, p[0][:d], rows_of(tr)))
    if d < 3:
        if d == 1:
            prop = s.proposal_d
            c0 = rows_of(tr)[-1][0]
            m0 = ctx.flat(prop.loc)[0]
            curves(ctx, ax, lo, hi, [("q(x)", lambda x: t.at([x])), ("proposal around the last state", lambda x: one(ctx, prop)(x - c0))])
            ctx.check_close("the proposal itself is left alone", ctx.flat(s.proposal_d.loc)[0], m0)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def kinds_differ(ctx, d):
    """burn-in, rejected and intermediate states can be told apart"""
    ax = stage(ctx)
    lo, hi = ctx.A([0.0] * d), ctx.A([.15 if d > 1 else .25] * d)
    s = mk_sampler(ctx, 'mh', d, lo, hi)
    s.model = Target(ctx, d, lo, hi)
    v = ctx.reals('s', (3, d), 0, .15)
    s.trajectory_samples = [v[i] for i in range(3)]
    s.trajectory_types = [s.BURN_IN, s.REJECT, s.DECORRELATION]
    ctx.assume(v[0, 0] < v[1, 0] - .01)
    ctx.assume(v[1, 0] < v[2, 0] - .01)
    s.draw(ax)
    pts = [p for p in points(ctx, ax, d) if not p[2]]
    looks = []
    for i in range(3):
        looks.append({(p[1], repr(p[0][d:])) for p in pts if bool(abs(p[0][0] - v[i, 0]) <= 1e-9)})
    ctx.check("different marks for different kinds", not (looks[0] & looks[1] or looks[0] & looks[2] or looks[1] & looks[2]), "%s" % looks)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


def mixture_2d(ctx, kind, K, fixed, **kw):
    """the proposals of a mixture sampler: a mark at each location, its weighted density, and the density of the mixture"""
    ax = stage(ctx)
    lo, hi = ctx.A([0.0, .5]), ctx.A([.05, .55])
    s = mk_sampler(ctx, kind, 2, lo, hi, **kw)
    qs = [Target(ctx, 2, lo, hi, name='q%d' % i) for i in range(K)]
    for i, q in enumerate(qs):
        q.loc = ctx.reals('loc%d' % i, 2, 0, 1)
    s.proposals = qs
    t = Target(ctx, 2, lo, hi)
    s.model = t
    # an order of heights per density keeps the number of cases small
    s.draw(ax)
    pts = [p[0] for p in points(ctx, ax, 2)]
    for q in qs:
        ctx.check("a mark at every proposal", among(ctx, list(q.loc), pts))
    for p in pts:
        ctx.check("marks only at the proposals", among(ctx, p, [list(q.loc) for q in qs]))
    fs = [(lambda q: lambda x, y: q.at([x, y]) / K)(q) for q in qs] + [lambda x, y: t.at([x, y])]
    seen = []
    for it in ax.of('contour'):
        who = None
        X, Y, Z = it.a[:3]
        for i, f in enumerate(fs):
            if ctx.near(Z[0, 0], f(lo[0], lo[1])):
                who = i
        ctx.check("level sets of one of the densities", who is not None)
        seen.append(who)
        level_sets(ctx, it, fs[who], lo, hi)
    for i, f in enumerate(fs):
        if i not in seen:
            flat_over(ctx, f, lo, hi)
    ctx.observe("n", len(ax.items))
    ctx.cover("done")


# ------------------------------------------------------------------ visual items
def function(ctx, n):
    stage(ctx)
    V = ctx.mod('visualization.visuals')
    lo = ctx.real('lo', -2, 2)
    hi = lo + ctx.real('w', .1, 3)
    t = Target(ctx, 1)
    f = lambda x: ctx.A([t.at([v]) for v in ctx.flat(x)])
    w = ctx.real('weight', 0, 2)
    for it, g in ((V.CFunction(3, f, [lo, hi], n), lambda x: t.at([x])), (V.CTargetDist(4, f, [lo, hi], n), lambda x: t.at([x])),
                  (V.CProposalDist(5, f, [lo, hi], n), lambda x: t.at([x])), (V.CProposalDistComponent(6, f, w, [lo, hi], n), lambda x: w * t.at([x]))):
        ctx.check("resolution", len(it.xs) == n)
        curve_is(ctx, "the item shows its function", (ctx.flat(it.xs), ctx.flat(it.ys)), g, lo, hi)
    ctx.observe("x", it.xs)
    ctx.cover("done")


def axis_item(ctx):
    ax = stage(ctx)
    V = ctx.mod('visualization.visuals')
    M = ctx.mod('visualization.matplotlib.viz_interface')
    L = ctx.real('length', 1, 9)
    vert = ctx.pick('direction', 2)
    st = ctx.reals('start', 3, -2, 2)
    u = [0.0, 0.0, 0.0]
    u[vert] = 1.0
    it = V.CAxis(0, start=st, end=st + ctx.A(u) * L)
    k = len(it.ticks)
    ctx.check("as many sizes and labels as ticks", k == len(it.ticks_size) == len(it.ticks_lbl) and k >= 2)
    for i in range(k):
        ctx.check_close("ticks evenly spread", it.ticks[i] * (k - 1), L * i)
        ctx.check_close("labels tell the position of the tick", ctx.printed(it.ticks_lbl[i]) if ctx.symbolic else float(it.ticks_lbl[i]), it.ticks[i], rel=0, abs_=.1002)
    M.draw_sequence([it])
    lines = []
    for a in ax.of('line', 'plot'):
        lines.append(xy(ctx, a))
    ctx.check("the axis and its ticks", len(lines) == k + 1, "%d lines" % len(lines))
    main, ticks = lines[0], lines[1:]
    for j in range(2):
        ctx.check_close("the axis starts", main[j][0], st[j])
        ctx.check_close("the axis ends", main[j][1], st[j] + u[j] * L)
    for i, c in enumerate(ticks):
        o = 1 - vert
        for e in range(2):
            ctx.check_close("a tick is across its value", c[vert][e], st[vert] + it.ticks[i])
        ctx.check_close("and centred", (c[o][0] + c[o][1]) / 2, st[o])
        ctx.check_close("with its size", (c[o][1] - c[o][0]) ** 2, 4 * it.ticks_size[i] ** 2)
    labels = ax.of('text')
    ctx.check("all labels", len(labels) == k)
    for i, a in enumerate(labels):
        ctx.check_close("a label is beside its tick", a.a[vert], st[vert] + it.ticks[i])
        ctx.check("and not far from it", (a.a[1 - vert] - st[1 - vert]) ** 2 <= 100 * it.ticks_size[i] ** 2)
        ctx.check_close("and says its value", a.a[2] == it.ticks_lbl[i], True)
    ctx.observe("t", it.ticks)
    ctx.cover("done")


def sequence(ctx, kinds, frames=False):
    """after a sequence exactly the last item of every identifier is visible"""
    ax = stage(ctx)
    V = ctx.mod('visualization.visuals')
    M = ctx.mod('visualization.matplotlib.viz_interface')
    items, n = [], len(kinds)
    for i, k in enumerate(kinds):
        idn = ctx.pick('id%d' % i, min(i + 1, 3))
        if k == 'f':
            a = ctx.real('a%d' % i, -2, 2)
            it = V.CFunction(idn, (lambda a: lambda x: x * a)(a), [0, 1], 3)
        elif k == 'x':
            it = V.CAxis(idn, start=ctx.A([0.0, 0.0, 0.0]), end=ctx.A([1.0 + i, 0.0, 0.0]))
        else:
            p = ctx.reals('p%d' % i, 3, -2, 2)
            it = {'p': V.CProposedSample, 'a': V.CAcceptedSample, 'r': V.CRejectedSample}[k](idn, p) if k != 'w' else V.CImportanceSample(idn, p, .3)
        items.append((k, it))
    seqs = [[it for _, it in items]]
    if frames:
        M.draw_frames([[items[-1][1]], [it for _, it in items[1:-1]]], [items[0][1]])
        items = [items[0]] + items[1:-1]
        last = {(0, items[0][1].id): items[0]}
        for k, it in items[1:]:
            last[(1, it.id)] = (k, it)
    else:
        M.draw_sequence(seqs[0])
        last = {}
        for k, it in items:
            last[it.id] = (k, it)
    pts = [xy(ctx, a) for a in ax.of('scatter')]
    pts = [[c[0][0], c[1][0]] for c in pts]
    want = [[it.pos[0], it.pos[1]] for k, it in last.values() if k in 'parw']
    match(ctx, "the points shown", pts, want)
    fun = [[z for v in xy(ctx, a) for z in v] for a in ax.of('plot')]
    match(ctx, "the functions shown", fun, [ctx.flat(it.xs) + ctx.flat(it.ys) for k, it in last.values() if k == 'f'])
    axes = [it for k, it in last.values() if k == 'x']
    ctx.check("the axes shown", len(ax.of('line')) == 11 * len(axes) and len(ax.of('text')) == 10 * len(axes), "%d lines of %d axes" % (len(ax.of('line')), len(axes)))
    ctx.observe("n", len(pts))
    ctx.cover("done")


N = ("done",)
DM = dict(K=2, N=1, J=1000, sigma=.01)
CASES = [
    Case("curve n=2", curve, dict(w=(.21, .29), res=.1, n=(2, 3)), need=N),
    Case("curve n=3", curve, dict(w=(.31, .39), res=.1, n=(3, 4)), need=N),
    Case("level sets 2x2", contour, dict(w=(.22, .22), res=.1), need=N),
    Case("level sets 2x3", contour, dict(w=(.22, .32), res=.1), need=N),
    Case("level sets flat", contour, dict(w=(.22, .32), res=.1, flat=True), need=("flat",)),
    Case("density d=1", dist_draw, dict(d=1), need=N),
    Case("density d=2", dist_draw, dict(d=2), need=N),
    Case("delta d=1", delta_draw, dict(d=1), need=N),
    Case("delta d=2", delta_draw, dict(d=2), need=N),
    Case("noisy function band", band, dict(who='noisy', n=2), need=N),
    Case("abc band", band, dict(who='abc', n=4, label='x'), need=N),
    Case("abc band flat", band, dict(who='abc', n=2, flat=True), need=N),
    Case("tree area", tree_bars, dict(depth=2, what='area'), need=N),
    Case("tree weights", tree_bars, dict(depth=2, what='weights'), need=N),
    Case("tree cells d=2", tree_cells, dict(d=2, depth=2), need=N),
    Case("tree cells d=3", tree_cells, dict(d=3, depth=1), need=N),
    Case("hidaisee cells", hd_cells, dict(n=2), need=N),
    Case("prism", prism, need=N),
    Case("tree volume", volume, dict(grid=False), need=N),
    Case("grid volume", volume, dict(grid=True), need=N),
    Case("grid area", grid_bars, dict(n=3), need=N),
    Case("dm d=1", sampler_1d, dict(kind='dm', n=2, fixed=(.3, -.4), **DM), need=N),
    Case("lais d=1", sampler_1d, dict(kind='lais', n=2, fixed=(.3, -.4, .2, .1, .5), K=1, N=1, J=1000, L=1, sigma=.01, mh_sigma=.01), need=N),
    Case("mpmc d=1", sampler_1d, dict(kind='mpmc', n=2, fixed=(.01, .02), K=2, N=1, J=1000, sigma=.0001), need=N),
    Case("tp haar d=1", tp_1d, dict(kernel='haar'), need=N),
    Case("tp normal d=1", tp_1d, dict(kernel='normal'), need=N),
    Case("nested d=1", nested_1d, dict(kind='nested', n=2), need=N),
    Case("nested d=2", nested_2d, dict(kind='nested', n=2), need=N),
    Case("multi nested d=1", nested_1d, dict(kind='multinested', n=2), need=N),
    Case("multi nested d=2", nested_2d, dict(kind='multinested', n=2), need=N),
    Case("rejection d=1", rejection, dict(d=1), need=N),
    Case("rejection d=2", rejection, dict(d=2), need=N),
    Case("chain d=1", chain, dict(d=1, n=2), need=N),
    Case("chain d=3", chain, dict(d=3, n=2), need=N),
    Case("chain kinds d=1", kinds_differ, dict(d=1), need=N),
    Case("mixture d=2", mixture_2d, dict(kind='dm', K=1, fixed=()), need=N),
    Case("functions", function, dict(n=3), need=N),
    Case("axis", axis_item, need=N),
    Case("sequence points", sequence, dict(kinds='parw'), need=N),
    Case("sequence mixed", sequence, dict(kinds='fpfp'), need=N),
    Case("sequence axes", sequence, dict(kinds='xxp'), need=N),
    Case("frames", sequence, dict(kinds='pfpw', frames=True), need=N),
    T("level sets 3x3", contour, dict(w=(.32, .32), res=.1)),
    T("tree cells d=2 deep", tree_cells, dict(d=2, depth=3)),
    T("hidaisee cells 4", hd_cells, dict(n=4)),
    T("sequence long", sequence, dict(kinds='xfparw')),
    T("chain d=1 long", chain, dict(d=1, n=4)),
]
