"""Shared building blocks of the harnesses."""
import math
import numpy as rnp


def spd(ctx, name, d, kind='full'):
    """a symbolic symmetric positive definite d x d matrix"""
    if kind == 'diag' or d == 1:
        v = ctx.reals(name, d, 0, 5, lo_open=True, hint=(0.05, 4))
        m = [[v[i] if i == j else 0.0 for j in range(d)] for i in range(d)]
        return ctx.A(m)
    if d == 2:
        a = ctx.real(name + '.a', 0, 5, lo_open=True, hint=(0.2, 4))
        c = ctx.real(name + '.c', 0, 5, lo_open=True, hint=(0.2, 4))
        b = ctx.real(name + '.b', -5, 5, hint=(-.9, .9))
        ctx.assume(a * c - b * b > (0.001 if ctx.symbolic else 0.0005))
        return ctx.A([[a, b], [b, c]])
    raise ValueError(d)


def inv_det(ctx, m):
    """(inverse, determinant) of a small matrix by cofactors, independent of the code under test"""
    d = len(m)
    if d == 1:
        return [[1 / m[0][0]]], m[0][0]
    if d == 2:
        det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
        return [[m[1][1] / det, -m[0][1] / det], [-m[1][0] / det, m[0][0] / det]], det
    det = 1.0
    for i in range(d):
        det = det * m[i][i]
    return [[1 / m[i][i] if i == j else 0.0 for j in range(d)] for i in range(d)], det


def normal_logpdf(ctx, x, mean, cov):
    np = ctx.np
    d = len(mean)
    inv, det = inv_det(ctx, cov)
    q = 0.0
    for i in range(d):
        for j in range(d):
            q = q + (x[i] - mean[i]) * inv[i][j] * (x[j] - mean[j])
    return -0.5 * d * math.log(2 * math.pi) - 0.5 * np.log(det) - 0.5 * q


def normal_pdf(ctx, x, mean, cov):
    return ctx.np.exp(normal_logpdf(ctx, x, mean, cov))


def inside(x, lo, hi):
    """strictly inside / outside a closed box, or None on its boundary (decided by the solver)"""
    for j in range(len(lo)):
        if bool(x[j] < lo[j]) or bool(x[j] > hi[j]):
            return False
    for j in range(len(lo)):
        if bool(x[j] == lo[j]) or bool(x[j] == hi[j]):
            return None
    return True


def prod(xs):
    r = 1.0
    for x in xs:
        r = r * x
    return r


def total(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


# ------------------------------------------------------------------ distribution zoo
def mk_normal(ctx, d, kind='full', n='N'):
    D = ctx.mod('distributions')
    mean = ctx.reals(n + '.mean', d, -4, 4)
    cov = spd(ctx, n + '.cov', d, kind)
    return D.CMultivariateNormal({"mean": mean, "sigma": cov}), mean, cov


def mk_uniform(ctx, d, scalar=False, n='U'):
    D = ctx.mod('distributions')
    c = ctx.reals(n + '.c', d, -5, 5)
    r = ctx.reals(n + '.r', 1 if scalar else d, 0, 5, lo_open=True, hint=(0.1, 4))
    return D.CMultivariateUniform({"center": c, "radius": r}), c, [r[0] if scalar else r[j] for j in range(d)]


def mk_exp(ctx, d, n='X'):
    D = ctx.mod('distributions')
    m = ctx.reals(n + '.mean', d, 0, 5, lo_open=True, hint=(0.1, 4))
    return D.CMultivariateExponential({"mean": m}), m


def mk_mixture(ctx, d, k, n='M', wmin_open=True, kind='diag'):
    D = ctx.mod('distributions')
    comps = []
    for i in range(k):
        comps.append(mk_normal(ctx, d, kind, "%s.%d" % (n, i)))
    w = ctx.reals(n + '.w', k, 0, 5, lo_open=wmin_open, hint=(.05, 2))
    m = D.CMixtureModel({"models": [c[0] for c in comps], "weights": w, "dims": d,
                         "support": [ctx.A([-9.] * d), ctx.A([9.] * d)]})
    return m, comps, w


# ------------------------------------------------------------------ an arbitrary target density
class Target:
    """A target distribution that is any function of the point: a fresh value per distinct point, the same value again for the
    same point. Records what it was asked. `zeros` lets densities be zero, `two_d` rejects anything but N x D batches."""

    def __init__(self, ctx, d, lo=None, hi=None, name='pi', zeros=False, two_d=False, top=5.0, value=None):
        self.ctx, self.dims, self.name = ctx, d, name
        self.lo, self.hi = lo, hi
        self.zeros, self.two_d, self.top = zeros, two_d, top
        self.value = value
        self.vals = {}
        self.points = []          # every evaluated point, in order
        self.batches = []         # shapes as passed
        self.distinct = []
        self.type = 'stub'
        self.on_rows = None       # called with every point seen so far (to assume general position)

    def _key(self, pt):
        k = []
        for v in pt:
            if self.ctx.is_sym(v):
                k.append(tuple(sorted(v.p.items())))
            else:
                k.append(round(float(v), 9))
        return tuple(k)

    def at(self, pt):
        """the density at a point (list of d values)"""
        pt = list(pt)
        if self.value is not None:
            return self.value(pt)
        k = self._key(pt)
        if k not in self.vals:
            if self.ctx.symbolic:
                for q in self.distinct:
                    self.ctx.prefer(total([(a - b) * (a - b) for a, b in zip(pt, q)]) > 1e-4)
                self.distinct.append(pt)
            self.vals[k] = self.ctx.real("%s.p%d" % (self.name, len(self.vals)), 0, self.top, lo_open=not self.zeros, hint=(.05, 2))
        return self.vals[k]

    def _rows(self, x):
        self.batches.append(tuple(x.shape))
        if len(x.shape) == 1 and not self.two_d:
            if len(x) != self.dims:
                raise ValueError("cannot reshape array of size %d into shape (1,%d)" % (len(x), self.dims))
            rows = [[x[j] for j in range(self.dims)]]
        else:
            if len(x.shape) != 2 or x.shape[1] != self.dims:
                raise ValueError("Shape of x does not match: %s" % (x.shape,))
            rows = [[x[i, j] for j in range(self.dims)] for i in range(x.shape[0])]
        self.points += rows
        if self.on_rows is not None:
            self.on_rows(self.points)
        return rows

    def prob(self, x):
        return self.ctx.A([self.at(r) for r in self._rows(x)])

    def log_prob(self, x):
        return self.ctx.np.log(self.ctx.A([self.at(r) for r in self._rows(x)]))

    def support(self):
        return self.ctx.A([self.lo, self.hi])

    @property
    def evals(self):
        return len(self.points)


class Deep(Target):
    """a target whose densities are far below the smallest double: log density = a common offset near -1000 plus log of an
    arbitrary value, while the density itself is 0 in floating point"""
    offset = None

    def prob(self, x):
        return self.ctx.A([0.0 for _ in self._rows(x)])

    def log_prob(self, x):
        return super().log_prob(x) + self.offset


def rows_of(x):
    return [[x[i, j] for j in range(x.shape[1])] for i in range(x.shape[0])]


def domain(ctx, d, sym=True, cube=False):
    """(space_min, space_max) arrays"""
    if not sym:
        return ctx.A([-1.0] * d), ctx.A([1.0] * d) if cube else ctx.A([1.0 + .5 * j for j in range(d)])
    lo = ctx.reals('dom.lo', d, -4, 1)
    if cube:
        w = ctx.real('dom.w', 0.1, 6, hint=(.5, 4))
        return lo, lo + w
    return lo, lo + ctx.reals('dom.w', d, 0.1, 6, hint=(.5, 4))


UNIFORM_PROPOSAL = 'CMultivariateUniform({"center": (self.space_max+self.space_min)/2, "radius": (self.space_max-self.space_min)/2})'
NORMAL_STEP = 'CMultivariateNormal({"mean": np.zeros(self.ndims), "sigma": np.diag(np.ones(self.ndims) * 0.01)})'


def mk_sampler(ctx, kind, d, lo, hi, **over):
    M = ctx.mod('sampling_methods')
    p = {"space_min": lo, "space_max": hi, "dims": d}
    cls, dflt = {
        'dm': ('CDeterministicMixtureAIS', dict(K=2, N=2, J=1000, sigma=.5)),
        'lais': ('CLayeredAIS', dict(K=1, N=2, J=1000, L=1, sigma=.5, mh_sigma=.5)),
        'mpmc': ('CMixturePMC', dict(K=2, N=2, J=1000, sigma=.01)),
        'rejection': ('CRejectionSampling', dict(scaling=1, proposal=UNIFORM_PROPOSAL, kde_bw=.01, n_samples_kde=2)),
        'mh': ('CMetropolisHastings', dict(n_burnin=1, n_steps=1, proposal_sigma=.5, kde_bw=.02, n_samples_kde=2)),
        'nested': ('CNestedSampling', dict(proposal=NORMAL_STEP, N=2, kde_bw=.01, n_samples_kde=2)),
        'multinested': ('CMultiNestedSampling', dict(proposal=NORMAL_STEP, N=2, converged_radius=.01, kde_bw=.1, n_samples_kde=2, inflate_factor=1.1)),
        'hidaisee': ('CHiDaiseeSampling', dict(target_ess=.9, n_min=2, tau=.01)),
        'tp': ('CTreePyramidSampling', dict(method='simple', resampling='none', kernel='haar', ess_target=2.0, n_min=1, parallel_samples=2)),
    }[kind]
    p.update(dflt)
    p.update(over)
    return getattr(M, cls)(p)


# ------------------------------------------------------------------ sampler helpers
def key(ctx, pt):
    """canonical form of a point, for multiset comparisons of symbolic values"""
    k = []
    for v in pt:
        if ctx.is_sym(v):
            k.append(tuple(sorted(v.p.items())))
        else:
            k.append((round(float(v), 9),))
    return tuple(k)


def same_multiset(ctx, label, a, b, detail=''):
    ka, kb = sorted(map(repr, (key(ctx, r) for r in a))), sorted(map(repr, (key(ctx, r) for r in b)))
    ctx.check(label, ka == kb, "%s: %s vs %s" % (detail, ka[:6], kb[:6]))


def drawn(ctx, kind):
    """(mean/args, value row) pairs of every draw of `kind`, one per produced row"""
    out = []
    for dr in ctx.draws:
        if dr.kind != kind:
            continue
        v = dr.value
        if kind == 'mvn':
            d = len(dr.args['mean'])
            for r in rows_of(v.reshape(-1, d)):
                out.append((dr, r))
        else:
            for x in ctx.flat(v):
                out.append((dr, x))
    return out


def selections(ctx):
    """(probabilities, index) of every categorical selection with explicit probabilities, in order"""
    out = []
    for dr in ctx.draws:
        if dr.kind == 'multinomial':
            k = len(dr.args['p'])
            for row in ctx.flat_rows(dr.value, k):
                for i in range(k):
                    out += [(dr.args['p'], i)] * int(row[i])
        elif dr.kind == 'choice' and dr.args['p'] is not None:
            for i in ctx.flat(dr.args['idx']):
                out.append((dr.args['p'], int(i)))
    return out


def uniforms01(ctx):
    """every draw of a plain U[0,1) variable, in order (as the unit value)"""
    return [u for dr in ctx.draws if dr.kind == 'uniform' for u in ctx.flat(dr.args['u'])]


def spread(ctx, ms, lo, hi):
    """every coordinate of every proposal is spread linearly over the domain by a uniform draw of its own"""
    us = uniforms01(ctx)
    for m in ms:
        for j in range(len(m)):
            k = next((k for k, u in enumerate(us) if ctx.near(m[j], lo[j] + u * (hi[j] - lo[j]))), None)
            ctx.check("initial proposals uniform over the domain", k is not None, "coordinate %d" % j)
            if k is not None:
                us.pop(k)


def mixture_pdf(ctx, x, means, var, weights=None):
    """density of a mixture of isotropic normals"""
    n = len(means)
    d = len(means[0])
    t = 0.0
    for i, m in enumerate(means):
        cov = [[var if a == b else 0.0 for b in range(d)] for a in range(d)]
        t = t + (1.0 / n if weights is None else weights[i]) * normal_pdf(ctx, x, m, cov)
    return t


def locs(sampler):
    return [[v for v in q.loc.reshape(-1)] for q in sampler.proposals]


def check_normalised(ctx, label, w, raw):
    """w_i = raw_i / sum(raw)"""
    s = total(raw)
    ctx.check(label + ".count", len(w) == len(raw), "%d weights for %d raw" % (len(w), len(raw)))
    for i in range(len(raw)):
        ctx.check_close(label, w[i] * s, raw[i], detail="weight %d" % i)
