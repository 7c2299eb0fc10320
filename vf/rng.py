"""np.random as a source of unconstrained values: every draw is a solver variable (or a replayed number)."""
import types
import numpy as np


def _size(size, *arrs):
    if size is None:
        shp = np.broadcast_shapes(*[getattr(a, 'shape', ()) if not isinstance(a, (list, tuple)) else np.shape(a)
                                    for a in arrs]) if arrs else ()
        return shp
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    if hasattr(size, 'shape') and getattr(size, 'shape', ()) != ():
        return tuple(int(s) for s in size)
    return (int(size),)


class Draw:
    __slots__ = ('kind', 'value', 'args')

    def __init__(self, kind, value, **args):
        self.kind, self.value, self.args = kind, value, args

    def __repr__(self):
        return "Draw(%s, %r, %r)" % (self.kind, self.value, self.args)


class Rng(types.ModuleType):
    """Stands for numpy.random. `ctx` supplies the values."""

    def __init__(self, get_ctx):
        super().__init__('numpy.random')
        self.__dict__['_ctx'] = get_ctx

    # ---- state kept in the ctx (per path)
    @property
    def _c(self):
        return self._ctx()

    def seed(self, s=None):
        c = self._c
        c.rng_seeds.append(s)
        c.rng_count = 0
        c.rng_epoch = s

    def get_state(self, *a, **k):
        c = self._c
        return ('vf', c.rng_count, c.rng_epoch)

    def set_state(self, st):
        c = self._c
        c.rng_count, c.rng_epoch = st[1], st[2]

    def _call(self, kind):
        c = self._c
        n = c.rng_count
        c.rng_count += 1
        c.rng_total += 1
        if c.rng_limit is not None and c.rng_total > c.rng_limit:
            c.cut("draws")
        return "%s%s#%d" % (c.rng_prefix if c.rng_epoch is None else "s%s." % c.rng_epoch, kind, n)

    def _fill(self, shape, f):
        """array (or scalar) of f(index-suffix)"""
        c = self._c
        if shape == ():
            return f('')
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = f("[%s]" % ",".join(map(str, ix)))
        return c.arr(out)

    def _u(self, kind, shape):
        c = self._c
        nm = self._call(kind)
        return self._fill(shape, lambda s: c.rvar(nm + s, 0, 1, False, True, c.uhint))

    def _rec(self, kind, value, **args):
        self._c.draws.append(Draw(kind, value, **args))
        return value

    # ---- continuous
    def uniform(self, low=0.0, high=1.0, size=None):
        c = self._c
        low, high = c.num(low), c.num(high)
        shape = _size(size, low, high)
        u = self._u('u', shape)
        v = low + (high - low) * u
        if getattr(v, 'shape', ()) != shape:
            raise ValueError("shape mismatch: objects cannot be broadcast to a single shape")
        return self._rec('uniform', v, low=low, high=high, u=u)

    def rand(self, *d):
        u = self._u('u', tuple(int(x) for x in d))
        return self._rec('uniform', u, low=0.0, high=1.0, u=u)

    def random(self, size=None):
        u = self._u('u', _size(size))
        return self._rec('uniform', u, low=0.0, high=1.0, u=u)

    random_sample = ranf = sample = random

    def _z(self, shape):
        c = self._c
        if c.probe is not None:
            return self._fill(shape, lambda s: c.probe())
        nm = self._call('z')
        return self._fill(shape, lambda s: c.rvar(nm + s, None, None, False, False, (-2.5, 2.5)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        c = self._c
        loc, scale = c.num(loc), c.num(scale)
        z = self._z(_size(size, loc, scale))
        return self._rec('normal', loc + scale * z, loc=loc, scale=scale, z=z)

    def randn(self, *d):
        return self.normal(size=tuple(int(x) for x in d) if d else None)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8):
        c = self._c
        mean, cov = c.num(mean), c.num(cov)
        if getattr(mean, 'ndim', 0) != 1:
            raise ValueError("mean must be 1 dimensional")
        if getattr(cov, 'ndim', 0) != 2 or cov.shape[0] != cov.shape[1]:
            raise ValueError("cov must be 2 dimensional and square")
        if cov.shape[0] != mean.shape[0]:
            raise ValueError("mean and cov must have same length")
        d = mean.shape[0]
        shape = _size(size) + (d,)
        nm = self._call('mvn')
        hint = c.mvn_hint
        x = self._fill(shape, lambda s: c.rvar(nm + s, None, None, False, False, hint))
        return self._rec('mvn', x, mean=mean, cov=cov, size=size)

    def exponential(self, scale=1.0, size=None):
        c = self._c
        scale = c.num(scale)
        nm = self._call('e')
        e = self._fill(_size(size, scale), lambda s: c.rvar(nm + s, 0, None, False, False, (0, 4)))
        return self._rec('exponential', scale * e, scale=scale, e=e)

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        c = self._c
        loc, scale = c.num(loc), c.num(scale)
        z = self._z(_size(size, loc, scale))
        return self._rec('laplace', loc + scale * z, loc=loc, scale=scale, z=z)

    # ---- discrete
    def _check_p(self, p):
        c = self._c
        p = c.num(p)
        if getattr(p, 'ndim', 0) != 1:
            raise ValueError("pvals must be a 1-d sequence")
        n = len(p)
        tot = 0.0
        for i in range(n):
            x = p[i]
            if bool(x != x) or bool(x < 0):
                raise ValueError("pvals < 0, pvals > 1 or pvals contains NaNs")
            if i < n - 1:
                tot = tot + x
        if bool(tot > 1.0 + 1e-9):
            raise ValueError("sum(pvals[:-1]) > 1.0")
        return p, tot

    def _pick(self, nm, p, tot, first=0):
        """an index with positive probability"""
        c = self._c
        n = len(p)
        i = c.pick(nm, n) if n > 1 else 0
        if i < first:
            c.infeasible()
        # the last category takes whatever probability is left
        w = p[i] if i < n - 1 else 1.0 - tot
        c.assume(w > (0 if not c.symbolic else 1e-9))
        return i

    def multinomial(self, n, pvals, size=None):
        c = self._c
        n = int(n)
        p, tot = self._check_p(pvals)
        nm = self._call('m')
        shape = () if size is None else _size(size)

        def one(s):
            r = np.zeros(len(p), dtype=int)
            last = 0
            for k in range(n):
                last = self._pick("%s%s.%d" % (nm, s, k), p, tot, last)
                r[last] += 1
            return r
        if shape == ():
            out = one('')
        else:
            out = np.empty(shape + (len(p),), dtype=int)
            for ix in np.ndindex(*shape):
                out[ix] = one("[%s]" % ",".join(map(str, ix)))
        return self._rec('multinomial', c.iarr(out), n=n, p=p, size=size)

    def choice(self, a, size=None, replace=True, p=None):
        c = self._c
        if isinstance(a, (int, np.integer)):
            opts = c.iarr(np.arange(int(a)))
        else:
            opts = a if hasattr(a, 'shape') else c.num(a)
        n = len(opts)
        if n == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            pp, tot = self._check_p(p)
            if len(pp) != n:
                raise ValueError("'a' and 'p' must have same size")
            s = tot + pp[n - 1]
            if bool(s > 1 + 1e-7) or bool(s < 1 - 1e-7):
                raise ValueError("probabilities do not sum to 1")
        nm = self._call('c')
        shape = () if size is None else _size(size)
        used = []
        idx = np.zeros(shape, dtype=int)
        for k, ix in enumerate(np.ndindex(*shape)):
            i = self._pick("%s.%d" % (nm, k), pp, tot) if p is not None else (c.pick("%s.%d" % (nm, k), n) if n > 1 else 0)
            if not replace:
                if i in used:
                    c.infeasible()
                used.append(i)
            idx[ix] = i
        r = opts[int(idx)] if shape == () else opts[idx]
        return self._rec('choice', r, n=n, p=p, size=size, idx=idx)

    def randint(self, low, high=None, size=None, dtype=int):
        c = self._c
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError("low >= high")
        nm = self._call('i')
        shape = () if size is None else _size(size)
        out = np.zeros(shape, dtype=int)
        for ix in np.ndindex(*shape):
            out[ix] = low + (c.pick("%s[%s]" % (nm, ",".join(map(str, ix))), high - low) if high - low > 1 else 0)
        r = int(out) if shape == () else c.iarr(out)
        return self._rec('randint', r, low=low, high=high, size=size)

    integers = randint

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, int(high) + 1, size)

    def permutation(self, x):
        c = self._c
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        nm = self._call('p')
        left = list(range(n))
        perm = []
        for k in range(n):
            perm.append(left.pop(c.pick("%s.%d" % (nm, k), len(left)) if len(left) > 1 else 0))
        self._rec('permutation', perm, n=n)
        if isinstance(x, (int, np.integer)):
            return c.iarr(np.array(perm))
        return (x if hasattr(x, 'shape') else c.num(x))[np.array(perm)]

    def shuffle(self, x):
        y = self.permutation(x)
        for i in range(len(x)):
            x[i] = y[i]

    def default_rng(self, seed=None):
        return self

    def RandomState(self, seed=None):
        return self

    Generator = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(np.random, n):
            raise AttributeError("module 'numpy.random' has no attribute %r" % n)
        from vf.sym import Unsupported
        raise Unsupported("numpy.random.%s" % n)
