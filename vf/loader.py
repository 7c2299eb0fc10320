"""Loads /repo's current source, per path, with numpy / randomness / clock replaced by the engine's."""
import ast
import builtins
import math
import os
import sys
import types
import importlib
import numpy as np
from vf import sym, symnp
from vf.sym import S, B, Unsupported

REPO = os.environ.get('VF_REPO', '/repo')
PKG = 'ais_benchmarks'

_code = {}


class _Mod(ast.NodeTransformer):
    """a % b  ->  __symmod__(a, b): string formatting with symbolic operands"""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__symmod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            v = ast.Call(ast.Name('__symmod__', ast.Load()), [ast.Name(node.target.id, ast.Load()), node.value], [])
            return ast.copy_location(ast.Assign([node.target], v), node)
        return node


def compiled(path, symbolic):
    key = (path, symbolic)
    c = _code.get(key)
    if c is None:
        with open(path, encoding='utf8') as f:
            src = f.read()
        if symbolic:
            t = _Mod().visit(ast.parse(src, path))
            ast.fix_missing_locations(t)
            c = compile(t, path, 'exec', dont_inherit=True)
        else:
            c = compile(src, path, 'exec', dont_inherit=True)
        _code[key] = c
    return c


def locate(name):
    base = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(base):
        p = os.path.join(base, '__init__.py')
        return (p if os.path.exists(p) else None), True, base
    if os.path.exists(base + '.py'):
        return base + '.py', False, base
    return None, None, None


# ------------------------------------------------------------------ stubs
class Dummy(types.ModuleType):
    """matplotlib & co: accepts anything, does nothing"""

    def __init__(self, name='dummy'):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if n in ('cm', 'pyplot', 'patches', 'lines'):
            return Dummy(n)
        return DummyObj(n)


class DummyObj:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return DummyObj()

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return DummyObj()

    def __getitem__(self, k):
        return DummyObj()

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __add__(self, o):
        return self
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __add__


class Clock(types.ModuleType):
    """time / timeit: reads the ctx's clock"""

    def __init__(self, name, get_ctx):
        super().__init__(name)
        self.__dict__['_ctx'] = get_ctx

    def time(self):
        return self._ctx().clock_read()

    monotonic = perf_counter = process_time = default_timer = time

    def time_ns(self):
        return int(self.time() * 1e9)

    def sleep(self, d):
        self._ctx().clock_sleep(d)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        import time
        return getattr(time, n)


class _MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        def one(f, g):
            def h(x):
                return g(x) if isinstance(x, S) else f(x)
            return h
        self.exp = one(math.exp, sym.s_exp)
        self.sqrt = one(math.sqrt, sym.s_sqrt)
        self.fabs = one(math.fabs, sym.s_abs)
        self.sin = one(math.sin, lambda x: sym.s_func('sin', x))
        self.cos = one(math.cos, lambda x: sym.s_func('cos', x))
        self.floor = one(math.floor, lambda x: int(sym.s_floor(x)))
        self.ceil = one(math.ceil, lambda x: -int(sym.s_floor(-x)))
        self.trunc = one(math.trunc, int)
        self.isnan = one(math.isnan, lambda x: False)
        self.isinf = one(math.isinf, lambda x: False)
        self.isfinite = one(math.isfinite, lambda x: True)
        self.log2 = one(math.log2, symnp.UFS['log2'])
        self.log10 = one(math.log10, symnp.UFS['log10'])

        def log(x, b=None):
            if isinstance(x, S):
                r = sym.s_log(x)
                return r if b is None else r / math.log(b)
            return math.log(x) if b is None else math.log(x, b)
        self.log = log

        def fsum(xs):
            xs = list(xs)
            return builtins.sum(xs) if any(isinstance(x, S) for x in xs) else math.fsum(xs)
        self.fsum = fsum

        def prod(xs, start=1):
            for x in xs:
                start = start * x
            return start
        self.prod = prod

        def pw(a, b):
            return a ** b if isinstance(a, S) or isinstance(b, S) else math.pow(a, b)
        self.pow = pw

        def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
            if isinstance(a, S) or isinstance(b, S):
                return abs(a - b) <= rel_tol * abs(b) + abs_tol
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        self.isclose = isclose
        self.inf, self.nan, self.pi, self.e = math.inf, math.nan, math.pi, math.e

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(math, n)

        def g(*a):
            if any(isinstance(x, S) for x in a):
                raise Unsupported("math.%s" % n)
            return v(*a)
        return g if callable(v) else v


def s_logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if return_sign:
        raise Unsupported("logsumexp return_sign")
    a = symnp.asarray(a)
    m = None
    if sym.ENG.cur is not None and sym.ENG.cur.under:
        # as scipy does: shifted by the largest term, so that nothing under- or overflows
        m = symnp.reduce_('maximum', a, axis, True)
        m = symnp.h_where(symnp.isfinite(m), m, 0.0)
        a = a - m
    e = symnp.exp(a)
    if b is not None:
        e = e * b
    if m is not None:
        s = symnp.log(symnp.reduce_('add', e, axis, True)) + m
        return s if keepdims else symnp.reduce_('add', s, axis, False)
    return symnp.log(symnp.reduce_('add', e, axis, keepdims))


def s_gamma(x):
    if isinstance(x, S) or (isinstance(x, np.ndarray) and x.dtype == object):
        raise Unsupported("gamma")
    from scipy.special import gamma
    return gamma(x)


class _Special(types.ModuleType):
    logsumexp = staticmethod(s_logsumexp)
    gamma = staticmethod(s_gamma)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        import scipy.special
        v = getattr(scipy.special, n)

        def g(*a, **k):
            if any(isinstance(x, S) or (isinstance(x, np.ndarray) and x.dtype == object) for x in a):
                raise Unsupported("scipy.special.%s" % n)
            return v(*a, **k)
        return g


class _Heap(types.ModuleType):
    """guppy"""

    def __init__(self, get_ctx):
        super().__init__('guppy')

        class H:
            def heap(self):
                class R:
                    pass
                r = R()
                r.size = get_ctx().heap_size()
                return r

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return lambda *a, **k: None
        self.hpy = H


class _Cluster(types.ModuleType):
    def __init__(self, get_ctx):
        super().__init__('sklearn.cluster')

        class KMeans:
            """arbitrary labelling with no empty cluster"""

            def __init__(self, n_clusters=8, **k):
                self.n_clusters = int(n_clusters)

            def fit(self, X, y=None, **k):
                c = get_ctx()
                n = len(X)
                if n < self.n_clusters:
                    raise ValueError("n_samples=%d should be >= n_clusters=%d." % (n, self.n_clusters))
                c.kmeans_count += 1
                if c.kmeans_runs:
                    # consecutive points share a cluster: where the runs end is arbitrary
                    lab = [0]
                    for i in range(1, n):
                        left = self.n_clusters - 1 - lab[-1]
                        lab.append(lab[-1] + (c.pick("kmeans#%d[%d]" % (c.kmeans_count, i), 2) if left and n - i > left else min(left, 1)))
                else:
                    lab = [c.pick("kmeans#%d[%d]" % (c.kmeans_count, i), self.n_clusters)
                           if self.n_clusters > 1 else 0 for i in range(n)]
                if len(set(lab)) < self.n_clusters:
                    c.infeasible()
                c.kmeans.append((self.n_clusters, list(lab)))
                self.labels_ = c.iarr(np.array(lab))
                return self

            def fit_predict(self, X, y=None):
                return self.fit(X).labels_

            def predict(self, X):
                raise Unsupported("KMeans.predict")
        self.KMeans = KMeans


class _NpProxy(types.ModuleType):
    """real numpy with the engine's random source (concrete replay)"""

    def __init__(self, rng):
        super().__init__('numpy')
        self.random = rng

    def __getattr__(self, n):
        return getattr(np, n)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, S))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or c is S


class FloatShim(metaclass=_FloatMeta):
    _vf_float = True

    def __new__(cls, x=0.0):
        if isinstance(x, S):
            return x
        if isinstance(x, B):
            return np.float64(int(x))
        if isinstance(x, np.ndarray):
            if x.size == 1:
                y = x.reshape(-1)[0]
                return y if isinstance(y, S) else builtins.float(y)
        return builtins.float(x)


FloatShim.__name__ = 'float'

import re
_SPEC = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")


def symmod(a, b):
    if not isinstance(a, str):
        return a % b

    def has(x):
        return isinstance(x, (S, B)) or (isinstance(x, np.ndarray) and x.dtype == object)
    args = b if isinstance(b, tuple) else (b,)
    if isinstance(b, dict):
        if not any(has(x) for x in b.values()):
            return a % b
    elif not any(has(x) for x in args):
        return a % b
    args = list(args)

    def one(m):
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            return '%'
        v = b[key] if key else args.pop(0)
        if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1 and conv in 'fFeEgGdi':
            v = v.reshape(-1)[0]
        if isinstance(v, B):
            v = bool(v)
        if isinstance(v, S):
            spec = '%' + flags + (width or '') + ('.' + prec if prec is not None else '') + conv
            if conv in 'di':
                return spec % int(v)
            t = sym.ENG.cur.fmt(v, spec)
            return t.rjust(int(width)) if width else t
        if isinstance(v, np.ndarray) and v.dtype == object:
            return str(v.tolist())
        return m.group(0).replace('(%s)' % key, '') % v if key else m.group(0) % (v,)
    return _SPEC.sub(one, a)


_TOKEN = re.compile("\u27e6(\\d+)\u27e7")


def make_untoken(ctx):
    def untoken(k):
        """the value a formatted token stands for: exact, or anything that rounds to the printed digits"""
        v, spec = ctx.path.fmts[int(k)]
        m = re.search(r'\.(\d+)[fF]', spec)
        if spec == 'array2string':
            digits = 8
        elif m:
            digits = int(m.group(1))
        else:
            return v
        return v + ctx.real("rounded%d" % int(k), -.5 * 10.0 ** -digits, .5 * 10.0 ** -digits)
    return untoken


def make_eval(untoken):
    def _eval(src, g=None, l=None):
        f = sys._getframe(1)
        if g is None:
            g, l = f.f_globals, f.f_locals
        if isinstance(src, str) and _TOKEN.search(src):
            src = _TOKEN.sub(r"__untoken__(\1)", src)
            g = dict(g, __untoken__=untoken)
        return builtins.eval(src, g, l)
    return _eval


class _Yaml(types.ModuleType):
    """PyYAML, with the symbolic values behind their tokens"""

    def __init__(self, untoken):
        super().__init__('yaml')
        import yaml
        self._y = yaml
        self._untoken = untoken

    def _back(self, x):
        if isinstance(x, str):
            m = _TOKEN.fullmatch(x.strip())
            return self._untoken(m.group(1)) if m else x
        if isinstance(x, dict):
            return {self._back(k): self._back(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self._back(v) for v in x]
        return x

    def load(self, *a, **k):
        return self._back(self._y.load(*a, **k))

    def safe_load(self, *a, **k):
        return self._back(self._y.safe_load(*a, **k))

    def full_load(self, *a, **k):
        return self._back(self._y.full_load(*a, **k))

    def __getattr__(self, n):
        return getattr(self._y, n)


def _round(x, n=None):
    if isinstance(x, S):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


class World:
    """One instantiation of the repository's modules."""

    def __init__(self, ctx, symbolic):
        self.symbolic = symbolic
        self.ctx = ctx
        get = lambda: ctx
        from vf.rng import Rng
        self.rng = Rng(get)
        self.np = symnp.SymNumpy(self.rng) if symbolic else _NpProxy(self.rng)
        self.clock = Clock('time', get)
        dm = Dummy
        self.stubs = {
            'numpy': self.np, 'numpy.random': self.rng, 'numpy.linalg': self.np.linalg,
            'time': self.clock, 'timeit': Clock('timeit', get),
            'guppy': _Heap(get), 'sklearn.cluster': _Cluster(get), 'sklearn': dm('sklearn'),
            'matplotlib': dm('matplotlib'), 'matplotlib.pyplot': dm('pyplot'), 'matplotlib.cm': dm('cm'),
            'matplotlib.patches': dm('patches'), 'matplotlib.collections': dm('collections'),
            'matplotlib.lines': dm('lines'),
            'mpl_toolkits': dm('mpl_toolkits'), 'mpl_toolkits.mplot3d': dm('mplot3d'),
            'cv2': dm('cv2'),
        }
        self.stubs['sklearn'].cluster = self.stubs['sklearn.cluster']
        if symbolic:
            sp = _Special('scipy.special')
            sc = types.ModuleType('scipy')
            sc.special = sp
            import scipy.spatial
            sc.spatial = scipy.spatial
            self.stubs.update({'math': _MathShim(), 'scipy': sc, 'scipy.special': sp})
        self.mods = {}
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import
        self.builtins['print'] = ctx.on_print
        self.builtins['input'] = lambda *a: ''
        if symbolic:
            self.builtins['float'] = FloatShim
            self.builtins['__symmod__'] = symmod
            self.builtins['round'] = _round
            untoken = self.untoken = make_untoken(ctx)
            self.builtins['eval'] = make_eval(untoken)
            self.stubs['yaml'] = _Yaml(untoken)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rpartition('.')[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path, ispkg, base = locate(name)
        if ispkg is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path or base
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [base]
        self.mods[name] = m
        try:
            if path:
                exec(compiled(path, self.symbolic), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        cls = m.__dict__.get('CMultivariateNormal')
        if isinstance(cls, type) and cls.__module__ == name:
            self._normal_sampler(cls)
        par, _, leaf = name.rpartition('.')
        if par:
            setattr(self.mods[par], leaf, m)
        return m

    def _normal_sampler(self, cls):
        """a normal that maps standard normal draws itself is turned into multivariate normal draws (see ctx.as_mvn)"""
        real, ctx = cls.sample, self.ctx

        def sample(*a, **k):
            n0, total = len(ctx.draws), ctx.rng_total
            out = real(*a, **k)
            new = ctx.draws[n0:]
            if new and ctx.probe is None and all(dr.kind == 'normal' for dr in new):
                out = ctx.as_mvn(lambda: real(*a, **k), n0, out, total)
            return out
        sample.__doc__ = real.__doc__
        cls.sample = sample

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + '.' + name if name else base
        top = name.split('.')[0]
        if top == PKG:
            m = self.load(name)
            if not fromlist:
                return self.mods[top]
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        self.load(name + '.' + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name in self.stubs:
            return self.stubs[name] if fromlist else self.stubs.get(top, self.stubs[name])
        if top in self.stubs and not (top in ('scipy', 'sklearn')):
            st = self.stubs[top]
            if isinstance(st, Dummy):
                return Dummy(name) if fromlist else st
        m = builtins.__import__(name, None, None, fromlist, 0)
        return m
