"""numpy for symbolic execution: object arrays of vf.sym values with numpy's own shape machinery.

Every float array is a SymArray of dtype object (np.float64 / S elements); integer and boolean arrays are
SymArrays of their own dtype, boolean arrays with undecided entries hold B objects.
"""
import math
import types
import builtins
import numpy as np
from vf import sym
from vf.sym import S, B, ENG, Unsupported, b_and, b_or, b_not

f64 = np.float64


def _n(x):
    """a scalar numpy/python number for arithmetic with numpy error semantics"""
    if isinstance(x, (S, B, np.generic)):
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, float):
        return f64(x)
    return x


def _sy(x):
    return isinstance(x, (S, B))


def _b2n(x):
    if isinstance(x, B):
        return int(x)
    return x


# ------------------------------------------------------------------ scalar kernels
def k_add(a, b):
    if isinstance(a, (B, np.bool_, bool)) and isinstance(b, (B, np.bool_, bool)):
        return b_or(a, b)
    return _n(a) + _n(b)


def k_sub(a, b):
    return _n(a) - _n(b)


def k_mul(a, b):
    if isinstance(a, (B, np.bool_, bool)) and isinstance(b, (B, np.bool_, bool)):
        return b_and(a, b)
    return _n(a) * _n(b)


def k_div(a, b):
    a, b = _n(_b2n(a)), _n(_b2n(b))
    if _sy(a) or _sy(b):
        return a / b
    return np.true_divide(a, b)


def k_fdiv(a, b):
    a, b = _n(_b2n(a)), _n(_b2n(b))
    if _sy(a) or _sy(b):
        return a // b
    return np.floor_divide(a, b)


def k_mod(a, b):
    a, b = _n(_b2n(a)), _n(_b2n(b))
    if _sy(a) or _sy(b):
        return a % b
    return np.remainder(a, b)


def k_pow(a, b):
    a, b = _n(_b2n(a)), _n(_b2n(b))
    if _sy(a) or _sy(b):
        return a ** b
    return np.power(a, b)


def _cmpk(op, npf):
    def k(a, b):
        if _sy(a) or _sy(b):
            if isinstance(a, B) or isinstance(b, B):
                if op in ('==', '!=') and isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
                    x = b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
                    return x if op == '==' else b_not(x)
                a, b = _b2n(a), _b2n(b)
                if not (_sy(a) or _sy(b)):
                    return bool(npf(a, b))
            if isinstance(a, S):
                return a._cmp(b, op)
            return b._cmp(a, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op])
        return bool(npf(a, b))
    return k


def k_and(a, b):
    return b_and(_truth(a), _truth(b))


def k_or(a, b):
    return b_or(_truth(a), _truth(b))


def k_xor(a, b):
    a, b = _truth(a), _truth(b)
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


def _truth(a):
    if isinstance(a, B):
        return a
    if isinstance(a, S):
        return a != 0
    return bool(a)


def k_not(a):
    return b_not(_truth(a))


def k_bitand(a, b):
    if isinstance(a, (B, bool, np.bool_)) or isinstance(b, (B, bool, np.bool_)):
        return b_and(_truth(a), _truth(b))
    return a & b


def k_bitor(a, b):
    if isinstance(a, (B, bool, np.bool_)) or isinstance(b, (B, bool, np.bool_)):
        return b_or(_truth(a), _truth(b))
    return a | b


def k_inv(a):
    if isinstance(a, (B, bool, np.bool_)):
        return b_not(a)
    return ~a


def k_neg(a):
    return -_n(a)


def k_isnan(a):
    return False if _sy(a) else bool(np.isnan(f64(a)))


def k_isinf(a):
    return False if _sy(a) else bool(np.isinf(f64(a)))


def k_isfinite(a):
    return True if _sy(a) else bool(np.isfinite(f64(a)))


def k_log2(a):
    return sym.s_log(a) / math.log(2) if isinstance(a, S) else np.log2(f64(_b2n(a)))


def k_log10(a):
    return sym.s_log(a) / math.log(10) if isinstance(a, S) else np.log10(f64(_b2n(a)))


def k_log1p(a):
    return sym.s_log(a + 1.0) if isinstance(a, S) else np.log1p(f64(_b2n(a)))


def k_expm1(a):
    return sym.s_exp(a) - 1.0 if isinstance(a, S) else np.expm1(f64(_b2n(a)))


def k_exp2(a):
    return sym.s_exp(a * math.log(2)) if isinstance(a, S) else np.exp2(f64(_b2n(a)))


def k_exp(a):
    return sym.s_exp(_b2n(a))


def k_log(a):
    return sym.s_log(_b2n(a))


def k_sqrt(a):
    return sym.s_sqrt(_b2n(a))


def k_square(a):
    return a * a


def k_abs(a):
    return sym.s_abs(_n(_b2n(a)))


def k_max(a, b):
    return sym.s_max(_n(_b2n(a)), _n(_b2n(b)))


def k_min(a, b):
    return sym.s_min(_n(_b2n(a)), _n(_b2n(b)))


def k_fmax(a, b):
    if not _sy(a) and np.isnan(a):
        return b
    if not _sy(b) and np.isnan(b):
        return a
    return k_max(a, b)


def k_fmin(a, b):
    if not _sy(a) and np.isnan(a):
        return b
    if not _sy(b) and np.isnan(b):
        return a
    return k_min(a, b)


def k_logaddexp(a, b):
    if not _sy(a) and not _sy(b):
        return np.logaddexp(f64(a), f64(b))
    for x, y in ((a, b), (b, a)):
        if not _sy(x) and not math.isfinite(x):
            return y if x < 0 else f64(x)
    if sym.ENG.cur.under:
        m, o = (a, b) if sym.log_only(a - b) or bool(a - b >= 0) else (b, a)
        return m + sym.s_log(1.0 + sym.s_exp(o - m))
    return sym.s_log(sym.s_exp(a) + sym.s_exp(b))


def k_floor(a):
    return f64(sym.s_floor(a)) if isinstance(a, S) else np.floor(a)


def k_ceil(a):
    return f64(-sym.s_floor(-a)) if isinstance(a, S) else np.ceil(a)


def k_trunc(a):
    return f64(int(a)) if isinstance(a, S) else np.trunc(a)


def k_rint(a):
    if isinstance(a, S):
        n = sym.s_floor(a)
        d = a - n
        if bool(d > 0.5):
            return f64(n + 1)
        if bool(d < 0.5):
            return f64(n)
        return f64(n if n % 2 == 0 else n + 1)
    return np.rint(a)


def k_recip(a):
    return k_div(1.0, a)


def k_sin(a):
    return sym.s_func('sin', a) if isinstance(a, S) else np.sin(a)


def k_cos(a):
    return sym.s_func('cos', a) if isinstance(a, S) else np.cos(a)


def k_tanh(a):
    return sym.s_func('tanh', a) if isinstance(a, S) else np.tanh(a)


def k_arctan(a):
    return sym.s_func('atan', a) if isinstance(a, S) else np.arctan(a)


def k_hypot(a, b):
    return sym.s_sqrt(a * a + b * b)


def k_pos(a):
    return a


KERN = {
    'add': (k_add, 2, 0.0), 'subtract': (k_sub, 2, None), 'multiply': (k_mul, 2, 1.0), 'divide': (k_div, 2, None),
    'true_divide': (k_div, 2, None), 'floor_divide': (k_fdiv, 2, None), 'remainder': (k_mod, 2, None),
    'mod': (k_mod, 2, None), 'power': (k_pow, 2, None), 'float_power': (k_pow, 2, None),
    'negative': (k_neg, 1, None), 'positive': (k_pos, 1, None),
    'absolute': (k_abs, 1, None), 'abs': (k_abs, 1, None), 'fabs': (k_abs, 1, None), 'exp': (k_exp, 1, None),
    'log': (k_log, 1, None), 'log2': (k_log2, 1, None), 'log10': (k_log10, 1, None), 'log1p': (k_log1p, 1, None),
    'expm1': (k_expm1, 1, None), 'exp2': (k_exp2, 1, None), 'sqrt': (k_sqrt, 1, None), 'square': (k_square, 1, None),
    'maximum': (k_max, 2, None), 'minimum': (k_min, 2, None), 'fmax': (k_fmax, 2, None), 'fmin': (k_fmin, 2, None),
    'less': (_cmpk('<', np.less), 2, None), 'less_equal': (_cmpk('<=', np.less_equal), 2, None),
    'greater': (_cmpk('>', np.greater), 2, None), 'greater_equal': (_cmpk('>=', np.greater_equal), 2, None),
    'equal': (_cmpk('==', np.equal), 2, None), 'not_equal': (_cmpk('!=', np.not_equal), 2, None),
    'logical_and': (k_and, 2, True), 'logical_or': (k_or, 2, False), 'logical_xor': (k_xor, 2, None),
    'logical_not': (k_not, 1, None), 'bitwise_and': (k_bitand, 2, None), 'bitwise_or': (k_bitor, 2, None),
    'invert': (k_inv, 1, None), 'isnan': (k_isnan, 1, None), 'isinf': (k_isinf, 1, None),
    'bitwise_xor': (k_xor, 2, None),
    'isfinite': (k_isfinite, 1, None), 'sign': (sym.s_sign, 1, None), 'floor': (k_floor, 1, None),
    'ceil': (k_ceil, 1, None), 'trunc': (k_trunc, 1, None), 'rint': (k_rint, 1, None),
    'reciprocal': (k_recip, 1, None), 'logaddexp': (k_logaddexp, 2, -math.inf),
    'sin': (k_sin, 1, None), 'cos': (k_cos, 1, None), 'tanh': (k_tanh, 1, None), 'arctan': (k_arctan, 1, None),
    'hypot': (k_hypot, 2, None), 'conjugate': (k_pos, 1, None),
}
_UF = {}
for _name, (_f, _nin, _id) in KERN.items():
    _UF[_name] = np.frompyfunc(_f, _nin, 1) if _id is None else np.frompyfunc(_f, _nin, 1, identity=_id)


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return _ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = HANDLERS.get(func)
        if h is not None:
            return wrap(h(*args, **kwargs))
        return wrap(super().__array_function__(func, types_, args, kwargs))

    def __getitem__(self, k):
        k = _index(k)
        r = self.view(np.ndarray)[k]
        return wrap(r)

    def __setitem__(self, k, v):
        k = _index(k)
        if isinstance(v, (list, tuple)):
            v = array(v)
        base = self.view(np.ndarray)
        if self.dtype == object:
            if isinstance(v, np.ndarray):
                v = v.view(np.ndarray)
                if v.dtype != object:
                    v = _objcast(v)
            elif isinstance(v, (float, int)) and not isinstance(v, (bool, np.generic)):
                v = f64(v)
            elif isinstance(v, np.integer):
                v = f64(v)
            if v is not None and isinstance(v, np.ndarray) and v.ndim >= 1:
                # numpy refuses nothing here that it would accept for floats
                tgt = base[k]
                if not isinstance(tgt, np.ndarray):
                    if v.size != 1:
                        raise ValueError("setting an array element with a sequence.")
                    v = v.reshape(-1)[0]
            base[k] = v
            return
        if isinstance(v, (S, B)):
            v = int(v)
        elif isinstance(v, np.ndarray) and v.dtype == object:
            v = np.array([(x if not isinstance(x, (S, B)) else int(x)) for x in v.reshape(-1).tolist()],
                         dtype=self.dtype).reshape(v.shape)
        base[k] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0] if self.dtype == object else
                        self.view(np.ndarray).reshape(-1)[0] != 0) if self.dtype != object else \
                bool(_truth(self.view(np.ndarray).reshape(-1)[0]))
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.view(np.ndarray).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(self.view(np.ndarray).reshape(-1)[0])

    def __index__(self):
        if self.dtype == object or self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self.view(np.ndarray))

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.item(), spec)
        if spec:
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return str(self)

    def __str__(self):
        return str(self.tolist())

    __repr__ = __str__

    def item(self, *a):
        if not a and self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        if not a:
            v = self.view(np.ndarray).reshape(-1)[0]
        else:
            v = self.view(np.ndarray)[a if len(a) > 1 else (np.unravel_index(a[0], self.shape))]
        return v

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            return float(x) if isinstance(x, np.floating) else x
        return conv(self.view(np.ndarray).tolist())

    def astype(self, dtype, *a, **k):
        return _astype(self, dtype)

    def flatten(self, *a):
        return wrap(self.view(np.ndarray).flatten())

    def copy(self, *a, **k):
        return wrap(self.view(np.ndarray).copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # reductions as methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_('add', self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_('multiply', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('maximum', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('minimum', self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('logical_or', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_('logical_and', self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return h_mean(self, axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return h_var(self, axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return sqrt(h_var(self, axis, ddof=ddof, keepdims=keepdims))

    def dot(self, o):
        return h_dot(self, o)

    def clip(self, min=None, max=None, out=None, **k):
        return h_clip(self, min, max)

    def round(self, decimals=0, out=None):
        return h_round(self, decimals)

    def cumsum(self, axis=None, dtype=None, out=None):
        return h_cumsum(self, axis)

    def nonzero(self):
        return tuple(wrap(x) for x in np.nonzero(_boolify(self)))

    def argmax(self, axis=None, out=None, **k):
        return h_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return h_argmin(self, axis)

    def sort(self, axis=-1, **k):
        base = self.view(np.ndarray)
        base[...] = h_sort(self, axis).view(np.ndarray)

    def argsort(self, axis=-1, **k):
        return h_argsort(self, axis)

    def take(self, indices, axis=None, **k):
        return wrap(self.view(np.ndarray).take(_plain(indices), axis=axis))

    def repeat(self, n, axis=None):
        return wrap(self.view(np.ndarray).repeat(_plain(n), axis=axis))

def _inplace(name):
    base = getattr(np.ndarray, name)

    def f(self, o):
        if isinstance(o, (S, B)):
            z = np.empty((), dtype=object)
            z[()] = o
            o = z.view(SymArray)
        return base(self, o)
    f.__name__ = name
    return f


for _ip in ('__iadd__', '__isub__', '__imul__', '__itruediv__', '__ipow__', '__imod__', '__ifloordiv__', '__iand__', '__ior__'):
    setattr(SymArray, _ip, _inplace(_ip))




def _plain(x):
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else x


def _index(k):
    if isinstance(k, tuple):
        return tuple(_index1(x) for x in k)
    return _index1(k)


def _index1(k):
    if isinstance(k, np.ndarray):
        if k.dtype == object:
            flat = k.view(np.ndarray).reshape(-1)
            if all(isinstance(x, (B, bool, np.bool_)) for x in flat):
                return np.array([bool(x) for x in flat], dtype=bool).reshape(k.shape)
            if k.size == 0:
                return np.zeros(k.shape, dtype=bool if False else int)
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return k.view(np.ndarray)
    if isinstance(k, list):
        if any(isinstance(x, B) for x in k):
            return np.array([bool(x) for x in k], dtype=bool)
        return k
    if isinstance(k, B):
        return bool(k)
    if isinstance(k, (S, float, np.floating)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                         "boolean arrays are valid indices")
    return k


def _objcast(a):
    """real numeric ndarray -> object ndarray of np.float64 / bool"""
    o = np.empty(a.shape, dtype=object)
    fl = o.reshape(-1)
    src = a.reshape(-1)
    for i in range(src.size):
        fl[i] = f64(src[i])
    return fl.reshape(a.shape)


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'f':
            r = _objcast(r)
        if type(r) is not SymArray:
            r = r.view(SymArray)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def arr(lst):
    return array(list(lst))


def arr0(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return o.view(SymArray)


def _norm(o):
    """object ndarray result -> SymArray, narrowing all-bool / all-int results to a real dtype"""
    if not isinstance(o, np.ndarray):
        if isinstance(o, bool):
            return np.bool_(o)
        if isinstance(o, float):
            return f64(o)
        if isinstance(o, int):
            return np.int64(o)
        return o
    fl = o.reshape(-1)
    kinds = set()
    for x in fl:
        if isinstance(x, (bool, np.bool_)):
            kinds.add('b')
        elif isinstance(x, B):
            kinds.add('B')
        elif isinstance(x, (int, np.integer)):
            kinds.add('i')
        else:
            kinds.add('f')
    if kinds == {'b'}:
        return o.astype(bool).view(SymArray)
    if kinds == {'i'}:
        return o.astype(np.int64).view(SymArray)
    if 'f' in kinds and ('i' in kinds):
        fl = np.array([f64(x) if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else x for x in fl] + [None],
                      dtype=object)[:-1]
        o = fl.reshape(o.shape)
    return o.view(SymArray)


def _oin(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).astype(object) if x.dtype != object else x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return _oin(array(x))
    if isinstance(x, (S, B)):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return x


_INTOK = {'add', 'subtract', 'multiply', 'floor_divide', 'remainder', 'less', 'less_equal', 'greater', 'greater_equal',
          'equal', 'not_equal', 'logical_and', 'logical_or', 'logical_not', 'logical_xor', 'negative', 'absolute',
          'maximum', 'minimum', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert', 'power', 'sign', 'left_shift',
          'right_shift', 'divide', 'true_divide', 'sqrt', 'exp', 'log', 'isnan', 'isfinite', 'isinf', 'square',
          'positive', 'floor', 'ceil', 'rint'}


def _ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    if name == 'matmul' and method == '__call__':
        r = h_matmul(*inputs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    if name == 'clip' and method == '__call__':
        return h_clip(*inputs)
    ins = [(array(x) if isinstance(x, (list, tuple)) else x) for x in inputs]
    real = all((isinstance(x, np.ndarray) and x.dtype != object) or
               (np.isscalar(x) and not isinstance(x, (S, B))) for x in ins)
    kw = {k: v for k, v in kw.items() if k not in ('dtype', 'casting', 'order', 'subok')}
    outs = None
    if out is not None:
        outs = out if isinstance(out, tuple) else (out,)
    if real and outs is None:
        with np.errstate(all='ignore'):
            r = getattr(ufunc, method)(*[_plain(x) for x in ins], **kw)
        return wrap(r)
    uf = _UF.get(name)
    if uf is None:
        raise Unsupported("numpy.%s on symbolic arrays" % name)
    ins = [_oin(x) for x in ins]
    where = kw.pop('where', True)
    if method == '__call__':
        with np.errstate(all='ignore'):
            if where is not True:
                wh = _boolify(where)
                base = outs[0] if outs is not None else None
                full = uf(*ins)
                full = np.asarray(full, dtype=object)
                if base is None:
                    raise Unsupported("ufunc where= without out=")
                res = np.where(np.broadcast_to(wh, full.shape), full, np.broadcast_to(_oin(base), full.shape))
            else:
                res = uf(*ins)
        res = _norm(res)
        if outs is not None:
            outs[0][...] = res
            return outs[0]
        return res
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        kd = kw.pop('keepdims', False)
        init = kw.pop('initial', None)
        if init is np._NoValue:
            init = None
        r = reduce_(name, ins[0], axis, kd, init, where)
        if outs is not None:
            outs[0][...] = r
            return outs[0]
        return r
    if method == 'accumulate':
        axis = kw.pop('axis', 0)
        return _norm(uf.accumulate(ins[0], axis=axis, dtype=object))
    if method == 'outer':
        return _norm(uf.outer(*ins))
    if method == 'at':
        a, idx, *b = inputs
        idx = np.atleast_1d(_index1(idx))
        bb = np.broadcast_to(_oin(array(b[0])), idx.shape) if b else None
        for j, i in enumerate(idx):
            a[i] = KERN[name][0](a[i], bb[j]) if b else KERN[name][0](a[i])
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def reduce_(name, a, axis=None, keepdims=False, initial=None, where=True):
    a = _oin(a)
    if not isinstance(a, np.ndarray):
        a = _oin(array(a))
    if keepdims is np._NoValue:
        keepdims = False
    if where is not True:
        wh = np.broadcast_to(_boolify(where), a.shape)
        ident = KERN[name][2]
        a = np.where(wh, a, ident)
    if name in ('maximum', 'minimum', 'fmax', 'fmin') and a.size == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    if name in ('add', 'multiply') and a.dtype == object and builtins.any(isinstance(x, B) for x in a.flat):
        a = a.copy()             # truth values count as 0 / 1
        for ix in np.ndindex(*a.shape):
            if isinstance(a[ix], (B, builtins.bool, np.bool_)):
                a[ix] = builtins.int(a[ix])
    uf = _UF[name]
    if axis is not None and not isinstance(axis, (tuple, list)):
        axis = int(axis)
    if isinstance(axis, (tuple, list)):
        axis = tuple(axis)
        if len(axis) == 0:
            return _norm(a.copy())
        ax = sorted((x % a.ndim for x in axis), reverse=True)
        r = a
        for x in ax:
            r = _oin(reduce_(name, r, x, True))
        if not keepdims:
            r = r.reshape([n for i, n in enumerate(a.shape) if i not in ax])
        if r.ndim == 0:
            r = r[()]
        return _norm(r)
    with np.errstate(all='ignore'):
        if axis is None:
            flat = a.reshape(-1)
            if name == 'add' and flat.size > 8 and all(isinstance(x, (S, np.floating)) for x in flat):
                r = flat[0]
                for x in flat[1:]:
                    r = r + x
            else:
                r = uf.reduce(flat)
            if initial is not None:
                r = KERN[name][0](initial, r)
            r = _tonum(r, name)
            if keepdims:
                o = np.empty([1] * a.ndim, dtype=object)
                o.reshape(-1)[0] = r
                return _norm(o)
            return _norm(r)
        r = uf.reduce(a, axis=axis, keepdims=keepdims)
    if initial is not None:
        r = uf(initial, r)
    if isinstance(r, np.ndarray) and name == 'add':
        fl = r.reshape(-1)
        for i in range(fl.size):
            fl[i] = _tonum(fl[i], name)
        r = fl.reshape(r.shape)
    elif not isinstance(r, np.ndarray):
        r = _tonum(r, name)
    return _norm(r)


def _tonum(r, name):
    if name == 'add' and isinstance(r, (bool, np.bool_)):
        return int(r)
    return r


def _boolify(a):
    """concrete boolean ndarray (forks on undecided entries)"""
    if isinstance(a, (B, S)):
        return np.array(bool(a))
    a = a if isinstance(a, np.ndarray) else array(a)
    a = a.view(np.ndarray)
    if a.dtype != object:
        return a.astype(bool)
    return np.array([bool(_truth(x)) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)


# sums of booleans count
def _sum_bool(a):
    return a


# ------------------------------------------------------------------ creation
def _isfloat(dtype):
    if dtype is None:
        return True
    if dtype is object or dtype == 'object':
        return True
    if dtype is float64 or dtype is float or getattr(dtype, '_vf_float', False):
        return True
    try:
        return np.dtype(dtype).kind in 'fO'
    except TypeError:
        return True


def _dt(dtype):
    if getattr(dtype, '_vf_int', False):
        return int
    return np.dtype(dtype)


def _shape(s):
    if isinstance(s, np.ndarray):
        s = tuple(int(x) for x in s.reshape(-1)) if s.ndim else int(s)
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    return int(s)


def full(shape, fill_value, dtype=None, **k):
    if dtype is None and not isinstance(fill_value, (S, B, float, np.floating, np.ndarray, list, tuple)):
        return wrap(np.full(_shape(shape), fill_value))
    if dtype is not None and not _isfloat(dtype):
        return wrap(np.full(_shape(shape), _plain(fill_value), dtype=_dt(dtype)))
    o = np.empty(_shape(shape), dtype=object)
    v = fill_value
    if isinstance(v, (list, tuple)):
        v = array(v)
    if isinstance(v, np.ndarray):
        o[...] = _oin(v) if v.dtype == object else _objcast(v)
    else:
        o[...] = v if isinstance(v, (S, B)) else f64(v)
    return o.view(SymArray)


def zeros(shape, dtype=None, **k):
    if dtype is not None and not _isfloat(dtype):
        return wrap(np.zeros(_shape(shape), dtype=_dt(dtype)))
    return full(shape, 0.0)


def ones(shape, dtype=None, **k):
    if dtype is not None and not _isfloat(dtype):
        return wrap(np.ones(_shape(shape), dtype=_dt(dtype)))
    return full(shape, 1.0)


def empty(shape, dtype=None, **k):
    return zeros(shape, dtype)


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    if not isinstance(a, np.ndarray):
        a = array(a)
    if a.dtype == object or a.dtype.kind == 'f':
        if a.dtype == object and a.size and all(isinstance(x, B) for x in a.view(np.ndarray).reshape(-1)):
            return bool
        return None
    return a.dtype


def _shp(a):
    return a.shape if hasattr(a, 'shape') else array(a).shape


def zeros_like(a, dtype=None, shape=None, **k):
    return zeros(_shp(a) if shape is None else shape, _like_dtype(a, dtype))


def ones_like(a, dtype=None, shape=None, **k):
    return ones(_shp(a) if shape is None else shape, _like_dtype(a, dtype))


def empty_like(a, dtype=None, shape=None, **k):
    return zeros_like(a, dtype, shape)


def full_like(a, fill_value, dtype=None, **k):
    return full(_shp(a), fill_value, dtype if dtype is not None else
                (None if _like_dtype(a, None) is None else _like_dtype(a, None)))


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SymArray):
        if dtype is not None:
            r = _astype(x, dtype)
        else:
            r = x.copy() if copy else x
    else:
        if isinstance(x, (S, B)):
            r = arr0(x)
        elif isinstance(x, np.ndarray):
            r = wrap(x.copy())
        elif isinstance(x, (list, tuple)):
            r = _from_seq(x)
        elif isinstance(x, (range,)):
            r = wrap(np.array(x))
        else:
            if hasattr(x, '__array__'):
                r = wrap(np.array(x))
            else:
                r = wrap(np.array(x))
        if dtype is not None:
            r = _astype(r, dtype)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def _from_seq(x):
    def conv(y):
        if isinstance(y, SymArray):
            return conv(y.view(np.ndarray).tolist() if y.ndim else y.view(np.ndarray)[()])
        if isinstance(y, np.ndarray):
            return conv(y.tolist() if y.ndim else y[()])
        if isinstance(y, (list, tuple)):
            return [conv(z) for z in y]
        return y
    y = conv(x)
    flat = []

    def shape(v):
        if isinstance(v, list):
            sh = [shape(z) for z in v]
            if not sh:
                return (0,)
            if any(s != sh[0] for s in sh):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape after %d dimensions." % 1)
            return (len(v),) + sh[0]
        flat.append(v)
        return ()
    sh = shape(y)
    # empty arrays keep their inner shape
    if not flat:
        try:
            return wrap(np.array([_plain(z) if isinstance(z, np.ndarray) else z for z in x], dtype=float))
        except Exception:
            return wrap(np.empty(sh))
    if any(isinstance(v, (S, B)) for v in flat):
        o = np.empty(len(flat), dtype=object)
        allb = all(isinstance(v, (B, bool, np.bool_)) for v in flat)
        for i, v in enumerate(flat):
            if isinstance(v, (S, B)):
                o[i] = v
            elif allb:
                o[i] = v
            else:
                o[i] = f64(v) if isinstance(v, (int, float, np.generic)) else v
        return o.reshape(sh).view(SymArray)
    if all(isinstance(v, (int, float, bool, np.generic)) for v in flat):
        return wrap(np.array(flat).reshape(sh))
    o = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        o[i] = v
    return o.reshape(sh).view(SymArray)


def asarray(x, dtype=None, **k):
    return array(x, dtype, copy=False)


def _astype(a, dtype):
    if _isfloat(dtype):
        if a.dtype == object:
            o = a.view(np.ndarray).copy()
            fl = o.reshape(-1)
            for i in range(fl.size):
                if isinstance(fl[i], (B, bool, np.bool_, int, np.integer)):
                    fl[i] = f64(int(fl[i]))
            return fl.reshape(o.shape).view(SymArray)
        return wrap(a.view(np.ndarray).astype(np.float64))
    dt = _dt(dtype)
    if a.dtype == object:
        fl = a.view(np.ndarray).reshape(-1)
        if dt.kind == 'b':
            return _norm(np.array([_truth(x) for x in fl] + [None], dtype=object)[:-1].reshape(a.shape))
        if dt.kind in 'iu':
            return np.array([int(x) for x in fl], dtype=dt).reshape(a.shape).view(SymArray)
        raise Unsupported("astype %s" % dt)
    return a.view(np.ndarray).astype(dt).view(SymArray)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    start, stop = _sc(start), _sc(stop)
    div = (num - 1) if endpoint else num
    step = (stop - start) / f64(div) if div > 0 else f64(np.nan)
    out = []
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            out.append(stop)
        else:
            out.append(start + step * f64(i) if div > 0 else start)
    r = array(out) if out else zeros((0,))
    if out and not isinstance(out[0], np.ndarray):
        r = r.astype(float)
    return (r, step) if retstep else r


def _sc(x):
    if isinstance(x, (list, tuple)):
        return array(x)
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return f64(x)
    return x


def arange(*a, **k):
    if any(isinstance(x, S) for x in a):
        start, stop, step = (f64(0), a[0], f64(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else f64(1))
        n = int(k_ceil((stop - start) / step))
        return array([start + step * f64(i) for i in range(max(n, 0))])
    return wrap(np.arange(*a, **{x: (None if x == 'dtype' and _isfloat(y) and y is not None else y)
                                 for x, y in k.items()}))


def eye(n, m=None, k=0, dtype=None, **kw):
    return wrap(np.eye(int(n), None if m is None else int(m), k))


def identity(n, dtype=None, **kw):
    return eye(n)


def concatenate(arrays, axis=0, **k):
    arrays = [x if isinstance(x, SymArray) else array(x) for x in arrays]
    if any(x.dtype == object for x in arrays):
        bs = [_oin(x) if x.dtype == object else (_objcast(x.view(np.ndarray)) if x.dtype.kind != 'b' else
                                                 x.view(np.ndarray).astype(object)) for x in arrays]
        if axis is None:
            bs = [b.reshape(-1) for b in bs]
            axis = 0
        return _norm_keep(np.concatenate(bs, axis=axis))
    return wrap(np.concatenate([x.view(np.ndarray) for x in arrays], axis=axis))


def _norm_keep(o):
    return o.view(SymArray)


def vstack(tup, **k):
    return concatenate([_atl2(x) for x in tup], 0)


def _atl2(x):
    x = x if isinstance(x, SymArray) else array(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    if x.ndim == 1:
        return x.reshape(1, -1)
    return x


def _atl1(x):
    x = x if isinstance(x, SymArray) else array(x)
    return x.reshape(1) if x.ndim == 0 else x


def hstack(tup, **k):
    t = [_atl1(x) for x in tup]
    return concatenate(t, 0 if t[0].ndim == 1 else 1)


def stack(arrays, axis=0, **k):
    a = [x if isinstance(x, SymArray) else array(x) for x in arrays]
    ax = axis if axis >= 0 else axis + a[0].ndim + 1
    return concatenate([x.reshape(x.shape[:ax] + (1,) + x.shape[ax:]) for x in a], ax)


def column_stack(tup):
    t = [x if isinstance(x, SymArray) else array(x) for x in tup]
    return concatenate([x.reshape(-1, 1) if x.ndim < 2 else x for x in t], 1)


def dstack(tup):
    out = []
    for x in tup:
        x = _atl2(x)
        out.append(x.reshape(x.shape + (1,)) if x.ndim == 2 else x)
    return concatenate(out, 2)


# ------------------------------------------------------------------ functions with arrays
def _A(x):
    return x if isinstance(x, SymArray) else array(x)


def h_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = _A(a)
    n = a.size if axis is None else builtins.int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    s = reduce_('add', a, axis, keepdims)
    return k_div(s, f64(n)) if not isinstance(s, np.ndarray) else divide(s, f64(n))


def h_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = _A(a)
    m = h_mean(a, axis, keepdims=True)
    d = subtract(a, m)
    s = reduce_('add', multiply(d, d), axis, keepdims)
    n = a.size if axis is None else a.shape[axis]
    return divide(s, f64(n - ddof))


def h_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return sqrt(h_var(a, axis, ddof=ddof, keepdims=keepdims))


def h_dot(a, b):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)) or \
            not isinstance(b, np.ndarray) and not isinstance(b, (list, tuple)):
        return multiply(a, b)
    a, b = _A(a), _A(b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        return reduce_('add', multiply(a, b))
    if a.ndim <= 2 and b.ndim <= 2:
        return h_matmul(a, b)
    raise Unsupported("dot of %d-d and %d-d" % (a.ndim, b.ndim))


def h_matmul(a, b):
    a, b = _A(a), _A(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1, b1 = a.ndim == 1, b.ndim == 1
    A, Bm = _oin(a), _oin(b)
    if a1:
        A = A.reshape(1, -1)
    if b1:
        Bm = Bm.reshape(-1, 1)
    if A.shape[-1] != Bm.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from "
                         "%d)" % (Bm.shape[-2], A.shape[-1]))
    prod = _UF['multiply'](A[..., :, :, None], Bm[..., None, :, :])
    n = A.shape[-1]
    if n == 0:
        r = np.zeros(prod.shape[:-2] + prod.shape[-1:], dtype=object)
    else:
        r = prod[..., 0, :]
        for i in range(1, n):
            r = _UF['add'](r, prod[..., i, :])
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    if isinstance(r, np.ndarray) and r.ndim == 0:
        r = r[()]
    return _norm(r)


def h_clip(a, lo=None, hi=None, a_min=None, a_max=None, out=None, **k):
    lo = lo if lo is not None else a_min
    hi = hi if hi is not None else a_max
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def h_where(c, x=None, y=None):
    if x is None and y is None:
        return tuple(wrap(i) for i in np.nonzero(_boolify(c)))
    cb = _boolify(c)
    x, y = _oin(_A(x)), _oin(_A(y))
    return _norm(np.where(cb, x, y)) if cb.ndim or x.ndim or y.ndim else (x[()] if cb else y[()])


def h_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = _A(a), _A(b)
    d = subtract(a, b)

    def k(x, y, dd):
        if not _sy(x) and not _sy(y):
            return builtins.bool(np.isclose(f64(x), f64(y), rtol, atol, equal_nan))
        if not _sy(dd) and not math.isfinite(dd):
            return False
        bound = k_abs(y) * rtol + atol
        return b_and(dd <= bound, dd >= -bound)
    r = np.frompyfunc(k, 3, 1)(*np.broadcast_arrays(_oin(a), _oin(b), _oin(d)))
    return _norm(r) if isinstance(r, np.ndarray) else r


def h_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return reduce_('logical_and', _A(h_isclose(a, b, rtol, atol, equal_nan)))


def h_array_equal(a, b, equal_nan=False):
    a, b = _A(a), _A(b)
    if a.shape != b.shape:
        return False
    return reduce_('logical_and', _A(equal(a, b)))


def h_count_nonzero(a, axis=None, **k):
    return np.count_nonzero(_boolify(a), axis=axis)


def h_argwhere(a):
    return wrap(np.argwhere(_boolify(a)))


def h_nonzero(a):
    return tuple(wrap(x) for x in np.nonzero(_boolify(a)))


def h_flatnonzero(a):
    return wrap(np.flatnonzero(_boolify(a)))


def _arg(a, axis, better):
    a = _A(a)
    if axis is None:
        fl = a.view(np.ndarray).reshape(-1)
        if fl.size == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        for i in range(1, fl.size):
            if not _sy(fl[best]) and isinstance(fl[best], np.floating) and np.isnan(fl[best]):
                break
            if (not _sy(fl[i]) and isinstance(fl[i], np.floating) and np.isnan(fl[i])) or builtins.bool(better(fl[i], fl[best])):
                best = i
        return np.int64(best)
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = _arg(wrap(b[ix]), None, better)
    return wrap(out)


def h_argmax(a, axis=None, out=None, **k):
    return _arg(a, axis, KERN['greater'][0])


def h_argmin(a, axis=None, out=None, **k):
    return _arg(a, axis, KERN['less'][0])


def _sort1(lst):
    idx = []
    lt = KERN['less'][0]
    for i, x in enumerate(lst):
        j = len(idx)
        while j > 0 and builtins.bool(lt(x, lst[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def h_argsort(a, axis=-1, **k):
    a = _A(a)
    if axis is None:
        return array(_sort1(list(a.view(np.ndarray).reshape(-1))))
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(b.shape, dtype=int)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = _sort1(list(b[ix]))
    return wrap(np.moveaxis(out, -1, axis))


def h_sort(a, axis=-1, **k):
    a = _A(a)
    if axis is None:
        fl = a.view(np.ndarray).reshape(-1)
        return wrap(fl[_sort1(list(fl))])
    ix = h_argsort(a, axis)
    return wrap(np.take_along_axis(a.view(np.ndarray), ix.view(np.ndarray), axis))


def h_cumsum(a, axis=None, **k):
    a = _A(a)
    if a.dtype != object:
        return wrap(np.cumsum(a.view(np.ndarray), axis))
    x = a.view(np.ndarray)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    if x.size == 0:
        return wrap(x.copy())
    return _norm(_UF['add'].accumulate(x, axis=axis, dtype=object))


def h_cumprod(a, axis=None, **k):
    x = _oin(_A(a))
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    return _norm(_UF['multiply'].accumulate(x, axis=axis, dtype=object))


def h_diff(a, n=1, axis=-1, **k):
    a = _A(a)
    for _ in range(n):
        x = a.view(np.ndarray)
        hi = [slice(None)] * x.ndim
        lo = [slice(None)] * x.ndim
        hi[axis] = slice(1, None)
        lo[axis] = slice(None, -1)
        a = subtract(wrap(x[tuple(hi)]), wrap(x[tuple(lo)]))
    return a


def h_round(a, decimals=0, out=None):
    if isinstance(a, (S, np.ndarray)) and decimals == 0:
        return rint(a)
    if isinstance(a, S) or (isinstance(a, np.ndarray) and a.dtype == object and any(isinstance(x, S) for x in a.view(np.ndarray).reshape(-1))):
        return ewise(lambda v: v.__round__(decimals) if isinstance(v, S) else f64(builtins.round(builtins.float(v), decimals)), a)
    return wrap(np.round(np.array(_A(a).view(np.ndarray), dtype=float), decimals))


def h_diag(v, k=0):
    v = _A(v)
    if v.ndim == 1:
        n = len(v) + builtins.abs(k)
        r = zeros((n, n)) if v.dtype == object else wrap(np.zeros((n, n), dtype=v.dtype))
        for i in range(len(v)):
            r[i + builtins.max(-k, 0), i + builtins.max(k, 0)] = v[i]
        return r
    if v.ndim == 2:
        return wrap(np.diagonal(v.view(np.ndarray), k).copy())
    raise ValueError("Input must be 1- or 2-d.")


def h_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if y is not None or fweights is not None:
        raise Unsupported("np.cov options")
    x = _A(m)
    if x.ndim == 1:
        x = x.reshape(1, -1)
    elif not rowvar:
        x = x.T
    n = x.shape[1]
    if aweights is not None:
        w = _A(aweights)
        ws = reduce_('add', w)
        mu = divide(reduce_('add', multiply(x, w), 1, True), ws)
        d = subtract(x, mu)
        if ddof is None:
            ddof = 0 if bias else 1
        fact = ws - (ddof * reduce_('add', multiply(w, w)) / ws if ddof else 0.0)
        c = divide(h_matmul(multiply(d, w), d.T), fact)
    else:
        mu = h_mean(x, 1, keepdims=True)
        d = subtract(x, mu)
        if ddof is None:
            ddof = 0 if bias else 1
        c = divide(h_matmul(d, d.T), f64(n - ddof))
    return h_squeeze(c)


def h_squeeze(a, axis=None):
    r = np.squeeze(_A(a).view(np.ndarray), axis)
    return wrap(r)


def h_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return h_mean(a, axis)
    a, w = _A(a), _A(weights)
    if w.shape != a.shape and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    s = reduce_('add', w, axis)
    r = divide(reduce_('add', multiply(a, w), axis), reduce_('add', multiply(ones(a.shape), w), axis))
    return (r, s) if returned else r


def h_median(a, axis=None, **k):
    a = _A(a)
    if axis is not None:
        raise Unsupported("median axis")
    s = h_sort(a, None)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


def h_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def k(x):
        if _sy(x):
            return x
        return np.nan_to_num(f64(x), nan=nan, posinf=posinf, neginf=neginf)
    r = np.frompyfunc(k, 1, 1)(_oin(_A(a)))
    return _norm(r)


def h_nansum(a, axis=None, **k):
    return reduce_('add', h_nan_to_num(a, nan=0.0, posinf=np.inf, neginf=-np.inf), axis)


def h_nanmax(a, axis=None, **k):
    return reduce_('fmax', a, axis)


def h_nanmin(a, axis=None, **k):
    return reduce_('fmin', a, axis)


def h_einsum(spec, *ops, **k):
    ops = [_oin(_A(o)) for o in ops]
    spec = spec.replace(" ", "")
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        allc = ins.replace(',', '')
        out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = ins.split(',')
    if '.' in spec:
        raise Unsupported("einsum ellipsis")
    dim = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dim[c] = n
    sums = [c for c in dim if c not in out]
    res = np.empty([dim[c] for c in out], dtype=object)
    for ix in np.ndindex(*[dim[c] for c in out]):
        env = dict(zip(out, ix))
        t = f64(0.0)
        for jx in np.ndindex(*[dim[c] for c in sums]):
            env.update(zip(sums, jx))
            p = f64(1.0)
            for s, o in zip(ins, ops):
                p = k_mul(p, o[tuple(env[c] for c in s)])
            t = t + p
        res[ix] = t
    return _norm(res) if res.ndim else res[()]


def h_outer(a, b, out=None):
    a, b = _A(a).reshape(-1), _A(b).reshape(-1)
    return _norm(_UF['multiply'].outer(_oin(a), _oin(b)))


def h_trace(a, *r, **k):
    return reduce_('add', h_diag(a))


def h_ptp(a, axis=None, **k):
    return subtract(reduce_('maximum', a, axis), reduce_('minimum', a, axis))


def h_searchsorted(a, v, side='left', sorter=None):
    a = _A(a)

    def one(x):
        i = 0
        lst = list(a.view(np.ndarray).reshape(-1))
        for y in lst:
            c = KERN['less'][0](y, x) if side == 'left' else KERN['less_equal'][0](y, x)
            if builtins.bool(c):
                i += 1
            else:
                break
        return i
    if isinstance(v, np.ndarray) and v.ndim or isinstance(v, (list, tuple)):
        return array([one(x) for x in _A(v).reshape(-1)]).reshape(_A(v).shape)
    return np.int64(one(v if not isinstance(v, np.ndarray) else v.item()))


def h_array2string(a, *r, separator=' ', **k):
    a = _A(a)

    def f(x):
        if isinstance(x, list):
            return "[" + separator.join(f(y) for y in x) + "]"
        if isinstance(x, S):
            return ENG.cur.fmt(x, 'array2string')
        return repr(builtins.float(x)) if isinstance(x, (builtins.float, np.floating)) else str(x)
    if not any(isinstance(x, S) for x in a.view(np.ndarray).reshape(-1)):
        b = a.view(np.ndarray)
        if b.dtype == object:
            b = b.astype(builtins.float)
        return np.array2string(b, separator=separator, **k)
    return f(a.view(np.ndarray).tolist())


def h_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = _A(a)
    if a.dtype != object:
        return wrap(np.unique(a.view(np.ndarray), return_index, return_inverse, return_counts, axis))
    if axis is not None or return_inverse or return_index:
        raise Unsupported("unique options")
    s = h_sort(a, None)
    out, cnt = [], []
    for x in s:
        if out and builtins.bool(KERN['equal'][0](x, out[-1])):
            cnt[-1] += 1
        else:
            out.append(x)
            cnt.append(1)
    return (array(out), array(cnt)) if return_counts else array(out)


def h_isin(el, test, **k):
    el, test = _A(el), _A(test)
    ts = list(test.view(np.ndarray).reshape(-1))
    r = np.frompyfunc(lambda x: b_or(*[KERN['equal'][0](x, t) for t in ts]), 1, 1)(_oin(el))
    return _norm(r)


def h_meshgrid(*xi, indexing='xy', sparse=False, copy=True):
    return [wrap(x) for x in np.meshgrid(*[_A(x).view(np.ndarray) for x in xi], indexing=indexing, sparse=sparse)]


def h_copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        w = _boolify(where)
        dst[w] = np.broadcast_to(_oin(_A(src)), dst.shape)[np.broadcast_to(w, dst.shape)]


def h_interp(x, xp, fp, **k):
    raise Unsupported("np.interp")


def h_select(condlist, choicelist, default=0):
    r = _A(default)
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = h_where(c, x, r)
    return r


def _pass(f):
    """shape-only functions run on the plain object array"""
    def g(*a, **k):
        def cv(x):
            if isinstance(x, SymArray):
                return x.view(np.ndarray)
            if isinstance(x, (list, tuple)) and any(isinstance(y, (np.ndarray, S, B)) for y in x):
                return type(x)(cv(y) for y in x) if not any(isinstance(y, (S, B)) for y in x) else \
                    array(x).view(np.ndarray)
            if isinstance(x, (S, B)):
                return arr0(x).view(np.ndarray)
            return x
        return wrap(f(*[cv(x) for x in a], **{n: cv(x) for n, x in k.items()}))
    return g


HANDLERS = {}


def _mapf(name, h):
    f = getattr(np, name, None)
    if f is not None:
        HANDLERS[f] = h


_FUNCS = dict(mean=h_mean, var=h_var, std=h_std, dot=h_dot, matmul=h_matmul, clip=h_clip, where=h_where,
              isclose=h_isclose, allclose=h_allclose, array_equal=h_array_equal, count_nonzero=h_count_nonzero,
              argwhere=h_argwhere, nonzero=h_nonzero, flatnonzero=h_flatnonzero, argmax=h_argmax, argmin=h_argmin,
              argsort=h_argsort, sort=h_sort, cumsum=h_cumsum, cumprod=h_cumprod, diff=h_diff, round=h_round,
              around=h_round, diag=h_diag, cov=h_cov, squeeze=h_squeeze, average=h_average, median=h_median,
              nan_to_num=h_nan_to_num, nansum=h_nansum, nanmax=h_nanmax, nanmin=h_nanmin, einsum=h_einsum,
              outer=h_outer, trace=h_trace, ptp=h_ptp, searchsorted=h_searchsorted, array2string=h_array2string,
              unique=h_unique, isin=h_isin, in1d=h_isin, meshgrid=h_meshgrid, copyto=h_copyto, inner=h_dot,
              vdot=h_dot, interp=h_interp, select=h_select,
              concatenate=concatenate, vstack=vstack, row_stack=vstack, hstack=hstack, stack=stack,
              column_stack=column_stack, dstack=dstack, zeros_like=zeros_like, ones_like=ones_like,
              empty_like=empty_like, full_like=full_like, linspace=linspace)
_FUNCS['sum'] = lambda a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True: \
    reduce_('add', a, axis, keepdims, None if initial is np._NoValue else initial, True if where is np._NoValue else where)
_FUNCS['prod'] = lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: reduce_('multiply', a, axis, keepdims)
_FUNCS['max'] = _FUNCS['amax'] = lambda a, axis=None, out=None, keepdims=False, initial=None, **k: \
    reduce_('maximum', a, axis, keepdims, None if initial is np._NoValue else initial)
_FUNCS['min'] = _FUNCS['amin'] = lambda a, axis=None, out=None, keepdims=False, initial=None, **k: \
    reduce_('minimum', a, axis, keepdims, None if initial is np._NoValue else initial)
_FUNCS['any'] = lambda a, axis=None, out=None, keepdims=False, **k: reduce_('logical_or', a, axis, keepdims)
_FUNCS['all'] = lambda a, axis=None, out=None, keepdims=False, **k: reduce_('logical_and', a, axis, keepdims)
for _k, _h in _FUNCS.items():
    _mapf(_k, _h)
for _k in ('reshape', 'transpose', 'ravel', 'repeat', 'tile', 'split', 'array_split', 'vsplit', 'hsplit', 'expand_dims',
           'swapaxes', 'moveaxis', 'rollaxis', 'flip', 'fliplr', 'flipud', 'roll', 'broadcast_to', 'broadcast_arrays',
           'atleast_1d', 'atleast_2d', 'atleast_3d', 'copy', 'diagonal', 'tril', 'triu', 'rot90', 'resize', 'append',
           'insert', 'delete', 'take', 'take_along_axis', 'put_along_axis', 'compress', 'extract', 'shape', 'size',
           'ndim', 'block', 'kron'):
    _f = getattr(np, _k, None)
    if _f is not None:
        _FUNCS[_k] = _pass(_f)
        HANDLERS[_f] = _FUNCS[_k]


def _ap(a, values, axis=None):
    a, values = _A(a), _A(values)
    if axis is None:
        return concatenate([a.reshape(-1), values.reshape(-1)])
    return concatenate([a, values], axis)


_FUNCS['append'] = _ap
HANDLERS[np.append] = _ap
_FUNCS['copy'] = lambda a, **k: array(a)
HANDLERS[np.copy] = _FUNCS['copy']
_FUNCS['shape'] = lambda a: _shp(a)
_FUNCS['size'] = lambda a, axis=None: (_A(a).size if axis is None else _A(a).shape[axis])
_FUNCS['ndim'] = lambda a: (a.ndim if hasattr(a, 'ndim') else _A(a).ndim)
for _k in ('shape', 'size', 'ndim'):
    HANDLERS[getattr(np, _k)] = _FUNCS[_k]


def _resize(a, new_shape):
    a = _A(a).reshape(-1)
    n = builtins.int(np.prod(new_shape))
    return concatenate([a] * (n // len(a) + 1))[:n].reshape(new_shape)


_FUNCS['resize'] = _resize


def _mkuf(name):
    uf = getattr(np, name)

    def call(*a, out=None, where=True, **k):
        outs = None
        if out is not None:
            outs = out if isinstance(out, tuple) else (out,)
        kw = {}
        if where is not True:
            kw['where'] = where
        if len(a) > uf.nin:
            outs = a[uf.nin:]
            a = a[:uf.nin]
        if not any(isinstance(x, (S, B, np.ndarray, list, tuple)) for x in a) and outs is None:
            with np.errstate(all='ignore'):
                return uf(*a)
        r = _ufunc(uf, '__call__', tuple(a), outs, kw)
        return r

    def red(a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return reduce_(name, a, axis, keepdims, initial, where)

    def accum(a, axis=0, **k):
        return _ufunc(uf, 'accumulate', (_A(a),), None, {'axis': axis})
    call.reduce = red
    call.accumulate = accum
    call.outer = lambda a, b, **k: _ufunc(uf, 'outer', (_A(a), _A(b)), None, {})
    call.at = lambda a, i, *b: _ufunc(uf, 'at', (a, i) + b, None, {})
    call.__name__ = name
    call.nin = uf.nin
    return call


UFS = {n: _mkuf(n) for n in KERN if hasattr(np, n)}
globals().update({n: f for n, f in UFS.items() if n not in ('abs',)})


def ewise(fn, a):
    if not isinstance(a, np.ndarray):
        return fn(a)
    return _norm(np.frompyfunc(fn, 1, 1)(_oin(a)))


def ewise2(fn, a, b):
    return _norm(np.frompyfunc(fn, 2, 1)(_oin(a), _oin(b)))


# ------------------------------------------------------------------ linalg
class _Linalg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def _stack(a, f, outnd):
        a = _A(a)
        if a.ndim < 2:
            raise np.linalg.LinAlgError("%d-dimensional array given. Array must be at least two-dimensional" % a.ndim)
        if a.shape[-1] != a.shape[-2]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        if a.ndim == 2:
            return f(_oin(a))
        out = [f(_oin(a[i])) if a.ndim == 3 else _Linalg._stack(a[i], f, outnd) for i in range(len(a))]
        return array(out)

    @staticmethod
    def _det(m):
        n = len(m)
        if n == 0:
            return f64(1.0)
        if n == 1:
            return _n(m[0, 0])
        if n == 2:
            return _n(m[0, 0]) * m[1, 1] - _n(m[0, 1]) * m[1, 0]
        t = f64(0.0)
        for j in range(n):
            x = m[0, j]
            if not _sy(x) and x == 0:
                continue
            minor = np.delete(np.delete(m, 0, 0), j, 1)
            c = _n(x) * _Linalg._det(minor)
            t = t + c if j % 2 == 0 else t - c
        return t

    @staticmethod
    def _inv(m):
        n = len(m)
        d = _Linalg._det(m)
        if isinstance(d, S):
            if ENG.cur.sign_of(d.p) == 0:
                raise np.linalg.LinAlgError("Singular matrix")
        elif d == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        out = np.empty((n, n), dtype=object)
        # diagonal matrices: element-wise inverse keeps the terms small
        if all((not _sy(m[i, j])) and m[i, j] == 0 for i in range(n) for j in range(n) if i != j):
            for i in range(n):
                for j in range(n):
                    out[i, j] = k_div(1.0, m[i, i]) if i == j else f64(0.0)
            return out.view(SymArray)
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(m, j, 0), i, 1)
                c = _Linalg._det(minor)
                out[i, j] = k_div(c if (i + j) % 2 == 0 else -c, d)
        return out.view(SymArray)

    @staticmethod
    def det(a):
        return _Linalg._stack(a, _Linalg._det, 0)

    @staticmethod
    def inv(a):
        return _Linalg._stack(a, _Linalg._inv, 2)

    pinv = inv

    @staticmethod
    def slogdet(a):
        d = _Linalg.det(a)
        return sign(d), log(absolute(d))

    @staticmethod
    def solve(a, b):
        return h_matmul(_Linalg.inv(a), b)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2, 'fro', 1, np.inf):
            raise Unsupported("norm order")
        x = _A(x)
        if ord == 1:
            return reduce_('add', absolute(x), axis, keepdims)
        if ord == np.inf:
            return reduce_('maximum', absolute(x), axis, keepdims)
        return sqrt(reduce_('add', multiply(x, x), axis, keepdims))

    @staticmethod
    def cholesky(a):
        m = _oin(_A(a))
        n = len(m)
        L = np.empty((n, n), dtype=object)
        L[...] = f64(0.0)
        for i in range(n):
            for j in range(i + 1):
                s = _n(m[i, j])
                for q in range(j):
                    s = s - L[i, q] * L[j, q]
                if i == j:
                    if not builtins.bool(s > 0):
                        raise np.linalg.LinAlgError("Matrix is not positive definite")
                    L[i, j] = sym.s_sqrt(s)
                else:
                    L[i, j] = k_div(s, L[j, j])
        return L.view(SymArray)

    @staticmethod
    def multi_dot(arrays, **k):
        r = arrays[0]
        for a in arrays[1:]:
            r = h_dot(r, a)
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported("numpy.linalg.%s" % n)


# ------------------------------------------------------------------ dtype-like names and finfo
class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, S))


class float64(metaclass=_FMeta):
    _vf_float = True
    dtype = np.dtype('float64')

    def __new__(cls, x=0.0):
        if isinstance(x, (S,)):
            return x
        if isinstance(x, np.ndarray):
            return x.astype(float)
        if isinstance(x, B):
            return f64(int(x))
        return f64(x)


def finfo(dt=float):
    return np.finfo(np.float64)


def issubdtype(a, b):
    def m(x):
        if x is float64 or getattr(x, '_vf_float', False) or x == np.dtype(object):
            return np.float64
        return x
    return np.issubdtype(m(a), m(b))


def isscalar(x):
    return isinstance(x, (S, B)) or np.isscalar(x)


def iscomplexobj(x):
    return False


def isrealobj(x):
    return True


def vectorize(pyfunc, *a, **k):
    def g(*args):
        r = np.frompyfunc(pyfunc, len(args), 1)(*[_oin(_A(x)) for x in args])
        return _norm(r)
    return g


def apply_along_axis(f, axis, a, *args, **k):
    a = _A(a)
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = [f(wrap(b[ix]), *args, **k) for ix in np.ndindex(*b.shape[:-1])]
    r = array(out)
    return r.reshape(b.shape[:-1] + r.shape[1:])


def fromiter(it, dtype=float, count=-1):
    return array(list(it), dtype)


def may_share_memory(a, b):
    return np.may_share_memory(_plain(a), _plain(b))


def piecewise(*a, **k):
    raise Unsupported("np.piecewise")


class SymNumpy(types.ModuleType):
    def __init__(self, rng):
        super().__init__('numpy')
        self.random = rng
        self.linalg = _Linalg('numpy.linalg')
        for n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'array',
                  'asarray', 'linspace', 'arange', 'eye', 'identity', 'concatenate', 'vstack', 'hstack', 'stack',
                  'column_stack', 'dstack', 'float64', 'finfo', 'issubdtype', 'isscalar', 'vectorize', 'fromiter',
                  'apply_along_axis', 'may_share_memory', 'piecewise', 'iscomplexobj', 'isrealobj'):
            setattr(self, n, globals()[n])
        self.asanyarray = self.ascontiguousarray = self.asfarray = asarray
        self.float_ = self.double = self.float32 = self.longdouble = float64
        for n, f in UFS.items():
            setattr(self, n, f)
        for n, f in _FUNCS.items():
            setattr(self, n, f)
        self.ndarray = np.ndarray

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(np, n)       # AttributeError for names numpy does not have (np.int, ...)
        if isinstance(v, np.ufunc):
            def bad(*a, **k):
                if any(isinstance(x, (S, B)) or (isinstance(x, np.ndarray) and x.dtype == object) for x in a):
                    raise Unsupported("numpy.%s on symbolic values" % n)
                return wrap(v(*a, **k))
            return bad
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ in (
                'function', '_ArrayFunctionDispatcher', 'builtin_function_or_method'):
            def g(*a, **k):
                try:
                    return wrap(v(*a, **k))
                except TypeError as e:
                    if any(isinstance(x, (S, B)) or (isinstance(x, np.ndarray) and x.dtype == object) for x in a):
                        raise Unsupported("numpy.%s on symbolic values: %s" % (n, e))
                    raise
            g.__name__ = n
            return g
        return v
