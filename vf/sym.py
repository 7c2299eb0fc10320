"""Symbolic reals for executing the repository's Python on an SMT solver.

A value `S` is a Laurent polynomial with rational coefficients over *atoms*:
  V  an input (a solver variable with a range)
  D  a named positive sum (a denominator, or the argument of a logarithm); D = its definition
  E  exp(polynomial)   (> 0; products of E atoms are merged, so each monomial holds at most one)
  L  log(atom)
  R  sqrt(polynomial)  (>= 0, R*R = polynomial)
  F  another unary function of a polynomial (sin, cos, gamma): uninterpreted for the solver
Constants never stay inside an S: an S without atoms collapses to np.float64.
+-inf and nan are concrete np.float64 values, never S.
`B` is a lazy boolean formula over polynomial comparisons; bool(B) forks the execution.
"""
import math
from fractions import Fraction
import mpmath as MP
import numpy as np

MP.mp.dps = 60

NEG, ZERO, POS = 1, 2, 4
ANY = 7


class Unsupported(Exception):
    """The symbolic engine met something it cannot encode (never a verdict)."""


class PathEnd(BaseException):
    """Steers the exploration: the current path is infeasible or cut."""


# ------------------------------------------------------------------ engine hook
class _Engine:
    cur = None      # the running Path (vf.explore.Path)


ENG = _Engine()

_snap_cache = {}


def frac(x):
    """A float constant as a rational: exact when it is short, else 13 significant digits."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = _snap_cache.get(x)
    if r is not None:
        return r
    if not math.isfinite(x):
        raise Unsupported("non-finite constant")
    ex = Fraction(x)
    if ex.denominator <= 1 << 24 and abs(ex.numerator) < 1 << 40:
        r = ex
    else:
        r = None
        for lim in (1000, 10 ** 6, 10 ** 9):
            c = ex.limit_denominator(lim)
            if c != 0 and abs(c - ex) <= abs(ex) * Fraction(4, 10 ** 16):
                r = c
                break
        if r is None:
            r = Fraction("%.13e" % x)
    if len(_snap_cache) > 100000:
        _snap_cache.clear()
    _snap_cache[x] = r
    return r


_BIG = 10 ** 22


def _r12(c):
    if c.denominator <= 10 ** 6:
        return c
    return Fraction("%.9e" % float(c))


def _trim(c):
    if c.denominator > _BIG and abs(c.numerator) > _BIG:
        return Fraction("%.17e" % float(c)) if 1e-290 < abs(float(c)) < 1e290 else c
    return c


CANCEL = Fraction(1, 10 ** 11)

# ------------------------------------------------------------------ polynomials (dict mono -> Fraction)
ONE = ()


def pconst(c):
    c = frac(c)
    return {ONE: c} if c else {}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if s == 0 or abs(s) <= CANCEL * abs(o):
                del r[m]
            else:
                r[m] = _trim(s)
    return r


def pscale(p, k):
    if k == 1:
        return p
    if k == 0:
        return {}
    return {m: _trim(c * k) for m, c in p.items()}


def pneg(p):
    return {m: -c for m, c in p.items()}


def psub(p, q):
    return padd(p, pneg(q))


class Space:
    """Atom table of one path."""

    def __init__(self):
        self.kind, self.data, self.sign, self.name = [], [], [], []
        self.index = {}
        self.Es = []
        self.nz = set()          # V atoms known to be non-zero on this path
        self.facts = {}          # primitive polynomial -> sign mask learnt on this path

    def _new(self, kind, data, sign, name, key=None):
        i = len(self.kind)
        self.kind.append(kind)
        self.data.append(data)
        self.sign.append(sign)
        self.name.append(name)
        if key is not None:
            self.index[key] = i
        return i

    def var(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        s = ANY
        if lo is not None:
            if lo > 0 or (lo == 0 and lo_open):
                s &= POS
            elif lo == 0:
                s &= POS | ZERO
        if hi is not None:
            if hi < 0 or (hi == 0 and hi_open):
                s &= NEG
            elif hi == 0:
                s &= NEG | ZERO
        return self._new('V', (lo, hi, lo_open, hi_open), s, name)

    # -- sign of an atom / monomial / polynomial by table look-up only
    def asign(self, a):
        s = self.sign[a]
        if a in self.nz:
            s &= ~ZERO
        return s

    def msign(self, m):
        neg = False
        zero = False
        for a, e in m:
            s = self.asign(a)
            if e % 2 == 0:
                if s & ZERO:
                    zero = True
                continue
            if s & ZERO:
                zero = True
                s &= ~ZERO
            if s == NEG:
                neg = not neg
            elif s == POS:
                pass
            elif s == 0:
                return ZERO
            else:
                return ANY
        r = NEG if neg else POS
        return r | ZERO if zero else r

    def psign(self, p):
        s = self._psign(p)
        if self.facts and s & (s - 1) and len(p) > 1:
            key, flip = self.fkey(p)
            f = self.facts.get(key)
            if f is not None:
                if flip:
                    f = (f & ZERO) | (NEG if f & POS else 0) | (POS if f & NEG else 0)
                s &= f
        return s

    def fkey(self, p):
        m0 = min(p)
        k = p[m0]
        return frozenset((m, _r12(c / k)) for m, c in p.items()), k < 0

    def learn(self, op, p):
        """record p op 0 as a fact of this path"""
        mask = {'>': POS, '>=': POS | ZERO, '==': ZERO, '!=': POS | NEG}[op]
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] % 2 == 1:
                a = m[0][0]
                if c < 0:
                    mask = (mask & ZERO) | (NEG if mask & POS else 0) | (POS if mask & NEG else 0)
                if self.sign[a] & mask:
                    self.sign[a] &= mask
            return
        key, flip = self.fkey(p)
        if flip:
            mask = (mask & ZERO) | (NEG if mask & POS else 0) | (POS if mask & NEG else 0)
        o = self.facts.get(key, ANY)
        if o & mask:
            self.facts[key] = o & mask

    def _psign(self, p):
        if not p:
            return ZERO
        out = 0
        strict = 0
        for m, c in p.items():
            s = self.msign(m)
            if s == ANY:
                return self._psign2(p)
            if c < 0:
                s = (s & ZERO) | (NEG if s & POS else 0) | (POS if s & NEG else 0)
            out |= s & (NEG | POS)
            if not s & ZERO:
                strict |= s
        if out == (NEG | POS):
            return self._psign2(p)
        if out == 0:
            return ZERO
        return out if strict else out | ZERO

    def _bnd(self, a, e):
        """interval of atom**e from declared ranges (None = unbounded)"""
        k = self.kind[a]
        if k == 'V':
            lo, hi = self.data[a][0], self.data[a][1]
            lo = None if lo is None else float(lo)
            hi = None if hi is None else float(hi)
        elif k == 'F' and self.data[a][0] in ('sin', 'cos'):
            lo, hi = -1.0, 1.0
        elif self.sign[a] == POS or self.sign[a] == POS | ZERO:
            lo, hi = 0.0, None
        else:
            return None, None
        if e == 1:
            return lo, hi
        if e > 1:
            if lo is not None and lo >= 0:
                return lo ** e, (None if hi is None else hi ** e)
            if e % 2 == 0:
                if lo is None or hi is None:
                    return 0.0, None
                m = max(abs(lo), abs(hi)) ** e
                return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** e), m
            return (None if lo is None else lo ** e), (None if hi is None else hi ** e)
        # negative exponent: positive atoms only
        if lo is None or lo < 0:
            return None, None
        e = -e
        return (0.0 if hi is None else hi ** -e if hi > 0 else None), (None if lo <= 0 else lo ** -e)

    def _psign2(self, p):
        """interval bound of p from the declared ranges"""
        lo = hi = 0.0
        for m, c in p.items():
            c = float(c)
            ml, mh = 1.0, 1.0
            for a, e in m:
                bl, bh = self._bnd(a, e)
                if (bl is None and bh is None):
                    ml, mh = None, None
                    break
                # product of intervals, handle unbounded simply
                if ml is not None and mh is not None and bl is not None and bh is not None:
                    t = (ml * bl, ml * bh, mh * bl, mh * bh)
                    ml, mh = min(t), max(t)
                elif ml is not None and ml >= 0 and bl is not None and bl >= 0:
                    ml, mh = ml * bl, None
                else:
                    ml, mh = None, None
                    break
            if c < 0:
                ml, mh = (None if mh is None else mh * c), (None if ml is None else ml * c)
            else:
                ml, mh = (None if ml is None else ml * c), (None if mh is None else mh * c)
            lo = None if lo is None or ml is None else lo + ml
            hi = None if hi is None or mh is None else hi + mh
            if lo is None and hi is None:
                return ANY
        if lo is not None and lo > 1e-12:
            return POS
        if hi is not None and hi < -1e-12:
            return NEG
        return ANY

    # -- multiplication with E-merging and R reduction
    def mmul(self, m1, m2):
        """product of two monomials -> (poly) or a plain mono (fast path)"""
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            n = d.get(a, 0) + e
            if n:
                d[a] = n
            else:
                del d[a]
        return tuple(sorted(d.items()))

    def fix(self, m):
        """None when the monomial is already normal, else the equal polynomial"""
        es = None
        rs = None
        kind = self.kind
        for a, e in m:
            k = kind[a]
            if k == 'E':
                if e != 1 or es is not None:
                    es = True if es is not None or e != 1 else a
                    if es is not True:
                        es = True
                else:
                    es = a
            elif k == 'R' and (e >= 2 or e < 0):
                rs = True
        if es is not True and rs is None:
            return None
        rest = []
        ex = {}
        extra = None
        for a, e in m:
            k = kind[a]
            if k == 'E':
                ex = padd(ex, pscale(self.data[a], Fraction(e)))
            elif k == 'R' and (e >= 2 or e < 0):
                h = e // 2            # floor: e = 2h + r, r in {0,1}
                if e - 2 * h:
                    rest.append((a, 1))
                f = self.ppow(self.data[a], h)
                extra = f if extra is None else self.pmul(extra, f)
            else:
                rest.append((a, e))
        p = {tuple(rest): Fraction(1)}
        if ex:
            p = self.pmul(p, self.exp(ex))
        if extra is not None:
            p = self.pmul(p, extra)
        return p

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) == 1 and ONE in p:
            return pscale(q, p[ONE])
        if len(q) == 1 and ONE in q:
            return pscale(p, q[ONE])
        if len(p) > 1 or len(q) > 1:
            r = self._cancel(p, q)
            if r is not None:
                return r
        r = {}
        over = []
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                c = c1 * c2
                f = self.fix(m)
                if f is not None:
                    over.append(pscale(f, c))
                    continue
                o = r.get(m)
                if o is None:
                    r[m] = _trim(c)
                else:
                    s = o + c
                    if s == 0 or abs(s) <= CANCEL * abs(o):
                        del r[m]
                    else:
                        r[m] = _trim(s)
        for f in over:
            r = padd(r, f)
        return r

    def _cancel(self, p, q):
        """(c*def(D)) * (mono with D^-k): cancel one power of D"""
        for s, t in ((p, q), (q, p)):
            if len(t) != 1 or len(s) < 2:
                continue
            (m, c), = t.items()
            for a, e in m:
                if e < 0 and self.kind[a] == 'D' and len(self.data[a]) == len(s):
                    k = self.propor(s, self.data[a])
                    if k is not None:
                        km, kc = k
                        m2 = self.mmul(self.mmul(m, ((a, 1),)), km)
                        return self.pmul({m2: Fraction(1)}, pconst(c * kc)) if self.fix(m2) is None \
                            else pscale(self.fix(m2), c * kc)
        return None

    def propor(self, p, d):
        """(mono, c) with p = c*mono*d, or None (mono only through shared factors)"""
        if len(p) != len(d):
            return None
        if p.keys() == d.keys():
            m0 = next(iter(d))
            k = p[m0] / d[m0]
            for m in d:
                if abs(p[m] - k * d[m]) > CANCEL * abs(p[m]):
                    return None
            return ONE, k
        return None

    def ppow(self, p, n):
        if n == 0:
            return {ONE: Fraction(1)}
        if n < 0:
            return self.ppow(self.pinv(p), -n)
        r = None
        b = p
        while n:
            if n & 1:
                r = b if r is None else self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # -- exp / log / sqrt
    def exp(self, p):
        """exp of a polynomial as a polynomial (one monomial)"""
        c0 = p.get(ONE, Fraction(0))
        out = {ONE: Fraction(1)}
        rest = {}
        for m, c in p.items():
            if m == ONE:
                continue
            if len(m) == 1 and m[0][1] == 1 and self.kind[m[0][0]] == 'L' and (2 * c).denominator == 1:
                a = self.data[m[0][0]]            # the atom under the log
                if c.denominator == 1:
                    f = {((a, int(c)),): Fraction(1)}
                    g = self.fix(((a, int(c)),))
                    out = self.pmul(out, f if g is None else g)
                else:
                    s = self.sqrt({((a, 1),): Fraction(1)})
                    out = self.pmul(out, self.ppow(s, int(2 * c)))
            else:
                rest[m] = c
        if c0:
            x = float(c0)
            if x < -700 or x > 700:
                raise Unsupported("exp constant out of range %g" % x)
            out = pscale(out, frac(math.exp(x)))
        if rest:
            key = ('E', frozenset(rest.items()))
            a = self.index.get(key)
            if a is None:
                for b in self.Es:
                    if self._similar(self.data[b], rest) and self.iszero(psub(self.data[b], rest)):
                        a = b
                        break
                if a is None:
                    a = self._new('E', rest, POS, None, key)
                    self.Es.append(a)
                else:
                    self.index[key] = a
            m = ((a, 1),)
            out = self.pmul(out, {m: Fraction(1)})
        return out

    def _similar(self, p, q):
        """cheap filter before an exact comparison: equal at a random point"""
        env = ENG.cur.probe_env() if ENG.cur is not None else None
        if env is None:
            return True
        try:
            x, y = self.peval(p, env), self.peval(q, env)
        except Exception:
            return True
        return abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))

    def split(self, p):
        """p = c * mono * rest with rest primitive (leading coefficient 1, no common factor)"""
        dicts = [dict(m) for m in p]
        atoms = set().union(*dicts)
        com = {a: min(d.get(a, 0) for d in dicts) for a in atoms}
        com = {a: e for a, e in com.items() if e}
        com = {a: e for a, e in com.items() if self.kind[a] != 'E' and not (self.kind[a] == 'R')}
        mono = tuple(sorted(com.items()))
        inv = tuple((a, -e) for a, e in mono)
        rest = {}
        for m, c in p.items():
            rest[self.mmul(m, inv)] = c
        lead = rest[min(rest)]
        k = abs(lead)
        rest = pscale(rest, 1 / k)
        return k, mono, rest

    def datom(self, q):
        """the atom for a positive multi-term polynomial q"""
        key = ('D', frozenset(q.items()))
        a = self.index.get(key)
        if a is None:
            a = self._new('D', q, POS, None, key)
        return a

    def log(self, p):
        """log of a polynomial known to be > 0, as a polynomial"""
        if len(p) == 1:
            (m, c), = p.items()
            out = pconst(math.log(float(c))) if c > 0 else None
            if out is None:
                # sign carried by negative atoms: go through a D atom
                return self._latom(self.datom(p))
            for a, e in m:
                k = self.kind[a]
                if k == 'E':
                    out = padd(out, pscale(self.data[a], Fraction(e)))
                elif k == 'R':
                    out = padd(out, pscale(self.log(self.data[a]), Fraction(e, 2)))
                elif self.asign(a) == POS:
                    out = padd(out, pscale(self._latom(a), Fraction(e)))
                else:
                    return self._latom(self.datom(p))
            return out
        k, mono, rest = self.split(p)
        if all(self.asign(a) == POS for a, _ in mono):
            out = self.log({mono: k}) if mono else pconst(math.log(float(k)))
            return padd(out, self._latom(self.datom(rest)))
        return self._latom(self.datom(p))

    def _latom(self, a):
        key = ('L', a)
        i = self.index.get(key)
        if i is None:
            i = self._new('L', a, ANY, None, key)
        return {((i, 1),): Fraction(1)}

    def sqrt(self, p):
        """sqrt of a polynomial known to be >= 0, as a polynomial"""
        if not p:
            return {}
        c0 = Fraction(1)
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0:
                out = {ONE: frac(_sqrtf(c))}
                rem = []
                for a, e in m:
                    h, r = divmod(e, 2)
                    k = self.kind[a]
                    s = self.asign(a)
                    if k == 'E' and e == 1:
                        out = self.pmul(out, self.exp(pscale(self.data[a], Fraction(1, 2))))
                        continue
                    if not s & NEG:
                        if h:
                            out = self.pmul(out, {((a, h),): Fraction(1)})
                        if r:
                            rem.append((a, 1))
                    elif not s & POS and r == 0:
                        out = self.pmul(out, {((a, h),): Fraction(-1 if h % 2 else 1)})
                    else:
                        rem.append((a, e))
                if not rem:
                    return out
                p = {tuple(rem): Fraction(1)}
                return self.pmul(out, self._ratom(p))
        # multi-term: pull out a square rational content
        k, mono, rest = self.split(p)
        even = tuple((a, e) for a, e in mono if e % 2 == 0 and not self.asign(a) & NEG)
        if even:
            rest2 = {self.mmul(m, tuple((a, -e) for a, e in even)): c for m, c in p.items()}
            k2 = abs(rest2[min(rest2)])
            rest2 = pscale(rest2, 1 / k2)
            r = self._ratom(rest2)
            return self.pmul(self.pmul({tuple((a, e // 2) for a, e in even): Fraction(1)}, r),
                             pconst(frac(_sqrtf(k2))))
        k2 = abs(p[min(p)])
        r = self._ratom(pscale(p, 1 / k2))
        return pscale(r, frac(_sqrtf(k2)))

    def _ratom(self, p):
        key = ('R', frozenset(p.items()))
        i = self.index.get(key)
        if i is None:
            # a perfect square?  (sqrt((x-y)^2) is left to the solver through R*R = p)
            s = self.psign(p)
            i = self._new('R', p, POS if s == POS else POS | ZERO, None, key)
        return {((i, 1),): Fraction(1)}

    def func(self, fn, p):
        key = ('F', fn, frozenset(p.items()))
        i = self.index.get(key)
        if i is None:
            i = self._new('F', (fn, p), POS if fn in ('gamma',) else ANY, None, key)
        return {((i, 1),): Fraction(1)}

    # -- inverse of a polynomial known to be non-zero (signs decided by the caller)
    def pinv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            mi = tuple((a, -e) for a, e in m)
            f = self.fix(mi)
            r = {mi: Fraction(1)} if f is None else f
            return pscale(r, 1 / c)
        k, mono, rest = self.split(p)
        s = self.psign(rest)
        if s == NEG:
            a = self.datom(pneg(rest))
            sg = -1
        elif s == POS:
            a = self.datom(rest)
            sg = 1
        else:
            st = ENG.cur.sign_of(rest)      # may fork; never 0 here unless the caller let it
            if st == 0:
                raise Unsupported("inverse of zero")
            a = self.datom(rest if st > 0 else pneg(rest))
            sg = st
        mi = tuple((b, -e) for b, e in mono)
        f = self.fix(mi)
        r = {mi: Fraction(1)} if f is None else f
        r = self.pmul(r, {((a, -1),): Fraction(1)})
        return pscale(r, Fraction(sg) / k)

    # -- clearing denominators and expanding D atoms
    def clear(self, p, expand=True, limit=4000):
        """(q, flip) with sign(p) = sign(q): negative powers cleared, D atoms expanded."""
        for _ in range(60):
            low = {}
            for m in p:
                for a, e in m:
                    if e < 0 and e < low.get(a, 0):
                        low[a] = e
            if low:
                mult = []
                for a, e in low.items():
                    k = -e
                    if self.asign(a) & NEG and k % 2:
                        k += 1
                    mult.append((a, k))
                mult = tuple(sorted(mult))
                r = {}
                for m, c in p.items():
                    mm = self.mmul(m, mult)
                    f = self.fix(mm)
                    r = padd(r, {mm: c} if f is None else pscale(f, c))
                p = r
                continue
            if not expand:
                return p
            ds = {}
            for m in p:
                for a, e in m:
                    if self.kind[a] == 'D':
                        ds[a] = max(ds.get(a, 0), e)
            if not ds:
                return p
            a = max(ds)              # latest definition first
            d = self.data[a]
            r = {}
            pows = {0: {ONE: Fraction(1)}}
            for k in range(1, ds[a] + 1):
                pows[k] = self.pmul(pows[k - 1], d)
            groups = {}
            for m, c in p.items():
                e = 0
                rest = []
                for b, f in m:
                    if b == a:
                        e = f
                    else:
                        rest.append((b, f))
                groups.setdefault(e, {})[tuple(rest)] = c
            for e, g in groups.items():
                r = padd(r, self.pmul(g, pows[e]) if e else g)
                if len(r) > limit:
                    return None
            p = r
        return None

    def iszero(self, p):
        if not p:
            return True
        if len(p) == 1:
            return False
        has_d = any(self.kind[a] in 'D' or e < 0 for m in p for a, e in m)
        if not has_d:
            return False
        q = self.clear(p)
        return q is not None and not q

    def constval(self, p):
        """c when p is identically the constant c (after clearing), else None"""
        if not p:
            return Fraction(0)
        if len(p) == 1 and ONE in p:
            return p[ONE]
        if not any(self.kind[a] == 'D' for m in p for a, e in m):
            return None
        env = ENG.cur.probe_env() if ENG.cur is not None else None
        if env is None:
            return None
        try:
            v = self.peval(p, env)
            env2 = ENG.cur.probe_env(1)
            v2 = self.peval(p, env2)
        except Exception:
            return None
        if not (math.isfinite(v) and math.isfinite(v2)) or abs(v - v2) > 1e-9 * (1 + abs(v)):
            return None
        c = Fraction(v).limit_denominator(1000)
        if abs(float(c) - v) > 1e-9 * (1 + abs(v)):
            return None
        return c if self.iszero(psub(p, pconst(c))) else None

    # -- numeric evaluation
    def aeval(self, a, env):
        v = env.get(a)
        if v is not None:
            return v
        k = self.kind[a]
        if k == 'V':
            v = env.draw(a)
        elif k == 'D':
            v = self.peval(self.data[a], env)
        elif k == 'E':
            x = self.peval(self.data[a], env)
            v = math.exp(x) if x < 700 else math.inf
        elif k == 'L':
            x = self.aeval(self.data[a], env)
            v = math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        elif k == 'R':
            x = self.peval(self.data[a], env)
            v = math.sqrt(x) if x >= 0 else (0.0 if x > -1e-12 else math.nan)
        elif k == 'F':
            x = self.peval(self.data[a][1], env)
            v = FUNCS[self.data[a][0]](x)
        env[a] = v
        return v

    def peval(self, p, env):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for a, e in m:
                v = self.aeval(a, env)
                if e == 1:
                    x *= v
                else:
                    if v == 0 and e < 0:
                        return math.nan
                    x *= v ** e
            t += x
        return t

    def peval_mag(self, p, env):
        """(value, magnitude of the terms, grown by the cancellation inside the definitions they use)"""
        t = mag = 0.0
        kind = self.kind
        for m, c in p.items():
            x = float(c)
            r = 1.0
            for a, e in m:
                v = self.aeval(a, env)
                if v == 0 and e < 0:
                    return math.nan, 1.0
                x *= v if e == 1 else v ** e
                if kind[a] != 'V':
                    r += abs(e) * self.arel(a, env)
            t += x
            mag += abs(x) * r
        return t, mag

    def mpeval(self, p, env):
        """the same in 60 digits: (value, magnitude of the terms)"""
        t = mag = MP.mpf(0)
        for m, c in p.items():
            x = MP.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else MP.mpf(c)
            for a, e in m:
                x *= self.mpatom(a, env) ** e
            t += x
            mag += abs(x)
        return t, mag

    def mpatom(self, a, env):
        v = env.mp.get(a)
        if v is not None:
            return v
        k = self.kind[a]
        if k == 'V':
            v = MP.mpf(self.aeval(a, env))
        elif k == 'D':
            v = self.mpeval(self.data[a], env)[0]
        elif k == 'E':
            v = MP.exp(self.mpeval(self.data[a], env)[0])
        elif k == 'L':
            v = MP.log(self.mpatom(self.data[a], env))
        elif k == 'R':
            v = MP.sqrt(self.mpeval(self.data[a], env)[0])
        else:
            v = MP.mpf(self.aeval(a, env))
        if not isinstance(v, MP.mpf) or not MP.isfinite(v):
            raise ValueError("not a real number")
        env.mp[a] = v
        return v

    def arel(self, a, env):
        """how much larger than the unit error the relative error of an atom may be"""
        r = env.rel.get(a)
        if r is None:
            k = self.kind[a]
            env.rel[a] = 0.0
            if k == 'V':
                return 0.0
            try:
                if k == 'L':
                    r = self.arel(self.data[a], env) / max(1e-9, abs(self.aeval(a, env)))
                else:
                    v, m = self.peval_mag(self.data[a][1] if k == 'F' else self.data[a], env)
                    d = max(0.0, m - abs(v))
                    if k in 'DR':
                        r = d / abs(v) if v else 1e12
                    elif k == 'E':
                        r = d
                    else:
                        r = d / max(1e-9, abs(self.aeval(a, env)))
            except (OverflowError, ZeroDivisionError, ValueError):
                r = 1e12
            env.rel[a] = r = min(r, 1e12) if r == r else 1e12
        return r

    def atoms_of(self, p, acc=None):
        """all atoms p depends on, through definitions"""
        acc = set() if acc is None else acc
        todo = [a for m in p for a, _ in m]
        while todo:
            a = todo.pop()
            if a in acc:
                continue
            acc.add(a)
            k = self.kind[a]
            if k in 'DER':
                todo.extend(b for m in self.data[a] for b, _ in m)
            elif k == 'L':
                todo.append(self.data[a])
            elif k == 'F':
                todo.extend(b for m in self.data[a][1] for b, _ in m)
        return acc

    def show(self, p):
        if not p:
            return "0"
        out = []
        for m, c in list(p.items())[:12]:
            t = [str(c) if c.denominator < 10 ** 6 else "%.6g" % float(c)] if (c != 1 or not m) else []
            for a, e in m:
                n = self.ashow(a)
                t.append(n if e == 1 else "%s^%d" % (n, e))
            out.append("*".join(t))
        return " + ".join(out) + (" + ..." if len(p) > 12 else "")

    def ashow(self, a):
        k = self.kind[a]
        if k == 'V':
            return self.name[a]
        if k == 'E':
            return "exp(%s)" % self.show(self.data[a])
        if k == 'D':
            return "(%s)" % self.show(self.data[a])
        if k == 'L':
            return "log %s" % self.ashow(self.data[a])
        if k == 'R':
            return "sqrt(%s)" % self.show(self.data[a])
        return "%s(%s)" % (self.data[a][0], self.show(self.data[a][1]))


FUNCS = {'sin': math.sin, 'cos': math.cos, 'gamma': math.gamma, 'tanh': math.tanh, 'atan': math.atan,
         'erf': math.erf}


def _sqrtf(c):
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return math.sqrt(float(c))


# ------------------------------------------------------------------ booleans
class B:
    """lazy formula: ('cmp', op, poly) with op in '>', '>=', '==', '!=' against 0; 'and','or','not'"""
    __slots__ = ('op', 'args', '_z')
    __array_ufunc__ = None

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._z = None

    def __bool__(self):
        return ENG.cur.fork(self)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        return b_not(self ^ o)

    def __ne__(self, o):
        return self ^ o
    __hash__ = object.__hash__

    # arithmetic on booleans concretises (forks)
    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return o * int(self)
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __neg__(self):
        return -int(self)

    def __pow__(self, o):
        return int(self) ** o

    shape = ()
    ndim = 0
    size = 1

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return bool(self)

    def flatten(self):
        from vf import symnp
        return symnp.arr([self])

    ravel = flatten

    def reshape(self, *s):
        from vf import symnp
        return symnp.arr([self]).reshape(*s)

    def astype(self, *a, **k):
        return int(self)

    def __repr__(self):
        if self.op in ('>', '>=', '==', '!='):
            return "[%s %s 0]" % (ENG.cur.space.show(self.args), self.op) if ENG.cur else "B"
        return "%s%r" % (self.op, tuple(self.args))


def _isb(x):
    return isinstance(x, (bool, np.bool_))


def b_and(*xs):
    out = []
    for x in xs:
        if not isinstance(x, B):
            if not x:
                return False
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B('and', tuple(out))


def b_or(*xs):
    out = []
    for x in xs:
        if not isinstance(x, B):
            if x:
                return True
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B('or', tuple(out))


def b_not(x):
    if not isinstance(x, B):
        return not x
    if x.op == 'not':
        return x.args[0]
    if x.op == '>':
        return B('>=', pneg(x.args))
    if x.op == '>=':
        return B('>', pneg(x.args))
    if x.op == '==':
        return B('!=', x.args)
    if x.op == '!=':
        return B('==', x.args)
    if x.op == 'and':
        return b_or(*[b_not(a) for a in x.args])
    if x.op == 'or':
        return b_and(*[b_not(a) for a in x.args])
    return B('not', (x,))


def cmp0(op, p):
    """the formula `p op 0`, folded when the sign table already decides it"""
    sp = ENG.cur.space
    if not p:
        return op in ('>=', '==')
    if len(p) == 1 and ONE in p:
        c = p[ONE]
        return {'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    p = _unlog(sp, p)
    if not p:
        return op in ('>=', '==')
    if len(p) == 1 and ONE in p:
        c = p[ONE]
        return {'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
    s = sp.psign(p)
    if s != ANY:
        if op == '>':
            if s == POS:
                return True
            if not s & POS:
                return False
        elif op == '>=':
            if not s & NEG:
                return True
            if s == NEG:
                return False
        elif op == '==':
            if not s & ZERO:
                return False
            if s == ZERO:
                return True
        else:
            if not s & ZERO:
                return True
            if s == ZERO:
                return False
    if len(p) > 1 and any(sp.kind[a] == 'D' or e < 0 for m in p for a, e in m):
        q = sp.clear(p)
        if q is not None:
            if not q:
                return op in ('>=', '==')
            if len(q) <= 400:
                s = sp.psign(q)
                if s == POS:
                    return op in ('>', '>=', '!=')
                if s == NEG:
                    return op == '!='
                p = q
    # single monomial with one sign-carrying atom etc. is left to the solver
    return B(op, p)


def _unlog(sp, p):
    """sum of integer multiples of logs (+ an L-free rest) compared with 0 -> compare exp of it with 1"""
    logs = [m for m in p if any(sp.kind[a] == 'L' for a, _ in m)]
    if not logs:
        # exp(poly) vs const is left alone; but E-only differences of two terms can be compared in the exponent
        if len(p) == 2:
            return _unexp(sp, p)
        return p
    for m in logs:
        if len(m) != 1 or m[0][1] != 1 or (2 * p[m]).denominator != 1:
            return p
    rest = {m: c for m, c in p.items() if m not in logs}
    if ONE in rest and abs(float(rest[ONE])) > 600:
        return p
    num = {ONE: Fraction(1)}
    den = {ONE: Fraction(1)}
    half = any(p[m].denominator != 1 for m in logs)
    mul = 2 if half else 1
    for m in logs:
        c = int(p[m] * mul)
        a = sp.data[m[0][0]]
        f = {((a, abs(c)),): Fraction(1)}
        if c > 0:
            num = sp.pmul(num, f)
        else:
            den = sp.pmul(den, f)
    if rest:
        num = sp.pmul(num, sp.exp(pscale(rest, Fraction(mul))))
    r = psub(num, den)
    if len(r) == 2:
        return _unexp(sp, r)
    return r


def _unexp(sp, p):
    """c1*M*E(u) - c2*M*E(v) with only E atoms differing -> u - v + log(c1/c2)"""
    (m1, c1), (m2, c2) = p.items()
    if (c1 > 0) == (c2 > 0):
        return p
    d1 = [(a, e) for a, e in m1 if sp.kind[a] == 'E']
    d2 = [(a, e) for a, e in m2 if sp.kind[a] == 'E']
    r1 = tuple((a, e) for a, e in m1 if sp.kind[a] != 'E')
    r2 = tuple((a, e) for a, e in m2 if sp.kind[a] != 'E')
    if not d1 and not d2:
        return p
    if r1 != r2 or sp.msign(r1) != POS:
        return p
    if c1 < 0:
        d1, d2, c1, c2 = d2, d1, c2, c1
    u = sp.data[d1[0][0]] if d1 else {}
    v = sp.data[d2[0][0]] if d2 else {}
    return padd(psub(u, v), pconst(math.log(float(c1 / -c2))) if c1 != -c2 else {})


# ------------------------------------------------------------------ scalars
def mk(p):
    """polynomial -> S or np.float64"""
    if not p:
        return np.float64(0.0)
    if len(p) == 1 and ONE in p:
        return np.float64(float(p[ONE]))
    if len(p) > 1:
        sp = ENG.cur.space
        if any(e < 0 and sp.kind[a] == 'D' for m in p for a, e in m):
            p = _reduce(sp, p)
            if not p:
                return np.float64(0.0)
            if len(p) == 1 and ONE in p:
                return np.float64(float(p[ONE]))
    return S(p)


def _reduce(sp, p):
    """replace c*mono*def(D)/D groups by c*mono"""
    for _ in range(8):
        done = True
        ds = {}
        for m in p:
            for a, e in m:
                if e < 0 and sp.kind[a] == 'D':
                    ds[a] = ds.get(a, 0) + 1
        for a, n in ds.items():
            d = sp.data[a]
            if n < len(d):
                continue
            grp, rest = {}, {}
            for m, c in p.items():
                if any(b == a and e == -1 for b, e in m):
                    grp[sp.mmul(m, ((a, 1),))] = c
                else:
                    rest[m] = c
            if len(grp) == len(d):
                k = sp.propor(grp, d)
                if k is not None:
                    p = padd(rest, pconst(k[1]))
                    done = False
                    break
                # common monomial factor
                kk, mono, prim = sp.split(grp)
                if mono:
                    k = sp.propor(prim, d)
                    if k is not None:
                        p = padd(rest, {mono: kk * k[1]})
                        done = False
                        break
        if done:
            break
    if any(e < 0 and sp.kind[a] == 'D' for m in p for a, e in m):
        c = sp.constval(p)
        if c is not None:
            return pconst(c)
    return p


_NUM = (int, float, np.floating, np.integer, Fraction)


def lift(x):
    """number -> polynomial (finite only)"""
    if isinstance(x, S):
        return x.p
    if isinstance(x, B):
        return pconst(int(x))
    if isinstance(x, (bool, np.bool_)):
        return pconst(int(x))
    return pconst(x)


def is_num(x):
    return isinstance(x, _NUM) or isinstance(x, (bool, np.bool_))


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _arrish(o):
    return isinstance(o, (np.ndarray, list, tuple)) and not np.isscalar(o)


class S:
    __slots__ = ('p',)
    __array_ufunc__ = None

    def __init__(self, p):
        self.p = p

    # ---- sign decisions (fork)
    def _sign(self):
        return ENG.cur.sign_of(self.p)

    def _arr(self, o, fn):
        from vf import symnp
        return symnp.ewise2(fn, self, o)

    def __add__(self, o):
        if isinstance(o, S):
            return mk(padd(self.p, o.p))
        if isinstance(o, B):
            o = int(o)
        if is_num(o):
            if nonfinite(o):
                return np.float64(o)
            return mk(padd(self.p, pconst(o)))
        if _arrish(o):
            from vf import symnp
            return symnp.add(self, o)
        return NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return S(pneg(self.p))

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, S):
            return mk(psub(self.p, o.p))
        if isinstance(o, B):
            o = int(o)
        if is_num(o):
            if nonfinite(o):
                return np.float64(-o)
            return mk(psub(self.p, pconst(o)))
        if _arrish(o):
            from vf import symnp
            return symnp.subtract(self, o)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, B):
            o = int(o)
        if is_num(o):
            if nonfinite(o):
                return np.float64(o)
            return mk(psub(pconst(o), self.p))
        if _arrish(o):
            from vf import symnp
            return symnp.subtract(o, self)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, S):
            return mk(ENG.cur.space.pmul(self.p, o.p))
        if isinstance(o, B):
            o = int(o)
        if is_num(o):
            if nonfinite(o):
                if math.isnan(o):
                    return np.float64(math.nan)
                s = self._sign()
                return np.float64(math.nan) if s == 0 else np.float64(o * s)
            return mk(pscale(self.p, frac(o)))
        if _arrish(o):
            from vf import symnp
            return symnp.multiply(self, o)
        return NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, S):
            return _div(self, o)
        if isinstance(o, B):
            o = int(o)
        if is_num(o):
            if nonfinite(o):
                return np.float64(math.nan) if math.isnan(o) else np.float64(0.0)
            if o == 0:
                s = self._sign()
                return np.float64(math.nan) if s == 0 else np.float64(math.inf * s)
            return mk(pscale(self.p, 1 / frac(o)))
        if _arrish(o):
            from vf import symnp
            return symnp.divide(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, B):
            o = int(o)
        if is_num(o):
            return _div(o, self)
        if _arrish(o):
            from vf import symnp
            return symnp.divide(o, self)
        return NotImplemented

    def __pow__(self, o):
        if isinstance(o, S):
            return s_exp(s_log(self) * o)
        if _arrish(o):
            from vf import symnp
            return symnp.power(self, o)
        if isinstance(o, B):
            o = int(o)
        return s_pow(self, o)

    def __rpow__(self, o):
        if _arrish(o):
            from vf import symnp
            return symnp.power(o, self)
        if o == 0:
            s = self._sign()
            return np.float64(0.0 if s > 0 else (1.0 if s == 0 else math.inf))
        return s_exp(self * np.float64(_logc(o)))

    def __mod__(self, o):
        return self - s_floor(self / o) * o

    def __rmod__(self, o):
        return o - s_floor(o / self) * self

    def __floordiv__(self, o):
        if _arrish(o):
            from vf import symnp
            return symnp.floor_divide(self, o)
        return np.float64(s_floor(self / o))

    def __rfloordiv__(self, o):
        return np.float64(s_floor(o / self))

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __abs__(self):
        return s_abs(self)

    def __matmul__(self, o):
        raise Unsupported("matmul on a scalar")

    # ---- comparisons
    def _cmp(self, o, op):
        # returns self op o
        if isinstance(o, S):
            d = psub(self.p, o.p)
        elif isinstance(o, B) or isinstance(o, (bool, np.bool_)):
            d = psub(self.p, pconst(int(o)))
        elif is_num(o):
            if nonfinite(o):
                if math.isnan(o):
                    return op == '!='
                big = o > 0
                return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
            if abs(o) > 1e250:
                big = o > 0
                return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
            d = psub(self.p, pconst(o))
        else:
            return NotImplemented
        if op == '>':
            return cmp0('>', d)
        if op == '>=':
            return cmp0('>=', d)
        if op == '<':
            return cmp0('>', pneg(d))
        if op == '<=':
            return cmp0('>=', pneg(d))
        return cmp0(op, d)

    def _c(self, o, op):
        if _arrish(o):
            from vf import symnp
            return getattr(symnp, {'<': 'less', '<=': 'less_equal', '>': 'greater', '>=': 'greater_equal',
                                   '==': 'equal', '!=': 'not_equal'}[op])(self, o)
        return self._cmp(o, op)

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '>')

    def __ge__(self, o):
        return self._c(o, '>=')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._c(o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._c(o, '!=')

    def __hash__(self):
        return hash(frozenset(self.p.items()))

    def __bool__(self):
        r = cmp0('!=', self.p)
        return bool(r)

    def __int__(self):
        return ENG.cur.to_int(self)

    __index__ = None

    def __trunc__(self):
        return ENG.cur.to_int(self)

    def __floor__(self):
        return int(s_floor(self))

    def __ceil__(self):
        return -int(s_floor(-self))

    def __round__(self, n=None):
        if n is None or n == 0:
            return int(s_floor(self + 0.5))
        # any value that rounds like this one
        return self + ENG.cur.free("rounded", .5 * 10.0 ** -n)

    def __float__(self):
        return ENG.cur.realize(self)

    def __format__(self, spec):
        return ENG.cur.fmt(self, spec)

    def __str__(self):
        return ENG.cur.fmt(self, '') if ENG.cur is not None else "S"

    def __repr__(self):
        if ENG.cur is not None and ENG.cur.repr_tokens:
            return ENG.cur.fmt(self, 'r')
        return ENG.cur.space.show(self.p) if ENG.cur is not None else "S"

    # ---- numpy scalar look-alike
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype('float64')
    itemsize = 8
    nbytes = 8
    imag = 0.0

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def _a(self):
        from vf import symnp
        return symnp.arr0(self)

    def reshape(self, *s, **k):
        return self._a().reshape(*s, **k)

    def flatten(self, *a):
        return self._a().reshape(-1)

    def ravel(self, *a):
        return self._a().reshape(-1)

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, **k):
        if np.issubdtype(np.dtype(dt), np.integer):
            return int(self)
        return self

    def sum(self, *a, **k):
        return self

    mean = prod = max = min = squeeze = sum

    def all(self, *a, **k):
        return self != 0
    any = all

    def std(self, *a, **k):
        return np.float64(0.0)
    var = std

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def sqrt(self):
        return s_sqrt(self)

    def conjugate(self):
        return self

    def __getitem__(self, k):
        return self._a()[k]


def _logc(c):
    c = float(c)
    if c == math.e:
        return 1.0
    return math.log(c)


def _div(a, b):
    """numpy semantics of a / b with b an S"""
    sp = ENG.cur.space
    if nonfinite(a):
        if math.isnan(a):
            return np.float64(math.nan)
        s = ENG.cur.sign_of(b.p)
        if s == 0:
            return np.float64(a)          # inf / +0
        return np.float64(a * s)
    p = b.p
    # fast path: the divisor is non-zero by its sign table
    if len(p) == 1:
        (m, c), = p.items()
        bad = [x for x, e in m if sp.asign(x) & ZERO]
        for x in bad:
            if ENG.cur.is_zero({((x, 1),): Fraction(1)}):
                return _div0(a)
            sp.nz.add(x)
    else:
        s = sp.psign(p)
        if s & ZERO:
            if ENG.cur.sign_of(p) == 0:
                return _div0(a)
    inv = sp.pinv(p)
    if isinstance(a, S):
        return mk(sp.pmul(a.p, inv))
    return mk(pscale(inv, frac(a)))


def _div0(a):
    if isinstance(a, S):
        s = ENG.cur.sign_of(a.p)
    else:
        s = (a > 0) - (a < 0)
    return np.float64(math.nan) if s == 0 else np.float64(math.inf * s)


def s_pow(x, n):
    if not isinstance(x, S):
        with np.errstate(all='ignore'):
            return np.float64(x) ** n
    n = frac(n)
    sp = ENG.cur.space
    if n.denominator == 1:
        n = int(n)
        if n >= 0:
            return mk(sp.ppow(x.p, n))
        return np.float64(1.0) / mk(sp.ppow(x.p, -n))
    if n.denominator == 2:
        k = n.numerator
        r = s_sqrt(x)
        if not isinstance(r, S):
            with np.errstate(all='ignore'):
                return np.float64(r) ** k
        return s_pow(r, k)
    return s_exp(s_log(x) * np.float64(float(n)))


def log_only(x):
    """a combination of logarithms: its exp() is a product of powers, of ordinary size"""
    sp = ENG.cur.space
    return isinstance(x, S) and all(len(m) == 1 and m[0][1] == 1 and sp.kind[m[0][0]] == 'L' for m in x.p)


def s_exp(x):
    if not isinstance(x, S):
        with np.errstate(all='ignore'):
            return np.exp(np.float64(x))
    if ENG.cur.under and not log_only(x):
        if bool(x < -746.0):
            return np.float64(0.0)
        if bool(x > 709.0):
            return np.float64(math.inf)
    return mk(ENG.cur.space.exp(x.p))


def s_log(x):
    if not isinstance(x, S):
        with np.errstate(all='ignore'):
            return np.log(np.float64(x))
    sp = ENG.cur.space
    s = sp.psign(x.p)
    if s != POS:
        t = ENG.cur.sign_of(x.p)
        if t == 0:
            return np.float64(-math.inf)
        if t < 0:
            return np.float64(math.nan)
    return mk(sp.log(x.p))


def s_sqrt(x):
    if not isinstance(x, S):
        with np.errstate(all='ignore'):
            return np.sqrt(np.float64(x))
    sp = ENG.cur.space
    if sp.psign(x.p) & NEG:
        if not is_square(sp, x.p):
            if not ENG.cur.fork(cmp0('>=', x.p)):
                return np.float64(math.nan)
    return mk(sp.sqrt(x.p))


def is_square(sp, p):
    if len(p) == 1:
        (m, c), = p.items()
        return c > 0 and all(e % 2 == 0 for _, e in m)
    return False


def s_abs(x):
    if not isinstance(x, S):
        return np.abs(x)
    s = ENG.cur.space.psign(x.p)
    if not s & NEG:
        return x
    if not s & POS:
        return -x
    return x if ENG.cur.fork(cmp0('>=', x.p)) else -x


def s_floor(x):
    if not isinstance(x, S):
        return np.floor(x)
    n = ENG.cur.to_int(x)
    # to_int truncates toward zero
    if n <= 0 and bool(x < n):
        n -= 1
    return n


def s_sign(x):
    if not isinstance(x, S):
        return np.sign(x)
    return np.float64(ENG.cur.sign_of(x.p))


def s_max(a, b):
    if isinstance(a, S) or isinstance(b, S):
        if nonfinite(a) and math.isnan(a):
            return a
        if nonfinite(b) and math.isnan(b):
            return b
        return a if bool(a >= b) else b
    return np.maximum(a, b)


def s_min(a, b):
    if isinstance(a, S) or isinstance(b, S):
        if nonfinite(a) and math.isnan(a):
            return a
        if nonfinite(b) and math.isnan(b):
            return b
        return a if bool(a <= b) else b
    return np.minimum(a, b)


def s_func(fn, x):
    if not isinstance(x, S):
        return np.float64(FUNCS[fn](float(x)))
    return mk(ENG.cur.space.func(fn, x.p))


# formula utilities -----------------------------------------------------------
def b_atoms(b, acc=None):
    acc = set() if acc is None else acc
    if not isinstance(b, B):
        return acc
    if b.op in ('>', '>=', '==', '!='):
        ENG.cur.space.atoms_of(b.args, acc)
    else:
        for a in b.args:
            b_atoms(a, acc)
    return acc


def b_eval(b, env, tol=1e-10):
    """True / False / None (too close to call) under a numeric assignment"""
    if not isinstance(b, B):
        return bool(b)
    op = b.op
    if op in ('>', '>=', '==', '!='):
        try:
            v, mag = ENG.cur.space.peval_mag(b.args, env)
        except (OverflowError, ZeroDivisionError, ValueError):
            return None
        if not math.isfinite(v):
            return None
        near = abs(v) <= tol * mag
        if op in ('>', '>=') and abs(v) <= 1e-4 * mag and v != 0:
            # cancellation: decide it in 60 digits
            try:
                x, xm = ENG.cur.space.mpeval(b.args, env)
            except (OverflowError, ZeroDivisionError, ValueError):
                return None
            if abs(x) <= 1e-14 * xm:
                return None
            return bool(x > 0)
        if op == '==':
            return near if near or abs(v) > 1e-7 * mag else None
        if op == '!=':
            if abs(v) > 1e-7 * mag:
                return True
            return False if near and mag > 0 and abs(v) <= 1e-14 * mag else None
        if near:
            if op == '>=' and v == 0:
                return True
            if op == '>' and v == 0:
                return False
            return None
        return v > 0
    if op == 'and':
        r = True
        for a in b.args:
            t = b_eval(a, env, tol)
            if t is False:
                return False
            if t is None:
                r = None
        return r
    if op == 'or':
        r = False
        for a in b.args:
            t = b_eval(a, env, tol)
            if t is True:
                return True
            if t is None:
                r = None
        return r
    t = b_eval(b.args[0], env, tol)
    return None if t is None else not t
