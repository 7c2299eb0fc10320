"""Encoding of formulas over Space atoms into z3 (and cvc5 as a second opinion), with lemmas for exp/log."""
import time
from fractions import Fraction
import z3
from vf.sym import B, NEG, ZERO, POS, psub, padd, pneg, pscale, pconst, ONE


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.by_solver = {}

    def add(self, solver, res, dt):
        self.queries += 1
        self.time += dt
        setattr(self, res, getattr(self, res) + 1)
        self.by_solver[solver] = self.by_solver.get(solver, 0) + 1


STATS = Stats()


def rv(c):
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


class Enc:
    def __init__(self, sp):
        self.sp = sp
        self.vars = {}
        self.used = set()
        self.defs = []
        self.linear = True
        self.todo = []

    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            v = self.vars[a] = z3.Real("%s%d" % (self.sp.kind[a], a))
            self.todo.append(a)
        return v

    def poly(self, p):
        """p has no negative exponents"""
        ts = []
        for m, c in p.items():
            fs = []
            deg = 0
            for a, e in m:
                v = self.var(a)
                deg += e
                fs.extend([v] * e)
            if deg > 1:
                self.linear = False
            if not fs:
                ts.append(rv(c))
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                ts.append(t if c == 1 else rv(c) * t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def formula(self, b):
        if not isinstance(b, B):
            return z3.BoolVal(bool(b))
        op = b.op
        if op in ('>', '>=', '==', '!='):
            q = self.sp.clear(b.args)
            if q is None or len(q) > 800:
                q = self.sp.clear(b.args, expand=False)
            k = _scale(q)
            q = pscale(q, k)
            t = self.poly(q)
            z = z3.RealVal(0)
            return {'>': t > z, '>=': t >= z, '==': t == z, '!=': t != z}[op]
        if op == 'and':
            return z3.And([self.formula(a) for a in b.args])
        if op == 'or':
            return z3.Or([self.formula(a) for a in b.args])
        return z3.Not(self.formula(b.args[0]))

    def close_defs(self, lemmas=0):
        """ranges and definitions of every atom mentioned so far (transitively)"""
        out = []
        sp = self.sp
        done = set()
        while self.todo:
            a = self.todo.pop()
            if a in done:
                continue
            done.add(a)
            v = self.var(a)
            k = sp.kind[a]
            s = sp.asign(a)
            if s == POS:
                out.append(v > 0)
            elif s == POS | ZERO:
                out.append(v >= 0)
            elif s == NEG:
                out.append(v < 0)
            elif s == NEG | ZERO:
                out.append(v <= 0)
            elif s == NEG | POS:
                out.append(v != 0)
            elif s == ZERO:
                out.append(v == 0)
            if k == 'V':
                lo, hi, lop, hop = sp.data[a][:4]
                if lo is not None:
                    lo = rv(Fraction(lo))
                    out.append(v > lo if lop else v >= lo)
                if hi is not None:
                    hi = rv(Fraction(hi))
                    out.append(v < hi if hop else v <= hi)
            elif k == 'D':
                q = sp.clear(padd({((a, 1),): Fraction(1)}, pneg(sp.data[a])), expand=False)
                out.append(self.poly(q) == 0)
            elif k == 'R':
                q = sp.clear(padd({((a, 2),): Fraction(1)}, pneg(sp.data[a])), expand=False)
                out.append(self.poly(q) == 0)
            elif k == 'F' and sp.data[a][0] in ('sin', 'cos'):
                out.append(v >= -1)
                out.append(v <= 1)
        return out

    def lemmas(self, level, bs):
        """axioms about exp / log instantiated on the atoms in use"""
        sp = self.sp
        out = []
        es = [a for a in self.vars if sp.kind[a] == 'E']
        ls = [a for a in self.vars if sp.kind[a] == 'L']

        def fm(op, p):
            q = sp.clear(p)
            if q is None:
                return None
            t = self.poly(pscale(q, _scale(q)))
            return {'>': t > 0, '>=': t >= 0, '==': t == 0}[op]
        P = lambda a: {((a, 1),): Fraction(1)}
        one = {ONE: Fraction(1)}
        for a in es:
            d = sp.data[a]
            f, g = fm('>', d), fm('>', psub(P(a), one))
            if f is not None:
                out.append(f == g)
                f0 = fm('==', d)
                out.append(z3.Implies(f0, self.var(a) == 1))
                h = fm('>=', psub(psub(P(a), one), d))
                if h is not None:
                    out.append(h)
        for i, a in enumerate(es[:8]):
            for b in es[:i]:
                d = psub(sp.data[a], sp.data[b])
                f = fm('>', d)
                if f is not None:
                    out.append(f == (self.var(a) > self.var(b)))
        for a in ls:
            x = sp.data[a]
            v, w = self.var(a), self.var(x)
            out.append((v > 0) == (w > 1))
            out.append((v < 0) == (w < 1))
            out.append(v <= w - 1)
            self.linear = False
            out.append(v * w >= w - 1)
        for i, a in enumerate(ls[:8]):
            for b in ls[:i]:
                out.append((self.var(a) > self.var(b)) == (self.var(sp.data[a]) > self.var(sp.data[b])))
        # combos: coefficient monomial * log(T) groups
        seen = set()
        for b in bs:
            for p in _polys(b):
                out.extend(self._combos(p, fm, seen))
        return out

    def _combos(self, p, fm, seen):
        sp = self.sp
        groups = {}
        for m, c in p.items():
            l = [(a, e) for a, e in m if sp.kind[a] == 'L']
            if len(l) != 1 or l[0][1] != 1:
                continue
            rest = tuple((a, e) for a, e in m if sp.kind[a] != 'L')
            groups.setdefault(rest, []).append((l[0][0], c))
        out = []
        for rest, ls in groups.items():
            k = min(abs(c) for _, c in ls)
            if any((c / k).denominator != 1 for _, c in ls):
                continue
            T = {ONE: Fraction(1)}
            lin = {}
            for a, c in ls:
                T = sp.pmul(T, {((sp.data[a], int(c / k)),): Fraction(1)})
                lin = padd(lin, {((a, 1),): c / k})
            key = frozenset(T.items())
            if key in seen:
                continue
            seen.add(key)
            try:
                inv = sp.pinv(T)
            except Exception:
                continue
            one = {ONE: Fraction(1)}
            # log T >= 1 - 1/T ; log T <= T - 1 ; log T <= log2 + T/2 - 1 ; T <= 2 => log T <= log 2
            import math
            l2 = Fraction("%.13e" % math.log(2))
            cons = [fm('>=', psub(lin, psub(one, inv))),
                    fm('>=', psub(psub(T, one), lin)),
                    fm('>=', psub(padd(pscale(T, Fraction(1, 2)), pconst(l2 - 1)), lin))]
            out.extend(c for c in cons if c is not None)
            a, b = fm('>=', psub(pconst(2), T)), fm('>=', psub(pconst(l2), lin))
            if a is not None and b is not None:
                out.append(z3.Implies(a, b))
        return out


def _polys(b):
    if not isinstance(b, B):
        return []
    if b.op in ('>', '>=', '==', '!='):
        return [b.args]
    return [p for a in b.args for p in _polys(a)]


def _scale(q):
    """make integer-ish coefficients"""
    if not q:
        return Fraction(1)
    from math import gcd
    l = 1
    for c in q.values():
        l = l * c.denominator // gcd(l, c.denominator)
        if l > 10 ** 40:
            mx = max(abs(c) for c in q.values())
            return 1 / mx
    g = 0
    for c in q.values():
        g = gcd(g, abs(c.numerator * (l // c.denominator)))
    return Fraction(l, g or 1)


def _model(m, enc, sp):
    env = {}
    for a, v in enc.vars.items():
        if sp.kind[a] != 'V':
            continue
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_rational_value(x):
                env[a] = float(x.as_fraction())
            elif z3.is_algebraic_value(x):
                y = x.approx(30)
                env[a] = float(y.as_fraction())
        except Exception:
            pass
    return env


def query(sp, bs, timeout_ms=8000, lemmas=0, want_model=True, fallback=True):
    """('sat', env) | ('unsat', None) | ('unknown', None) for the conjunction of formulas bs"""
    enc = Enc(sp)
    fs = [enc.formula(b) for b in bs]
    extra = []
    if lemmas:
        extra = enc.close_defs()
        extra += enc.lemmas(lemmas, bs)
    extra += enc.close_defs()
    cons = fs + extra
    res = 'unknown'
    env = None
    attempts = ['lra'] if enc.linear else ['nlsat', 'smt'] if fallback else ['nlsat']
    for which in attempts:
        t0 = time.time()
        try:
            if which == 'lra':
                s = z3.Solver()
            elif which == 'nlsat':
                s = z3.Tactic('qfnra-nlsat').solver()
            else:
                s = z3.Solver()
            s.set('timeout', int(timeout_ms if which != 'smt' else timeout_ms))
            s.add(*cons)
            r = str(s.check())
            if r == 'sat' and want_model:
                env = _model(s.model(), enc, sp)
        except z3.Z3Exception:
            r = 'unknown'
        STATS.add('z3-' + which, r, time.time() - t0)
        if r != 'unknown':
            res = r
            break
    if res == 'unknown' and fallback:
        t0 = time.time()
        r, env2 = cvc5_query(cons, enc, sp, timeout_ms)
        STATS.add('cvc5', r, time.time() - t0)
        res = r
        env = env2
    return res, env


def differ(sp, eqs, budget=1.5):
    """How many of the equations (a, b, tolerance) the solver confirms: no value of the atoms, under the atoms'
    definitions, makes the two sides differ by more than the tolerance."""
    end = time.time() + budget

    def ask(part, defs):
        enc = Enc(sp)
        inv, cons = {}, []

        def poly(p):
            ts = []
            for m, c in p.items():
                t = rv(c)
                for a, e in m:
                    v = enc.var(a)
                    if e < 0:
                        w = inv.get(a)
                        if w is None:
                            w = inv[a] = z3.Real("inv%d" % a)
                            cons.append(v * w == 1)
                        v = w
                    for _ in range(abs(e)):
                        t = t * v
                ts.append(t)
            return z3.Sum(ts) if ts else z3.RealVal(0)

        alts = []
        for pa, pb, tol in part:
            a, b, t = poly(pa), poly(pb), rv(Fraction(tol))
            alts.append(z3.Or(a - b > t, b - a > t))
        if defs:
            cons.extend(enc.close_defs())
        t0 = time.time()
        try:
            s = z3.Solver()
            s.set('timeout', int(1000 * max(.1, min(end - t0, .5))))
            s.add(z3.Or(alts), *cons)
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        STATS.add('z3-identities', r, time.time() - t0)
        return r == 'unsat'

    if ask(eqs, False):
        return len(eqs)
    n = 0
    for e in eqs:
        if time.time() > end:
            break
        n += ask([e], False) or ask([e], True)
    return n


def cvc5_query(cons, enc, sp, timeout_ms):
    """cvc5 does not always honour its own limit: it runs in a child process that is ended when the time is over"""
    try:
        import json
        import os
        import select
        import signal
        s = z3.Solver()
        s.add(*cons)
        text = s.to_smt2().replace("(check-sat)", "")
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(int(timeout_ms / 1000) + 3)
                os.write(wr, json.dumps(_cvc5(text, timeout_ms)).encode())
            finally:
                os._exit(0)
        os.close(wr)
        out = b""
        end = time.time() + timeout_ms / 1000.0 + .5
        while True:
            ready, _, _ = select.select([rd], [], [], max(0.0, end - time.time()))
            part = os.read(rd, 1 << 16) if ready else b""
            out += part
            if not part:
                break
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        r, env = json.loads(out.decode()) if out else ('unknown', None)
        return r, {int(k): v for k, v in env.items()} if env is not None else None
    except Exception:
        return 'unknown', None


def _cvc5(text, timeout_ms):
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        sol = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        sol.setOption("tlimit-per", str(int(timeout_ms)))
        sol.setOption("produce-models", "true")
        sol.setLogic("QF_NRA")
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(sol, sm)
        r = sol.checkSat()
        if r.isUnsat():
            return 'unsat', None
        if r.isSat():
            env = {}
            for t in sm.getDeclaredTerms():
                n = t.getSymbol()
                if n[0] == 'V':
                    try:
                        v = sol.getValue(t)
                        env[int(n[1:])] = float(v.getRealValue())
                    except Exception:
                        pass
            return 'sat', env
    except Exception:
        pass
    return 'unknown', None
