"""The interface harnesses are written against: one symbolic and one concrete (replay) implementation."""
import math
import random
import re
import numpy as np
from vf import sym, symnp, loader
from vf.sym import S, B, ENG, PathEnd, Unsupported, b_and, b_or, b_not, cmp0, psub

REL = 1e-6
ABS = 1e-9


class Violation(Exception):
    def __init__(self, label, detail=''):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Skip(BaseException):
    """concrete replay: an assumption does not hold for these values"""


class Cut(Exception):
    pass


class BaseCtx:
    symbolic = False

    def __init__(self, params):
        self.params = params
        self.observed = []
        self.draws = []
        self.rng_seeds = []
        self.rng_count = 0
        self.rng_total = 0
        self.rng_epoch = None
        self.rng_prefix = ''
        self.rng_limit = params.get('rng_limit', 400)
        self.probe = None
        self.fixed_normals = []       # harness: concrete values for the next coordinates of normal draws
        self.on_cut = None            # harness: what must hold of an unfinished run that reached its bound
        self.uhint = None
        self.mvn_hint = (-2.0, 2.0)
        self.kmeans_count = 0
        self.kmeans = []
        self.kmeans_runs = params.get('kmeans_runs', False)
        self.prints = []
        self.now = 1000.0
        self.tick = params.get('tick', 1e-4)
        self.clock_reads = 0
        self.clock_limit = params.get('clock_limit', 4000)
        self.clock_sym = None         # (lo, hi) of a symbolic increment per read
        self.slept = 0.0
        self.heap = []
        self.heap_reads = 0
        self.vcache = {}
        self.covered = []
        self.checks_done = 0
        self.world = loader.World(self, self.symbolic)
        self.np = self.world.np
        self.rng = self.world.rng

    # ---- services for stubs
    def clock_read(self):
        self.clock_reads += 1
        if self.clock_reads > self.clock_limit:
            self.cut("clock")
        if self.clock_sym is not None:
            self.now = self.now + self.real("clock#%d" % self.clock_reads, *self.clock_sym)
        else:
            self.now = self.now + self.tick
        return self.now

    def clock_sleep(self, d):
        self.now = self.now + d

    def heap_size(self):
        self.heap_reads += 1
        v = self.real("heap#%d" % self.heap_reads, 1, 10000)
        self.heap.append(v)
        return v

    def on_print(self, *a, **k):
        f = k.get('file')
        import sys
        if f is not None and hasattr(f, 'write') and f not in (sys.stderr, sys.stdout):
            f.write(k.get('sep', ' ').join(str(x) for x in a) + k.get('end', '\n'))
            return
        self.prints.append(a)

    def at_cut(self, why):
        f, self.on_cut = self.on_cut, None
        if f is not None and why == 'draws':
            f()

    def as_mvn(self, call, n0, out, total):
        """`out` came from standard normal draws (recorded from n0 on). If its rows are affine images mean + A z of disjoint sets of them the
        rows are independent normals with covariance A A^T: they are replaced by multivariate normal draws with these parameters."""
        zs = [z for dr in self.draws[n0:] for z in self.flat(dr.args['z'])]
        if getattr(out, 'ndim', 0) != 2 or not zs:
            return out
        n, d = out.shape
        saved, keep = self.rng_count, self.draws[:]

        def run(j):
            vals = iter([1.0 if q == j else 0.0 for q in range(len(zs))])
            self.probe = lambda: next(vals)
            try:
                r = call()
            finally:
                self.probe = None
                self.rng_count = saved
                self.draws[:] = keep
            return [[r[i, a] for a in range(d)] for i in range(n)]
        base = run(None)
        cols = [run(j) for j in range(len(zs))]
        J = [[[cols[q][i][a] - base[i][a] for q in range(len(zs))] for a in range(d)] for i in range(n)]
        owner = {}
        for i in range(n):
            for a in range(d):
                v = base[i][a]
                for q in range(len(zs)):
                    c = J[i][a][q]
                    if self.is_sym(c) or abs(c) > 1e-12:
                        if owner.setdefault(q, i) != i:
                            return out
                        v = v + c * zs[q]
                if not self.near(v, out[i, a]):
                    return out
        del self.draws[n0:]
        self.rng_total = total
        rows = []
        for i in range(n):
            cov = [[0.0] * d for _ in range(d)]
            for a in range(d):
                for b in range(d):
                    for q in range(len(zs)):
                        cov[a][b] = cov[a][b] + J[i][a][q] * J[i][b][q]
            rows.append(self.rng.multivariate_normal(self.A(base[i]), self.A(cov)))
        return self.A([[r[a] for a in range(d)] for r in rows])

    def near(self, a, b):
        """equal as expressions (no solver query)"""
        v = a - b
        return not self.is_sym(v) and abs(v) <= 1e-9 * (1 + (0 if self.is_sym(a) else abs(a)))

    # ---- harness helpers
    def mod(self, name):
        return self.world.load('ais_benchmarks' + ('.' + name if name else ''))

    def reals(self, name, shape, lo=None, hi=None, lo_open=False, hi_open=False, hint=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real("%s[%s]" % (name, ",".join(map(str, ix))), lo, hi, lo_open, hi_open, hint)
        return self.arr(out)

    def rvar(self, name, lo, hi, lo_open, hi_open, hint):
        if self.fixed_normals and name.startswith('mvn'):
            return self.fixed_normals.pop(0)
        return self.real(name, lo, hi, lo_open, hi_open, hint)

    def observe(self, name, v):
        self.observed.append((name, v))

    def A(self, x):
        return self.np.array(x)

    def underflow(self, on=True):
        """from here on exp() of less than -746 is 0 and of more than 709 is inf, as in floating point"""
        if self.symbolic:
            ENG.cur.under = on

    def cover(self, label):
        if label not in self.covered:
            self.covered.append(label)

    def finite(self, label, x):
        for v in self.flat(x):
            if not isinstance(v, S):
                self.check(label, math.isfinite(float(v)), "not finite: %r" % (v,))

    def flat(self, x):
        if isinstance(x, np.ndarray):
            return list(x.view(np.ndarray).reshape(-1))
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in self.flat(y)]
        return [x]

    def flat_rows(self, x, k):
        f = self.flat(x)
        return [f[i:i + k] for i in range(0, len(f), k)]

    def isnan(self, v):
        return (not isinstance(v, S)) and math.isnan(v)

    def check_all_close(self, label, a, b, rel=REL, abs_=ABS, detail=''):
        fa, fb = self.flat(a), self.flat(b)
        self.check(label + ".len", len(fa) == len(fb), "%d vs %d values; %s" % (len(fa), len(fb), detail))
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.check_close(label, x, y, rel, abs_, "%s [%d]" % (detail, i))

    def check_shape(self, label, x, shape):
        s = tuple(getattr(x, 'shape', ('no shape', type(x).__name__)))
        self.check(label, s == tuple(shape), "shape %s, expected %s" % (s, tuple(shape)))

    def expect_raises(self, label, exc, f):
        try:
            f()
        except exc:
            self.check(label, True)
            return True
        except (PathEnd, Unsupported, Violation, Skip, Cut):
            raise
        except Exception as e:
            self.check(label, False, "raised %s, expected %s" % (type(e).__name__, exc))
        self.check(label, False, "did not raise")

    def finish(self):
        pass

    def prefer(self, cond):
        """what a readable witness should satisfy; never a constraint"""

    def setup(self, **k):
        for n, v in k.items():
            setattr(self, n, v)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, path, ex, params):
        self.path, self.ex = path, ex
        super().__init__(params)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, hint=None):
        v = self.vcache.get(name)
        if v is None:
            from fractions import Fraction
            a = self.path.space.var(name, None if lo is None else sym.frac(lo), None if hi is None else sym.frac(hi),
                                    lo_open, hi_open)
            if hint is not None:
                self.path.space.data[a] = self.path.space.data[a][:4] + (hint,)
            v = self.vcache[name] = S({((a, 1),): Fraction(1)})
        return v

    def pick(self, name, n):
        v = self.real(name, 0, n, False, True)
        return int(v)

    def choice(self, name, opts):
        return opts[self.pick(name, len(opts))] if len(opts) > 1 else opts[0]

    def flag(self, name):
        return self.pick(name, 2) == 1

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            for c in cond.reshape(-1).tolist():
                self.assume(c)
            return
        if isinstance(cond, B):
            p = self.path
            d = p._prefix()
            if d is None:
                t, te = p.feasible(cond)
                if not t:
                    raise PathEnd("assume")
                if te and not any(sym.b_eval(cond, e) is True for e in p.envs):
                    p.envs.extend(te)
            p.trace.append('A')
            p.add_pc(cond)
        elif not cond:
            raise PathEnd("assume")

    def infeasible(self):
        raise PathEnd("assume")

    def prefer(self, cond):
        if isinstance(cond, B):
            self.path.soft.append(cond)

    def cut(self, why):
        self.at_cut(why)
        self.ex.cuts[why] = self.ex.cuts.get(why, 0) + 1
        raise PathEnd("cut " + why)

    def arr(self, o):
        return symnp.array(o) if o.dtype == object else o

    def iarr(self, o):
        return symnp.array(o)

    def num(self, x):
        if isinstance(x, (S, int, float, np.generic)) or (isinstance(x, np.ndarray) and isinstance(x, symnp.SymArray)):
            return x
        return symnp.array(x)

    # ---- assertions
    def check(self, label, cond, detail=''):
        if isinstance(cond, np.ndarray):
            for c in cond.reshape(-1).tolist():
                self.check(label, c, detail)
            return
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        self.checks_done += 1
        self.ex.check(self.path, label, cond, detail if not callable(detail) else detail())

    def close(self, a, b, rel=REL, abs_=ABS):
        """formula |a-b| <= abs + rel*scale"""
        if not isinstance(a, S) and not isinstance(b, S):
            return cclose(a, b, rel, abs_)
        if sym.nonfinite(a) or sym.nonfinite(b):
            return False
        d = a - b
        if not isinstance(d, S):
            return bool(abs(d) <= max(abs_, 1e-9))
        ref = b if isinstance(b, S) else a
        s = self.path.space.psign(ref.p)
        if not s & sym.NEG:
            t = abs_ + rel * ref
        elif not s & sym.POS:
            t = abs_ - rel * ref
        else:
            t = abs_ + rel * (1 + ref * ref)
        return b_and(d <= t, -d <= t)

    def check_close(self, label, a, b, rel=REL, abs_=ABS, detail=''):
        self.checks_done += 1
        if not isinstance(a, S) and not isinstance(b, S):
            self.ex.check(self.path, label, cclose(a, b, rel, abs_), "%r vs %r %s" % (a, b, detail))
            return
        c = self.close(a, b, rel, abs_)
        if c is True and len(self.path.eqs) < 400 and not isinstance(a - b, S):
            pa, pb = [x.p if isinstance(x, S) else sym.pconst(x) for x in (a, b)]
            if len(pa) + len(pb) < 400:
                self.path.eqs[(frozenset(pa.items()), frozenset(pb.items()))] = (pa, pb, max(abs_, 1e-9))
        if isinstance(c, B) and isinstance(a - b, S):
            # exact equality is the easier query when it holds
            d = (a - b).p
            if not any(sym.b_eval(b_not(c), e) is True for e in self.path.envs):
                st, e = self.path.solve_quick(sym.B('!=', d))
                if st == 'unsat':
                    self.ex.checks += 1
                    self.ex.discharged_solver += 1
                    self.ex.labels[label] = self.ex.labels.get(label, 0) + 1
                    return
        self.ex.check(self.path, label, c, "expected equal: %s" % detail)

    def parse(self, tok):
        """the value behind a formatted token of an output file"""
        m = re.fullmatch(r"\s*\u27e6(\d+)\u27e7\s*", tok)
        if m:
            return self.path.fmts[int(m.group(1))][0]
        return float(tok)

    def printed(self, tok):
        """what a reader of an output file gets: the printed digits of a value"""
        m = re.fullmatch(r"\s*\u27e6(\d+)\u27e7\s*", tok)
        return self.world.untoken(m.group(1)) if m else float(tok)

    def tok(self, v, spec='r'):
        """text standing for a value in an input file"""
        return self.path.fmt(v, spec) if isinstance(v, S) else repr(float(v))

    def repr_tokens(self):
        """from here on repr() of a symbolic value is a token that eval and yaml turn back into it"""
        self.path.repr_tokens = True

    def yaml_text(self, o):
        """the text a YAML writer produces for plain data (symbolic values as tokens)"""
        import yaml

        def plain(x):
            if isinstance(x, S):
                return self.path.fmt(x, 'r')
            if isinstance(x, dict):
                return {plain(k): plain(v) for k, v in x.items()}
            if type(x) in (list, tuple):
                return [plain(v) for v in x]
            if isinstance(x, np.generic):        # what numpy's float array gives for a constant
                return x.item()
            return x
        return yaml.safe_dump(plain(o), allow_unicode=True)

    def is_sym(self, x):
        return isinstance(x, S)


def cclose(a, b, rel=REL, abs_=ABS):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


class ConcCtx(BaseCtx):
    """replay on the repository's code with real numpy"""
    symbolic = False

    def __init__(self, env, params, seed=0, jitter=None):
        self.env = env
        self.r = random.Random(seed)
        self.jitter = random.Random(jitter) if jitter is not None else None
        super().__init__(params)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, hint=None):
        v = self.vcache.get(name)
        if v is None:
            v = self.env.get(name)
            if v is None:
                from vf.explore import sample_var
                v = sample_var((lo, hi, lo_open, hi_open) + ((hint,) if hint else ()), self.r)
            if self.jitter is not None:
                dv = self.jitter.uniform(-1, 1) * 1e-4 * (1e-2 + abs(v))
                for w in (v + dv, v - dv):
                    if (lo is None or w > lo) and (hi is None or w < hi):
                        v = w
                        break
            v = self.vcache[name] = np.float64(v)
        return v

    def pick(self, name, n):
        j, self.jitter = self.jitter, None
        try:
            return min(n - 1, max(0, int(self.real(name, 0, n, False, True))))
        finally:
            self.jitter = j

    def choice(self, name, opts):
        return opts[self.pick(name, len(opts))] if len(opts) > 1 else opts[0]

    def flag(self, name):
        return self.pick(name, 2) == 1

    def assume(self, cond):
        if not np.all(cond):
            raise Skip()

    def infeasible(self):
        raise Skip()

    def cut(self, why):
        self.at_cut(why)
        raise Skip()

    def arr(self, o):
        return o.astype(float) if o.dtype == object else o

    def iarr(self, o):
        return np.asarray(o)

    def num(self, x):
        return np.asarray(x) if isinstance(x, (list, tuple)) else x

    def check(self, label, cond, detail=''):
        self.checks_done += 1
        if not np.all(cond):
            raise Violation(label, detail if not callable(detail) else detail())

    def close(self, a, b, rel=REL, abs_=ABS):
        return cclose(a, b, rel, abs_)

    def check_close(self, label, a, b, rel=REL, abs_=ABS, detail=''):
        self.checks_done += 1
        if not cclose(a, b, rel * .5, abs_ * .5):
            raise Violation(label, "%.12g, expected %.12g %s" % (float(a), float(b), detail))

    def parse(self, tok):
        return float(tok)

    printed = parse

    def tok(self, v, spec='r'):
        return repr(float(v))

    def repr_tokens(self):
        pass

    def yaml_text(self, o):
        import yaml
        return yaml.safe_dump(o)

    def is_sym(self, x):
        return False
