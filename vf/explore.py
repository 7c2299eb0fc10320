"""Path exploration by re-execution: the solver decides every branch and every assertion."""
import math
import random
import time
import traceback
from fractions import Fraction
import numpy as np
from vf import sym, solve
from vf.sym import (ENG, B, S, Space, Unsupported, PathEnd, b_not, b_and, b_or, b_eval, b_atoms, cmp0, pconst,
                    psub, pneg, POS, NEG, ZERO, ANY)


class Env(dict):
    """numeric assignment of V atoms (drawn on demand) plus cached derived atoms"""

    def __init__(self, path, seed, base=None):
        super().__init__()
        self.path = path
        self.rng = random.Random(seed)
        self.names = dict(base or {})
        self.rel = {}
        self.mp = {}

    def draw(self, a):
        sp = self.path.space
        n = sp.name[a]
        v = self.names.get(n)
        if v is None:
            v = sample_var(sp.data[a], self.rng)
            self.names[n] = v
        return v

    def base(self):
        return dict(self.names)


def sample_var(data, rng):
    lo, hi, lop, hop = data[:4]
    hint = data[4] if len(data) > 4 else None
    if hint is not None:
        a, b = hint
    else:
        a = lo if lo is not None else (-3.0 if hi is None else float(hi) - 6.0)
        b = hi if hi is not None else (3.0 if lo is None else float(lo) + 6.0)
        a, b = float(a), float(b)
        if b - a > 200:
            if a > -100:
                b = a + 20
            else:
                a, b = -10.0, 10.0
    r = rng.random()
    if r < 0.35:
        # short decimals make readable and float-exact counterexamples
        for _ in range(4):
            v = round(a + (b - a) * rng.random(), 2)
            if (v > a or (v == a and not lop)) and (v < b or (v == b and not hop)):
                return float(v)
    v = a + (b - a) * rng.random()
    if (lop and v <= a):
        v = a + (b - a) * 0.5
    return float(v)


class TimeUp(BaseException):
    """the wall-clock limit of the case; whatever was explored so far still counts"""


class CheckResult:
    __slots__ = ('label', 'env', 'kind', 'detail', 'more')

    def __init__(self, label, kind, env=None, detail='', more=()):
        self.label, self.kind, self.env, self.detail, self.more = label, kind, env, detail, list(more)


class Limits:
    def __init__(self, max_paths=2000, max_time=300, feas_ms=3000, check_ms=20000):
        self.max_paths, self.max_time, self.feas_ms, self.check_ms = max_paths, max_time, feas_ms, check_ms


class Path:
    """one symbolic execution"""

    def __init__(self, ex, prefix, seeds):
        self.ex = ex
        self.space = Space()
        self.prefix = prefix
        self.trace = []
        self.pc = []               # list of B
        self.envs = []
        self.nenv = 0
        for s in seeds[:30]:
            self.envs.append(Env(self, len(self.envs), s))
        self.base_seed = hash(tuple(1 if t is True else 0 for t in prefix)) & 0xffff
        self.refill()
        self._probe = {}
        self.forks = 0
        self.decisions = 0
        self.fmts = []
        self.realized = 0
        self.vnames = {}
        self.under = False         # exp() underflows to 0 and overflows to inf as in floating point
        self.soft = []             # preferences for witnesses (distinct points), not constraints
        self.eqs = {}              # equations the canonical form already decided, for the solver to confirm

    # ------------------------------------------------ environments
    def refill(self):
        want = 24
        tries = 0
        while len(self.envs) < want and tries < 120:
            tries += 1
            self.nenv += 1
            e = Env(self, self.base_seed * 1000 + self.nenv)
            if all(b_eval(b, e) is True for b in self.pc):
                self.envs.append(e)

    def probe_env(self, i=0):
        e = self._probe.get(i)
        if e is None:
            e = self._probe[i] = Env(self, 777000 + i)
        return e

    def add_pc(self, b):
        if not isinstance(b, B):
            if not b:
                raise PathEnd("infeasible")
            return
        self.pc.append(b)
        if b.op in ('>', '>=', '==', '!='):
            self.space.learn(b.op, b.args)
        elif b.op == 'and':
            for c in b.args:
                if isinstance(c, B) and c.op in ('>', '>=', '==', '!='):
                    self.space.learn(c.op, c.args)
        self.envs = [e for e in self.envs if b_eval(b, e) is True]
        if not self.envs:
            self.refill_from_pc()

    def refill_from_pc(self):
        tries = 0
        while len(self.envs) < 4 and tries < 60:
            tries += 1
            self.nenv += 1
            e = Env(self, self.base_seed * 1000 + self.nenv)
            if all(b_eval(b, e) is True for b in self.pc):
                self.envs.append(e)

    # ------------------------------------------------ decisions
    def _prefix(self):
        i = len(self.trace)
        if i < len(self.prefix):
            return self.prefix[i]
        return None

    def fork(self, b):
        """decide a formula; explores both outcomes over the whole run"""
        if not isinstance(b, B):
            return bool(b)
        self.decisions += 1
        d = self._prefix()
        if d is not None:
            self.trace.append(d)
            if d is True or d is False:
                self.add_pc(b if d else b_not(b))
                return d
            r = d == 'T'
            self.learn(b if r else b_not(b))
            return r
        self.ex.tick()
        nb = b_not(b)
        t, te = self.feasible(b)
        if t:
            f, fe = self.feasible(nb)
        else:
            f, fe = True, []
        if t and f:
            self.forks += 1
            self.ex.push(self.trace + [False], [e.base() for e in fe])
            self.ex.transitions += 1
            self.trace.append(True)
            if not self.envs or not any(b_eval(b, e) is True for e in self.envs):
                self.envs.extend(te)
            self.add_pc(b)
            return True
        r = bool(t)
        # a forced outcome needs no path constraint, but it is a fact the sign table can use
        self.trace.append('T' if r else 'F')
        self.learn(b if r else nb)
        return r

    def learn(self, c):
        if isinstance(c, B) and c.op in ('>', '>=', '==', '!='):
            self.space.learn(c.op, c.args)
        elif isinstance(c, B) and c.op == 'and':
            for x in c.args:
                if isinstance(x, B) and x.op in ('>', '>=', '==', '!='):
                    self.space.learn(x.op, x.args)

    def feasible(self, b):
        """(is PC and b satisfiable?, witness envs)"""
        if not isinstance(b, B):
            return bool(b), list(self.envs) if b else []
        w = [e for e in self.envs if b_eval(b, e) is True]
        if w:
            return True, w
        st, env = self.solve(b, self.ex.lim.feas_ms)
        if st == 'unsat':
            return False, []
        return True, ([env] if env is not None else [])

    def nice(self, e):
        return all(b_eval(s, e) is not False for s in self.soft)

    def make_nice(self, b, e, ms=2000):
        """an env for the same violation that also meets the preferences, if there is one"""
        cone, _ = self.cone(b)
        fs, add = [b] + cone, []
        for _ in range(3):
            bad = [s for s in self.soft if b_eval(s, e) is False and s not in add]
            if not bad:
                return e
            add += bad[:12]
            try:
                r, m = solve.query(self.space, fs + add, ms, fallback=False)
            except RecursionError:
                return None
            if r != 'sat' or m is None:
                return None
            e = self.env_with(m)
            if not all(b_eval(f, e) is True for f in fs) or any(b_eval(f, e) is False for f in self.pc):
                return None
        return None

    def cone(self, b):
        need = set(a for a in b_atoms(b) if self.space.kind[a] == 'V')
        items = [(c, set(a for a in b_atoms(c) if self.space.kind[a] == 'V')) for c in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, s in items:
                if s & need:
                    out.append(c)
                    if not s <= need:
                        need |= s
                    changed = True
                else:
                    rest.append((c, s))
            items = rest
        return out, need

    def env_with(self, vals):
        """an env satisfying the PC outside the cone, with the cone variables from `vals`"""
        base = self.envs[0].base() if self.envs else {}
        for a, v in vals.items():
            base[self.space.name[a]] = v
        self.nenv += 1
        return Env(self, self.nenv + 5000, base)

    def solve(self, b, ms):
        """('unsat', None) / ('sat', validated env) / ('unknown', None)"""
        sp = self.space
        cone, need = self.cone(b)
        fs = [b] + cone
        r, _ = solve.query(sp, [b], min(ms, 1500), want_model=False) if cone else ('unknown', None)
        if r == 'unsat':
            return 'unsat', None
        has_tr = any(sp.kind[a] in 'ELF' for f in fs for a in b_atoms(f))
        last = None
        for level in ((0, 1) if has_tr else (0,)):
            r, m = solve.query(sp, fs, ms, lemmas=level)
            if r == 'unsat':
                return 'unsat', None
            if r == 'sat' and m is not None:
                e = self.env_with(m)
                if all(b_eval(f, e) is True for f in fs) and all(b_eval(f, e) is not False for f in self.pc):
                    return 'sat', e
                last = m
                e2 = self.search(b, m)
                if e2 is not None:
                    return 'sat', e2
        e2 = self.search(b, last or {})
        if e2 is not None:
            return 'sat', e2
        return 'unknown', None

    def solve_pc(self, ms=5000, extra=()):
        """is this path possible at all? ('unsat', None) / ('sat', env) / ('unknown', None)"""
        if not self.pc and not extra:
            e = Env(self, 4242)
            return 'sat', e
        sp = self.space
        for level in (0, 1):
            r, m = solve.query(sp, list(self.pc) + list(extra), ms, lemmas=level)
            if r == 'unsat':
                return 'unsat', None
            if r == 'sat' and m is not None:
                e = self.env_with(m)
                if all(b_eval(f, e) is True for f in self.pc):
                    return 'sat', e
                e = self.search(self.pc[-1], m) if self.pc else None
                if e is not None:
                    return 'sat', e
            if not any(sp.kind[a] in 'ELF' for f in self.pc for a in b_atoms(f)):
                break
        return 'unknown', None

    def solve_quick(self, b, ms=1500):
        """first attempt at an assertion: unsat, or give up cheaply"""
        cone, need = self.cone(b)
        r, _ = solve.query(self.space, [b] + cone, ms, want_model=False, fallback=False)
        return r, None

    def search(self, b, m, n=150):
        """numeric refinement of a solver model whose exp/log atoms were approximate"""
        rng = random.Random(len(self.pc) * 31 + 7)
        names = {self.space.name[a]: v for a, v in m.items()}
        bases = [names] + [e.base() for e in self.envs[:6]]
        for i in range(n):
            base = dict(rng.choice(bases)) if i % 3 else {}
            if base:
                for k in rng.sample(sorted(base), min(len(base), rng.choice((1, 1, 2, 3)))):
                    if i % 3 == 1:
                        base.pop(k)
                    else:
                        base[k] = base[k] * (1 + rng.gauss(0, .3)) + rng.gauss(0, .05)
            self.nenv += 1
            e = Env(self, self.nenv + 9000, base)
            if not self.in_ranges(e):
                continue
            if b_eval(b, e) is True and all(b_eval(f, e) is True for f in self.pc):
                return e
        return None

    def in_ranges(self, e):
        sp = self.space
        for a in range(len(sp.kind)):
            if sp.kind[a] == 'V' and sp.name[a] in e.names:
                v = e.names[sp.name[a]]
                lo, hi, lop, hop = sp.data[a][:4]
                if lo is not None and (v < lo or (lop and v <= lo)):
                    return False
                if hi is not None and (v > hi or (hop and v >= hi)):
                    return False
        return True

    # ------------------------------------------------ engine services used by sym
    def sign_of(self, p):
        s = self.space.psign(p)
        if s == POS:
            return 1
        if s == NEG:
            return -1
        if s == ZERO:
            return 0
        if s & POS and self.fork(cmp0('>', p)):
            return 1
        if s == POS | ZERO:
            return 0
        if s == POS | NEG:
            return -1
        if self.fork(cmp0('==', p)):
            return 0
        return -1

    def is_zero(self, p):
        return self.fork(cmp0('==', p))

    def to_int(self, x):
        for _ in range(200):
            d = self._prefix()
            if d is not None:
                if not isinstance(d, tuple):
                    raise Unsupported("re-execution took a different course (integer conversion at %r)" % (d,))
                n = d[0]
                self.trace.append(d)
            else:
                n = self.pick_int(x)
                self.trace.append((n,))
            if n > 0:
                c = b_and(x >= n, x < n + 1)
            elif n < 0:
                c = b_and(x > n - 1, x <= n)
            else:
                c = b_and(x > -1, x < 1)
            if self.fork(c):
                return n
        raise Unsupported("too many integer values")

    def pick_int(self, x):
        if not self.envs:
            st, e = self.solve_pc()
            if st == 'unsat':
                raise PathEnd("infeasible")
            if e is not None:
                self.envs.append(e)
        best = None
        for e in self.envs:
            v = self.space.peval(x.p, e)
            if math.isfinite(v):
                best = v
                break
        if best is None and len(x.p) == 1:
            # a plain bounded variable: any value of its range will do, the rest follow
            (m, c), = x.p.items()
            if len(m) == 1 and m[0][1] == 1 and self.space.kind[m[0][0]] == 'V' and self.space.data[m[0][0]][0] is not None:
                best = float(self.space.data[m[0][0]][0]) * float(c)
        if best is None:
            raise Unsupported("no witness value for an integer conversion")
        r = round(best)
        if abs(best - r) < 1e-9:
            best = r
        return math.trunc(best)

    def realize(self, x):
        self.realized += 1
        raise Unsupported("a symbolic value was converted to a Python float")

    repr_tokens = False           # repr() of a symbolic value gives a token that eval and yaml.load turn back into it

    def free(self, name, h):
        """a fresh value in [-h, h]"""
        self.nfree = getattr(self, 'nfree', 0) + 1
        a = self.space.var("%s!%d" % (name, self.nfree), sym.frac(-h), sym.frac(h), False, False)
        return S({((a, 1),): Fraction(1)})

    def fmt(self, x, spec):
        self.fmts.append((x, spec))
        return "\u27e6%d\u27e7" % (len(self.fmts) - 1)


class Explorer:
    def __init__(self, harness, lim, seed=1):
        self.harness = harness
        self.lim = lim
        self.stack = [([], [])]
        self.t0 = time.time()
        self.paths = 0
        self.pruned = 0
        self.transitions = 0
        self.decisions = 0
        self.problems = []       # CheckResult kinds: 'violation', 'inconclusive', 'error'
        self.checks = 0
        self.discharged_nf = 0
        self.discharged_solver = 0
        self.reached = {}
        self.witnesses = []
        self.labels = {}
        self.confirmed = self.unconfirmed = 0
        self.confirm_s = 0.0
        self.truncated = False
        self.covers = {}
        self.cuts = {}

    def tick(self):
        if time.time() - self.t0 > self.lim.max_time:
            self.truncated = True
            raise PathEnd("time")

    def push(self, prefix, envs):
        self.stack.append((prefix, envs))

    def run(self, make_ctx):
        while self.stack:
            if self.paths >= self.lim.max_paths or time.time() - self.t0 > self.lim.max_time:
                self.truncated = True
                break
            prefix, envs = self.stack.pop()
            p = Path(self, prefix, envs)
            ENG.cur = p
            ctx = make_ctx(p, self)
            try:
                self.harness(ctx)
                ctx.finish()
                self.confirm(p)
                self.paths += 1
                self.collect_witness(p, ctx)
            except PathEnd as e:
                self.pruned += 1
                if str(e) == "stop":
                    self.paths += 1
            except TimeUp:
                self.truncated = True
                break
            except Unsupported as e:
                self.paths += 1
                self.problems.append(CheckResult('engine', 'error', detail="%s\n%s" % (e, short_tb()), **self.suspects(p)))
            except RecursionError as e:
                self.paths += 1
                self.on_exception(p, ctx, e)
            except Exception as e:
                self.paths += 1
                self.on_exception(p, ctx, e)
            finally:
                self.decisions += p.decisions
            if len([x for x in self.problems if x.kind == 'violation']) >= 6:
                break
        ENG.cur = None
        return self

    def confirm(self, p):
        """ask the solver for a value at which an equation differs that the canonical form took for an identity"""
        if not p.eqs:
            return
        n = len(p.eqs)
        if self.confirm_s > 2 + .1 * (time.time() - self.t0):
            self.unconfirmed += n
            return
        t0 = time.time()
        k = solve.differ(p.space, list(p.eqs.values()))
        self.confirm_s += time.time() - t0
        self.confirmed += k
        self.unconfirmed += n - k

    def on_exception(self, p, ctx, e):
        detail = "%s: %s\n%s" % (type(e).__name__, str(e)[:300], short_tb())
        try:
            env = self.any_env(p)
        except PathEnd:
            self.paths -= 1
            self.pruned += 1
            return
        if env is None:
            self.problems.append(CheckResult('exception', 'error', detail="no witness for: " + detail))
            return
        self.problems.append(CheckResult('exception', 'violation', env=env.base(), detail=detail, more=self.others(p, env)))

    def others(self, p, env, part=None):
        return [e.base() for e in p.envs if e is not env and (part is None or b_eval(part, e) is True)][:5]

    def suspects(self, p):
        """witnesses of a path that could not be followed: the real code is tried on them"""
        es = sorted(p.envs, key=lambda e: not p.nice(e))[:4]
        if not es:
            return {}
        return dict(env=es[0].base(), more=[e.base() for e in es[1:]])

    def any_env(self, p):
        if p.envs:
            return next((e for e in p.envs if p.nice(e)), p.envs[0])
        st, e = p.solve_pc(6000)
        if st == 'unsat':
            raise PathEnd("infeasible")
        return e

    def collect_witness(self, p, ctx):
        if len(self.witnesses) >= self.lim_w:
            # keep a spread of paths
            if self.paths % 7:
                return
            i = (self.paths // 7) % self.lim_w
        else:
            i = None
        env = next((e for e in p.envs if p.nice(e)), None)
        if env is None and not self.witnesses and self.wtries < 5:
            self.wtries += 1
            _, env = p.solve_pc(3000, [b for b in p.soft[:40] if isinstance(b, B)])
            if env is not None and not p.nice(env):
                env = None
        if env is None:
            return
        obs = []
        try:
            for name, val in ctx.observed:
                obs.append((name, eval_obs(p, val, env)))
        except Exception:
            return
        w = {"env": env.base(), "obs": obs}
        if i is None:
            self.witnesses.append(w)
        else:
            self.witnesses[i] = w

    lim_w = 3
    wtries = 0

    # ------------------------------------------------ assertions
    def check(self, p, label, cond, detail=''):
        self.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not isinstance(cond, B):
            if cond:
                self.discharged_nf += 1
                return
            env = self.any_env(p)
            if env is None:
                self.problems.append(CheckResult(label, 'inconclusive', detail="false on a path without a witness"))
            else:
                self.problems.append(CheckResult(label, 'violation', env=env.base(), detail=str(detail), more=self.others(p, env)))
            raise PathEnd("stop")
        nb = b_not(cond)
        if isinstance(nb, B) and nb.op == 'or':
            parts = nb.args
        else:
            parts = (nb,)
        for part in parts:
            hit = [e for e in p.envs if b_eval(part, e) is True]
            if hit:
                e = next((e for e in hit if p.nice(e)), hit[0])
                self.problems.append(CheckResult(label, 'violation', env=e.base(), detail=str(detail), more=self.others(p, e, part)))
                raise PathEnd("stop")
        for part in parts:
            st, e = p.solve(part, self.lim.check_ms)
            if st == 'unsat':
                continue
            if st == 'sat':
                more = []
                if p.soft and not p.nice(e):
                    n = p.make_nice(part, e)
                    more = [e.base()] if n is not None else []
                    e = n or e
                self.problems.append(CheckResult(label, 'violation', env=e.base(), detail=str(detail), more=more))
                raise PathEnd("stop")
            self.problems.append(CheckResult(label, 'inconclusive', detail="solver: unknown for %r under %d constraints"
                                             % (part, len(p.pc)), **self.suspects(p)))
            raise PathEnd("stop")
        self.discharged_solver += 1


def eval_obs(p, v, env):
    if isinstance(v, S):
        return p.space.peval(v.p, env)
    if isinstance(v, B):
        return b_eval(v, env)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [eval_obs(p, x, env) for x in v.reshape(-1).tolist()] if v.ndim else eval_obs(p, v.item(), env)
    if isinstance(v, (list, tuple)):
        return [eval_obs(p, x, env) for x in v]
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, dict):
        return {k: eval_obs(p, x, env) for k, x in v.items()}
    return str(type(v).__name__)


def short_tb():
    t = traceback.format_exc().strip().splitlines()
    return "\n".join(t[-14:])
