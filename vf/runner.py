"""Runs one property's cases: explore symbolically, replay on the real code, write evidence, decide the exit code."""
import contextlib
import importlib
import io
import json
import math
import multiprocessing as mp
import os
import queue as _q
import resource
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')


class Case:
    """fn(ctx, **params): one bounded harness. `max_paths`/`max_time` bound the exploration."""

    def __init__(self, name, fn, params=None, tiers=('quick', 'thorough'), max_paths=3000, max_time=150, opts=None,
                 need=(), check_ms=20000, feas_ms=3000, finding=None, deep=None):
        self.name, self.fn, self.params, self.tiers = name, fn, params or {}, tiers
        self.max_paths, self.max_time, self.opts = max_paths, max_time, opts or {}
        self.need, self.check_ms, self.feas_ms = need, check_ms, feas_ms
        self.finding = finding
        self.deep = deep or {}


def T(name, fn, params=None, **k):
    """a case only explored in the thorough tier"""
    k.setdefault('max_time', 600)
    k.setdefault('max_paths', 40000)
    return Case(name, fn, params, tiers=('thorough',), **k)


class Alarm(Exception):
    pass


def _alarm(sig, frm):
    raise Alarm("time limit")


def replay(case, env, seed=0, limit=60, jitter=None, used=None):
    """('violation', label, detail) | ('exception', type, detail) | ('pass', obs) | ('skip', why)"""
    import numpy as np
    from vf import sym
    from vf.ctx import ConcCtx, Violation, Skip
    sym.ENG.cur = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            ctx = ConcCtx(env, case.opts, seed, jitter)
            case.fn(ctx, **case.params)
            ctx.finish()
        return ('pass', jsonable(ctx.observed), dict(ctx.vcache))
    except Violation as e:
        if used is not None:
            used.update({k: float(v) for k, v in ctx.vcache.items()})
        return ('violation', e.label, str(e.detail))
    except Skip:
        return ('skip', 'assumption not met')
    except Alarm:
        return ('exception', 'Timeout', 'no result within %d s' % limit)
    except Exception as e:
        return ('exception', type(e).__name__, "%s\n%s" % (e, "\n".join(
            traceback.format_exc().strip().splitlines()[-10:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def jsonable(o):
    import numpy as np
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, np.ndarray):
        return [jsonable(x) for x in o.reshape(-1).tolist()] if o.ndim else jsonable(o.item())
    if isinstance(o, (np.bool_, bool)):
        return bool(o)
    if isinstance(o, (np.integer, int)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o)
    if isinstance(o, dict):
        return {k: jsonable(v) for k, v in o.items()}
    if o is None or isinstance(o, str):
        return o
    return type(o).__name__


def same(a, b, tol=1e-5):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, bool) != isinstance(b, bool):
            return bool(a) == bool(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1e-3 + max(abs(a), abs(b)))
    if a is None:
        return True          # too close to call under the assignment
    return a == b


def run_case(pid, case, tier, seed):
    import numpy as np
    from vf import sym, solve, explore
    from vf.ctx import SymCtx
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    t0 = time.time()
    mt, mpth = case.max_time, case.max_paths
    lim = explore.Limits(max_paths=mpth, max_time=mt, feas_ms=case.feas_ms, check_ms=case.check_ms)
    funcs = set()
    state = {'n': 0}

    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            if c.co_filename.startswith(REPO + '/'):
                funcs.add(c.co_filename[len(REPO) + 1:] + ':' + c.co_qualname)

    def h(ctx):
        state['n'] += 1
        if state['n'] in (1, 2, 3, 10, 50, 200):
            sys.setprofile(prof)
            try:
                case.fn(ctx, **case.params)
            finally:
                sys.setprofile(None)
        else:
            case.fn(ctx, **case.params)
        for c in ctx.covered:
            ex.covers[c] = ex.covers.get(c, 0) + 1
    ex = explore.Explorer(h, lim, seed)

    def up(sig, frm):
        raise explore.TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.setitimer(signal.ITIMER_REAL, mt * 1.25 + 5)
    try:
        ex.run(lambda p, e: SymCtx(p, e, case.opts))
    except explore.TimeUp:
        ex.truncated = True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.setprofile(None)
        sym.ENG.cur = None
    st = solve.STATS
    out = dict(case=case.name, paths=ex.paths, pruned=ex.pruned, transitions=ex.transitions, decisions=ex.decisions,
               checks=ex.checks, discharged_nf=ex.discharged_nf, discharged_solver=ex.discharged_solver,
               confirmed=ex.confirmed, not_confirmed=ex.unconfirmed,
               labels=ex.labels, covers=ex.covers, cuts=ex.cuts, truncated=ex.truncated,
               queries=st.queries, sat=st.sat, unsat=st.unsat, unknown=st.unknown, solver_s=round(st.time, 3),
               by_solver=st.by_solver, functions=sorted(funcs), explore_s=round(time.time() - t0, 2),
               violations=[], inconclusive=[], unconfirmed=[], errors=[], samples=[], validated=0, mismatched=0)
    tried = [0]

    def gap(pr):
        """an undecided path: does the real code break on the witnesses of the path itself?"""
        if pr.env is None or tried[0] >= 40:
            return False
        for env in [pr.env] + list(pr.more):
            tried[0] += 1
            r = replay(case, env, seed)
            if r[0] in ('violation', 'exception') and r[1] != 'Timeout':
                near = [replay(case, env, seed, 20, j) for j in range(6)]
                if sum(n[:2] == r[:2] for n in near) >= 2:
                    out['violations'].append(dict(case=case.name, label=r[1] if r[0] == 'violation' else 'exception:' + r[1],
                                                  found='witness of an undecided path', detail=str(r[2])[:3000], env=env))
                    return True
        return False
    # replays: candidates first
    for pr in ex.problems:
        if pr.kind == 'violation':
            env = pr.env
            r = replay(case, env, seed)
            for more in pr.more:
                if r[0] in ('violation', 'exception'):
                    break
                r2 = replay(case, more, seed)
                if r2[0] in ('violation', 'exception'):
                    r, env = r2, more
            if r[0] not in ('violation', 'exception'):
                # a degenerate assignment (ties between values that are distinct in general): look around it
                near = []
                for j in range(8):
                    used = {}
                    rj = replay(case, env, seed, 20, j, used)
                    if rj[:2] == ('violation', pr.label):
                        near.append((rj, used))
                if len(near) >= 2:
                    r, env = near[0]
            if r[0] in ('violation', 'exception'):
                out['violations'].append(dict(case=case.name, label=r[1] if r[0] == 'violation' else 'exception:' + r[1],
                                              found=pr.label, detail=str(r[2])[:3000], env=env))
            else:
                got = '' if r[0] == 'skip' else json.dumps(r[1])[:1500]
                out['unconfirmed'].append((pr.label, "%s/%s: counterexample not confirmed on the real code (%s): %s env=%s %s" % (
                    case.name, pr.label, r[0], str(pr.detail)[:1800], json.dumps(pr.env)[:1500], got)))
        elif gap(pr):
            continue
        elif pr.kind == 'inconclusive':
            out['inconclusive'].append("%s/%s: %s" % (case.name, pr.label, pr.detail[:1500]))
        else:
            out['errors'].append("%s/%s: %s" % (case.name, pr.label, pr.detail[:2500]))
    confirmed = [v['found'] for v in out['violations']]
    out['inconclusive'] += [t for l, t in out.pop('unconfirmed') if l not in confirmed]
    mism = []
    for w in ex.witnesses:
        r = replay(case, w['env'], seed)
        if r[0] in ('violation', 'exception'):
            if r[1] == 'Timeout':
                continue
            near = [replay(case, w['env'], seed, 20, j) for j in range(8)]
            if sum(n[:2] == r[:2] for n in near) < 2:
                # the path holds in real arithmetic and in doubles all around this point: rounding at an exact boundary
                out['mismatched'] += 1
                mism.append("%s: rounding at a boundary: %s %s env %s" % (case.name, r[1], str(r[2])[:600], json.dumps(w['env'])[:800]))
                continue
            out['violations'].append(dict(case=case.name, label=r[1] if r[0] == 'violation' else 'exception:' + r[1],
                                          found='witness replay', detail=str(r[2])[:3000], env=w['env']))
        elif r[0] == 'pass':
            if same(jsonable(w['obs']), r[1]):
                out['validated'] += 1
                if len(out['samples']) < 2:
                    out['samples'].append(dict(case=case.name, inputs=w['env'], observed=trim(r[1])))
            else:
                out['mismatched'] += 1
                mism.append("%s: symbolic %s real %s env %s" % (case.name, json.dumps(jsonable(w['obs']))[:1200],
                                                                json.dumps(r[1])[:1200], json.dumps(w['env'])[:800]))
    if mism and not out['validated']:
        out['errors'].extend("encoding disagrees with the real code: " + m for m in mism[:2])
    out['mismatch_detail'] = mism[:2]
    for n in case.need:
        if not ex.covers.get(n) and not out['violations'] and not ex.truncated:
            out['errors'].append("%s: vacuous, nothing reached %r" % (case.name, n))
    if ex.paths == 0 and not ex.truncated and not ex.cuts:
        out['errors'].append("%s: no path was explored" % case.name)
    if ex.checks == 0 and not out['violations'] and not ex.truncated:
        out['errors'].append("%s: no assertion was evaluated" % case.name)
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def trim(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "..."


def worker(pid, case, tier, seed, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        sys.setrecursionlimit(4000)
        out = run_case(pid, case, tier, seed)
    except BaseException as e:
        out = dict(case=case.name, crash="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
    try:
        conn.send(out)
    except Exception as e:
        conn.send(dict(case=case.name, crash="send: %r" % e))
    conn.close()


def load_findings(pid):
    p = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == pid and d.get('kind') == 'finding':
                    out.append(d)
    return out


def harness(pid):
    sys.path.insert(0, ROOT)
    return importlib.import_module('harness.' + pid.lower())


def main(argv):
    if argv and argv[0] == 'replay':
        d = json.load(open(argv[1]))
        m = harness(d['property'])
        case = next(c for c in m.CASES if c.name == d['case'])
        r = replay(case, d['env'], d.get('seed', 0))
        print(json.dumps(r[:3], indent=1, default=str))
        return 1 if r[0] in ('violation', 'exception') else 0
    pid, tier = argv[0].upper(), (argv[1] if len(argv) > 1 else 'quick')
    only = argv[2:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    m = harness(pid)
    cases = [c for c in m.CASES if tier in c.tiers and (not only or any(o in c.name for o in only))]
    deadline = t0 + (600 if tier == 'quick' else float(os.environ.get('VF_THOROUGH_S', '3600')))
    if tier == 'thorough':
        for c in cases:
            for k, v in c.deep.items():
                setattr(c, k, v)
    ctxm = mp.get_context('fork')
    pending = list(cases)
    pending.sort(key=lambda c: -c.max_time)
    running = []
    results = []
    ncpu = int(os.environ.get('VF_JOBS', '8'))
    stop_early = False
    while pending or running:
        while pending and len(running) < ncpu and not stop_early:
            c = pending.pop(0)
            rx, tx = ctxm.Pipe(False)
            p = ctxm.Process(target=worker, args=(pid, c, tier, seed, tx), daemon=True)
            p.start()
            tx.close()
            running.append((p, rx, c, time.time()))
        if stop_early:
            pending = []
        time.sleep(0.02)
        for it in list(running):
            p, rx, c, ts = it
            got = None
            if rx.poll():
                try:
                    got = rx.recv()
                except EOFError:
                    got = dict(case=c.name, crash="worker died (exit %s)" % p.exitcode)
            elif not p.is_alive():
                if rx.poll(0.2):
                    continue
                got = dict(case=c.name, crash="worker died (exit %s)" % p.exitcode)
            elif time.time() - ts > c.max_time * 1.3 + 90 or time.time() > deadline:
                p.kill()
                got = dict(case=c.name, killed="no result after %.0f s" % (time.time() - ts))
            if got is not None:
                results.append(got)
                running.remove(it)
                p.join(5)
                if p.is_alive():
                    p.kill()
                if got.get('violations') and time.time() - t0 > 240:
                    stop_early = True
    return report(pid, tier, seed, m, cases, results, t0, bool(only))


def report(pid, tier, seed, m, cases, results, t0, partial):
    findings = load_findings(pid)
    vio, inc, err, known = [], [], [], {}
    killed = [r for r in results if 'killed' in r]
    results = [r for r in results if 'killed' not in r]
    skipped = [c.name for c in cases if c.name not in [r['case'] for r in results + killed]]
    for r in killed:
        print("note: case %s gave %s" % (r['case'], r['killed']))
    if not [r for r in results if r.get('checks')]:
        err.append("no case gave a result")
    for r in results:
        if 'crash' in r:
            err.append("%s: %s" % (r['case'], r['crash']))
            continue
        for v in r['violations']:
            f = next((f for f in findings if f['case'] == v['case'] and (f.get('label') in (None, v['label']))), None)
            if f is not None:
                known.setdefault(f['what'], v)
            else:
                vio.append(v)
        fc = any(f['case'] == r['case'] for f in findings)
        inc.extend(r['inconclusive'])
        err.extend(r['errors'])
    ok = [r for r in results if 'crash' not in r]
    tot = lambda k: sum(r[k] for r in ok)
    funcs = sorted(set(f for r in ok for f in r['functions']))
    bys = {}
    for r in ok:
        for k, v in r['by_solver'].items():
            bys[k] = bys.get(k, 0) + v
    cov = dict(
        states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=tot('validated'),
        samples=[s for r in ok for s in r['samples']][:12],
        exhaustive=bool(ok) and not any(r['truncated'] for r in ok) and not err and not killed,
        explanation="states = complete symbolic paths; transitions = branch decisions taken on them; each trace = one "
                    "solver witness replayed on the repository's code with real numpy and compared.",
        infeasible_or_cut_paths=tot('pruned'), two_way_forks=tot('transitions'),
        assertions_checked=tot('checks'), assertions_by_normal_form=tot('discharged_nf'),
        assertions_by_solver=tot('discharged_solver'),
        normal_form_identities_confirmed_by_solver=tot('confirmed'),
        normal_form_identities_not_put_to_solver=tot('not_confirmed'),
        queries=tot('queries'), query_results=dict(sat=tot('sat'), unsat=tot('unsat'), unknown=tot('unknown')),
        solver_seconds=round(tot('solver_s'), 2), queries_by_solver=bys,
        functions_encoded=funcs, bounds=list(getattr(m, 'BOUNDS', [])),
        outside_bounds=list(getattr(m, 'OUTSIDE', [])),
        cases=[{k: r.get(k) for k in ('case', 'paths', 'pruned', 'decisions', 'checks', 'queries', 'solver_s', 'truncated',
                                      'cuts', 'covers', 'labels', 'validated', 'mismatched', 'wall_s')} for r in ok],
        inconclusive=inc[:20], errors=err[:20], cases_without_result=[r['case'] for r in killed] + skipped,
        known_findings=sorted(known))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=BASE_ASSUMPTIONS + list(getattr(m, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(vio))
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    if not partial:
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d decisions, %d assertions (%d normal form, %d of them confirmed, %d solver), %d queries "
          "(%d unknown, %.1f s), %d traces validated (%d mismatched), %.1f s" % (
              pid, tier, len(ok), cov['states'], cov['transitions'], cov['assertions_checked'],
              cov['assertions_by_normal_form'], tot('confirmed'), cov['assertions_by_solver'], cov['queries'], tot('unknown'),
              cov['solver_seconds'], cov['traces_validated_against_impl'], tot('mismatched'), time.time() - t0))
    for r in sorted(ok, key=lambda r: -r['wall_s'])[:60] if os.environ.get('VF_V') else []:
        print("  %-40s paths %d pruned %d checks %d queries %d solver %.1f wall %.1f val %d mis %d %s%s" % (
            r['case'], r['paths'], r['pruned'], r['checks'], r['queries'], r['solver_s'], r['wall_s'], r['validated'],
            r['mismatched'], r['cuts'] or '', ' TRUNCATED' if r['truncated'] else ''))
        for x in r['mismatch_detail']:
            print("     mismatch:", x[:1500])
    for r in ok:
        if r['truncated']:
            print("note: case %s stopped at its limit after %d paths" % (r['case'], r['paths']))
    for w in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    seen = set()
    n = 0
    for v in vio:
        key = (v['case'], v['label'])
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if n > 12:
            break
        rp = os.path.join(ROOT, 'evidence', 'replay', "%s-%d.json" % (pid, n))
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, case=v['case'], label=v['label'], detail=v['detail'], env=v['env'], seed=seed),
                      f, indent=1)
        print("--- %s / %s (found by %s): %s" % (v['case'], v['label'], v['found'], v['detail'][:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if vio:
        return 1
    for x in inc[:10]:
        print("INCONCLUSIVE %s" % x)
    for x in err[:10]:
        print("ERROR %s" % x)
    if not (inc or err):
        return 0
    # what is listed above was not decided; no answer at all when that is most of the check
    bad = [r['case'] for r in results if 'crash' in r or r.get('inconclusive') or r.get('errors')]
    if results and len(bad) * 2 < len(cases) and cov['assertions_checked']:
        print("note: %d of %d cases left something undecided; the property held on everything else" % (len(bad), len(cases)))
        return 0
    return 2


BASE_ASSUMPTIONS = [
    "Floating point is modelled as exact real arithmetic (constants snapped to 13 significant digits, assertions carry a "
    "1e-6 relative tolerance); every counterexample is replayed in IEEE doubles on the real code before it is reported.",
    "numpy, scipy.special and the random generator are replaced by symbolic models; draws are arbitrary values of the "
    "distribution's support. time/timeit, guppy, matplotlib and sklearn.KMeans are stand-ins.",
]
