"""C27: evaluate_method drives the sampler to the requested size or the time limit and measures exactly the sampling calls."""
import os
import shutil
import tempfile
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["1-2 repetitions, up to 4 requested samples in batches of 1-2, samplers that return any number of samples from 1 up to one more than asked; durations of "
          "the sampling calls and of the metrics, the time limit and metric values symbolic"]
OUTSIDE = ["debug plots and profiling", "samplers that return no samples", "max_samples = 0"]

METRICS = {'KLD': 'metrics.divergences:CKLDivergence', 'JSD': 'metrics.divergences:CJSDivergence', 'EVMSE': 'metrics.statistics:CExpectedValueMSE',
           'T': 'metrics.performance:CElapsedTime', 'MEM': 'metrics.performance:CMemoryUsage'}


def record_metrics(ctx, log, cost=True):
    """every metric logs what happens to it and reports arbitrary values"""
    count = [0]

    def patch(name, cls):
        def ev(what):
            def f(self, **k):
                log.append((what, name, k))
            return f

        def compute(self, **k):
            log.append(('compute', name, k))
            count[0] += 1
            if cost:
                ctx.now = ctx.now + ctx.real('metric.t%d' % count[0], 0, 4, hint=(.1, 2))
            self.value = ctx.real('metric.v%d' % count[0], .01, 9, hint=(.1, 8))
            log[-1][2]['value'] = self.value
            return self.value
        init = cls.__init__

        def fresh(self, *a, **k):
            n = len(log)
            init(self, *a, **k)
            del log[n:]
            log.append(('reset', name, {}))
        cls.__init__ = fresh
        cls.pre, cls.post, cls.reset, cls.compute = ev('pre'), ev('post'), ev('reset'), compute
    for n, where in METRICS.items():
        m, c = where.split(':')
        patch(n, getattr(ctx.mod(m), c))


def mk_stub(ctx, log, d=1, extra=1, less=False, max_time=6):
    """a sampler that returns any number of samples, takes any time and logs its calls"""
    B = ctx.mod('sampling_methods.base')

    class Stub(B.CSamplingMethod):
        def __init__(self, params):
            super().__init__(params)
            self.given = params
            self.calls = 0
            self.viz = object()

        def reset(self):
            super().reset()
            log.append(('reset', 'method', {}))

        def importance_sample(self, target_d, n_samples, timeout):
            self.calls += 1
            i = sum(e[0] == 'sample' for e in log)
            lo = max(1, n_samples - 1) if less else n_samples
            n = max(len(self.samples), lo + ctx.pick('extra%d' % i, n_samples + extra - lo + 1))
            dt = ctx.real('work%d' % i, 0, max_time, hint=(.1, 5))
            log.append(('sample', 'method', dict(target=target_d, n=n_samples, timeout=timeout, got=n, dt=dt)))
            ctx.now = ctx.now + dt
            self.samples = ctx.A([[float(j)] * d for j in range(n)])
            self.weights = ctx.A([1.0 / n] * n)
            self._num_q_samples, self._num_q_evals, self._num_pi_evals = 2 * n, 3 * n + i, 4 * n + i
            return self.samples, self.weights

        def sample(self, n_samples):
            raise AssertionError("not needed")

        def prob(self, samples):
            return ctx.A([1.0] * len(samples))

        def log_prob(self, samples):
            return ctx.A([0.0] * len(samples))

        def get_NESS(self):
            return ctx.real('ness%d' % self.calls, .01, 1)

        def draw(self, ax):
            return []

        def get_viz_frames(self):
            return self.viz
    return Stub


def groups(log):
    """the repetitions: a reset after samples were taken starts the next one"""
    out = [[]]
    for e in log:
        if e[0] == 'reset' and any(x[0] == 'sample' for x in out[-1]):
            out.append([])
        out[-1].append(e)
    return out


def evaluate(ctx, reps, most, metrics, batches=(1, 2), rseed=-1, less=False, extra=1, file=False, over=True):
    log = []
    ctx.tick = 0.0
    record_metrics(ctx, log)
    C = ctx.mod('benchmark.CBenchmark').CBenchmark
    lo, hi = ctx.A([-1.0]), ctx.A([1.0])
    s = mk_stub(ctx, log, 1, extra, less)({"space_min": lo, "space_max": hi, "dims": 1})
    s.name = 'stub'
    t = Target(ctx, 1, lo, hi)
    most = 1 + ctx.pick('max_samples', most)
    batch = ctx.choice('batch', batches)
    limit = ctx.real('limit', 0, 10, lo_open=True, hint=(.5, 9)) if over else 600.0
    tmp = tempfile.mkdtemp(prefix='vf27')
    try:
        path = os.path.join(tmp, 'out.txt')
        r = C.evaluate_method(ndims=1, target_dist=t, sampling_method=s, max_samples=most, sampling_eval_samples=77, metrics=metrics,
                              rseed=rseed, n_reps=reps, batch_size=batch, debug=False, filename=path if file else None, max_sampling_time=limit)
        lines = open(path).read().splitlines() if os.path.exists(path) else []
    finally:
        shutil.rmtree(tmp)
    ctx.check("returns the frames of the method", r is s.viz)
    ctx.check("seeded once when asked to", ctx.rng_seeds == ([rseed] if rseed >= 0 else []), "seeds %s" % (ctx.rng_seeds,))
    used = [m for m in metrics if m != 'NESS']
    gs = groups(log)
    ctx.check("one run per repetition, after a reset of the method", len(gs) == reps, "%d runs" % len(gs))
    rows = 0
    for g in gs:
        calls = [i for i, e in enumerate(g) if e[0] == 'sample']
        ctx.check("samples", len(calls) > 0)
        first = [e[:2] for e in g[:calls[0]]]
        ctx.check("method reset before a repetition", ('reset', 'method') in first)
        for m in used:
            ctx.check("metrics reset before a repetition", ('reset', m) in first, m)
        have, spent = 0, 0.0
        for k, i in enumerate(calls):
            a = g[i][2]
            ctx.check("the target under evaluation", a['target'] is t)
            ctx.check("asks for one batch more than it has", a['n'] == have + batch, "asked for %s, had %d, batch %d" % (a['n'], have, batch))
            if over:
                ctx.check_close("time limit", a['timeout'], limit - spent)
            else:
                ctx.check("a call gets no more than the time limit", a['timeout'] <= limit)
            if k:
                ctx.check("continues while samples are missing", have < most)
                if over:
                    ctx.check("time limit", spent <= limit)
            have, spent = a['got'], spent + a['dt']
            before = [e for e in g[(calls[k - 1] if k else 0):i]]
            nxt = calls[k + 1] if k + 1 < len(calls) else len(g)
            after = g[i + 1:nxt]
            for m in used:
                ctx.check("meters start before sampling", [e[:2] for e in before].count(('pre', m)) == 1, m)
                ctx.check("meters stop after sampling", [e[:2] for e in after].count(('post', m)) == 1, m)
                ctx.check("metrics are computed once per batch", [e[:2] for e in after].count(('compute', m)) == 1, m)
            stop = [j for j, e in enumerate(after) if e[0] == 'post']
            comp = [j for j, e in enumerate(after) if e[0] == 'compute']
            pre = [j for j, e in enumerate(after) if e[0] == 'pre']
            ctx.check("meters stop before metrics are computed", not stop or not comp or max(stop) < min(comp))
            ctx.check("meters start after metrics are computed", not pre or not comp or max(comp) < min(pre))
            for j in comp:
                q = after[j][2]
                ctx.check("metrics compare the target with the method", q.get('p') is t and q.get('q') is s)
                ctx.check("evaluation samples", q.get('nsamples') == 77)
            if file:
                ctx.check("one row per batch", rows < len(lines), "%d rows" % len(lines))
                f = lines[rows].split()
                ctx.check("number of samples of the row", int(f[1]) == have)
                ctx.check("row length", len(f) == 2 + len(used) + 7)
                vals = [after[j][2]['value'] for j in comp]
                order = [after[j][1] for j in comp]
                for m, tok in zip(used, f[2:]):
                    ctx.check_close("metric value of the row", ctx.parse(tok), vals[order.index(m)], abs_=1e-4)
                rows += 1
        if have < most:
            ctx.check("stops only at the size or the limit", over and spent > limit)
        else:
            ctx.cover("size")
    ctx.check("no more rows", rows == len(lines), "%d lines, %d batches" % (len(lines), rows))
    ctx.observe("calls", [[(e[2]['n'], e[2]['got']) for e in g if e[0] == 'sample'] for g in gs])
    ctx.cover("done")


CASES = [
    # the time limit applies to the sampling of a repetition as a whole (known finding, see known_findings.jsonl)
    Case("time limit", evaluate, dict(reps=1, most=3, metrics=['T'])),
    Case("size", evaluate, dict(reps=1, most=4, metrics=['T'], over=False), need=("done", "size")),
    Case("size JSD KLD", evaluate, dict(reps=1, most=2, metrics=['JSD', 'KLD'], over=False), need=("done", "size")),
    Case("rows", evaluate, dict(reps=1, most=3, metrics=['MEM', 'EVMSE', 'T'], file=True, over=False), need=("done", "size")),
    Case("rows NESS", evaluate, dict(reps=1, most=2, metrics=['NESS', 'JSD', 'T'], file=True, over=False), need=("done", "size")),
    Case("repetitions", evaluate, dict(reps=2, most=2, metrics=['KLD', 'NESS'], batches=(2,), rseed=5, file=True, over=False), need=("done", "size")),
    Case("fewer samples than asked", evaluate, dict(reps=1, most=3, metrics=['T'], batches=(2,), less=True, over=False), need=("done", "size")),
    Case("seed 0", evaluate, dict(reps=1, most=1, metrics=[], rseed=0, over=False), need=("done",)),
    Case("no metrics", evaluate, dict(reps=2, most=2, metrics=['NESS'], file=True, over=False), need=("done", "size")),
    T("size 5", evaluate, dict(reps=1, most=5, metrics=['T', 'MEM'], over=False)),
    T("repetitions 3", evaluate, dict(reps=3, most=3, metrics=['JSD'], batches=(1, 2), rseed=1, file=True, extra=0, over=False)),
]
