"""C28: every row of the results file holds, under each column of the header, the value of that quantity for the batch it reports."""
import os
import shutil
import tempfile
from vf.runner import Case, T
from harness.lib import *
from harness.c27 import record_metrics, mk_stub

BOUNDS = ["1-2 targets of 1-3 dimensions, 1-2 methods, 1-2 repetitions, up to 2 batches; every list of metrics in the configuration (any order); metric values, NESS and the "
          "samplers' counters arbitrary"]
OUTSIDE = ["names with blanks", "plots", "a results directory that cannot be created"]

BENCH = """targets:
"""
TARGET = """
    - name: %s
      type: StubTarget
      params: {dims: %d}
      batch_size: %d
      nsamples: %d
      nsamples_eval: %d
"""
METHODS = """methods:
"""
METHOD = """
    - name: %s
      type: StubMethod
      debug: false
      params:
        tag: %d
"""
CONFIG = """
nreps: %d
rseed: %d
metrics: [%s]
debug: {text: true, plot: {show: false, save: false, path: %s}}
animation: {enable: false, fps: 1, animation_path: x}
output:
    file: %s
    make_plots: false
    plots_path: %s
    plots_dpi: 100
"""
KEYS = {'KLD': 'KLD', 'JSD': 'JSD', 'EVMSE': 'EVMSE', 'T': 'T', 'MEM': 'MEM'}


def inject(ctx, **types):
    """make the types available to the benchmark the way the real ones are"""
    for n, t in types.items():
        for m in ('sampling_methods', 'distributions'):
            setattr(ctx.mod(m), n, t)
    C = ctx.mod('benchmark.CBenchmark')
    for n, t in types.items():
        setattr(C, n, t)
    return C


def near(ctx, label, tok, v, digits, detail=''):
    d = ctx.printed(tok) - v
    ctx.check(label, d <= .51 * 10.0 ** -digits, detail)
    ctx.check(label, -d <= .51 * 10.0 ** -digits, detail)


def check_row(ctx, head, line, names, vals, s, t, n, q):
    """one line of the file against the state of the method it reports"""
    f = line.split()
    ctx.check("one field per column", len(f) == len(head), "%d fields, %d columns: %s" % (len(f), len(head), line))
    row = dict(zip(head, f))
    ctx.check("dims", int(row['dims']) == t.dims)
    ctx.check("output_samples", int(row['output_samples']) == n, "%s, expected %d" % (row['output_samples'], n))
    for m in names:
        near(ctx, "metric under its column", row[m], vals[m], 5, m)
    near(ctx, "NESS", row['NESS'], q['ness'], 3)
    ctx.check("method", row['method'] == s)
    ctx.check("target_d", row['target_d'] == t.name)
    near(ctx, "accept_rate", row['accept_rate'], n / q['qs'], 3)
    ctx.check("proposal_samples", int(row['proposal_samples']) == q['qs'])
    ctx.check("proposal_evals", int(row['proposal_evals']) == q['qe'])
    ctx.check("target_evals", int(row['target_evals']) == q['pi'])


def full(ctx, dims, nm, reps, metrics, most=2, rseed=-1, runs=1, column_case=False):
    log = []
    ctx.tick = 0.0
    record_metrics(ctx, log, cost=False)
    base = mk_stub(ctx, log, 1, 1, max_time=.5)
    made = []

    class StubMethod(base):
        def __init__(self, params):
            super().__init__(params)
            self.viz = None
            made.append(self)

        def importance_sample(self, target_d, n_samples, timeout):
            r = super().importance_sample(target_d, n_samples, timeout)
            log[-1][2].update(method=self, ness=self.get_NESS(), qs=self._num_q_samples, qe=self._num_q_evals, pi=self._num_pi_evals)
            return r
    targets = []

    class StubTarget(Target):
        def __init__(self, params):
            d = params["dims"]
            super().__init__(ctx, d, [-1.0 - j for j in range(d)], [2.0 + j for j in range(d)])
            targets.append(self)
    C = inject(ctx, StubMethod=StubMethod, StubTarget=StubTarget)
    batch = 1 + ctx.pick('batch', 2)
    tmp = tempfile.mkdtemp(prefix='vf28')
    try:
        p = lambda n: os.path.join(tmp, n)
        with open(p('b.yaml'), 'w') as f:
            f.write(BENCH + "".join(TARGET % ("tgt%d" % i, d, batch, most, 50 + i) for i, d in enumerate(dims)))
        with open(p('m.yaml'), 'w') as f:
            f.write(METHODS + "".join(METHOD % ("meth%d" % i, i) for i in range(nm)))
        with open(p('c.yaml'), 'w') as f:
            f.write(CONFIG % (reps, rseed, ", ".join(metrics), p('plots') + '/', p('unused.txt'), p('figs') + '/'))
        out = p('res/results.txt')
        b = C.CBenchmark()
        for again in range(runs):
            del log[:]
            b.run(benchmark_file=p('b.yaml'), methods_file=p('m.yaml'), config_file=p('c.yaml'), out_file=out)
            lines = open(out).read().splitlines()
            verify(ctx, lines, log, targets[-len(dims):], dims, nm, reps, metrics, made, rseed, column_case)
            ctx.check("no other results", not os.path.exists(p('unused.txt')))
    finally:
        shutil.rmtree(tmp)
    ctx.observe("lines", len(lines))
    ctx.cover("done")


def verify(ctx, lines, log, targets, dims, nm, reps, metrics, made, rseed, column_case):
    names = [m for m in metrics if m != 'NESS']
    head = lines[0].split()
    want = ['dims', 'output_samples'] + names + ['NESS', 'method', 'target_d', 'accept_rate', 'proposal_samples', 'proposal_evals', 'target_evals']
    if 'NESS' in metrics:
        # known finding: the header names NESS twice. Everything else is judged by the columns as they should be
        if column_case:
            ctx.check("columns", sorted(head) == sorted(want), "%s" % (head,))
        head = want
    ctx.check("columns", sorted(head) == sorted(want), "%s" % (head,))
    rows = lines[1:]
    samples = [i for i, e in enumerate(log) if e[0] == 'sample']
    ctx.check("one row per batch", len(rows) == len(samples), "%d rows, %d batches" % (len(rows), len(samples)))
    seen = []
    for k, i in enumerate(samples):
        nxt = samples[k + 1] if k + 1 < len(samples) else len(log)
        e = log[i][2]
        vals = {x[1]: x[2]['value'] for x in log[i:nxt] if x[0] == 'compute'}
        ctx.check("every metric is computed", sorted(vals) == sorted(names))
        ctx.check("evaluation samples of the target", all(x[2].get('nsamples') == 50 + targets.index(e['target']) for x in log[i:nxt] if x[0] == 'compute'))
        s = e['method']
        check_row(ctx, head, rows[k], names, vals, s.name, e['target'], e['got'], e)
        pair = (e['target'].name, s.name)
        if not seen or seen[-1] != pair:
            seen.append(pair)
        d = e['target'].dims
        ctx.check("the method is built for the dimensions of the target", s.ndims == d)
        ctx.check_all_close("the method is built for the support of the target", s.space_min, e['target'].lo)
        ctx.check_all_close("the method is built for the support of the target", s.space_max, e['target'].hi)
    ctx.check("every method runs on every target", seen == [("tgt%d" % a, "meth%d" % m) for a in range(len(dims)) for m in range(nm)], "%s" % (seen,))
    ctx.check("random seed", len(ctx.rng_seeds) == 0 if rseed < 0 else set(ctx.rng_seeds) == {rseed})


class Sampler:
    pass


def row(ctx, names, d=1, nd=4):
    """write_results appends one row and keeps what the file holds"""
    C = ctx.mod('benchmark.CBenchmark').CBenchmark
    B = ctx.mod('sampling_methods.base')
    n = 1 + ctx.pick('n', 12)
    qs, qe, pi = n * (1 + ctx.pick('qs', 3)), 3 + ctx.pick('qe', 2), 1 + ctx.pick('pi', 2)
    ness = ctx.real('ness', .01, 1)
    s = mk_stub(ctx, [], d)({"space_min": ctx.A([0.0] * d), "space_max": ctx.A([1.0] * d), "dims": d})
    s.name = 'm'
    s.samples = ctx.A([[0.0] * d] * n)
    s._num_q_samples, s._num_q_evals, s._num_pi_evals = qs, qe, pi
    s.get_NESS = lambda: ness
    t = Target(ctx, d, name='t')
    vals = {m: ctx.real('v.' + m, -99, 99, hint=(.1, 90)) for m in names}
    tmp = tempfile.mkdtemp(prefix='vf28')
    try:
        out = os.path.join(tmp, 'r.txt')
        with open(out, 'w') as f:
            f.write("head\nfirst row\n")
        C.write_results(vals, s, t, n, out)
        C.write_results(vals, s, t, n, out)
        lines = open(out).read().split("\n")
    finally:
        shutil.rmtree(tmp)
    ctx.check("appends whole lines", len(lines) == 5 and lines[:2] == ["head", "first row"] and lines[4] == "")
    head = ['dims', 'output_samples'] + list(names) + ['NESS', 'method', 'target_d', 'accept_rate', 'proposal_samples', 'proposal_evals', 'target_evals']
    for l in lines[2:4]:
        check_row(ctx, head, l, names, vals, 'm', t, n, dict(ness=ness, qs=qs, qe=qe, pi=pi))
    ctx.observe("n", n)
    ctx.cover("done")


N = ("done",)
CASES = [
    Case("header with NESS", full, dict(dims=(1,), nm=1, reps=1, metrics=['JSD', 'NESS'], most=1, column_case=True)),
    Case("run JSD MEM T", full, dict(dims=(1,), nm=1, reps=1, metrics=['JSD', 'MEM', 'T']), need=N),
    Case("run T KLD NESS", full, dict(dims=(1,), nm=1, reps=1, metrics=['T', 'KLD', 'NESS', 'EVMSE']), need=N),
    Case("run NESS", full, dict(dims=(2,), nm=1, reps=2, metrics=['NESS'], rseed=3), need=N),
    Case("run two targets", full, dict(dims=(2, 1), nm=2, reps=1, metrics=['KLD', 'JSD'], most=1), need=N),
    Case("run all", full, dict(dims=(3,), nm=2, reps=2, metrics=['EVMSE', 'KLD', 'T', 'NESS', 'MEM', 'JSD'], most=1, rseed=0), need=N),
    Case("run again", full, dict(dims=(1, 2), nm=1, reps=1, metrics=['T'], most=1, runs=2), need=N),
    Case("row", row, dict(names=['a', 'b', 'c']), need=N),
    Case("row no metrics", row, dict(names=[], d=3), need=N),
    T("run three targets", full, dict(dims=(1, 2, 3), nm=3, reps=2, metrics=['T', 'MEM', 'NESS', 'JSD'], most=2)),
]
