"""C29: a configured benchmark is exactly what its files say."""
import os
import shutil
import tempfile
from vf.runner import Case, T
from harness.lib import *
from harness.c27 import mk_stub
from harness.c28 import inject

BOUNDS = ["1-3 targets, 1-3 methods of 1-3 dimensions; every numeric value in the files and the domain limits symbolic (values between 0.01 and 9 in the text of the files), "
          "loading the same or another file again"]
OUTSIDE = ["YAML syntax errors", "parameters that are expressions with symbolic operands"]


class Files:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix='vf29')

    def put(self, name, text):
        p = os.path.join(self.tmp, name)
        with open(p, 'w', encoding='utf8') as f:
            f.write(text)
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.tmp)


def methods(ctx, d, k, exact=False):
    """load_methods: every configured method, in order, with the limits of the domain and its parameters"""
    ctx.repr_tokens()
    # known finding: the limits pass through text of eight digits
    tol = 1e-12 if exact else 1e-7
    base = mk_stub(ctx, [], d)
    StubA = type('StubA', (base,), {})
    StubB = type('StubB', (base,), {})
    C = inject(ctx, StubA=StubA, StubB=StubB)
    lo = ctx.reals('lo', d, -9, 9)
    hi = ctx.reals('hi', d, -9, 9)
    b = C.CBenchmark()
    with Files() as fs:
        for turn in range(2):
            n = k if turn == 0 else 1
            vals = [ctx.real('p%d.%d' % (turn, i), .01, 9) for i in range(n)]
            ints = [3 + i for i in range(n)]
            text = "methods:\n"
            for i in range(n):
                text += "  - name: m%d_%d\n    type: %s\n    debug: %s\n    params:\n      sigma: %s\n      K: %d\n      kind: \"'simple'\"\n      e: 2*3+self_%d\n" % (
                    turn, i, ('StubA', 'StubB')[i % 2], ('true', 'false')[i % 2], ctx.tok(vals[i]), ints[i], 0)
            text = text.replace("+self_0", "")
            p = fs.put('m%d.yaml' % turn, text)
            b.load_methods(p, lo, hi, d)
            ctx.check("number of methods", len(b.methods) == n, "%d" % len(b.methods))
            for i, m in enumerate(b.methods):
                ctx.check("type", type(m) is (StubA, StubB)[i % 2])
                ctx.check("name", m.name == "m%d_%d" % (turn, i))
                ctx.check("debug flag", m.debug is (i % 2 == 0))
                g = m.given
                ctx.check("parameters", sorted(g) == ['K', 'dims', 'e', 'kind', 'sigma', 'space_max', 'space_min'], "%s" % sorted(g))
                ctx.check_close("numeric parameter", g['sigma'], vals[i])
                ctx.check("integer parameter", g['K'] == ints[i] and isinstance(g['K'], int))
                ctx.check("text parameter", g['kind'] == 'simple')
                ctx.check("expression parameter", g['e'] == 6)
                ctx.check("dims", g['dims'] == d == m.ndims)
                ctx.check_shape("limits of the domain", m.space_min, (d,))
                ctx.check_shape("limits of the domain", m.space_max, (d,))
                ctx.check_all_close("limits of the domain", m.space_min, lo, rel=0, abs_=tol)
                ctx.check_all_close("limits of the domain", m.space_max, hi, rel=0, abs_=tol)
    ctx.observe("lo", [m.space_min for m in b.methods])
    ctx.cover("done")


def tnum(ctx, name, k):
    return [ctx.real("%s%d" % (name, i), .01, 9, hint=(.1, 5)) for i in range(k)]


def lst(ctx, v):
    return "[" + ", ".join(ctx.tok(x) for x in v) + "]"


def targets(ctx, kinds):
    """load_benchmark: every target with its parameters and evaluation settings, in order"""
    ctx.repr_tokens()
    C = ctx.mod('benchmark.CBenchmark')
    D = ctx.mod('distributions')
    b = C.CBenchmark()
    with Files() as fs:
        for turn, ks in enumerate(kinds):
            text, want = "targets:\n", []
            for i, k in enumerate(ks):
                nm = "t%d_%d" % (turn, i)
                if k == 'gmm':
                    m, s, w = [tnum(ctx, nm + x, 2) for x in ('m', 's', 'w')]
                    typ, d = 'CGaussianMixtureModel', 1
                    par = "{means: [[%s], [%s]], sigmas: [[%s], [%s]], weights: %s, support: [[-10], [10]]}" % (
                        ctx.tok(m[0]), ctx.tok(m[1]), ctx.tok(s[0]), ctx.tok(s[1]), lst(ctx, w))
                    A = ctx.A
                    ref = D.CGaussianMixtureModel({"means": [[m[0]], [m[1]]], "sigmas": [[s[0]], [s[1]]], "weights": list(w), "support": [[-10], [10]]})
                elif k == 'normal':
                    m, s = tnum(ctx, nm + 'm', 1), tnum(ctx, nm + 's', 1)
                    typ, d = 'CMultivariateNormal', 1
                    par = "{mean: %s, sigma: [%s], support: [-5, 5]}" % (lst(ctx, m), lst(ctx, s))
                    ref = D.CMultivariateNormal({"mean": list(m), "sigma": [list(s)], "support": [-5, 5]})
                else:
                    typ, d, par, ref = 'Banana2D', 2, '{}', D.Banana2D({})
                text += "  - name: %s\n    type: %s\n    params: %s\n    batch_size: %d\n    nsamples: %d\n    nsamples_eval: %d\n    tags: [x]\n" % (
                    nm, typ, par, 2 + i, 10 + i, 20 + i)
                want.append((nm, typ, d, ref, 2 + i, 10 + i, 20 + i))
            b.load_benchmark(fs.put('b%d.yaml' % turn, text))
            n = len(ks)
            ctx.check("one entry per target", [len(x) for x in (b.targets, b.ndims, b.nsamples, b.eval_sampl, b.batch_sizes)] == [n] * 5)
            for i, (nm, typ, d, ref, bs, ns, ne) in enumerate(want):
                t = b.targets[i]
                ctx.check("type of the target", type(t).__name__ == typ)
                ctx.check("name of the target", t.name == nm)
                ctx.check("dimensions", b.ndims[i] == d == t.dims)
                ctx.check("evaluation settings", (b.batch_sizes[i], b.nsamples[i], b.eval_sampl[i]) == (bs, ns, ne))
                ctx.check_all_close("support", t.support(), ref.support())
                x = ctx.A([[ctx.real('x%d' % j, -4, 4) for j in range(d)]])
                ctx.check_all_close("density", t.log_prob(x), ref.log_prob(x))
    ctx.observe("n", [len(b.targets), b.nsamples])
    ctx.cover("done")


def bad(ctx):
    """a target that cannot be built is reported as a ValueError"""
    C = ctx.mod('benchmark.CBenchmark')
    T_ = "targets:\n  - name: t\n    type: %s\n    params: %s\n    batch_size: 2\n    nsamples: 5\n    nsamples_eval: 6\n"
    typ, par = ctx.choice('bad', [('NoSuchType', '{}'), ('CMultivariateNormal', '{mean: [0.0]}'), ('CGaussianMixtureModel', '{}'), ('1 +', '{}')])
    b = C.CBenchmark()
    with Files() as fs:
        p = fs.put('b.yaml', T_ % (typ, par))
        ctx.expect_raises("a target that cannot be built", ValueError, lambda: b.load_benchmark(p))
    ctx.cover("done")


def config(ctx):
    """load_config: metrics, repetitions, seed, debug and output settings"""
    C = ctx.mod('benchmark.CBenchmark')
    fl = [ctx.flag('f%d' % i) for i in range(4)]
    seed = ctx.choice('seed', [-1, 0, 7])
    reps = 1 + ctx.pick('reps', 3)
    mets = ctx.choice('metrics', [['KLD'], ['T', 'JSD', 'NESS'], []])
    w = lambda v: 'true' if v else 'false'
    text = ("nreps: %d\nrseed: %d\nmetrics: [%s]\ndebug: {text: %s, plot: {show: %s, save: %s, path: some/dir/}}\nanimation: {enable: true, fps: 1, animation_path: x/}\n"
            "output:\n    file: other.txt\n    make_plots: %s\n    plots_path: figs/\n    plots_dpi: 77\n") % (
        reps, seed, ", ".join(mets), w(fl[0]), w(fl[1]), w(fl[2]), w(fl[3]))
    b = C.CBenchmark()
    with Files() as fs:
        p = fs.put('c.yaml', text)
        b.load_config(p)
    ctx.check("metrics", list(b.metrics) == mets)
    ctx.check("debug settings", (b.debug_text, b.debug_plot, b.debug_plot_save, b.debug_plot_save_path) == (fl[0], fl[1], fl[2], 'some/dir/'))
    ctx.check("repetitions", b.n_experiments == reps)
    ctx.check("random seed", b.rseed == seed and ctx.rng_seeds == ([seed] if seed >= 0 else []), "%s" % (ctx.rng_seeds,))
    ctx.check("output settings", (b.generate_plots, b.generate_plots_path, b.plot_dpi) == (fl[3], 'figs/', 77))
    ctx.observe("c", [reps, seed])
    ctx.cover("done")


def shipped(ctx, which):
    """the configuration files of the repository load, and every method can be built for every target"""
    from vf.loader import REPO
    d = os.path.join(REPO, 'ais_benchmarks', 'benchmark')
    b = ctx.mod('benchmark.CBenchmark').CBenchmark()
    b.load_config(os.path.join(d, 'def_config.yaml'))
    try:
        b.load_benchmark(os.path.join(d, which))
    except ValueError as e:
        ctx.check("file loads", False, str(e))
    ctx.check("targets", len(b.targets) > 0)
    for t, n in zip(b.targets, b.ndims):
        ctx.check_shape("support", t.support(), (2, n))
        b.load_methods(os.path.join(d, 'def_methods.yaml'), t.support()[0], t.support()[1], n)
        ctx.check("methods", len(b.methods) > 0)
        for m in b.methods:
            ctx.check("dimensions", m.ndims == n)
    ctx.cover("done")


N = ("done",)
CASES = [
    Case("methods d=1", methods, dict(d=1, k=1), need=N),
    Case("methods d=2", methods, dict(d=2, k=2), need=N),
    Case("methods d=3", methods, dict(d=3, k=3), need=N),
    Case("targets gmm", targets, dict(kinds=[['gmm'], ['normal']]), need=N),
    Case("targets normal gmm", targets, dict(kinds=[['normal', 'gmm', 'banana'], ['banana']]), need=N),
    Case("targets more", targets, dict(kinds=[['banana'], ['gmm', 'gmm', 'normal']]), need=N),
    Case("bad target", bad, {}, need=N),
    Case("config", config, {}, need=N),
    Case("shipped benchmark", shipped, dict(which='def_benchmark.yaml'), need=N),
    Case("shipped benchden", shipped, dict(which=os.path.join('benchden', 'def_benchmark_benchden.yaml'))),
    Case("methods exact limits", methods, dict(d=1, k=1, exact=True)),
    T("methods d=6", methods, dict(d=6, k=6)),
    T("targets six", targets, dict(kinds=[['gmm', 'normal', 'banana', 'normal', 'gmm', 'normal'], ['normal', 'gmm']])),
]
