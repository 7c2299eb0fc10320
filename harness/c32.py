"""C32: a Gaussian mixture written with to_dict and loaded again is the same benchmark target."""
import yaml
from vf.runner import Case, T
from harness.lib import *
from harness.c29 import Files

BOUNDS = ["mixtures of 1-3 components (5 thorough) in d = 1-3, all parameters symbolic (0.01 to 9 in the text of the file), 1-2 mixtures in the file"]
OUTSIDE = ["distributions other than CGaussianMixtureModel, whose to_dict leaves their parameters out"]


def run(ctx, d, n, named, k=1):
    D = ctx.mod('distributions')
    C = ctx.mod('benchmark.CBenchmark')
    ctx.repr_tokens()
    made, dicts = [], []
    for i in range(k):
        P = lambda s, sh, top=9: ctx.reals("%d.%s" % (i, s), sh, .01, top, hint=(.1, 4))
        g = D.CGaussianMixtureModel({"means": P('mean', (n, d)), "sigmas": P('sig', (n, d)), "weights": P('w', (n,)),
                                     "support": ctx.A([P('lo', (d,)), P('hi', (d,))])})
        made.append(g)
        q = dict(name="tgt%d" % i, batch_size=3 + i, nsamples=40 + i, nsamples_eval=70 + i) if named else {}
        dicts.append(g.to_dict(**q))
    b = C.CBenchmark()
    with Files() as fs:
        b.load_benchmark(fs.put('b.yaml', ctx.yaml_text({"targets": dicts})))
    ctx.check("one target each", len(b.targets) == k)
    for i, g in enumerate(made):
        t = b.targets[i]
        ctx.check("type", type(t) is type(g))
        ctx.check("dimensions", t.dims == g.dims == b.ndims[i])
        ctx.check("name", t.name == ("tgt%d" % i if named else g.type))
        ctx.check("evaluation settings", (b.batch_sizes[i], b.nsamples[i], b.eval_sampl[i]) == ((3 + i, 40 + i, 70 + i) if named else (32, 1000, 2000)))
        ctx.check_all_close("support", t.support(), g.support(), rel=1e-9)
        ctx.check_all_close("means", t.means, g.means, rel=1e-9)
        ctx.check_all_close("deviations", t.sigmas, g.sigmas, rel=1e-9)
        x = ctx.reals('x', (1, d), -4, 9)
        ctx.check_all_close("density", t.prob(x), g.prob(x))
    ctx.observe("s", b.targets[0].support())
    ctx.cover("done")


N = ("done",)
CASES = [Case("d=%d n=%d%s" % (d, n, " named" if named else ""), run, dict(d=d, n=n, named=named, k=k), need=N)
         for d, n, named, k in ((1, 1, False, 1), (1, 2, True, 2), (2, 2, True, 1), (2, 1, False, 2), (3, 3, True, 1))]
CASES += [T("d=3 n=5", run, dict(d=3, n=5, named=True, k=3))]
