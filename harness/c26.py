"""C26: the time and memory meters add up what happens between pre() and post()."""
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["1-3 measured intervals (5 thorough) and a reset in between; clock readings, sleep overshoot and heap sizes symbolic (any clock step up to 5 s per reading)"]
OUTSIDE = ["clocks that go backwards"]


def clock(ctx, k, over):
    P = ctx.mod('metrics.performance')
    ctx.tick = over                                     # every reading of the clock costs this much
    m = P.CElapsedTime()
    ctx.check_close("starts at zero", m.value, 0.0)
    ctx.check_close("starts at zero", m.compute(), 0.0)
    ctx.check("name", m.name == "time" and m.type == "performance")
    ctx.check_close("overhead of a measurement", m.overhead, over, abs_=1e-9)
    ctx.clock_sym = (0, 5)
    want = 0.0
    for i in range(k):
        a = ctx.now
        m.pre(any=1)
        b = ctx.now
        step = ctx.real('work%d' % i, 0, 100, hint=(.1, 5))
        ctx.now = ctx.now + step
        m.post(any=1)
        # one reading at the start (first thing) and one at the end
        want = want + (ctx.now - b) - over
        ctx.check_close("the sum of the measured intervals", m.compute(p=1, q=2, nsamples=3), want, abs_=1e-9)
        ctx.check_close("value", m.value, want, abs_=1e-9)
        ctx.now = ctx.now + 7                           # not measured
    m.reset()
    ctx.check_close("reset", m.compute(), 0.0)
    ctx.check_close("reset", m.value, 0.0)
    b0 = None
    m.pre()
    b = ctx.now
    m.post()
    ctx.check_close("measures afresh after a reset", m.compute(), ctx.now - b - over, abs_=1e-9)
    ctx.observe("t", m.compute())
    ctx.cover("done")


def heap(ctx, k):
    P = ctx.mod('metrics.performance')
    m = P.CMemoryUsage()
    ctx.check("name", m.name == "memory" and m.type == "performance")
    ctx.check_close("starts at zero", m.compute(), 0.0)
    want = 0.0
    for i in range(k):
        h0 = len(ctx.heap)
        m.pre(any=1)
        ctx.check("looks at the heap before", len(ctx.heap) > h0)
        a, h1 = ctx.heap[-1], len(ctx.heap)
        m.post(any=1)
        ctx.check("looks at the heap after", len(ctx.heap) > h1)
        want = want + (ctx.heap[h1] - a) / 1e6
        ctx.check_close("the sum of the growths in MB", m.compute(p=1, q=2, nsamples=3), want, rel=1e-9, abs_=1e-12)
        ctx.check_close("value", m.value, want, rel=1e-9, abs_=1e-12)
    m.reset()
    ctx.check_close("reset", m.compute(), 0.0, abs_=1e-12)
    ctx.check_close("reset", m.value, 0.0, abs_=1e-12)
    m.pre()
    a = ctx.heap[-1]
    m.post()
    ctx.check_close("measures afresh after a reset", m.compute(), (ctx.heap[-1] - a) / 1e6, abs_=1e-12)
    ctx.observe("m", m.compute())
    ctx.cover("done")


CASES = [Case("time %d" % k, clock, dict(k=k, over=o), need=("done",)) for k, o in ((1, 0.0), (2, .001), (3, .002))]
CASES += [Case("memory %d" % k, heap, dict(k=k), need=("done",)) for k in (1, 2, 3)]
CASES += [T("time 5", clock, dict(k=5, over=.003)), T("memory 5", heap, dict(k=5))]
