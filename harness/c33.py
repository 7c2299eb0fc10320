"""C33: the non-blocking stream reader behaves like a line buffer under every interleaving with its reading thread; wait_for_ready tells the truth."""
import queue
import threading
import types
from vf.runner import Case, T
from harness.lib import *

BOUNDS = ["1-3 lines (4 thorough) and 2-3 operations; every choice of operations and, at the start of each operation and before each access to the queue, "
          "every number of lines arriving; wait_for_ready with up to 3 polls, all durations and the time limit symbolic"]
OUTSIDE = ["interleavings inside the methods of the standard library's queue", "streams that fail while they are read"]


class Stop(BaseException):
    pass


class Schedule:
    """runs the reading thread of the code one line at a time: it moves only when it is told to"""

    def __init__(self, ctx, lines, end):
        self.ctx, self.lines, self.end = ctx, lines, end
        self.go, self.idle = threading.Semaphore(0), threading.Semaphore(0)
        self.given, self.ends, self.n = 0, 0, 0
        self.closing = self.dead = self.active = False
        self.behind = 0
        self.threads = []

    # ---- the stream
    def readline(self, *a):
        self.idle.release()
        self.go.acquire()
        if self.closing:
            raise Stop()
        if self.given < len(self.lines):
            self.given += 1
            return self.lines[self.given - 1]
        self.ends += 1
        return self.end

    def __iter__(self):
        return iter(self.readline, self.end)

    # ---- control
    def wait(self, t):
        while self.behind and self.idle.acquire(timeout=t):
            self.behind -= 1

    def grant(self, k):
        for _ in range(k):
            self.wait(2)
            if self.dead or self.behind:
                return
            self.behind += 1
            self.go.release()
            self.wait(2)

    def step(self):
        """before the consumer touches the queue: some lines arrive"""
        if self.active and threading.current_thread() not in self.threads:
            left = len(self.lines) - self.given
            if left:
                self.n += 1
                self.grant(self.ctx.pick('arrive%d' % self.n, left + 1))

    def close(self):
        self.closing, self.active = True, False
        for _ in range(4):
            self.go.release()
        for t in self.threads:
            t.join(5)

    def modules(self):
        s = self

        class Thread(threading.Thread):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                s.threads.append(self)

            def start(self):
                s.behind += 1
                super().start()
                s.wait(5)

            def run(self):
                try:
                    super().run()
                except Stop:
                    pass
                finally:
                    s.dead = True
                    s.idle.release()

        class Lock:
            """the queue's own lock, which also knows that it is held"""

            def __init__(self, lock):
                self.lock, self.held = lock, None

            def acquire(self, *a, **k):
                s.step()
                ok = self.lock.acquire(*a, **k)
                if ok:
                    self.held = threading.current_thread()
                return ok

            def release(self):
                self.held = None
                self.lock.release()

            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

            def locked(self):
                return self.lock.locked()

        class Queue(queue.Queue):
            calls = 0

            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                self.mutex = Lock(self.mutex)

            @property
            def queue(self):
                # looked at from outside without the lock: lines may arrive before
                m = self.__dict__.get('mutex')
                if isinstance(m, Lock) and m.held is None and not self.calls:
                    s.step()
                return self.__dict__['lines']

            @queue.setter
            def queue(self, v):
                self.__dict__['lines'] = v

            def _own(self, f, *a, **k):
                if threading.current_thread() in s.threads:
                    return f(*a, **k)
                s.step()
                self.calls += 1
                try:
                    return f(*a, **k)
                finally:
                    self.calls -= 1

            def empty(self):
                return self._own(super().empty)

            def full(self):
                return self._own(super().full)

            def qsize(self):
                return self._own(super().qsize)

            def get(self, *a, **k):
                return self._own(super().get, *a, **k)

            def put(self, *a, **k):
                return self._own(super().put, *a, **k)

        th, qu = types.ModuleType('threading'), types.ModuleType('queue')
        th.__dict__.update({k: v for k, v in vars(threading).items() if not k.startswith('__')})
        qu.__dict__.update({k: v for k, v in vars(queue).items() if not k.startswith('__')})
        th.Thread, qu.Queue = Thread, Queue
        return {'threading': th, 'queue': qu}


def apply(op, state):
    """(result, new state) of an operation on the lines waiting to be read"""
    if op == 'read':
        return (state[0], state[1:]) if state else ("", state)
    last = state[-1] if state else None
    return last, (state[-1:] if op == 'keep' else ())


def reader(ctx, n, ops, text=True, kinds=('read', 'keep', 'drop'), blank=None):
    lines = ["line %d\n" % i if text else b"line %d\n" % i for i in range(n)]
    if blank is not None:
        lines[blank] = "\n" if text else b"\n"
    s = Schedule(ctx, lines, "" if text else b"")
    ctx.world.stubs.update(s.modules())
    try:
        r = ctx.mod('utils.misc').CNonBlockingStreamReader(s)
        ctx.check("a background thread reads", len(s.threads) == 1 and s.threads[0].daemon, "%d threads" % len(s.threads))
        states, story = {()}, []
        for i in range(ops):
            op = kinds[ctx.pick('op%d' % i, len(kinds))]
            had = s.given
            s.active = True
            s.step()
            got = r.read() if op == 'read' else r.read_last_and_clear(keep_last=op == 'keep')
            s.active = False
            s.wait(5)
            new = lines[had:s.given]
            story.append((op, got, s.given))
            # the operation takes effect at one moment: after some of the lines that arrived meanwhile
            after = set()
            for st in states:
                for k in range(len(new) + 1):
                    v, rest = apply(op, st + tuple(new[:k]))
                    if v == got and type(v) is type(got):
                        after.add(rest + tuple(new[k:]))
            ctx.check("no line is lost, repeated or out of order", bool(after), "operations (name, result, lines arrived so far): %s" % story)
            states = after
            ctx.cover(op)
        s.grant(len(lines) - s.given + 2)
        ctx.check("the thread ends with the stream", s.dead, "still reading after %d empty reads" % s.ends)
        rest = []
        for _ in range(n + 2):
            v = r.read()
            if v == "":
                break
            rest.append(v)
        want = {st + tuple(lines[len(lines) - (len(lines) - story[-1][2]):]) for st in states}
        ctx.check("the remaining lines in order", tuple(rest) in want, "%s after %s" % (rest, story))
        ctx.observe("given", float(s.given))
    finally:
        s.close()


def order(ctx, n, **k):
    """nothing but read(): all lines, in order, and "" whenever none waits"""
    reader(ctx, n, n + 1, kinds=('read',), **k)


def waiting(ctx, polls, kind='BenchDenUniform'):
    dist = getattr(ctx.mod('distributions'), kind)({"dims": 1})
    limit = ctx.real('limit', 0, 5, hint=(.2, 3))
    ctx.tick = 0.0
    log, t0 = [], ctx.now

    def is_ready():
        i = len(log)
        begin = ctx.now
        ctx.now = ctx.now + ctx.real('poll%d' % i, 0, 4, hint=(.1, 2))
        log.append((begin, i >= polls or ctx.flag('ready%d' % i)))
        return log[-1][1]
    dist.is_ready = is_ready
    try:
        out = dist.wait_for_ready(limit)
    except TimeoutError:
        out = None
    if out is None:
        ctx.check("never gives up on a ready distribution", not any(v for _, v in log))
        ctx.check("never gives up early", ctx.now - t0 >= limit)
        ctx.cover("timed out")
    else:
        ctx.check("answers True", out is True, "%r" % (out,))
        ctx.check("ready when it says so", log and log[-1][1] and not any(v for _, v in log[:-1]), "polls %s" % [v for _, v in log])
        for b, _ in log:
            ctx.check("no poll after the limit", b - t0 < limit)
        ctx.cover("ready")
    ctx.observe("polls", float(len(log)))


CASES = [
    Case("reader 2 lines", reader, dict(n=2, ops=2), need=("read", "keep", "drop")),
    Case("reader 1 line", reader, dict(n=1, ops=3), need=("read", "keep", "drop")),
    Case("reader bytes", reader, dict(n=1, ops=2, text=False), need=("read", "keep", "drop")),
    Case("reader 3 lines keep", reader, dict(n=3, ops=2, kinds=('keep',)), need=("keep",)),
    Case("reader last then read", reader, dict(n=2, ops=3, kinds=('keep', 'read')), need=("keep", "read")),
    Case("reader in order", order, dict(n=2), need=("read",)),
    Case("reader blank line", reader, dict(n=2, ops=2, blank=0), need=("read", "keep", "drop")),
    Case("reader blank line bytes", reader, dict(n=2, ops=2, blank=1, text=False), need=("read", "keep", "drop")),
    Case("reader blank in order", order, dict(n=3, blank=1), need=("read",)),
    Case("wait", waiting, dict(polls=2), need=("ready", "timed out")),
    T("reader 3 lines", reader, dict(n=3, ops=3)),
    T("reader 4 lines", reader, dict(n=4, ops=2)),
    T("reader in order 4", order, dict(n=4)),
    T("wait 4", waiting, dict(polls=4)),
]
