"""C24: progress bar, memoisation, singletons and optional requirements."""
import importlib
import re
import sys
import threading
import time

from hypothesis import strategies as st
from vlib.core import Sub, sut, imp, expect, expect_raises, Violation

PROPERTY = "C24"
RULE = ("histories of tasks and display ticks on a simulated clock against a "
        "model of the estimate, with failing tasks and reused bars; real "
        "threads with tiny update intervals; threads racing for memoised "
        "keys and singletons; requirement lists; non-trivial: two or more "
        "tasks, threads or requirements")

real_sleep = time.sleep
real_pc = time.perf_counter


class Clock(object):
    """Time stands still except where the history advances it; the bar's
    thread runs only when the history lets it."""

    def __init__(self):
        self.now = 1000.0
        self.cv = threading.Condition()
        self.parked = None
        self.go = 0
        self.main = threading.current_thread()
        self.closed = False

    def perf(self):
        return self.now

    def sleep(self, dt=0):
        me = threading.current_thread()
        if me is self.main or self.closed:
            return real_sleep(min(dt, 0.01))
        with self.cv:
            self.parked = me
            self.cv.notify_all()
            while not self.go and not self.closed:
                self.cv.wait(0.5)
            self.go = 0
            self.parked = None

    def wait_parked(self, timeout=5.0):
        with self.cv:
            t = 0
            while self.parked is None:
                if t >= timeout:
                    return False
                self.cv.wait(0.1)
                t += 0.1
        return True

    def tick(self):
        """Let the bar's thread run from one sleep to the next."""
        with self.cv:
            if self.parked is None:
                return False
            self.go = 1
            self.parked = None
            self.cv.notify_all()
        return self.wait_parked()


class Out(object):
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)

    def flush(self):
        pass


def fmt(t):
    # weeks, days, hours, minutes, seconds: the two largest units
    m, s = divmod(t, 60)
    h, m = divmod(m, 60)
    d, h = divmod(h, 24)
    w, d = divmod(d, 7)
    for big, small, a, b in ((w, d, "w", "d"), (d, h, "d", "h"),
                             (h, m, "h", "m"), (m, s, "m", "s")):
        if big:
            return "%2.0f%s%2.0f%s" % (big, a, small, b)
    return "%5.0fs" % s


def near(fn, x):
    return {fn(x * (1 - 1e-9)), fn(x), fn(x * (1 + 1e-9))}


def gen_history(draw):
    runs = []
    for _ in range(draw(st.integers(1, 2))):
        tasks = draw(st.lists(st.tuples(
            st.sampled_from(["a", "b", "c"]),
            st.lists(st.integers(0, 8), min_size=1, max_size=3)),
            min_size=1, max_size=7))
        runs.append(dict(tasks=tasks, fail=draw(st.sampled_from(
            [-1, -1, -1, 0, 2]))))
    return dict(runs=runs, minimum=draw(st.sampled_from([0, 0, 3, 20])),
                width=draw(st.sampled_from([42, 10, 1])),
                unit=draw(st.sampled_from([1, 1, 5, 600, 100000])),
                skip=draw(st.sampled_from([0, 0, 2])),
                keys=draw(st.sampled_from(["tuple", "str", "bytes"])))


class Boom(Exception):
    pass


def run_history(case):
    import dask
    errors = []
    clock = Clock()
    import timeit
    saved = time.sleep, time.perf_counter, timeit.default_timer, \
        threading.excepthook
    before = set(threading.enumerate())
    out = Out()
    nwrites = 0
    labels = []
    try:
        time.sleep = clock.sleep
        time.perf_counter = timeit.default_timer = clock.perf
        threading.excepthook = lambda a: errors.append(a)
        with sut("import of africanus.util.dask_util"):
            m = importlib.reload(importlib.import_module(
                "africanus.util.dask_util"))
            bar = m.EstimatingProgressBar(minimum=case["minimum"],
                                          width=case["width"], out=out)
        for run in case["runs"]:
            start = clock.now
            stat = {}
            prev = [0, 0.0]
            unchecked = []
            seen = [len(out.text)]
            total = 0

            def key(name, i):
                if case["keys"] == "tuple":
                    return (name, i)
                k = "%s%d" % (name, i)
                return k if case["keys"] == "str" else k.encode()

            def binof(name, i):
                return name if case["keys"] == "tuple" else \
                    "%s%d" % (name, i)

            for i, (name, _) in enumerate(run["tasks"]):
                stat.setdefault(binof(name, i), [0, 0, 0.0])[1] += 1

            def tick(run=run, stat=stat, prev=prev):
                elapsed = clock.now - start
                if not clock.tick():
                    # not driven by time.sleep: nothing to compare with
                    if not errors:
                        unchecked.append(1)
                    return
                new = out.text[seen[0]:]
                seen[0] = len(out.text)
                if not elapsed > case["minimum"]:
                    expect(not new, "bar shown after %s s, minimum %s",
                           elapsed, case["minimum"])
                    return
                done = sum(v[0] for v in stat.values())
                guess = sum(v[2] for v in stat.values() if v[0])
                if done != prev[0] and guess > 0:
                    est = sum(v[2] / v[0] * v[1] for v in stat.values()
                              if v[0]) * elapsed / guess
                else:
                    est = prev[1]
                prev[:] = done, est
                txt = "".join(new)
                mt = re.match(r"^\r\[(.*)\] \| (\d+)% Complete \(Estimate\) "
                              r"\| (.*) / ~(.*)$", txt)
                expect(mt is not None, "bar showed %r", txt)
                expect(mt.group(3) == fmt(elapsed), "bar shows elapsed time "
                       "%r after %s s", mt.group(3), elapsed)
                w = near(fmt, est) if est else {"???"}
                expect(mt.group(4) in w, "bar estimates %r with %s (completed, "
                       "total, time) after %s s, expected %s", mt.group(4),
                       stat, elapsed, sorted(w))
                expect(len(mt.group(1)) == case["width"], "bar %r of width "
                       "%d", mt.group(1), case["width"])
                if elapsed >= 10:
                    fr = elapsed / est if est else 0.0
                    w = near(lambda f: str(int(100 * f)), fr)
                    expect(mt.group(2) in w, "bar shows %s%%, expected %s",
                           mt.group(2), sorted(w))
                    w = near(lambda f: ("#" * min(int(case["width"] * f),
                                                  case["width"])), fr)
                    expect(mt.group(1).rstrip() in w, "bar %r, expected %s",
                           mt.group(1), sorted(w))
                else:
                    expect("#" not in mt.group(1), "bar %r", mt.group(1))

            def task(i, *deps):
                if not clock.wait_parked(2.0) and not errors:
                    unchecked.append(1)
                name, steps = run["tasks"][i]
                t0 = clock.now
                for j, s in enumerate(steps):
                    clock.now += s * case["unit"]
                    if not case["skip"] or (i + j) % case["skip"]:
                        if not unchecked and not errors:
                            tick()
                if i == run["fail"]:
                    raise Boom()
                v = stat[binof(name, i)]
                v[0] += 1
                v[2] += clock.now - t0
                return i

            dsk, last = {}, None
            for i, (name, _) in enumerate(run["tasks"]):
                k = key(name, i)
                dsk[k] = (task, i) if last is None else (task, i, last)
                last = k
            fails = 0 <= run["fail"] < len(run["tasks"])
            try:
                with bar:
                    got = dask.get(dsk, last)
            except Boom:
                expect(fails, "Boom without cause")
            else:
                expect(not fails, "a failing task did not fail")
                expect(got == len(run["tasks"]) - 1, "computed %r", got)
            if clock.parked is not None:
                with clock.cv:
                    clock.go = 1
                    clock.cv.notify_all()
            t0 = real_pc()
            while any(t.is_alive() for t in threading.enumerate()
                      if t not in before):
                if real_pc() - t0 > 5:
                    expect(False, "the bar's thread survives the computation")
                real_sleep(0.0005)
            clock.go = 0
            seen[0] = len(out.text)
            if errors:
                e = errors[0]
                expect(False, "the bar's thread died: %s: %s",
                       e.exc_type.__name__, e.exc_value)
            if unchecked:
                labels.append("not simulated")
    except Boom:
        raise
    finally:
        clock.closed = True
        with clock.cv:
            clock.cv.notify_all()
        time.sleep, time.perf_counter, timeit.default_timer, \
            threading.excepthook = saved
        importlib.reload(importlib.import_module("africanus.util.dask_util"))
    return len(case["runs"][0]["tasks"]) > 1 and not labels, \
        labels or ["history"]


def gen_race(draw):
    return dict(n=draw(st.integers(2, 400)), names=draw(st.integers(1, 400)),
                rep=draw(st.integers(1, 4)),
                workers=draw(st.integers(1, 4)))


def run_race(case):
    import dask.threaded
    Bar = imp("africanus.util.dask_util", "EstimatingProgressBar")
    errors = []
    saved, sw = threading.excepthook, sys.getswitchinterval()
    before = set(threading.enumerate())
    try:
        threading.excepthook = lambda a: errors.append(a)
        sys.setswitchinterval(1e-6)
        for _ in range(case["rep"]):
            dsk = {("n%d" % (i % case["names"]), i): (pow, i, 2)
                   for i in range(case["n"])}
            with sut("computing with a progress bar"), \
                    Bar(dt=1e-7, out=Out()):
                got = dask.threaded.get(dsk, list(dsk),
                                        num_workers=case["workers"])
            expect(list(got) == [i ** 2 for i in range(case["n"])],
                   "wrong result with a progress bar")
        t0 = real_pc()
        while any(t.is_alive() for t in threading.enumerate()
                  if t not in before and "ThreadPool" not in t.name
                  and not t.daemon and t.name.find("Pool") < 0):
            if real_pc() - t0 > 10:
                expect(False, "the bar's thread survives the computation")
            real_sleep(0.001)
    finally:
        threading.excepthook = saved
        sys.setswitchinterval(sw)
    if errors:
        e = errors[0]
        expect(False, "the bar's thread died: %s: %s", e.exc_type.__name__,
               e.exc_value)
    return case["n"] > 1, ["race"]


def gen_sched(draw):
    return dict(n=draw(st.integers(1, 6)),
                main=draw(st.lists(st.sampled_from([0, 0, 1, 3]), min_size=1,
                                   max_size=7)),
                bar=draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=1,
                                  max_size=7)))


def run_sched(case):
    """Delays, chosen by the case, between the lines of the bar's code in
    both threads."""
    import dask
    mod = imp("africanus.util.dask_util")
    errors = []
    main = threading.current_thread()
    count = dict(main=0, bar=0)

    def tracer(frame, event, arg):
        if frame.f_code.co_filename != mod.__file__:
            return None
        who = "main" if threading.current_thread() is main else "bar"
        d = case[who][count[who] % len(case[who])]
        count[who] += 1
        if d:
            real_sleep(d * 2e-4)
        return tracer
    saved, t0, t1 = threading.excepthook, threading.gettrace(), sys.gettrace()
    before = set(threading.enumerate())
    try:
        threading.excepthook = lambda a: errors.append(a)
        dsk = {"n%d" % i: (pow, i, 2) for i in range(case["n"])}
        threading.settrace(tracer)
        sys.settrace(tracer)
        with sut("computing with a progress bar"), \
                mod.EstimatingProgressBar(dt=1e-6, out=Out()):
            got = dask.get(dsk, list(dsk))
        sys.settrace(t1)
        start = real_pc()
        while any(t.is_alive() for t in threading.enumerate()
                  if t not in before):
            if real_pc() - start > 20:
                expect(False, "the bar's thread survives the computation")
            real_sleep(0.0005)
    finally:
        sys.settrace(t1)
        threading.settrace(t0)
        threading.excepthook = saved
    expect(list(got) == [i ** 2 for i in range(case["n"])],
           "wrong result with a progress bar")
    if errors:
        e = errors[0]
        expect(False, "the bar's thread died: %s: %s", e.exc_type.__name__,
               e.exc_value)
    return True, ["schedule"]


def gen_memo(draw):
    return dict(calls=draw(st.lists(st.lists(st.tuples(
        st.integers(0, 3), st.sampled_from(["pos", "kw"]),
        st.booleans()), min_size=1, max_size=5), min_size=1, max_size=5)),
        boom=draw(st.sampled_from([None, None, 1])),
        slow=draw(st.booleans()))


def in_threads(fns):
    errs = []
    go = threading.Event()

    def wrap(f):
        go.wait()
        try:
            f()
        except BaseException as e:
            errs.append(e)

    ts = [threading.Thread(target=wrap, args=(f,)) for f in fns]
    for t in ts:
        t.start()
    go.set()
    for t in ts:
        t.join(30)
        expect(not t.is_alive(), "deadlock")
    for e in errs:
        raise e


def run_memo(case):
    memo, Single = imp("africanus.util.code", "memoize_on_key",
                       "SingletonMixin")
    ran, got = [], []

    def keyfn(x, y=0, noise=None):
        return (x, y)

    with sut("memoize_on_key"):
        @memo(keyfn)
        def f(x, y=0, noise=None):
            """doc of f"""
            ran.append((x, y))
            if case["slow"]:
                real_sleep(0.0005)
            if case["boom"] == x and ran.count((x, y)) == 1:
                raise Boom()
            return [x, y, noise]

        @memo(keyfn)
        def g(x, y=0, noise=None):
            return "g"
    expect(f.__name__ == "f" and f.__doc__ == "doc of f",
           "memoize_on_key loses the name")

    def caller(calls):
        def go():
            for x, how, other in calls:
                y = 5 if other else 0
                try:
                    with_ = (f(x, y, noise=object()) if how == "pos" else
                             f(x=x, y=y))
                except Boom:
                    continue
                got.append(((x, y), with_))
                if g(x, y) != "g":
                    got.append(((x, y), None))
        return go
    with sut("memoised function"):
        in_threads([caller(c) for c in case["calls"]])
    for k in set(ran):
        n = 2 if k[0] == case["boom"] else 1
        expect(ran.count(k) <= n, "%s computed %d times", k, ran.count(k))
    first = {}
    for k, v in got:
        expect(v is not None and tuple(v[:2]) == k and
               first.setdefault(k, v) is v, "key %s gave %s and %s", k, v,
               first.get(k))

    class A(Single):
        def __init__(self):
            if case["slow"]:
                real_sleep(0.0005)
            made.append(self)

    class B(Single):
        pass

    made, insts = [], []
    with sut("SingletonMixin"):
        in_threads([lambda: insts.append(A.instance())
                    for _ in case["calls"]])
        b = B.instance()
    expect(len(made) == 1 and all(i is made[0] for i in insts),
           "%d singletons", len(made))
    expect(type(b) is B, "the singleton of B is a %s", type(b))
    return len(case["calls"]) > 1, ["memo"]


REQ = ["numpy", "json", "os.path", "no_such_pkg_a", "no_such_pkg_b.c"]


def gen_req(draw):
    return dict(reqs=draw(st.lists(st.sampled_from(
        REQ + ["<none>", "<err>", "<bad>"]), max_size=5)),
        pytest=draw(st.sampled_from([False, False, True, "force"])))


def run_req(case):
    m = imp("africanus.util.requirements")
    reqs, r = case["reqs"], []
    for x in reqs:
        r.append({"<none>": None, "<err>": ImportError("orig message"),
                  "<bad>": 3.5}.get(x, x))
    missing = [x for x in reqs if x.startswith("no_such")]
    t = imp("africanus.util.testing")
    skips = missing and case["pytest"] is True
    if case["pytest"] == "force":
        r.append(t.force_missing_pkg_exception)

    def f(a, b=2):
        """doc of f"""
        return (a, b)
    if "<bad>" in reqs:
        expect_raises((TypeError,), "requirements %s" % reqs,
                      lambda: m.requires_optional(*r))
        return True, ["bad"]
    if "<err>" in reqs and not missing:
        expect_raises((ImportError,), "requirements %s" % reqs,
                      lambda: m.requires_optional(*r)(f))
        return True, ["import error"]
    with sut("requires_optional%s" % (reqs,)):
        g = m.requires_optional(*r)(f)
    expect(g.__name__ == "f" and g.__doc__ == "doc of f",
           "requires_optional loses the name")
    if not missing:
        with sut("the function"):
            expect(g(1) == (1, 2) and g(1, b=3) == (1, 3), "wrong result")
    else:
        with sut("mark_in_pytest"):
            t.mark_in_pytest(bool(case["pytest"]))
        try:
            g(1)
        except m.MissingPackageException as e:
            expect(not skips, "within a test, a missing package raised")
            for x in missing:
                expect(x in str(e), "%s not named in %r", x, str(e))
            expect("<err>" not in reqs or "orig message" in str(e),
                   "import error not named in %r", str(e))
        except Violation:
            raise
        except BaseException as e:
            expect(skips and type(e).__name__ == "Skipped",
                   "a missing package raised %s", type(e).__name__)
            for x in missing:
                expect(x in str(e), "%s not named in %r", x, str(e))
        else:
            expect(False, "a function without its packages %s ran", missing)
        finally:
            t.mark_in_pytest(False)
    return len(reqs) > 1, ["missing" if missing else "present"]


SUBS = [Sub("history", gen_history, run_history, 300, 3000),
        Sub("race", gen_race, run_race, 100, 1000),
        Sub("schedule", gen_sched, run_sched, 150, 1500),
        Sub("memo", gen_memo, run_memo, 300, 3000),
        Sub("requirements", gen_req, run_req, 300, 2000)]
