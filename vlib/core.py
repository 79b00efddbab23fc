"""Shared machinery: declaring sub-checks, running them, classifying outcomes.

A property is decided by one module ``checks/cNN.py`` that exposes

    PROPERTY = "CNN"; RULE = "..."; SUBS = [Sub(...), ...]

A ``Sub`` is one executable statement about generated inputs.  ``gen(draw)`` is
a Hypothesis composite body returning a JSON-able *case*; ``run(case)`` builds
the concrete inputs from the case alone, calls the code under test and compares
with an oracle.  ``run`` returns ``(nontrivial, labels)`` and signals a broken
property only by raising ``Violation`` - either by an explicit comparison or
because code under test, inside a ``with sut(...)`` block, raised on an input
it has to accept.  Every other exception is an error of the harness.
"""
import contextlib
import hashlib
import json
import os
import sys
import traceback

import numpy as np


class Violation(AssertionError):
    prior = ()      # earlier cases it takes to see it


CURRENT = []        # the case being run


def sz(draw, lo, hi, big):
    """A size, mostly from lo to hi, now and then up to big."""
    from hypothesis import strategies as st
    if draw(st.integers(0, 15)) == 15:
        return draw(st.integers(hi, big))
    return draw(st.integers(lo, hi))


class sut(contextlib.ContextDecorator):
    """Code under test runs in here: an exception means it failed."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (Violation, KeyboardInterrupt,
                                         SystemExit)):
            return False
        if et.__module__.startswith("hypothesis"):
            return False
        txt = "".join(traceback.format_exception_only(et, ev)).strip()
        where = traceback.extract_tb(tb)[-1]
        raise Violation("%s raised on a valid input: %s (at %s:%s)" %
                        (self.what, txt[:600], where.filename,
                         where.lineno)) from ev


STRIDED = []        # not empty: functions get views that are not contiguous
HISTORY = []        # the comparisons of each history under way
DRAWS = [0]         # the number of draws of its first case
AMP = []            # the scale of the data


def _view(x):
    if type(x) is not np.ndarray or x.size < 2 or x.dtype == object:
        return x
    y = np.empty(tuple(2 * n for n in x.shape), x.dtype)
    y.fill(np.nan if x.dtype.kind in "fc" else 1)
    v = y[(slice(None, None, 2),) * x.ndim]
    v[...] = x
    return v


class _Strided(object):
    """A module whose functions are called with views of larger arrays."""

    def __init__(self, m):
        self.__dict__["_m"] = m

    def __getattr__(self, name):
        f = getattr(self._m, name)
        if not callable(f) or isinstance(f, type):
            return f

        def call(*args, **kw):
            arrs = [a for a in list(args) + list(kw.values())
                    if type(a) is np.ndarray]
            if all(a.size > 1 for a in arrs):
                old, okw = args, kw
                args = [_view(a) for a in args]
                kw = {k: _view(a) for k, a in kw.items()}
                out = f(*args, **kw)
                for a, b in zip(args + list(kw.values()),
                                list(old) + list(okw.values())):
                    if type(a) is np.ndarray and a.dtype != object:
                        same(a, b, name + " changed an argument")
                return out
            return f(*args, **kw)
        return call


def strided(sub, quick, thorough):
    """The same on views that are not contiguous."""
    def run(case):
        STRIDED.append(1)
        try:
            return sub.run(case)
        finally:
            STRIDED.pop()
    return Sub(sub.name + "_strided", sub.gen, run, quick, thorough)


class _Fork(object):
    """A generator that repeats the draws of a case, except that draw number
    k differs: scalars and choices wholly, arrays from their middle on."""
    WHOLE = ("permutation", "choice")

    def __init__(self, base, k, other):
        self.base, self.k, self.other, self.n = base, k, other, 0

    def __getattr__(self, name):
        f = getattr(self.base, name)
        g = getattr(self.other, name)

        def call(*args, **kw):
            j, self.n = self.n, self.n + 1
            DRAWS[0] = max(DRAWS[0], self.n)
            x = f(*args, **kw)
            if j != self.k or name == "shuffle":
                return x
            y = g(*args, **kw)
            if name in self.WHOLE or not isinstance(x, np.ndarray) or \
                    x.size < 2:
                return y
            x = x.copy()
            x.flat[x.size // 2:] = y.flat[x.size // 2:]
            return x
        return call


class _Amp(object):
    """A generator of fainter or brighter data (normal variates)."""

    def __init__(self, base, amp):
        self.base, self.amp = base, amp

    def __getattr__(self, name):
        f = getattr(self.base, name)
        if name not in ("normal", "randn"):
            return f
        return lambda *args, **kw: self.amp * f(*args, **kw)


def amp():
    """The brightness of the data in this case."""
    return AMP[-1] if AMP else 1.0


def scaled(subs, quick=10, thorough=150, skip=()):
    """The same on faint and on bright data; the comparisons scale along."""
    subs = [s for s in subs if s.gen is not None and s.name not in skip and
            "reject" not in s.name and not s.name.endswith("_strided")]
    by_name = {s.name: s for s in subs}

    def gen(draw):
        from hypothesis import strategies as st
        name = draw(st.sampled_from(sorted(by_name)))
        return dict(sub=name, base=by_name[name].gen(draw),
                    amp=draw(st.sampled_from([1e-3, 1e-6, 1e-8, 1e3, 1e5])))

    def run(case):
        AMP.append(case["amp"])
        try:
            nt, labels = by_name[case["sub"]].run(case["base"])
        finally:
            AMP.pop()
        return nt, [case["sub"], "%g" % case["amp"]]
    return [Sub("scaled", gen, run, max(50, quick * len(subs)),
                thorough * len(subs))]


def all_histories(subs, quick=14, thorough=150, skip=()):
    """Several calls after each other on inputs of which only a part differs:
    no call may depend on, or touch the results of, the ones before.  The
    first call is repeated after its results have been scribbled on, as their
    owner may."""
    subs = [s for s in subs if s.gen is not None and s.name not in skip and
            "reject" not in s.name and not s.name.endswith("_strided")]
    by_name = {s.name: s for s in subs}

    def gen(draw):
        from hypothesis import strategies as st
        forks = draw(st.lists(st.tuples(st.integers(0, 30),
                                        st.integers(0, 2 ** 32 - 1)),
                              min_size=1, max_size=2))
        name = draw(st.sampled_from(sorted(by_name)))
        return dict(sub=name, base=by_name[name].gen(draw), forks=forks)

    def run(case):
        sub = by_name[case["sub"]]
        HISTORY.append([])
        try:
            DRAWS[0] = 0
            nt, labels = sub.run(case["base"])
            n = max(1, DRAWS[0])
            for k, seed in case["forks"]:
                sub.run(dict(case["base"], fork=[k % n, seed]))
            record = HISTORY[-1]
            for got, want, tol, msg, scale in list(record):
                msg = "after later calls: " + msg
                if tol is None:
                    same(got, want, msg)
                else:
                    close(got, want, tol, msg, scale)
            for got, want, tol, msg, scale in record:
                if got.flags.writeable and got.dtype.kind in "iufcb":
                    got[...] = 1
            sub.run(case["base"])
        finally:
            HISTORY.pop()
        return nt, [case["sub"]]
    return [Sub("history", gen, run, max(50, quick * len(subs)),
                thorough * len(subs))]


def _record(*entry):
    if HISTORY and len(HISTORY[-1]) < 200:
        got, want = entry[:2]
        HISTORY[-1].append((got, np.array(want, copy=True)) + entry[2:])


def spoil(obj):
    """Changes what has been returned, as its owner may."""
    if isinstance(obj, (dict, list, tuple, set)):
        for o in list(obj.values() if isinstance(obj, dict) else obj):
            spoil(o)
    if isinstance(obj, dict):
        obj["spoilt"] = None
    elif isinstance(obj, list):
        obj.append("spoilt")
    elif isinstance(obj, set):
        obj.add("spoilt")
    elif isinstance(obj, np.ndarray) and obj.flags.writeable and \
            obj.dtype.kind in "iufcb":
        obj[...] = 1


def imp(modname, *names):
    """Import from the code under test."""
    import importlib
    with sut("import of %s" % modname):
        m = importlib.import_module(modname)
        if STRIDED:
            m = _Strided(m)
        if not names:
            return m
        out = tuple(getattr(m, n) for n in names)
    return out[0] if len(out) == 1 else out


def expect_raises(excs, what, fn):
    """fn() must raise one of excs."""
    try:
        r = fn()
    except excs:
        return
    except Exception as e:
        raise Violation("%s: expected %s, got %s: %s" %
                        (what, excs, type(e).__name__, str(e)[:300])) from e
    raise Violation("%s: expected %s, but it returned %s" %
                    (what, excs, short(r)))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=400):
    with np.printoptions(threshold=40, precision=17):
        s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def close(got, want, tol, msg, scale=None):
    """|got - want| <= tol * scale elementwise, with matching shapes; scale
    defaults to 1 + max|want|.  NaNs have to agree."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" %
                        (msg, got.shape, want.shape))
    if got.size == 0:
        return
    if scale is None:
        fin = want[np.isfinite(want)] if want.dtype.kind in "fc" else want
        scale = min([1.0] + [a ** 4 for a in AMP]) + (
            np.abs(fin).max() if fin.size else 0.0)
    scale = np.broadcast_to(np.asarray(scale, dtype=np.float64), want.shape)
    gn, wn = np.isnan(got), np.isnan(want)
    with np.errstate(all="ignore"):
        err = np.abs(got - want)
    bad = ~(err <= tol * scale)
    same_inf = (got == want)
    bad &= ~(gn & wn) & ~same_inf
    if bad.any():
        i = tuple(int(j[0]) for j in np.nonzero(bad)) if bad.ndim else ()
        raise Violation("%s: at index %s got %r, expected %r (|diff| %.3g, "
                        "allowed %.3g; %d of %d elements differ)" %
                        (msg, i, got[i], want[i], err[i],
                         tol * scale[i], int(bad.sum()), bad.size))
    _record(got, want, tol, msg, scale)


def same(got, want, msg):
    """Exactly equal arrays (shape and values)."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" %
                        (msg, got.shape, want.shape))
    eq = got == want
    if got.dtype.kind in "fc" and want.dtype.kind in "fc":
        eq = eq | (np.isnan(got) & np.isnan(want))
    if not np.all(eq):
        raise Violation("%s: got %s, expected %s" %
                        (msg, short(got), short(want)))
    _record(got, want, None, msg, None)


def rng(case, salt=0):
    """Bulk array content, a pure function of the case."""
    base = np.random.RandomState([int(case["seed"]) & 0xffffffff, salt])
    if AMP:
        return _Amp(base, AMP[-1])
    if not HISTORY:
        return base
    k, seed = case.get("fork", (None, 0))
    return _Fork(base, k, np.random.RandomState([int(seed) & 0xffffffff,
                                                 salt]))


def frozen(*arrays):
    """Copies of the inputs, for the check that a call left them alone."""
    return [None if a is None else np.array(a, copy=True) for a in arrays]


def unchanged(arrays, copies, what):
    for i, (a, c) in enumerate(zip(arrays, copies)):
        if a is None:
            continue
        a = np.asarray(a)
        if a.shape != c.shape or not np.array_equal(
                a, c, equal_nan=a.dtype.kind in "fc"):
            raise Violation("%s changed its input number %d in place" %
                            (what, i))


class Sub(object):
    def __init__(self, name, gen, run, quick, thorough, explicit=(),
                 what=""):
        self.name = name
        self.gen = gen
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.explicit = list(explicit)
        self.what = what


class Known(object):
    """A recorded, unrepaired defect: probe() returns True while it is there."""

    def __init__(self, key, probe):
        self.key = key
        self.probe = probe


def jdump(x, **kw):
    return json.dumps(x, sort_keys=True, default=_default, **kw)


def _default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))


def digest(x):
    return hashlib.sha1(jdump(x).encode()).hexdigest()


def sub_seed(seed, prop, name):
    h = hashlib.sha1(("%d/%s/%s" % (seed, prop, name)).encode()).digest()
    return int.from_bytes(h[:8], "big") % (2 ** 63)


def run_sub(prop, sub, tier, seed, status, max_shrink_s):
    """Runs one sub-check in this process; returns a result dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import strategies as st
    from hypothesis.internal.conjecture import engine
    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = max_shrink_s

    res = dict(sub=sub.name, evaluations=0, nontrivial=[], samples=[],
               labels={}, violation=None, error=None)
    nontrivial = {}
    last = {}

    def evaluate(case):
        # what is JSON-able is what is run, so that a replay file is complete
        case = json.loads(jdump(case))
        status(case)
        res["evaluations"] += 1
        CURRENT[:] = [case]
        try:
            nt, labels = sub.run(case)
        except Violation as v:
            last["case"], last["msg"] = case, str(v)
            last["prior"] = list(v.prior)
            raise
        except (MemoryError, OSError, ImportError):
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            # the oracle and the comparison do not fail on sound results:
            # they did not understand this one
            where = traceback.extract_tb(e.__traceback__)[-1]
            last["case"] = case
            last["msg"] = "the result cannot be compared: %s: %s (%s:%s)" % (
                type(e).__name__, str(e)[:300], where.filename, where.lineno)
            last["prior"] = []
            raise Violation(last["msg"]) from e
        for l in labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if nt:
            d = digest(case)
            if d not in nontrivial:
                nontrivial[d] = 1
                if len(res["samples"]) < 2:
                    res["samples"].append(json.loads(jdump(case)))

    try:
        for case in sub.explicit:
            evaluate(case)
        n = sub.quick if tier == "quick" else sub.thorough
        if sub.gen is not None and n:
            @st.composite
            def cases(draw):
                return sub.gen(draw)

            @hypothesis.seed(sub_seed(seed, prop, sub.name))
            @settings(max_examples=n, database=None, deadline=None,
                      derandomize=False, report_multiple_bugs=False,
                      print_blob=False, suppress_health_check=list(HealthCheck),
                      phases=(Phase.explicit, Phase.generate, Phase.shrink))
            @given(cases())
            def test(case):
                evaluate(case)

            test()
    except Violation:
        pass
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not last:
            res["error"] = traceback.format_exc()
        elif not type(e).__module__.startswith("hypothesis"):
            res["error"] = traceback.format_exc()
    if last:
        res["violation"] = dict(case=last["case"], message=last["msg"],
                                prior=last["prior"])
    res["nontrivial"] = sorted(nontrivial)
    return res
