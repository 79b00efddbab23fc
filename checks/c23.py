"""C23: chunk aggregation, correlation shapes, command line assignments,
type inference, file hashes."""
import hashlib
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import Sub, sut, imp, expect, expect_raises, spoil

PROPERTY = "C23"
RULE = ("generated chunk tuples and limits against the invariants and the "
        "greedy reference; generated assignment strings (nested literals, "
        "slices, unpacking, chains) rendered from the expected dictionary, "
        "and disallowed code; non-trivial: two or more chunks or variables, "
        "or a rejection")


def gen_chunks(draw):
    nd = draw(st.integers(1, 3))
    n = draw(st.integers(1, 12))
    return dict(chunks=[draw(st.lists(st.integers(1, 12), min_size=n,
                                      max_size=n)) for _ in range(nd)],
                limits=[draw(st.integers(1, 30)) for _ in range(nd)],
                form=draw(st.sampled_from(["tuple", "list"])),
                bare=draw(st.booleans()),
                bad=draw(st.sampled_from(["", "", "", "count", "dims"])))


def run_chunks(case):
    f = imp("africanus.util.shapes", "aggregate_chunks")
    ty = tuple if case["form"] == "tuple" else list
    ch, lim = case["chunks"], case["limits"]
    nd, n = len(ch), len(ch[0])
    if case["bad"] == "count":
        if nd < 2:
            return False, []
        ch = ch[:-1] + [ch[-1] + [1]]
        expect_raises((ValueError,), "unequal numbers of chunks", lambda: f(
            ty(tuple(c) for c in ch), tuple(lim)))
        return True, ["count"]
    if case["bad"] == "dims":
        expect_raises((ValueError,), "more limits than dimensions", lambda: f(
            ty(tuple(c) for c in ch), tuple(lim) + (1,)))
        return True, ["dims"]
    bare = case["bare"] and nd == 1
    if bare:
        args = (ty(ch[0]), lim[0])
    else:
        args = (ty(tuple(c) for c in ch), ty(lim))
    with sut("aggregate_chunks"):
        got = f(*args)
        got = [list(got)] if nd == 1 else [list(g) for g in got]
    what = "aggregate_chunks%s" % (args,)
    expect(len(got) == nd and all(len(g) == len(got[0]) for g in got),
           "%s: %s", what, got)
    # the same input chunks are merged in every dimension
    k = 0
    groups = []
    for j in range(len(got[0])):
        first, acc = k, [0] * nd
        while k < n and (k == first or acc != [g[j] for g in got]):
            acc = [a + c[k] for a, c in zip(acc, ch)]
            k += 1
        expect(acc == [g[j] for g in got] and k > first, "%s: chunk %d of %s "
               "is not a union of input chunks", what, j, got)
        groups.append((first, k))
        expect(k - first == 1 or all(a <= m for a, m in zip(acc, lim)),
               "%s: merged chunk %d of %s exceeds the limit", what, j, got)
    expect(k == n, "%s: %s does not cover everything", what, got)
    # and neighbours are merged whenever they fit
    for (a, b), (c, d) in zip(groups[:-1], groups[1:]):
        fits = all(sum(x[a:c + 1]) <= m for x, m in zip(ch, lim))
        expect(not fits, "%s: %s could merge more", what, got)
    return n > 1, ["chunks"]


def gen_corr(draw):
    return dict(n=draw(st.integers(0, 9)),
                shape=draw(st.sampled_from(["flat", "matrix", "square"])))


def run_corr(case):
    f = imp("africanus.util.shapes", "corr_shape")
    n, s = case["n"], case["shape"]
    if s == "square" or (s == "matrix" and n not in (1, 2, 4)):
        expect_raises((ValueError,), "corr_shape(%d, %r)" % (n, s),
                      lambda: f(n, s))
    else:
        want = (n,) if s == "flat" else {1: (1,), 2: (2,), 4: (2, 2)}[n]
        with sut("corr_shape"):
            got = f(n, s)
        expect(tuple(got) == want, "corr_shape(%d, %r) is %s", n, s, got)
    return True, [s]


# literals travel through JSON as their source text
def lit(draw, depth=0):
    k = draw(st.integers(0, 10 if depth < 2 else 6))
    if k == 0:
        return repr(draw(st.integers(-10**20, 10**20)))
    if k == 1:
        return repr(draw(st.floats(allow_nan=False, allow_infinity=False)))
    if k in (2, 3):
        return repr(draw(st.text(max_size=8)))
    if k == 4:
        return draw(st.sampled_from(["True", "False", "None"]))
    if k == 5:
        return repr(draw(st.binary(max_size=5)))
    if k == 6:
        return repr(complex(draw(st.integers(0, 9)), draw(st.integers(1, 9))))
    if k == 7:
        return "[%s]" % ", ".join(items(draw, depth))
    if k == 8:
        x = items(draw, depth)
        return "(%s%s)" % (", ".join(x), "," if len(x) == 1 else "")
    if k == 9:
        x = items(draw, depth)
        return "{%s}" % ", ".join("%r: %s" % (i, v) for i, v in enumerate(x))
    return "{%s}" % ", ".join(repr(draw(st.integers(0, 9)))
                              for _ in range(draw(st.integers(1, 3))))


def items(draw, depth):
    return [lit(draw, depth + 1) for _ in range(draw(st.integers(0, 3)))]


NAMES = st.from_regex(r"\A[a-z_][a-z0-9_]{0,5}\Z").filter(
    lambda s: not __import__("keyword").iskeyword(s))


def gen_assign(draw):
    stmts = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["one", "one", "chain", "unpack",
                                     "unpack_list", "slice", "single",
                                     "nested"]))
        names = draw(st.lists(NAMES, min_size=1, max_size=4, unique=True))
        if kind in ("unpack", "unpack_list"):
            vals = [lit(draw, 1) for _ in names]
        elif kind == "slice":
            vals = [lit(draw, 2) for _ in range(draw(st.integers(1, 3)))]
        elif kind == "nested":
            vals = [repr(draw(st.integers(0, 9))) for _ in range(3)]
        else:
            vals = [lit(draw)]
        stmts.append([kind, names, vals])
    return dict(stmts=stmts, sep=draw(st.sampled_from([";", "; ", " ;  "])),
                eq=draw(st.sampled_from(["=", " = "])),
                end=draw(st.sampled_from(["", ";"])),
                bad=draw(st.sampled_from(BAD)), pos=draw(st.integers(0, 5)))


# each would leave a trace in HITS (or in the file system) if it were run
BAD = ["", "", "", "", "", "call", "import", "expr", "attr", "subscript",
       "augmented", "name", "arith_call", "nested_call", "kw_call", "few",
       "many", "lambda", "comprehension", "fstring", "syntax", "star",
       "method", "walrus", "nested_target", "kw_slice"]
TEXT = dict(call="x=len([1])", expr="1", attr="x.y=1", subscript="x[0]=1",
            augmented="x+=1", name="x=y", arith_call="x=[len('a')]",
            nested_call="x=slice(open('/nonexistent/x'))",
            kw_call="x=dict(a=1)", few="(a,b,c)=(1,2)", many="(a,b)=(1,2,3)",
            lambda_="x=lambda: 1", comprehension="x=[i for i in (1,)]",
            kw_slice="x=slice(1, step=2)",
            fstring="x=f'{1+1}'", syntax="x=(", star="(a,*b)=(1,2,3)",
            method="x='a'.upper()", walrus="x=(y:=3)",
            nested_target="(a,(b,c))=(1,(2,3))",
            import_="x=__import__('os')")


def run_assign(case):
    f = imp("africanus.util.cmdline", "parse_python_assigns")
    src, want = [], {}
    eq = case["eq"]
    for kind, names, vals in case["stmts"]:
        pv = [eval(v, {"__builtins__": {}}) for v in vals]
        if kind == "one":
            src.append(names[0] + eq + vals[0])
            want[names[0]] = pv[0]
        elif kind == "chain":
            src.append(eq.join(names + vals))
            for n in names:
                want[n] = pv[0]
        elif kind in ("unpack", "unpack_list"):
            lhs = ", ".join(names) + ("," if len(names) == 1 else "")
            o, c = ("(", ")") if kind == "unpack" else ("[", "]")
            if kind == "unpack" and len(names) > 1 and case["pos"] % 2:
                o = c = ""
            src.append("%s%s%s%s[%s]" % (o, lhs, c, eq, ", ".join(vals)))
            want.update(zip(names, pv))
        elif kind == "single":
            # a scalar unpacks into one variable
            src.append("(%s,)%s%s" % (names[0], eq, "7"))
            want[names[0]] = 7
        elif kind == "slice":
            src.append("%s%sslice(%s)" % (names[0], eq, ", ".join(vals)))
            want[names[0]] = slice(*pv)
        elif kind == "nested":
            src.append("%s%sslice(slice(%s, %s), %s)" % (
                (names[0], eq) + tuple(vals)))
            want[names[0]] = slice(slice(pv[0], pv[1]), pv[2])
    bad = case["bad"]
    if bad:
        t = TEXT.get(bad) or TEXT[bad + "_"]
        src.insert(case["pos"] % (len(src) + 1), t)
        s = case["sep"].join(src)
        expect_raises((ValueError, TypeError, SyntaxError, AttributeError),
                      "the assignment string %r" % s, lambda: f(s))
        return True, [bad]
    s = case["sep"].join(src) + case["end"]
    with sut("parse_python_assigns(%r)" % s):
        got = f(s)
    expect(type(got) is dict and same_value(got, want),
           "parse_python_assigns(%r) is %r, expected %r", s, got, want)
    spoil(got)
    with sut("parse_python_assigns(%r)" % s):
        got = f(s)
    expect(type(got) is dict and same_value(got, want), "parse_python_assigns"
           "(%r) is %r the second time, expected %r", s, got, want)
    return len(want) > 1, ["assign"]


def same_value(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_value, a, b))
    if isinstance(a, slice):
        return same_value((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    return a == b and repr(a) == repr(b) if not isinstance(a, set) else a == b


def run_empty(case):
    f = imp("africanus.util.cmdline", "parse_python_assigns")
    with sut("parse_python_assigns of nothing"):
        expect(f("") == {} and f(None) == {}, "nothing assigned")
    return True, ["empty"]


DT = ["f4", "f8", "c8", "c16", "i2", "i4", "i8", "u1", "b1"]


def gen_dtypes(draw):
    return dict(args=draw(st.lists(st.tuples(
        st.sampled_from(DT), st.sampled_from(["np", "da", "nb"])),
        min_size=1, max_size=4)), bad=draw(st.sampled_from(
            [None, None, None, "list", "scalar", "none"])),
        pos=draw(st.integers(0, 4)))


def run_dtypes(case):
    import dask.array as da
    import numba
    f = imp("africanus.util.type_inference", "infer_complex_dtype")
    args = []
    for dt, kind in case["args"]:
        a = np.ones(3, dt)
        if kind == "da":
            a = da.from_array(a, chunks=2)
        elif kind == "nb":
            a = numba.typeof(a)
        args.append(a)
    want = np.result_type(np.complex64, *[np.dtype(d) for d, _ in
                                          case["args"]])
    with sut("infer_complex_dtype"):
        got = f(*args)
    expect(np.dtype(got) == want, "infer_complex_dtype of %s is %s",
           case["args"], got)
    if case["bad"]:
        args.insert(case["pos"] % (len(args) + 1),
                    dict(list=[1.0], scalar=1.0, none=None)[case["bad"]])
        expect_raises((ValueError, TypeError), "type of %s" % case["bad"],
                      lambda: f(*args))
    return len(args) > 1, [case["args"][0][1]]


def gen_hash(draw):
    base = draw(st.sampled_from([0, 0, 1 << 20, 1 << 21]))
    return dict(size=max(0, base + draw(st.integers(-2, 3))),
                seed=draw(st.integers(0, 99)))


def run_hash(case):
    f = imp("africanus.util.files", "sha_hash_file")
    data = np.random.RandomState(case["seed"]).bytes(case["size"])
    fd, path = tempfile.mkstemp()
    try:
        with os.fdopen(fd, "wb") as h:
            h.write(data)
        with sut("sha_hash_file"):
            got = f(path)
    finally:
        os.unlink(path)
    expect(got == hashlib.sha1(data).hexdigest(), "hash of %d bytes is %s",
           case["size"], got)
    return case["size"] > 0, ["hash"]


SUBS = [Sub("chunks", gen_chunks, run_chunks, 2000, 30000),
        Sub("corr_shape", gen_corr, run_corr, 60, 60),
        Sub("assigns", gen_assign, run_assign, 2000, 30000),
        Sub("empty", None, run_empty, 0, 0, explicit=[{}]),
        Sub("dtypes", gen_dtypes, run_dtypes, 400, 3000),
        Sub("hash", gen_hash, run_hash, 60, 400)]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS)
