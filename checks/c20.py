"""C20: reading WSClean component lists."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, spoil
from vlib.core import Sub, sut, imp, expect, expect_raises, close

PROPERTY = "C20"
RULE = ("generated component lists (any order and subset of columns, "
        "defaults in the header, empty fields, signs, spacing, comments and "
        "blank lines before the header), rendered to text, loaded from a "
        "file or from lines and compared with the values rendered; damaged "
        "lists must raise; non-trivial: two or more sources, or damaged")

COLS = ["Name", "Type", "Ra", "Dec", "I", "SpectralIndex", "LogarithmicSI",
        "ReferenceFrequency", "MajorAxis", "MinorAxis", "Orientation"]
OPTIONAL = ["MajorAxis", "MinorAxis", "Orientation"]
NUM = ["I", "ReferenceFrequency"] + OPTIONAL


def num(draw):
    return draw(st.one_of(
        st.floats(-1e6, 1e6, allow_nan=False),
        st.integers(-1000, 1000),
        st.sampled_from([0.0, 1.5e9, 1e-7, -2.5e-3, 125584411.621094])))


def sexa(draw, top):
    """sign, whole, minutes, seconds text"""
    return [draw(st.sampled_from(["", "", "+", "-"])),
            draw(st.integers(0, top)), draw(st.integers(0, 59)),
            draw(st.sampled_from(["0", "5", "07.5", "59.999", "8.", "23.511",
                                  "00"])), draw(st.booleans())]


def gen(draw):
    cols = list(draw(st.permutations(COLS)))
    if draw(st.booleans()):
        cols = cols[:draw(st.integers(2, len(cols)))]
    defaults = {}
    for k in NUM:
        if k in cols and draw(st.integers(0, 3)) == 0:
            defaults[k] = num(draw)
    rows = []
    for i in range(draw(st.integers(0, 5))):
        r = {}
        for k in cols:
            if k == "Name":
                v = "s%dc%d" % (i, draw(st.integers(0, 99)))
            elif k == "Type":
                v = draw(st.sampled_from(["POINT", "GAUSSIAN"]))
            elif k == "Ra":
                v = sexa(draw, 23)
            elif k == "Dec":
                v = sexa(draw, 89)
            elif k == "SpectralIndex":
                v = [draw(st.sampled_from([0.5, -0.00695379313004673, 0.0,
                                           1e-5, -2])) for _ in
                     range(draw(st.integers(0, 4)))]
            elif k == "LogarithmicSI":
                v = draw(st.booleans())
            else:
                v = num(draw)
                if (k in defaults or k in OPTIONAL) and draw(st.booleans()):
                    v = None
            r[k] = v
        rows.append(r)
    return dict(cols=cols, defaults=defaults, rows=rows,
                sp=draw(st.sampled_from(["", " ", "  "])),
                pre=draw(st.lists(st.sampled_from(
                    ["", "   ", "# a comment", "  # Format = no"]),
                    max_size=3)),
                tail=draw(st.sampled_from(["", "  # what follows"])),
                file=draw(st.booleans()), final=draw(st.booleans()),
                pos=draw(st.integers(0, 100)),
                damage=draw(st.sampled_from(
                    ["short", "long", "column", "format", "empty", "ra",
                     "dec", "number", "required"])))


def text(case):
    sp = case["sp"]
    head = []
    for k in case["cols"]:
        d = case["defaults"].get(k)
        head.append(k if d is None else "%s='%r'" % (k, d))
    lines = list(case["pre"])
    lines.append("Format = " + ("," + (sp or " ")).join(head) + case["tail"])
    for r in case["rows"]:
        f = []
        for k in case["cols"]:
            v = r[k]
            if v is None:
                t = ""
            elif k == "Ra":
                t = "%s%s:%s:%s" % (v[0], pad(v[1], v[4]), pad(v[2], v[4]),
                                    v[3])
            elif k == "Dec":
                t = "%s%s.%s.%s" % (v[0], pad(v[1], v[4]), pad(v[2], v[4]),
                                    v[3])
            elif k == "SpectralIndex":
                t = "[" + ("," + sp).join(repr(x) for x in v) + "]"
            elif k == "LogarithmicSI":
                t = "true" if v else "false"
            else:
                t = v if isinstance(v, str) else repr(v)
            f.append(t)
        lines.append(("," + sp).join(f))
    return lines


def pad(n, two):
    return "%02d" % n if two else "%d" % n


def value(k, v, defaults):
    if v is None:
        v = defaults.get(k, 0.0)
    if k in ("Ra", "Dec"):
        x = v[1] + v[2] / 60.0 + float(v[3]) / 3600.0
        x = -x if v[0] == "-" else x
        return np.deg2rad(x * 15 if k == "Ra" else x)
    if k in ("MajorAxis", "MinorAxis"):
        return np.deg2rad(v / 3600.0)
    if k == "Orientation":
        return np.deg2rad(v)
    return v


def loaded(case, lines):
    load = imp("africanus.model.wsclean", "load")
    if not case["file"]:
        return load(lines)
    d = tempfile.mkdtemp()
    p = os.path.join(d, "model.txt")
    with open(p, "w") as f:
        f.write("\n".join(lines) + ("\n" if case["final"] else ""))
    try:
        return load(p)
    finally:
        os.unlink(p)
        os.rmdir(d)


def run(case):
    lines = text(case)
    with sut("load"):
        spoil(loaded(case, lines))
        cols = list(loaded(case, lines))
        names = [c for c, _ in cols]
        got = dict((c, list(v)) for c, v in cols)
    expect(names == case["cols"], "columns %s, expected %s", names,
           case["cols"])
    for k in case["cols"]:
        want = [value(k, r[k], case["defaults"]) for r in case["rows"]]
        expect(len(got[k]) == len(want), "%d values of %s, expected %d",
               len(got[k]), k, len(want))
        for g, w in zip(got[k], want):
            if k == "SpectralIndex":
                expect(list(g) == list(w), "SpectralIndex %s, expected %s",
                       g, w)
            elif k in ("Name", "Type", "LogarithmicSI"):
                expect(g == w and (k != "LogarithmicSI" or
                                   isinstance(g, (bool, np.bool_))),
                       "%s is %r, expected %r", k, g, w)
            else:
                close(g, w, 1e-13, k, scale=abs(w))
    return len(case["rows"]) > 1, \
        ["file" if case["file"] else "lines"]


def run_bad(case):
    lines = text(case)
    nh = len(case["pre"])
    kind, rows = case["damage"], case["rows"]
    if kind == "format":
        lines[nh] = lines[nh].replace("Format", "Fmt")
    elif kind == "empty":
        lines = lines[:nh]
    elif kind == "column":
        lines[nh] = lines[nh].replace("Format = ", "Format = Colour, ")
    elif not rows:
        return False, []
    else:
        i = case["pos"] % len(rows)
        f = [x for x in case["cols"]]
        r = dict(rows[i])
        if kind == "short":
            if len(f) < 2:
                return False, []
            lines[nh + 1 + i] = lines[nh + 1 + i].rsplit(",", 1)[0]
            if f[-1] == "SpectralIndex" and len(r[f[-1]]) > 1:
                return False, []
        elif kind == "long":
            lines[nh + 1 + i] += ", 1"
        elif kind in ("ra", "dec", "number", "required"):
            k = dict(ra="Ra", dec="Dec", number="I", required=[
                "Ra", "Dec", "SpectralIndex", "LogarithmicSI"][
                    case["pos"] % 4])[kind]
            if k not in f:
                return False, []
            c2 = dict(case, rows=[dict(x) for x in rows])
            bad = "" if kind == "required" else "1x:2"
            sp = case["sp"]
            fields = []
            for kk in f:
                one = text(dict(c2, cols=[kk], rows=[rows[i]], pre=[]))[1]
                fields.append(bad if kk == k else one)
            lines[nh + 1 + i] = ("," + sp).join(fields)
    expect_raises((ValueError, SyntaxError, KeyError, TypeError),
                  "a component list damaged by %r" % kind,
                  lambda: list(loaded(case, lines)))
    return True, [kind]


SUBS = [Sub("load", gen, run, 1500, 20000),
        Sub("damaged", gen, run_bad, 800, 10000)]

SUBS += all_histories(SUBS)
