"""C05: conversion between Stokes parameters and correlations."""
from hypothesis import strategies as st
import numpy as np
from vlib.core import all_histories
from vlib.core import (Sub, sut, imp, close, expect, frozen, unchanged, rng)
from vlib import sched

PROPERTY = "C05"
RULE = ("generated subsets, orders, nestings, spellings (name or CASA id) of "
        "Stokes parameters and correlations, leading dimensions, dtypes and "
        "chunkings; oracle: the defining linear relations; non-trivial: at "
        "least two outputs, and more than one leading element")

ST = ["I", "Q", "U", "V"]
LIN = ["XX", "XY", "YX", "YY"]
CIR = ["RR", "RL", "LR", "LL"]
IDS = dict(I=1, Q=2, U=3, V=4, RR=5, RL=6, LR=7, LL=8, XX=9, XY=10, YX=11,
           YY=12)
# what each output is made from, and the relation
NEED = {"RR": [("I", "V")], "LL": [("I", "V")], "RL": [("Q", "U")],
        "LR": [("Q", "U")], "XX": [("I", "Q")], "YY": [("I", "Q")],
        "XY": [("U", "V")], "YX": [("U", "V")],
        "I": [("XX", "YY"), ("RR", "LL")], "Q": [("XX", "YY"), ("RL", "LR")],
        "U": [("XY", "YX"), ("RL", "LR")], "V": [("XY", "YX"), ("RR", "LL")]}


def relation(o, a, b, pair):
    if o in ("RR", "XX"):
        return a + b + 0j
    if o in ("LL", "YY"):
        return a - b + 0j
    if o in ("RL", "XY"):
        return a + 1j * b
    if o in ("LR", "YX"):
        return a - 1j * b
    if pair == ("XX", "YY"):
        return ((a + b) if o == "I" else (a - b)).real / 2
    if pair == ("RR", "LL"):
        return ((a + b) if o == "I" else (a - b)).real / 2
    if pair == ("XY", "YX"):
        return (a + b).real / 2 if o == "U" else (a - b).imag / 2
    if pair == ("RL", "LR"):
        return (a + b).real / 2 if o == "Q" else (a - b).imag / 2
    raise AssertionError(o)


def possible(ins):
    s = set(ins)
    return [o for o in ST + LIN + CIR
            if any(set(p) <= s for p in NEED[o])]


def shapes_for(n):
    out = [(n,)]
    for a in range(1, n + 1):
        if n % a == 0:
            out.append((a, n // a))
            for b in range(1, n // a + 1):
                if (n // a) % b == 0:
                    out.append((a, b, n // a // b))
    return out


def nest(flat, shape):
    if len(shape) == 1:
        return list(flat)
    k = len(flat) // shape[0]
    return [nest(flat[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


def spell(names, ids, tup):
    """names or CASA ids, in lists or tuples"""
    out = []
    for x in names:
        if isinstance(x, list):
            out.append(spell(x, ids, tup))
        else:
            out.append(IDS[x] if x in ids else x)
    return tuple(out) if tup else out


def gen(draw):
    kind = draw(st.sampled_from(["stokes", "lin", "cir", "mixed"]))
    pool = dict(stokes=ST, lin=LIN, cir=CIR,
                mixed=ST + LIN + CIR)[kind]
    ins = draw(st.permutations(pool))
    if kind == "mixed":
        ins = ins[:draw(st.integers(2, 12))]
    else:
        ins = ins[:draw(st.sampled_from([4, 4, 3, 2]))]
    outs = possible(ins)
    if not outs:
        ins = draw(st.permutations(pool if kind != "mixed" else LIN))
        outs = possible(ins)
    outs = draw(st.permutations(outs))
    outs = outs[:draw(st.integers(1, len(outs)))]
    ish = draw(st.sampled_from(shapes_for(len(ins))))
    osh = draw(st.sampled_from(shapes_for(len(outs))))
    lead = draw(st.lists(st.integers(1, 4), max_size=3))
    return dict(ins=list(ins), outs=list(outs), ishape=list(ish),
                oshape=list(osh), lead=lead,
                ids_in=draw(st.lists(st.sampled_from(list(ins)))),
                ids_out=draw(st.lists(st.sampled_from(list(outs)))),
                bare=draw(st.booleans()),
                tup=draw(st.booleans()), npid=draw(st.booleans()),
                dtype=draw(st.sampled_from(["f8", "c16", "f4", "c8"])),
                order=draw(st.sampled_from(["C", "F", "strided"])),
                chunks=[sched.chunks(draw, st, n) for n in lead],
                sched=draw(st.integers(0, 2 ** 16)),
                seed=draw(st.integers(0, 2 ** 32 - 1)))


def build(case):
    rs = rng(case)
    lead = tuple(case["lead"])
    n = len(case["ins"])
    # all twelve, consistent with one set of Stokes parameters
    many = {}
    one_route = all(sum(set(p) <= set(case["ins"]) for p in NEED[o]) == 1
                    for o in case["outs"])
    stokes = {k: rs.randn(*lead) for k in ST}
    if one_route:
        for k in ST + LIN + CIR:
            many[k] = rs.randn(*lead) + 1j * rs.randn(*lead)
    else:
        many.update(stokes)
        for o in LIN + CIR:
            p = NEED[o][0]
            many[o] = relation(o, stokes[p[0]], stokes[p[1]], p)
    if not one_route and case["dtype"][0] == "f":
        case = dict(case, dtype={"f8": "c16", "f4": "c8"}[case["dtype"]])
    dt = np.dtype(case["dtype"])
    flat = np.stack([np.asarray(many[k]) for k in case["ins"]], axis=-1)
    if dt.kind == "f":
        flat = flat.real
    data = flat.astype(dt).reshape(lead + tuple(case["ishape"]))
    if case["order"] == "F":
        data = np.asfortranarray(data)
    elif case["order"] == "strided" and data.ndim:
        big = np.zeros(tuple(2 * s for s in data.shape), dtype=dt)
        sl = tuple(slice(None, None, 2) for _ in data.shape)
        big[sl] = data
        data = big[sl]
    vals = {k: flat.astype(dt)[..., i] for i, k in enumerate(case["ins"])}
    want = []
    for o in case["outs"]:
        p = [p for p in NEED[o] if set(p) <= set(case["ins"])][0]
        a, b = (np.asarray(vals[q]).astype("c16" if dt.kind == "c" else "f8")
                for q in p)
        want.append(relation(o, a, b, p))
    want = np.stack(want, axis=-1).reshape(lead + tuple(case["oshape"]))
    isch = spell(nest(case["ins"], case["ishape"]), set(case["ids_in"]),
                 case["tup"])
    osch = spell(nest(case["outs"], case["oshape"]), set(case["ids_out"]),
                 case["tup"])
    if case["npid"]:
        def np_(x):
            if isinstance(x, (list, tuple)):
                return type(x)(np_(e) for e in x)
            return np.int32(x) if isinstance(x, int) else x
        isch, osch = np_(isch), np_(osch)
    # a single entry need not be in a list
    if case["bare"] and case["oshape"] == [1]:
        osch = osch[0]
    return data, isch, osch, want, one_route


def verify(case, got, want, dt, what):
    single = dt.itemsize == (8 if dt.kind == "c" else 4)
    close(got, want, 1e-5 if single else 1e-13, what)
    kind = "f" if all(o in ST for o in case["outs"]) else "c"
    if dt.kind == "c" and kind == "f":
        pass
    expect(got.dtype.kind == kind or got.dtype.kind == "c",
           "%s dtype %s", what, got.dtype)
    if kind == "f":
        expect(got.dtype.kind == "f", "Stokes output has dtype %s", got.dtype)
    expect(np.finfo(got.dtype).eps <= np.finfo(dt).eps,
           "%s dtype %s loses precision of %s", what, got.dtype, dt)


def done(case, one_route):
    n = int(np.prod(case["lead"])) if case["lead"] else 1
    return (len(case["outs"]) > 1 and n > 1,
            ["dtype:" + case["dtype"],
             "one route" if one_route else "several routes",
             "nested in" if len(case["ishape"]) > 1 else "flat in",
             "nested out" if len(case["oshape"]) > 1 else "flat out",
             "ids" if case["ids_in"] or case["ids_out"] else "names"])


def run_numpy(case):
    convert = imp("africanus.model.coherency", "convert")
    data, isch, osch, want, one = build(case)
    cp = frozen(data)
    with sut("convert"):
        got = convert(data, isch, osch)
    unchanged([data], cp, "convert")
    verify(case, got, want, data.dtype, "convert(%s -> %s)" % (isch, osch))
    return done(case, one)


def run_dask(case):
    import dask.array as da
    convert = imp("africanus.model.coherency.dask", "convert")
    data, isch, osch, want, one = build(case)
    ch = tuple(tuple(c) for c in case["chunks"]) + \
        tuple((n,) for n in case["ishape"])
    x = da.from_array(data, chunks=ch)
    with sut("lazy convert"):
        r = convert(x, isch, osch)
        got = sched.compute(r, seed=case["sched"])[0]
    expect(tuple(r.shape) == got.shape, "announced shape %s, computed %s",
           r.shape, got.shape)
    expect(r.dtype == got.dtype, "announced dtype %s, computed %s", r.dtype,
           got.dtype)
    verify(case, got, want, data.dtype,
           "lazy convert(%s -> %s)" % (isch, osch))
    return done(case, one)


def gen_rt(draw):
    return dict(lead=draw(st.lists(st.integers(1, 4), max_size=3)),
                basis=draw(st.sampled_from(["lin", "cir"])),
                other=draw(st.booleans()),
                perm=draw(st.permutations([0, 1, 2, 3])),
                ish=draw(st.sampled_from([[4], [2, 2], [1, 4], [4, 1],
                                          [1, 2, 2]])),
                scale=draw(st.integers(-6, 6)),
                seed=draw(st.integers(0, 2 ** 32 - 1)))


def run_roundtrip(case):
    convert = imp("africanus.model.coherency", "convert")
    rs = rng(case)
    lead = tuple(case["lead"])
    S = rs.randn(*(lead + (4,))) * 10.0 ** case["scale"]
    b = LIN if case["basis"] == "lin" else CIR
    sch = nest([b[i] for i in case["perm"]], case["ish"])
    with sut("convert"):
        c = convert(S, ST, sch)
        if case["other"]:
            # through the other basis, by way of Stokes
            c = convert(convert(c, sch, ST), ST,
                        LIN if b is CIR else CIR)
            back = convert(c, LIN if b is CIR else CIR, ST)
        else:
            back = convert(c, sch, ST)
    close(back, S, 1e-12, "Stokes -> correlations -> Stokes",
          scale=np.abs(S).sum(axis=-1, keepdims=True))
    return len(lead) > 0, ["basis:" + case["basis"]]


SUBS = [Sub("numpy", gen, run_numpy, 1500, 30000),
        Sub("dask", gen, run_dask, 400, 6000),
        Sub("roundtrip", gen_rt, run_roundtrip, 300, 3000)]

SUBS += all_histories(SUBS)
