"""C06: ill-defined correlation conversions are rejected."""
from hypothesis import strategies as st
import numpy as np
from vlib.core import Sub, sut, imp, expect, expect_raises, rng
from checks.c05 import ST, LIN, CIR, IDS, NEED, possible, nest, shapes_for

PROPERTY = "C06"
RULE = ("generated requests that have no well-defined answer (inputs that "
        "cannot produce an output, an entry named twice, unknown or "
        "unsupported names or ids, ragged nesting, wrong element types, data "
        "whose trailing dimensions are not the schema's), eager and lazy; "
        "non-trivial: the request also contains something valid")
OTHER = {"Undefined": 0, "RX": 13, "RY": 14, "LX": 15, "LY": 16, "XR": 17,
         "XL": 18, "YR": 19, "YL": 20, "PP": 21, "PQ": 22, "QP": 23, "QQ": 24,
         "RCircular": 25, "LCircular": 26, "Linear": 27, "Ptotal": 28,
         "Plinear": 29, "PFtotal": 30, "PFlinear": 31, "Pangle": 32}


def gen(draw):
    kind = draw(st.sampled_from(
        ["missing", "missing", "dup_in", "dup_out", "unsupported",
         "bad_name_in", "bad_id", "ragged", "type", "shape"]))
    basis = draw(st.sampled_from([ST, LIN, CIR]))
    ins = list(draw(st.permutations(basis)))
    c = dict(kind=kind, lead=draw(st.lists(st.integers(1, 3), max_size=2)),
             dask=draw(st.booleans()), ids=draw(st.booleans()),
             pos=draw(st.integers(0, 11)),
             extra=draw(st.sampled_from(sorted(OTHER))),
             dtype=draw(st.sampled_from(["f8", "c16"])),
             badid=draw(st.sampled_from([-1, 33, 34, 100, -5])),
             badname=draw(st.sampled_from(["", "i", "xx", "Xx", "XYZ", "W",
                                           "YYX", " I", "IQ"])),
             val=draw(st.sampled_from([1.0, None, 2.5])),
             where=draw(st.sampled_from(["in", "out"])),
             delta=draw(st.sampled_from([-1, 1, 2])))
    if kind == "missing":
        ins = ins[:draw(st.integers(1, 4))]
        can = set(possible(ins))
        cannot = [o for o in ST + LIN + CIR if o not in can]
        bad = draw(st.sampled_from(cannot))
        good = draw(st.lists(st.sampled_from(sorted(can)), unique=True)) \
            if can else []
        outs = list(draw(st.permutations(good + [bad])))
    else:
        outs = list(draw(st.permutations(possible(ins))))
        outs = outs[:draw(st.integers(1, len(outs)))]
    c.update(ins=ins, outs=outs)
    return c


def run(case):
    m = imp("africanus.model.coherency.conversion")
    convert = imp("africanus.model.coherency", "convert")
    ins, outs, kind = list(case["ins"]), list(case["outs"]), case["kind"]
    excs = (ValueError,)
    n_in = len(ins)
    lead = tuple(case["lead"])
    shape = lead + (n_in,)
    p = case["pos"]
    if kind == "missing":
        excs = (m.MissingConversionInputs,)
    elif kind in ("dup_in", "dup_out"):
        l = ins if kind == "dup_in" else outs
        x = l[p % len(l)]
        l.insert((p * 7) % (len(l) + 1), IDS[x] if case["ids"] else x)
        shape = lead + (len(ins),)
    elif kind == "unsupported":
        e = OTHER[case["extra"]] if case["ids"] else case["extra"]
        outs.insert(p % (len(outs) + 1), e)
    elif kind == "bad_name_in":
        # a name nobody knows cannot be an output
        outs.insert(p % (len(outs) + 1), case["badname"])
    elif kind == "bad_id":
        l = ins if case["where"] == "in" else outs
        l.insert(p % (len(l) + 1), case["badid"])
        shape = lead + (len(ins),)
    elif kind == "type":
        l = ins if case["where"] == "in" else outs
        l.insert(p % (len(l) + 1), case["val"])
        shape = lead + (len(ins),)
        excs = (TypeError,)
    elif kind == "ragged":
        excs = (m.DimensionMismatch,)
        if case["where"] == "in" or len(outs) < 3:
            ins = [ins[:1 + p % 3], ins[1 + p % 3:]]
            if len(ins[0]) == len(ins[1]):
                ins = [ins[0] + ins[1][:1], ins[1][1:]]
            shape = lead + (2, 2)
        else:
            k = 1 if len(outs) != 2 else 1
            outs = [outs[:k], outs[k:]]
            if len(outs[0]) == len(outs[1]):
                return False, ["skipped"]
    elif kind == "shape":
        n = n_in + case["delta"]
        shape = lead + (max(n, 0),)
    data = np.ones(shape, dtype=case["dtype"])
    if case["ids"] and kind in ("missing", "shape"):
        ins = [IDS[i] for i in ins]
    if case["dask"]:
        import dask.array as da
        f = imp("africanus.model.coherency.dask", "convert")
        x = da.from_array(data, chunks=data.shape)
        expect_raises(excs, "lazy convert(%s, %s, %s)" %
                      (shape, ins, outs), lambda: f(x, ins, outs))
    else:
        expect_raises(excs, "convert(%s, %s, %s)" % (shape, ins, outs),
                      lambda: convert(data, ins, outs))
    return len(outs) > 1 or kind not in ("missing",), \
        ["kind:" + kind, "lazy" if case["dask"] else "eager"]


def ids_cases():
    names = ["Undefined", "I", "Q", "U", "V", "RR", "RL", "LR", "LL", "XX",
             "XY", "YX", "YY", "RX", "RY", "LX", "LY", "XR", "XL", "YR",
             "YL", "PP", "PQ", "QP", "QQ", "RCircular", "LCircular",
             "Linear", "Ptotal", "Plinear", "PFtotal", "PFlinear", "Pangle"]
    return [dict(id=i, name=n) for i, n in enumerate(names)]


def run_ids(case):
    t = imp("africanus.util.casa_types")
    with sut("casa id tables"):
        ok = (t.STOKES_TYPE_MAP[case["name"]] == case["id"] and
              t.STOKES_ID_MAP[case["id"]] == case["name"] and
              t.STOKES_TYPES[case["id"]] == case["name"])
    expect(ok, "CASA id %d is not %s", case["id"], case["name"])
    return True, []


SUBS = [Sub("rejects", gen, run, 1500, 20000),
        Sub("casa_ids", None, run_ids, 0, 0, explicit=ids_cases())]
