"""C16: model visibilities are the product of the given Jones terms."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import strided, Sub, sut, imp, expect, expect_raises, close, frozen, \
    unchanged
from vlib import pred

PROPERTY = "C16"
RULE = ("generated rows, antennas, times, sources and Jones terms in every "
        "valid combination of supplied terms, single, dual and full "
        "correlation, against matrix products per row; malformed "
        "combinations must raise; non-trivial: at least two sources and two "
        "times, or a rejection")


def run_of(corr, haves, dts="c16"):
    def gen(draw):
        c = pred.gen(draw)
        c["have"] = draw(st.sampled_from(haves))
        return c

    def run(case):
        m = imp("africanus.rime")
        d = pred.build(case, pred.CORRS[corr], dts)
        have = case["have"]
        a = pred.args(d, have, case["toff"])
        keep = frozen(*a)
        with sut("predict_vis with %s" % have):
            v = m.predict_vis(*a)
        w = pred.ref(d, have, pred.CORRS[corr])
        dt = np.result_type(*[x.dtype for x in a[3:] if x is not None])
        expect(v.dtype == dt, "predict_vis: dtype %s, expected %s", v.dtype,
               dt)
        single = np.dtype(dt).itemsize <= 8 and dt.kind == "c"
        close(v, w, 2e-5 if single else 1e-12,
              "predict_vis with %s" % "+".join(have))
        unchanged(a, keep, "predict_vis")
        if have == ["die", "base"]:
            with sut("apply_gains"):
                g = m.apply_gains(a[0], a[1], a[2], a[6], a[7], a[8])
            close(g, w, 2e-5 if single else 1e-12, "apply_gains")
        return case["nsrc"] > 1 and len(case["counts"]) > 1, ["+".join(have)]
    return gen, run


def sub(name, corr, haves, q, t, dts="c16"):
    g, r = run_of(corr, haves, dts)
    return Sub(name, g, r, q, t)


def gen_bad(draw):
    c = pred.gen(draw)
    c["corr"] = draw(st.sampled_from(["two", "full"]))
    c["kind"] = draw(st.sampled_from(
        ["one_dde1", "one_dde2", "one_die1", "one_die2", "ndim", "none"]))
    c["have"] = draw(st.sampled_from([["dde", "coh", "die", "base"],
                                      ["dde", "coh", "die"]]))
    c["which"] = draw(st.sampled_from(["coh", "die", "dde", "dde2", "die2"]))
    c["lazy"] = draw(st.booleans())
    return c


def run_bad(case):
    if case["lazy"]:
        import dask.array as da
        f = imp("africanus.rime.dask", "predict_vis")
    else:
        f = imp("africanus.rime", "predict_vis")
    d = pred.build(case, pred.CORRS[case["corr"]])
    a = pred.args(d, case["have"])
    k = case["kind"]
    if k.startswith("one_"):
        a[dict(dde1=3, dde2=5, die1=6, die2=8)[k[4:]]] = None
    elif k == "none":
        a[3:] = [None] * 6
    else:
        # one term has a correlation dimension too few or too many
        idx = dict(coh=[4], die=[6, 8], dde=[3, 5], dde2=[5], die2=[8])
        for i in idx[case["which"]]:
            a[i] = (a[i][..., 0] if case["corr"] == "full" else
                    np.stack([a[i]] * 2, -1))
    if case["lazy"]:
        a = [None if x is None else da.from_array(x, chunks=x.shape)
             for x in a]
    import numba
    excs = (ValueError, numba.core.errors.TypingError)
    expect_raises(excs, "predict_vis (%s) with %s" %
                  (case["which"] if k == "ndim" else k, case["have"]),
                  lambda: f(*a))
    return True, [k]


H = pred.HAVES
SUBS = [sub("full_dde", "full", H[:4], 80, 1500),
        sub("full_dde_nocoh", "full", H[4:8], 80, 1500),
        sub("full_rest", "full", H[8:], 120, 2000),
        sub("two_dde", "two", H[:8], 80, 1500),
        sub("two_rest", "two", H[8:], 80, 1500),
        sub("one", "one", [H[0], H[1], H[8], H[12]], 60, 800),
        sub("single", "full", [H[0], H[12]], 40, 600, "c8"),
        sub("mixed", "full", [H[0], H[3]], 40, 600,
            dict(dde1="c8", dde2="c16", coh="f8", die1="c16", die2="c8",
                 base="c8")),
        Sub("rejects", gen_bad, run_bad, 60, 600)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['full_dde', 'two_rest']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS) + scaled(SUBS)
