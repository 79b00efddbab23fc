"""C17: chunked (dask) prediction equals the unchunked RIME."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import Sub, sut, imp, expect, expect_raises, close, frozen, \
    unchanged
from vlib import pred, sched

PROPERTY = "C17"
RULE = ("generated predictions cut into random time (with their rows), "
        "source and channel chunks, summed over source chunks as a tree and "
        "as a chain, computed in a random task order or by threads, against "
        "matrix products per row; misaligned chunks must raise; non-trivial: "
        "more than one chunk")


def darr(d, case, have, shift):
    import dask.array as da
    tc, sc, fc = [tuple(case[k]) for k in ("tc", "sc", "fc")]
    edges = np.cumsum((0,) + tc)
    rc = tuple(int(sum(case["counts"][b:e])) for b, e in
               zip(edges[:-1], edges[1:]))
    na = case["nant"]
    K = d["base"].shape[2:]
    ti = d["ti"]
    if shift:
        # indices relative to each chunk, as np.unique gives per block
        ti = ti - np.repeat(edges[:-1], rc).astype(ti.dtype)
    ch = dict(ti=(rc,), a1=(rc,), a2=(rc,), dde1=(sc, tc, na, fc) + K,
              coh=(sc, rc, fc) + K, dde2=(sc, tc, na, fc) + K,
              die1=(tc, na, fc) + K, base=(rc, fc) + K, die2=(tc, na, fc) + K)
    out = {k: da.from_array(ti if k == "ti" else d[k], chunks=ch[k])
           for k in ch}
    return pred.args(out, have), rc


def run_of(corr, haves, dts="c16"):
    def gen(draw):
        c = pred.gen(draw)
        c["toff"] = 0
        c["have"] = draw(st.sampled_from(haves))
        c["shift"] = draw(st.booleans())
        c["threads"] = draw(st.booleans())
        return c

    def run(case):
        import dask
        m = imp("africanus.rime.dask")
        d = pred.build(case, pred.CORRS[corr], dts, case["tc"])
        have = case["have"]
        a, rc = darr(d, case, have, case["shift"])
        keep = frozen(*d.values())
        lazy = []
        for kw in ({}, dict(streams=True), dict(streams=False)):
            with sut("building dask predict_vis with %s" % have):
                lazy.append(m.predict_vis(*a, **kw))
        with sut("computing dask predict_vis with %s" % have):
            vals = sched.compute(*lazy, seed=case["sched"])
            if case["threads"]:
                vals = list(vals) + list(dask.compute(
                    *lazy, scheduler="threads"))
        w = pred.ref(d, have, pred.CORRS[corr])
        dt = np.result_type(*[x.dtype for x in a[3:] if x is not None])
        for i, v in enumerate(vals):
            x = lazy[i % 3]
            what = "dask predict_vis with %s (%s)" % (
                "+".join(have), ["default", "streams", "tree"][i % 3])
            close(v, w, 1e-12 if dts == "c16" else 1e-5, what)
            expect(v.dtype == dt and x.dtype == dt, "%s declares dtype %s "
                   "and holds %s; the terms are %s", what, x.dtype, v.dtype,
                   dt)
            expect(x.shape == v.shape and x.chunks[:2] ==
                   (rc, tuple(case["fc"])), "%s declares chunks %s", what,
                   x.chunks)
        blk = lazy[1].blocks[(0, 0)]
        with sut("computing one block"):
            bv = sched.compute(blk, seed=case["sched"])[0]
        close(bv, w[:rc[0], :case["fc"][0]],
              1e-12 if dts == "c16" else 1e-5, "first block of the chain")
        unchanged(list(d.values()), keep, "dask predict_vis")
        return len(rc) * len(case["sc"]) * len(case["fc"]) > 1, \
            ["+".join(have)]
    return gen, run


def sub(name, corr, haves, q, t, dts="c16"):
    g, r = run_of(corr, haves, dts)
    return Sub(name, g, r, q, t)


def gen_bad(draw):
    c = pred.gen(draw)
    c["counts"] = [draw(st.integers(1, 3)) for _ in range(3)]
    c["nant"] = draw(st.integers(2, 4))
    c["tc"] = draw(st.sampled_from([[1, 1, 1], [2, 1], [1, 2]]))
    c["toff"] = 0
    c["kind"] = draw(st.sampled_from(["ant", "ndie", "ndde", "dde_chunks",
                                      "die_chunks"]))
    c["which"] = draw(st.integers(0, 1))
    return c


def run_bad(case):
    m = imp("africanus.rime.dask")
    d = pred.build(case, (2, 2), blocks=case["tc"])
    a, rc = darr(d, case, ["dde", "coh", "die", "base"], False)
    k, i = case["kind"], case["which"]
    if k == "ant":
        j = draw_ix = [3, 6][i]
        ax = 2 if j == 3 else 1
        for q in (draw_ix, draw_ix + 2):
            a[q] = a[q].rechunk({ax: 1})
    elif k == "ndie":
        a[6], a[8] = a[6].rechunk({0: -1}), a[8].rechunk({0: -1})
        a[3:6] = [None] * 3
    elif k == "ndde":
        a[3], a[5] = a[3].rechunk({1: -1}), a[5].rechunk({1: -1})
        a[6:9] = [None] * 3
    elif k == "dde_chunks":
        a[[3, 5][i]] = a[[3, 5][i]].rechunk({1: -1})
    else:
        a[[6, 8][i]] = a[[6, 8][i]].rechunk({0: -1})
    expect_raises((ValueError,), "dask predict_vis with misaligned chunks "
                  "(%s)" % k, lambda: m.predict_vis(*a))
    return True, [k]


H = pred.HAVES
SUBS = [sub("full", "full", [H[0], H[1], H[3]], 50, 1000),
        sub("full_nobase", "full", H[4:8], 50, 1000),
        sub("full_coh", "full", H[8:12], 50, 1000),
        sub("full_gains", "full", H[12:], 50, 800),
        sub("two", "two", [H[0], H[4], H[9], H[12]], 50, 1000),
        sub("one", "one", [H[0], H[1], H[10]], 40, 600),
        sub("mixed", "two", [H[0], H[10], H[12]], 40, 600,
            dict(dde1="c8", dde2="c8", coh="c8", die1="c8", die2="c8",
                 base="c16")),
        Sub("rejects", gen_bad, run_bad, 60, 600)]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS) + scaled(SUBS)
