"""C09: chunked (dask) averaging equals averaging chunk by chunk."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import Sub, sut, imp, expect, expect_raises
from vlib import avg, sched
from checks.c08 import CONFIGS

PROPERTY = "C09"
RULE = ("generated columns split into random row, channel and correlation "
        "chunks, computed in a random task order and compared with the "
        "average of each chunk (bins do not cross chunks); declared chunks "
        "and dtypes compared with the computed ones; non-trivial: more than "
        "one chunk")


def gen(draw):
    c = avg.gen(draw)
    c["rc"] = draw(st.lists(st.integers(0, 1000), max_size=3))
    c["cc"] = draw(st.lists(st.integers(0, 1000), max_size=2))
    c["kc"] = draw(st.lists(st.integers(0, 1000), max_size=1))
    c["sched"] = draw(st.integers(0, 2 ** 32 - 1))
    return c


def cut(n, cuts):
    p = sorted(set(x % n for x in cuts) - {0}) if n else []
    e = [0] + p + [n]
    return tuple(b - a for a, b in zip(e[:-1], e[1:]))


DIMS = dict(time="r", interval="r", antenna1="r", antenna2="r",
            time_centroid="r", exposure="r", flag_row="r", uvw="r3",
            weight="rk", sigma="rk", chan_freq="c", chan_width="c",
            effective_bw="c", resolution="c", vis="rck", flag="rck",
            weight_spectrum="rck", sigma_spectrum="rck")


def to_dask(d, rch, cch, kch):
    import dask.array as da
    ch = {"r": rch, "c": cch, "k": kch, "3": (3,)}
    return {k: da.from_array(v, chunks=tuple(ch[x] for x in DIMS[k]))
            for k, v in d.items()}


def run_cfg(name):
    dt, fields = CONFIGS[name]
    tol = 1e-12 if dt[0] == "f8" else 1e-5

    def run(case):
        tac = imp("africanus.averaging.dask", "time_and_channel")
        d = avg.build(case, fields, dt)
        n = len(d["time"])
        rch, cch = cut(n, case["rc"]), cut(case["nchan"], case["cc"])
        kch = cut(case["ncorr"], case["kc"])
        want, bins, sizes = avg.ref(d, case["tbs"], case["cbs"], rch, cch)
        kw = to_dask(d, rch, cch, kch)
        pos = [kw.pop(k) for k in ("time", "interval", "antenna1",
                                   "antenna2")]
        with sut("dask time_and_channel"):
            out = tac(*pos, time_bin_secs=case["tbs"],
                      chan_bin_size=case["cbs"], **kw)
        names = [k for k, v in out._asdict().items() if v is not None]
        with sut("computing dask time_and_channel"):
            vals = sched.compute(*[getattr(out, k) for k in names],
                                 seed=case["sched"])
        got = {k: None for k in out._asdict()}
        got.update(zip(names, vals))
        avg.compare(got, want, sizes, tol, "dask time_and_channel")
        for k in names:
            a, v = getattr(out, k), got[k]
            expect(a.dtype == v.dtype, "%s declares dtype %s but holds %s",
                   k, a.dtype, v.dtype)
            expect(len(a.shape) == v.ndim and all(
                np.isnan(s) or s == t for s, t in zip(a.shape, v.shape)),
                "%s declares shape %s but holds %s", k, a.shape, v.shape)
        nch = len(rch) * len(cch) * len(kch)
        return nch > 1, ["%d chunks" % min(nch, 4)]
    return run


def gen_bad(draw):
    c = gen(draw)
    c["pos"] = draw(st.integers(0, 1000))
    c["nan"] = False
    return c


def run_bad(case):
    """flag_row contradicting flag is reported wherever the chunk lies"""
    tac = imp("africanus.averaging.dask", "time_and_channel")
    d = avg.build(case, {"flag", "flag_row", "vis"})
    n = len(d["time"])
    p = case["pos"] % n
    d["flag_row"][p] = 0 if d["flag_row"][p] else 1
    rch, cch = cut(n, case["rc"]), cut(case["nchan"], case["cc"])
    kw = to_dask(d, rch, cch, (case["ncorr"],))
    pos = [kw.pop(k) for k in ("time", "interval", "antenna1", "antenna2")]

    def go():
        o = tac(*pos, time_bin_secs=case["tbs"], chan_bin_size=case["cbs"],
                **kw)
        return sched.compute(o.vis, o.flag_row, seed=case["sched"])
    expect_raises((ValueError,), "flag_row contradicting flag", go)
    return len(rch) * len(cch) > 1, []


SUBS = [Sub(k, gen, run_cfg(k), 120, 1500)
        for k in CONFIGS if k != "unflagged"] + [
    Sub("flag_mismatch", gen_bad, run_bad, 40, 500)]

SUBS += all_histories(SUBS) + scaled(SUBS)
