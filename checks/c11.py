"""C11: chunked (dask) calibration equals the unchunked result."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import (Sub, sut, imp, expect, expect_raises, close, frozen,
                       unchanged)
from vlib import cal, sched

PROPERTY = "C11"
RULE = ("generated calibration problems cut into random time and channel "
        "chunks, computed in a random task order and again by a thread pool, "
        "compared with the explicit reference; the same input arrays are then "
        "re-used with other chunks; non-trivial: more than one chunk")


def gen(draw):
    c = cal.gen(draw)
    c["layout"] = "C"
    c["tc"] = draw(sched_chunks(len(c["counts"])))
    c["cc"] = draw(sched_chunks(c["nchan"]))
    c["tc2"] = draw(sched_chunks(len(c["counts"])))
    c["sched"] = draw(st.integers(0, 2 ** 32 - 1))
    c["threads"] = draw(st.booleans())
    return c


@st.composite
def sched_chunks(draw, n):
    return list(sched.chunks(draw, st, n, 4))


def arrays(case, d, tc, mode):
    import dask.array as da
    vs, js = cal.corr_shapes(mode)
    cnt, s, rch = d["cnt"], 0, []
    for t in tc:
        rch.append(int(cnt[s:s + t].sum()))
        s += t
    cc = tuple(case["cc"])
    tc, rch = tuple(tc), tuple(rch)
    A = da.from_array
    o = dict(idx=A(d["idx"], chunks=(tc,)), cnt=A(d["cnt"], chunks=(tc,)),
             a1=A(d["a1"], chunks=(rch,)), a2=A(d["a2"], chunks=(rch,)),
             uvw=A(d["uvw"], chunks=(rch, 3)), freq=A(d["freq"], chunks=(cc,)),
             lm=A(d["lm"], chunks=(tc,) + d["lm"].shape[1:]))
    for k, dims in (("jones", (tc, d["jones"].shape[1], cc,
                               d["jones"].shape[3]) + js),
                    ("model", (rch, cc, d["model"].shape[2]) + vs),
                    ("tmodel", (tc, cc, d["model"].shape[2]) + vs),
                    ("vis", (rch, cc) + vs), ("flag", (rch, cc) + vs)):
        o[k] = A(d[k], chunks=dims)
    return o


def compute(case, arr, salt):
    import dask
    if case["threads"]:
        return dask.compute(*arr, scheduler="threads", num_workers=6)
    return sched.compute(*arr, seed=case["sched"] + salt)


def meta(a, v, what):
    expect(a.shape == v.shape, "%s declares shape %s but holds %s", what,
           a.shape, v.shape)
    expect(a.dtype == v.dtype, "%s declares dtype %s but holds %s", what,
           a.dtype, v.dtype)


def run_mode(mode):
    def run(case):
        m = imp("africanus.calibration.utils.dask")
        d = cal.build(case, mode)
        keys = sorted(k for k in d if k != "t")
        keep = frozen(*[d[k] for k in keys])
        want = dict(corrupt_vis=cal.corrupt(d, mode),
                    residual_vis=cal.residual(d, mode),
                    compute_and_corrupt_vis=cal.corrupt(
                        d, mode, cal.predict_model(d, mode)))
        if case["ndir"] == 1:
            want["correct_vis"] = cal.correct(d, mode)
        for k, tc in enumerate((case["tc"], case["tc2"])):
            a = arrays(case, d, tc, mode)
            h = (a["idx"], a["cnt"], a["a1"], a["a2"], a["jones"])
            with sut("building the dask calibration graph"):
                g = dict(corrupt_vis=m.corrupt_vis(*h, a["model"]),
                         residual_vis=m.residual_vis(*h, a["vis"], a["flag"],
                                                     a["model"]),
                         compute_and_corrupt_vis=m.compute_and_corrupt_vis(
                             *h, a["tmodel"], a["uvw"], a["freq"], a["lm"]))
                if "correct_vis" in want:
                    g["correct_vis"] = m.correct_vis(*h, a["vis"], a["flag"])
            names = sorted(g)
            with sut("computing dask calibration"):
                vals = compute(case, [g[x] for x in names], k)
            for x, v in zip(names, vals):
                close(v, want[x], 1e-9, "dask %s (%s, time chunks %s)" %
                      (x, mode, tc))
                meta(g[x], v, "dask " + x)
            unchanged([d[k] for k in keys], keep, "dask calibration")
        return len(case["tc"]) * len(case["cc"]) > 1, [
            "threads" if case["threads"] else "random order"]
    return run


def run_phase(case):
    m = imp("africanus.calibration.phase_only.dask")
    mode = "diagdiag2" if case["auto"] else "diagdiag1"
    case = dict(case, auto=False)
    d = cal.build(case, mode)
    keys = sorted(k for k in d if k != "t")
    keep = frozen(*[d[k] for k in keys])
    jhj, jhr = cal.jhj_jhr(d)
    for k, tc in enumerate((case["tc"], case["tc2"])):
        a = arrays(case, d, tc, mode)
        h = (a["idx"], a["cnt"], a["a1"], a["a2"], a["jones"])
        with sut("building dask jhj and jhr"):
            g = (m.compute_jhj(*h, a["model"], a["flag"]),
                 m.compute_jhr(*h, a["vis"], a["model"], a["flag"]))
        with sut("computing dask jhj and jhr"):
            v = compute(case, g, k)
        close(v[0], jhj, 1e-11, "dask compute_jhj")
        close(v[1], jhr, 1e-11, "dask compute_jhr")
        meta(g[0], v[0], "dask compute_jhj")
        meta(g[1], v[1], "dask compute_jhr")
        unchanged([d[k] for k in keys], keep, "dask phase_only")
    return len(case["tc"]) * len(case["cc"]) > 1, []


def gen_bad(draw):
    c = gen(draw)
    c["nant"] = max(c["nant"], 2)
    c["fn"] = draw(st.sampled_from(["corrupt_vis", "residual_vis",
                                    "correct_vis",
                                    "compute_and_corrupt_vis"]))
    c["axis"] = draw(st.sampled_from(["ant", "dir", "model_dir", "uvw",
                                      "lm"]))
    c["mode"] = draw(st.sampled_from(cal.MODES))
    c["ndir"] = draw(st.integers(2, 3))
    return c


def run_bad(case):
    m = imp("africanus.calibration.utils.dask")
    mode = case["mode"]
    d = cal.build(case, mode)
    a = arrays(case, d, case["tc"], mode)
    fn, ax = case["fn"], case["axis"]
    if ax == "model_dir" and fn == "correct_vis":
        ax = "dir"
    if ax in ("uvw", "lm"):
        fn = "compute_and_corrupt_vis"
    if ax == "ant":
        a["jones"] = a["jones"].rechunk({1: 1})
    elif ax == "dir":
        a["jones"] = a["jones"].rechunk({3: 1})
    elif ax in ("uvw", "lm"):
        a[ax] = a[ax].rechunk({1: 1})
    else:
        a["model"] = a["model"].rechunk({2: 1})
        a["tmodel"] = a["tmodel"].rechunk({2: 1})
    h = (a["idx"], a["cnt"], a["a1"], a["a2"], a["jones"])
    args = dict(corrupt_vis=(a["model"],),
                residual_vis=(a["vis"], a["flag"], a["model"]),
                correct_vis=(a["vis"], a["flag"]),
                compute_and_corrupt_vis=(a["tmodel"], a["uvw"], a["freq"],
                                         a["lm"]))[fn]
    expect_raises((ValueError,), "%s with %s chunked" % (fn, ax),
                  lambda: getattr(m, fn)(*h, *args))
    return True, [fn]


SUBS = [Sub(m, gen, run_mode(m), 60, 1000) for m in cal.MODES] + [
    Sub("phase_only", gen, run_phase, 60, 1000),
    Sub("rejects", gen_bad, run_bad, 60, 500)]

SUBS += all_histories(SUBS) + scaled(SUBS)
