"""C10: gains are applied, removed and subtracted as the RIME says."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import (strided, Sub, sut, imp, expect, expect_raises, rng, close, same,
                       frozen, unchanged)
from vlib import cal

PROPERTY = "C10"
RULE = ("generated time bins, baselines, gains, models and flags in the three "
        "calibration modes; corrupt/residual/correct/compute_and_corrupt "
        "against G_p M G_q^H with explicit matrices; correct undoes corrupt; "
        "inputs unchanged; non-trivial: at least two time bins or directions")


def run_mode(mode):
    def run(case):
        m = imp("africanus.calibration.utils")
        d = cal.build(case, mode)
        idx = d["idx"] + np.int32(case["off"])
        keep_keys = ["cnt", "a1", "a2", "jones", "model", "vis", "flag",
                     "uvw", "freq", "lm", "tmodel"]
        ins = [idx] + [d[k] for k in keep_keys]
        keep = frozen(*ins)
        head = (idx, d["cnt"], d["a1"], d["a2"])
        with sut("corrupt_vis"):
            v = m.corrupt_vis(*head, d["jones"], d["model"])
        close(v, cal.corrupt(d, mode), 1e-12, "corrupt_vis (%s)" % mode)
        with sut("residual_vis"):
            r = m.residual_vis(*head, d["jones"], d["vis"], d["flag"],
                               d["model"])
        close(r, cal.residual(d, mode), 1e-12, "residual_vis (%s)" % mode)
        with sut("compute_and_corrupt_vis"):
            v = m.compute_and_corrupt_vis(*head, d["jones"], d["tmodel"],
                                          d["uvw"], d["freq"], d["lm"])
        close(v, cal.corrupt(d, mode, cal.predict_model(d, mode)), 1e-9,
              "compute_and_corrupt_vis (%s)" % mode)
        unchanged(ins, keep, "a calibration function")
        # direction independent: correction
        d1 = cal.build(case, mode, ndir=1)
        j1 = d1["jones"]
        with sut("correct_vis"):
            c = m.correct_vis(*head, j1, d["vis"], d["flag"])
        close(c, cal.correct(dict(d, jones=j1), mode), 1e-11,
              "correct_vis (%s)" % mode)
        with sut("corrupt_vis, correct_vis"):
            v = m.corrupt_vis(*head, j1, d1["model"])
            c = m.correct_vis(*head, j1, v, np.zeros_like(d["flag"]))
        close(c, d1["model"][:, :, 0], 1e-11,
              "correct_vis(corrupt_vis(model)) (%s)" % mode)
        unchanged(ins, keep, "a calibration function")
        if case["ndir"] > 1:
            expect_raises((ValueError,), "correct_vis with %d directions" %
                          case["ndir"], lambda: m.correct_vis(
                              *head, d["jones"], d["vis"], d["flag"]))
        return len(case["counts"]) > 1 or case["ndir"] > 1, [
            "offset" if case["off"] else "no offset"]
    return run


def gen_chunk(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                counts=draw(st.lists(st.integers(1, 6), min_size=1,
                                     max_size=12)),
                upc=draw(st.integers(1, 14)),
                t0=draw(st.sampled_from([0.0, 5e9])))


def run_chunk(case):
    f = imp("africanus.calibration.utils", "chunkify_rows")
    R = rng(case)
    cnt = np.array(case["counts"])
    ut = case["t0"] + np.cumsum(R.uniform(0.5, 2, len(cnt)))
    with sut("chunkify_rows"):
        ch, idx, c = f(np.repeat(ut, cnt), case["upc"])
    same(c, cnt, "rows per time")
    same(idx, np.cumsum(cnt) - cnt, "first row of each time")
    u = case["upc"]
    want = tuple(int(cnt[i:i + u].sum()) for i in range(0, len(cnt), u))
    expect(tuple(int(x) for x in ch) == want,
           "row chunks %s, expected %s", ch, want)
    return len(cnt) > u, []


def gen_type(draw):
    return dict(seed=0, jd=draw(st.integers(1, 8)), vd=draw(st.integers(1, 7)),
                vt=draw(st.sampled_from(["vis", "model", "data"])))


def run_type(case):
    f = imp("africanus.calibration.utils", "check_type")
    j = np.zeros((1,) * case["jd"])
    v = np.zeros((1,) * case["vd"])
    vt = case["vt"]
    vd = case["vd"] - (1 if vt == "model" else 0)
    want = {(3, 5): 0, (4, 5): 1, (4, 6): 2}.get((vd, case["jd"]))
    if vt == "data":
        expect_raises((ValueError,), "unknown vis_type",
                      lambda: f(j, v, vis_type=vt))
    elif want is None:
        expect_raises((RuntimeError,), "check_type with %d jones axes and %d "
                      "%s axes" % (case["jd"], case["vd"], vt),
                      lambda: f(j, v, vis_type=vt))
    else:
        with sut("check_type"):
            got = f(j, v, vis_type=vt)
        expect(got == want, "mode %s for %d jones axes, %d %s axes", got,
               case["jd"], case["vd"], vt)
    return True, []


SUBS = [Sub(m, cal.gen, run_mode(m), 120, 2000) for m in cal.MODES] + [
    Sub("chunkify", gen_chunk, run_chunk, 300, 3000),
    Sub("check_type", gen_type, run_type, 150, 600)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['full', 'diag']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS) + scaled(SUBS)
