"""C12: phase-only calibration."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import (strided, Sub, sut, imp, expect, close, rng, frozen, unchanged)
from vlib import cal

PROPERTY = "C12"
RULE = ("generated gains, models, residuals and flags: J^H J and J^H r "
        "against the explicit Jacobian; noise-free data corrupted by known "
        "phases is given to the solver, whose gains have to reproduce the "
        "data; non-trivial: two or more time bins or directions, or solved")


def gen(draw):
    c = cal.gen(draw)
    c["auto"] = False
    c["layout"] = "C"
    c["ncorr"] = draw(st.integers(1, 2))
    return c


def run_normal(case):
    m = imp("africanus.calibration.phase_only")
    d = cal.build(case, "diagdiag%d" % case["ncorr"])
    idx = d["idx"] + np.int32(case["off"])
    h = (idx, d["cnt"], d["a1"], d["a2"], d["jones"])
    ins = list(h) + [d["vis"], d["model"], d["flag"]]
    keep = frozen(*ins)
    jhj, jhr = cal.jhj_jhr(d)
    with sut("compute_jhj"):
        a = m.compute_jhj(*h, d["model"], d["flag"])
    close(a, jhj, 1e-11, "compute_jhj")
    with sut("compute_jhr"):
        b = m.compute_jhr(*h, d["vis"], d["model"], d["flag"])
    close(b, jhr, 1e-11, "compute_jhr")
    with sut("compute_jhj_and_jhr"):
        a, b = m.compute_jhj_and_jhr(*h, d["vis"], d["model"], d["flag"])
    close(a, jhj, 1e-11, "compute_jhj_and_jhr: jhj")
    close(b, jhr, 1e-11, "compute_jhj_and_jhr: jhr")
    unchanged(ins, keep, "a phase_only function")
    return len(case["counts"]) > 1 or case["ndir"] > 1, []


def gen_solve(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                nt=draw(st.integers(1, 3)), nant=draw(st.integers(3, 6)),
                nchan=draw(st.integers(1, 3)), ncorr=draw(st.integers(1, 2)),
                amp=draw(st.sampled_from([0.1, 0.3, 0.6])),
                wt=draw(st.sampled_from(["spec", "spec", "row"])),
                dead=draw(st.sampled_from([False, False, True])),
                junk=draw(st.booleans()), off=draw(st.sampled_from([0, 0, 9])),
                start=draw(st.sampled_from(["ones", "near", "turned"])),
                split=draw(st.integers(1, 12)),
                pflag=draw(st.sampled_from([0.0, 0.0, 0.1])))


def run_solve(case):
    gn = imp("africanus.calibration.phase_only", "gauss_newton")
    R = rng(case)
    nt, na, nc, nk = (case["nt"], case["nant"], case["nchan"], case["ncorr"])
    p, q = np.triu_indices(na, 1)
    nb = len(p)
    a1, a2 = [np.tile(x, nt).astype(np.int32) for x in (p, q)]
    cnt = np.full(nt, nb, dtype=np.int32)
    idx = (np.arange(nt) * nb + case["off"]).astype(np.int32)
    t = np.repeat(np.arange(nt), nb)
    true = np.exp(1j * R.uniform(-1, 1, (nt, na, nc, 1, nk)) * case["amp"])
    # a point source dominated model: every baseline constrains
    model = (R.uniform(1, 1.3, (nt * nb, nc, 1, nk)) *
             np.exp(1j * R.uniform(-.4, .4, (nt * nb, nc, 1, nk))))
    vis = (true[t, a1] * model * np.conj(true[t, a2]))[:, :, 0]
    flag = np.zeros(vis.shape, dtype=bool)
    flag |= R.uniform(size=vis.shape[:2] + (1,)) < case["pflag"]
    dead = na - 1 if case["dead"] else None
    if dead is not None:
        flag[(a1 == dead) | (a2 == dead)] = True
    if case["junk"]:
        # flagged data may hold anything
        vis[flag] = 1e6
    w = R.uniform(0.5, 2, vis.shape)
    if case["wt"] == "row":
        w = R.uniform(0.5, 2, (nt * nb, nk))
    jones = np.ones((nt, na, nc, 1, nk), dtype=complex)
    if case.get("start", "ones") != "ones":
        # phases near the solution, possibly up to a turn common to all
        jones = true * np.exp(1j * R.uniform(-1, 1, true.shape) * case["amp"])
        if case["start"] == "turned":
            jones = jones * np.exp(3j * R.uniform(-1, 1, (nt, 1, nc, 1, nk)))
    ins = [idx, cnt, a1, a2, jones, vis, flag, model, w]
    keep = frozen(*ins)
    with sut("gauss_newton"):
        g, jhj, jhr, k = gn(*ins, tol=1e-10, maxiter=400)
    unchanged(ins, keep, "gauss_newton")
    expect(g.shape == jones.shape, "gains of shape %s, expected %s", g.shape,
           jones.shape)
    live = np.ones(na, dtype=bool)
    if dead is not None:
        live[dead] = False
    expect(np.isfinite(g[:, live]).all(), "non-finite gains after %s "
           "iterations", k)
    close(np.abs(g[:, live]), np.ones_like(np.abs(g[:, live])), 1e-10,
          "gains are not phase only")
    ok = ~flag.any(axis=2)
    conn = connected(case, a1, a2, t, ok, nt, nc, na)
    fit = (g[t, a1] * model * np.conj(g[t, a2]))[:, :, 0]
    sel = ok & conn[t]
    expect(k < 400, "did not converge on noise-free data in %d iterations", k)
    close(fit[sel], vis[sel], 1e-6, "gains do not reproduce the data after "
          "%s iterations" % k)
    # the Hessian of the weighted problem
    ws = (w if w.ndim == 3 else w[:, None]) * ok[:, :, None]
    h = np.zeros(jones.shape)
    for a in (a1, a2):
        np.add.at(h, (t, a), (np.abs(model) ** 2) * ws[:, :, None])
    close(jhj, h, 1e-9, "J^H J of the weighted data")
    expect(jhr.shape == jones.shape, "J^H r of shape %s", jhr.shape)
    close(jhr.real / np.maximum(h.max(), 1), np.zeros_like(h), 1e-7,
          "J^H r is not zero at the solution")
    # iterations compose: stopping after some and carrying on is the same
    j = case.get("split")
    if j and j < k:
        with sut("gauss_newton"):
            g1, _, _, k1 = gn(*ins, tol=1e-10, maxiter=j)
            g2, _, _, k2 = gn(*ins[:4], g1, *ins[5:], tol=1e-10, maxiter=400)
        expect(k1 == j, "%s iterations reported with a limit of %d and %d "
               "needed", k1, j, k)
        expect(abs(k1 + k2 - k) <= 1, "%d iterations, but %d after stopping "
               "at %d", k, k2, j)
        close(np.exp(1j * np.angle(g2[:, live])), g[:, live], 1e-8,
              "resuming after %d iterations" % j)
    return True, ["dead antenna" if case["dead"] else "all antennas",
                  "start " + case.get("start", "ones")]


def connected(case, a1, a2, t, ok, nt, nc, na):
    """time, chan problems whose graph of unflagged baselines is dense enough
    (all but one baseline per antenna) for the damped step to converge"""
    out = np.zeros((nt, nc), dtype=bool)
    live = na - 1 if case["dead"] else na
    for i in range(nt):
        for c in range(nc):
            s = (t == i) & ok[:, c]
            deg = np.bincount(np.r_[a1[s], a2[s]], minlength=na)[:live]
            out[i, c] = live >= 2 and deg.min() >= max(1, live - 2)
    return out


SUBS = [Sub("normal_equations", gen, run_normal, 200, 3000),
        Sub("solver", gen_solve, run_solve, 150, 2000)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['normal_equations', 'solver']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS)
