"""C13: sky coordinate conversions."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged
from vlib import sched

PROPERTY = "C13"
RULE = ("generated phase centres (any declination, poles and their vicinity "
        "included) and sources up to 85 degrees away; direction cosines "
        "against a rotation of the unit vector, conversions back and forth, "
        "eager and in random chunks; non-trivial: phase centre given")


def gen(draw):
    n = sz(draw, 1, 12, 300)
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), n=n,
                pc=draw(st.sampled_from(["none", "any", "any", "pole",
                                         "near_pole", "equator"])),
                spread=draw(st.sampled_from([1e-6, 0.01, 0.3, 1.4])),
                chunks=sched.chunks(draw, st, n, 4),
                sched=draw(st.integers(0, 2 ** 32 - 1)),
                f4=draw(st.sampled_from([False, False, False, True])))


def sphere(lmn, ra0, dec0):
    """unit vector (l, m, n) about the phase centre -> ra, dec"""
    l, m, n = lmn.T
    # basis vectors of the tangent frame at the phase centre
    e_n = np.array([np.cos(dec0) * np.cos(ra0), np.cos(dec0) * np.sin(ra0),
                    np.sin(dec0)])
    e_l = np.array([-np.sin(ra0), np.cos(ra0), 0.0])
    e_m = np.cross(e_n, e_l)
    v = l[:, None] * e_l + m[:, None] * e_m + n[:, None] * e_n
    return np.stack([np.arctan2(v[:, 1], v[:, 0]),
                     np.arctan2(v[:, 2], np.hypot(v[:, 0], v[:, 1]))],
                    axis=1), v


def vec(radec):
    ra, dec = radec.T
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra),
                     np.sin(dec)], axis=1)


def problem(case):
    R = rng(case)
    pc = {"none": (0.0, 0.0), "any": (R.uniform(-7, 7), R.uniform(-1.5, 1.5)),
          "pole": (R.uniform(0, 6), np.pi / 2 * R.choice([-1, 1])),
          "near_pole": (R.uniform(0, 6), R.choice([-1, 1]) *
                        (np.pi / 2 - 10 ** R.uniform(-4, -0.7))),
          "equator": (R.uniform(-3, 3), 0.0)}[case["pc"]]
    th = case["spread"] * np.sqrt(R.uniform(0, 1, case["n"]))
    ph = R.uniform(0, 2 * np.pi, case["n"])
    if case["n"] > 2:
        th[0] = 0.0
    lmn = np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph),
                    np.cos(th)], axis=1)
    return np.array(pc), lmn


def run(case):
    m = imp("africanus.coordinates")
    md = imp("africanus.coordinates.dask")
    import dask.array as da
    pc, lmn = problem(case)
    radec, v = sphere(lmn, *pc)
    R = rng(case, 1)
    # the same direction, whole turns of right ascension away
    radec[:, 0] += 2 * np.pi * R.randint(-1, 2, len(radec))
    lm = np.ascontiguousarray(lmn[:, :2])
    dt = np.float32 if case["f4"] else np.float64
    p = None if case["pc"] == "none" else pc.astype(dt)
    radec, lmn_, lm = radec.astype(dt), lmn.astype(dt), lm.astype(dt)
    ins = [radec, lmn_, lm] + ([] if p is None else [p])
    keep = frozen(*ins)
    # near the horizon n = sqrt(1 - l^2 - m^2) loses digits
    eps = np.finfo(dt).eps
    tol = 200 * eps
    amp = np.ones_like(v) / lmn[:, 2:]
    # and declination, an arcsin, does at the poles
    cosd = np.hypot(v[:, :1], v[:, 1:2])
    amp_rd = amp / np.maximum(cosd, np.sqrt(eps))

    ch = tuple(case["chunks"])
    args = [("radec_to_lmn", radec, lmn, None),
            ("radec_to_lm", radec, lmn[:, :2], None),
            ("lmn_to_radec", lmn_, v, vec), ("lm_to_radec", lm, v, vec)]
    dpc = None if p is None else da.from_array(p, chunks=2)
    lazy, want = [], []
    for name, x, w, post in args:
        with sut(name):
            o = getattr(m, name)(x) if p is None else getattr(m, name)(x, p)
        expect(o.dtype == dt, "%s: dtype %s from %s", name, o.dtype, dt)
        close(o if post is None else post(o.astype("f8")), w, tol,
              "%s about (%s)" % (name, pc),
              scale=amp[:, :w.shape[1]] if post is None else amp_rd)
        dx = da.from_array(x, chunks=(ch, x.shape[1]))
        with sut("dask " + name):
            f = getattr(md, name)
            lazy.append(f(dx) if p is None else f(dx, dpc))
        want.append(o)
    unchanged(ins, keep, "a coordinate conversion")
    with sut("computing dask coordinates"):
        vals = sched.compute(*lazy, seed=case["sched"])
    for (name, _, _, _), a, g, w in zip(args, lazy, vals, want):
        close(g, w, 1e-15, "dask %s" % name)
        expect(a.shape == g.shape and a.dtype == g.dtype, "dask %s declares "
               "%s %s but holds %s %s", name, a.shape, a.dtype, g.shape,
               g.dtype)
    # there and back
    with sut("round trip"):
        back = m.lm_to_radec(m.radec_to_lm(radec), None) if p is None else \
            m.lm_to_radec(m.radec_to_lm(radec, p), p)
    close(vec(back.astype("f8")), vec(radec.astype("f8")),
          tol, "lm_to_radec(radec_to_lm(radec))", scale=amp_rd)
    return case["pc"] != "none", [case["pc"]]


def gen_bad(draw):
    return dict(seed=0, fn=draw(st.sampled_from(
        ["radec_to_lmn", "radec_to_lm", "lmn_to_radec", "lm_to_radec"])),
        n=draw(st.integers(1, 5)), k=draw(st.integers(1, 5)))


def run_bad(case):
    f = imp("africanus.coordinates", case["fn"])
    good = 3 if case["fn"] == "lmn_to_radec" else 2
    x = np.full((case["n"], case["k"]), 0.1)
    if case["k"] == good:
        with sut(case["fn"]):
            f(x)
        return False, []
    expect_raises((ValueError,), "%s with %d components" % (case["fn"],
                                                            case["k"]),
                  lambda: f(x))
    return True, [case["fn"]]


SUBS = [Sub("conversions", gen, run, 400, 6000),
        Sub("rejects", gen_bad, run_bad, 60, 200)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['conversions']]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS)
