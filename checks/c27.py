"""C27: Hogbom CLEAN."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories, scaled
from vlib.core import strided, sz, Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged

PROPERTY = "C27"
RULE = ("generated dirty images (arbitrary, or sources convolved with the "
        "PSF), point spread functions, gains, thresholds and iteration "
        "limits: a conservation law, a reference loop and the stopping rule; "
        "non-trivial: two or more iterations")


def gen(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                n=sz(draw, 1, 12, 40),
                kind=draw(st.sampled_from(["noise", "sources", "negative",
                                           "positive"])),
                nsrc=draw(st.integers(1, 5)), edge=draw(st.booleans()),
                gamma=draw(st.sampled_from([None, .05, .3, .9])),
                thr=draw(st.sampled_from(["default", 0.0, .05, .5, 1.0])),
                niter=draw(st.sampled_from(["default", 0, 1, 2, 7, 40])),
                width=draw(st.sampled_from([.6, 1.2, 2.5])))


def shifted(psf, p, q, n):
    return psf[n - 1 - p:2 * n - 1 - p, n - 1 - q:2 * n - 1 - q]


def build(case):
    R = rng(case)
    n = case["n"]
    i = np.arange(2 * n) - (n - 1)
    s = 2 * case["width"] ** 2
    # the PSF's centre is the pixel (n - 1, n - 1) of 2n x 2n
    psf = np.exp(-i[:, None] ** 2 / s - i[None, :] ** 2 / (1.7 * s))
    psf = psf + .05 * R.normal(size=psf.shape)
    psf[n - 1, n - 1] = 1
    psf = np.minimum(psf, 1)
    if case["kind"] == "sources":
        dirty = .01 * R.normal(size=(n, n))
        for _ in range(case["nsrc"]):
            p, q = R.choice([0, n - 1], 2) if case["edge"] else \
                R.randint(0, n, 2)
            dirty += R.uniform(.2, 3) * shifted(psf, p, q, n)
    else:
        dirty = R.normal(size=(n, n))
        if case["kind"] == "negative":
            dirty = -np.abs(dirty) - .1
        if case["kind"] == "positive":
            dirty = np.abs(dirty)
    return dirty, psf


def run(case):
    m = imp("africanus.deconv.hogbom")
    n = case["n"]
    dirty, psf = build(case)
    kw = {}
    if case["gamma"] is not None:
        kw["gamma"] = case["gamma"]
    if case["thr"] != "default":
        kw["threshold"] = case["thr"]
    if case["niter"] != "default":
        kw["niter"] = case["niter"]
    keep = frozen(dirty, psf)
    with sut("hogbom_clean"):
        clean, res = m.hogbom_clean(dirty, psf, **kw)
    unchanged((dirty, psf), keep, "hogbom_clean")
    what = "hogbom_clean(n=%d, %s)" % (n, kw)
    expect(clean.shape == (n, n) and res.shape == (n, n), "%s: shapes %s %s",
           what, clean.shape, res.shape)
    # nothing is lost: the image is the model seen through the PSF, and the
    # residual
    back = res.copy()
    for p, q in zip(*np.nonzero(clean)):
        back = back + clean[p, q] * shifted(psf, p, q, n)
    scale = 1 + np.abs(dirty).max() + np.abs(clean).sum()
    close(back, dirty, 1e-12, what + ": model and residual", scale=scale)
    # the loop
    gamma = case["gamma"] or .1
    thr = (.2 if case["thr"] == "default" else case["thr"]) * abs(dirty.max())
    lim = 3 * n if case["niter"] == "default" else case["niter"]
    r, c, i = dirty.copy(), np.zeros((n, n)), 0
    near = False
    while i < lim:
        p, q = np.unravel_index(r.argmax(), r.shape)
        I = r[p, q]
        near |= bool(np.sum(r >= I - 1e-9 * scale) > 1) or \
            abs(abs(I) - thr) < 1e-9 * scale and not i == 0
        if not abs(I) > thr:
            break
        c[p, q] += gamma * I
        r = r - gamma * I * shifted(psf, p, q, n)
        i += 1
        if np.abs(r).max() > 1e6:
            near = True
    if not near:
        close(clean, c, 1e-9, what + ": model", scale=scale)
        close(res, r, 1e-9, what + ": residual", scale=scale)
    # all integers in between are out: the limit on iterations holds
    if case["niter"] in (0, 1):
        expect(np.count_nonzero(clean) <= case["niter"],
               "%s made %d components", what, np.count_nonzero(clean))
    expect_raises((ValueError,), "a PSF of the wrong size",
                  lambda: m.hogbom_clean(dirty, psf[:-1], **kw))
    expect_raises((ValueError,), "a PSF of the image's size",
                  lambda: m.hogbom_clean(dirty, psf[:n, :n], **kw))
    return i > 1, [case["kind"], "limit" if i == lim else "threshold"]


def gen_restore(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                n=draw(st.integers(6, 14)),
                sx=draw(st.floats(1.2, 2.5)), sy=draw(st.floats(1.2, 2.5)),
                nsrc=draw(st.integers(1, 4)))


def run_restore(case):
    m = imp("africanus.deconv.hogbom.clean")
    R = rng(case)
    n = case["n"]
    i = np.arange(2 * n) - (n - 1)
    psf = np.exp(-i[:, None] ** 2 / (2 * case["sx"] ** 2)
                 - i[None, :] ** 2 / (2 * case["sy"] ** 2))
    clean = np.zeros((n, n))
    for _ in range(case["nsrc"]):
        clean[tuple(R.randint(0, n, 2))] += R.uniform(.5, 2)
    res = R.normal(size=(n, n))
    keep = frozen(clean, psf, res)
    with sut("restore"):
        beam = m.fit_2d_gaussian(psf)
        img, conv = m.restore(clean, psf, res)
    unchanged((clean, psf, res), keep, "restore")
    expect(beam.shape == psf.shape and img.shape == (n, n), "shapes %s %s",
           beam.shape, img.shape)
    th, off = R.uniform(-3, 3, 2)
    x0, y0 = R.uniform(0, n, 2)
    xy = np.meshgrid(np.arange(n) * 1., np.arange(n) * 1.)
    with sut("twod_gaussian"):
        tg = m.twod_gaussian((xy[0], xy[1]), 1.7, x0, y0, case["sx"],
                             case["sy"], th, off)
    dx, dy = xy[0] - x0, xy[1] - y0
    u = dx * np.cos(th) - dy * np.sin(th)
    v = dx * np.sin(th) + dy * np.cos(th)
    close(tg, (off + 1.7 * np.exp(-u ** 2 / (2 * case["sx"] ** 2) -
                                  v ** 2 / (2 * case["sy"] ** 2))).ravel(),
          1e-12, "twod_gaussian")
    close(img - conv, res, 1e-12, "restored image less convolved model",
          np.abs(img).max() + np.abs(res).max())
    # every component is seen through the fitted beam around its own pixel
    w = np.zeros((n, n))
    for p, q in zip(*np.nonzero(clean)):
        w += clean[p, q] * shifted(beam, p, q, n)
    close(conv, w, 1e-9, "convolved model")
    if abs(case["sx"] - case["sy"]) < .15:
        return False, ["round"]
    p, q = np.unravel_index(beam.argmax(), beam.shape)
    expect(max(abs(p - n + 1), abs(q - n + 1)) <= 1, "the fitted beam peaks "
           "at %s, the PSF at %s", (p, q), (n - 1, n - 1))
    return case["nsrc"] > 1, []


SUBS = [Sub("clean", gen, run, 400, 8000),
        Sub("restore", gen_restore, run_restore, 80, 800)]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['clean', 'restore']]

for _s in SUBS:
    _s.quick *= 3

SUBS += all_histories(SUBS) + scaled(SUBS)
