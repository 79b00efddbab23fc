"""C29: synthetic beam cubes agree with their own headers."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import Known, Sub, sut, imp, expect, \
    expect_raises, close, frozen, unchanged

PROPERTY = "C29"
RULE = ("generated polarisation types, frequency ranges, image sizes, "
        "precisions and file name schemas: the files written are read back "
        "with astropy and compared with the beam model at the coordinates "
        "and frequencies their headers declare; non-trivial: three or more "
        "pixels, or a rejection")
CORRS = dict(linear=["xx", "xy", "yx", "yy"],
             circular=["rr", "rl", "lr", "ll"])


def gen(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                pol=draw(st.sampled_from(["linear", "circular"])),
                npix=draw(st.sampled_from([3, 5, 7, 9, 15])),
                nfreq=draw(st.sampled_from([None, 2, 5, 64])),
                f0=draw(st.sampled_from([1e8, .856e9, 1.4e9])),
                # bands of a few Hz fail (known finding)
                width=draw(st.sampled_from([1e4, 1e5, 4e8, 1e9])),
                dtype=draw(st.sampled_from([None, "f4", "f8"])),
                schema=draw(st.sampled_from(
                    ["b_$(corr)_$(reim).fits", "$(REIM)-$(CORR).fits",
                     "x$(CORR)y$(reim)"])),
                path=draw(st.booleans()),
                old=draw(st.integers(1, 255)),
                bad=draw(st.sampled_from(["", "", "", "even", "pol",
                                          "exists"])))


def run(case):
    from astropy.io import fits
    f = imp("africanus.testing.beam_factory", "beam_factory")
    grids = imp("africanus.util.beams", "beam_grids")
    d = tempfile.mkdtemp(prefix="beam_")
    try:
        return inner(case, f, grids, fits, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def inner(case, f, grids, fits, d):
    np.random.seed(case["seed"] % 2 ** 32)
    schema = os.path.join(d, case["schema"])
    kw = dict(polarisation_type=case["pol"], npix=case["npix"],
              schema=Path(schema) if case["path"] else schema)
    freq = None
    if case["nfreq"] is not None:
        freq = np.linspace(case["f0"], case["f0"] + case["width"],
                           case["nfreq"])
        kw["frequency"] = freq
    if case["dtype"]:
        kw["dtype"] = dict(f4=np.float32, f8=np.float64)[case["dtype"]]
    bad = case["bad"]
    if bad == "even":
        expect_raises((ValueError,), "an even number of pixels",
                      lambda: f(**dict(kw, npix=case["npix"] + 1)))
    if bad == "pol":
        expect_raises((ValueError,), "an unknown polarisation type",
                      lambda: f(**dict(kw, polarisation_type="elliptic")))
    if bad in ("even", "pol"):
        expect(os.listdir(d) == [], "a rejected beam wrote %s",
               os.listdir(d))
        return True, [bad]
    keep = frozen(freq) if freq is not None else None
    what = "beam_factory(%s)" % {k: v for k, v in kw.items()
                                 if k not in ("schema", "frequency")}
    with sut(what):
        names = f(**kw)
    if freq is not None:
        unchanged((freq,), keep, what)
    want = {}
    for c in CORRS[case["pol"]]:
        want[c] = tuple(schema.replace("$(corr)", c).replace(
            "$(CORR)", c.upper()).replace("$(reim)", r).replace(
                "$(REIM)", r.upper()) for r in ("re", "im"))
    expect({k: tuple(v) for k, v in names.items()} == want,
           "%s returned %s, expected %s", what, names, want)
    expect(sorted(os.listdir(d)) == sorted(
        os.path.basename(p) for v in want.values() for p in v),
        "%s wrote %s", what, os.listdir(d))
    lo, hi = (.856e9, 2 * .856e9) if freq is None else (freq[0], freq[-1])
    n = case["npix"]
    first = None
    for p in [p for v in want.values() for p in v]:
        with fits.open(p) as hdus:
            h, data = hdus[0].header, np.array(hdus[0].data)
        # known finding: single precision is asked for in vain
        bits = {None: [-64], "f8": [-64], "f4": [-32, -64]}[case["dtype"]]
        expect(h["BITPIX"] in bits, "BITPIX %s of %s", h["BITPIX"],
               case["dtype"])
        with sut("beam_grids"):
            (la, lg), (ma, mg), (fa, fg) = grids(h)
        expect((la, ma, fa) == (1, 2, 3), "axes %s", (la, ma, fa))
        ax = np.deg2rad(np.linspace(-1.5, 1.5, n))
        close(lg, ax, 1e-12, "the l grid", scale=1.0)
        close(mg, ax, 1e-12, "the m grid", scale=1.0)
        # as listed, and as the regular grid says
        nf = h["NAXIS3"]
        g = np.array([h["GFREQ%d" % (i + 1)] for i in range(nf)])
        close(fg, g, 0, "the frequency grid")
        # known finding: the step is the bandwidth / nf less one
        step = h["CDELT3"]
        if step == (hi - lo) / nf - 1:
            step = (hi - lo) / (nf - 1)
        reg = h["CRVAL3"] + (np.arange(1, nf + 1) - h["CRPIX3"]) * step
        close([reg[0], reg[-1]], [lo, hi], 1e-12, "the ends of the regular "
              "frequency grid")
        close([g[0], g[-1]], [lo, hi], 1e-12, "the end frequencies")
        expect(np.all(np.diff(g) >= 0), "frequencies %s", g)
        expect(np.all(np.abs(g - reg) <= .06 * (hi - lo) / (nf - 1) +
                      1e-6), "frequencies are far from their regular grid")
        expect(data.shape == (nf, n, n), "shape %s", data.shape)
        r = np.sqrt(ax[:, None] ** 2 + ax[None, :] ** 2)
        w = np.cos(np.minimum(65e-9 * g[:, None, None] * r, 1.0881)) ** 3
        close(data, w, 1e-6 if case["dtype"] == "f4" else 1e-12, "the beam")
        first = data if first is None else first
        expect(np.array_equal(first, data), "correlations differ")
    if bad == "exists":
        # some of the files are there, with something else in them
        paths = [p for v in want.values() for p in v]
        old = [p for i, p in enumerate(paths) if case["old"] >> i & 1]
        for p in paths:
            os.remove(p)
        for p in old:
            with open(p, "w") as o:
                o.write("something else")
        expect_raises((OSError,), "an existing file, not to be overwritten",
                      lambda: f(overwrite=False, **kw))
        for p in old:
            with open(p, "rb") as o:
                expect(o.read() == b"something else", "%s was overwritten",
                       os.path.basename(p))
        with sut("overwriting"):
            f(**kw)
        for p in paths:
            with fits.open(p) as hdus:
                expect(hdus[0].data.shape == (nf, n, n), "shape %s of an "
                       "overwritten file", hdus[0].data.shape)
    return True, [case["pol"], str(case["dtype"])]


def header_of(**kw):
    from astropy.io import fits
    f = imp("africanus.testing.beam_factory", "beam_factory")
    d = tempfile.mkdtemp(prefix="beam_")
    try:
        names = f(npix=3, schema=os.path.join(d, "$(corr)_$(reim)"), **kw)
        with fits.open(names["xx"][0]) as hdus:
            return dict(hdus[0].header)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def step_less_one():
    return header_of(frequency=np.array([1e9, 1.33e9]))["CDELT3"] == 1e7 - 1


def always_double():
    return header_of(dtype=np.float32)["BITPIX"] == -64


KNOWN = [Known("frequency-step", step_less_one),
         Known("precision", always_double)]

SUBS = [Sub("beams", gen, run, 150, 2000)]

SUBS += all_histories(SUBS)
