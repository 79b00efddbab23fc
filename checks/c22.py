"""C22: beam FITS headers and beam file names."""
import numpy as np
from hypothesis import strategies as st
from copy import deepcopy

from vlib.core import all_histories, spoil
from vlib.core import Sub, sut, imp, expect, expect_raises, close

PROPERTY = "C22"
RULE = ("generated FITS headers (dict or astropy header; axis order, "
        "reference pixels, steps, units, missing keywords, irregular "
        "frequency grids) and file name schemas against the values they were "
        "generated from; incomplete headers, unknown placeholders and "
        "correlations must raise; non-trivial: at least one axis of two or "
        "more pixels or one substituted placeholder")

# Stokes.h of casacore
STOKES = ("I Q U V RR RL LR LL XX XY YX YY RX RY LX LY XR XL YR YL PP PQ QP "
          "QQ RCircular LCircular Linear Ptotal Plinear PFtotal PFlinear "
          "Pangle").split()


def gen_axis(draw, ctype):
    deg = draw(st.sampled_from(["", "Hz", "deg", "DEG ", " Deg", "rad", "m",
                                None]))
    return dict(ctype=ctype, n=draw(st.integers(1, 7)),
                crpix=draw(st.one_of(st.integers(-3, 9),
                                     st.floats(-10, 10).map(
                                         lambda x: round(x, 3)))),
                cdelt=draw(st.one_of(st.none(), st.sampled_from(
                    [1, -1, 0.5, -0.011, 1e6]))),
                crval=draw(st.one_of(st.none(), st.sampled_from(
                    [0, 0.0, -1.5, 30, 1.4e9]))),
                cunit=deg, pad=draw(st.sampled_from(["", " ", "  "])))


def gen_header(draw):
    spell = draw(st.sampled_from([0, 1]))
    types = [draw(st.sampled_from(["L", "X", "PX", "l", "x", "px"])),
             draw(st.sampled_from(["M", "Y", "PY", "m", "y", "py"])), "FREQ"]
    extra = draw(st.lists(st.sampled_from(["STOKES", "TIME", "BAND", None]),
                          max_size=2, unique=True))
    axes = draw(st.permutations(types + extra))
    axes = [gen_axis(draw, t) for t in axes]
    f = [i for i, a in enumerate(axes) if a["ctype"] == "FREQ"][0]
    nf = axes[f]["n"]
    irr = draw(st.sampled_from(["no", "yes", "partial", "more"]))
    axes[f]["cunit"] = draw(st.sampled_from(["Hz", "", None, "GHz"]))
    vals = draw(st.lists(st.floats(1e6, 1e10), min_size=nf + 1,
                         max_size=nf + 1))
    return dict(axes=axes, fits=draw(st.booleans()), irr=irr, vals=vals,
                hole=draw(st.integers(0, nf - 1)), spell=spell,
                sky=draw(st.sampled_from([[], [], [0], [1], [0, 1]])),
                skyvals=draw(st.lists(st.floats(-90, 90), min_size=7,
                                      max_size=7)),
                skyhole=draw(st.sampled_from([None, None, 0, 2])),
                la=draw(st.sampled_from([None, "L", "-L", "X", "-X", "-PX"])),
                ma=draw(st.sampled_from([None, "M", "-M", "Y", "-Y", "-PY"])),
                drop=draw(st.sampled_from(["", "", "", "l", "m", "f"])))


def sky_listed(case, a):
    """does the header list the grid of this L or M axis?"""
    return any(a["ctype"] in (("L", "X", "PX"), ("M", "Y", "PY"))[k]
               for k in case.get("sky", ()))


def build_header(case, axes):
    h = {}
    h["SIMPLE"] = True
    h["NAXIS"] = len(axes)
    for i, a in enumerate(axes, 1):
        h["NAXIS%d" % i] = a["n"]
        if a["ctype"] is not None:
            h["CTYPE%d" % i] = a["ctype"] + a["pad"]
        h["CRPIX%d" % i] = a["crpix"]
        for k in ("crval", "cdelt", "cunit"):
            if a[k] is not None:
                h["%s%d" % (k.upper(), i)] = a[k]
        if a["ctype"] == "FREQ":
            n = a["n"]
            if case["irr"] != "no":
                for j in range(n + (case["irr"] == "more")):
                    if case["irr"] == "partial" and j == case["hole"]:
                        continue
                    h["GFREQ%d" % (j + 1)] = case["vals"][j]
        if sky_listed(case, a):
            for j in range(a["n"]):
                if j != case["skyhole"]:
                    h["G%s%d" % (a["ctype"], j + 1)] = case["skyvals"][j]
    if case["fits"]:
        from astropy.io import fits
        hdr = fits.Header()
        for k, v in h.items():
            hdr[k] = v
        return hdr
    return h


def ref_axis(case, a):
    d2r = np.pi / 180 if (a["cunit"] or "").strip().upper() == "DEG" else 1.0
    if a["ctype"] == "FREQ" and case["irr"] in ("yes", "more"):
        return np.array(case["vals"][:a["n"]])
    if sky_listed(case, a) and (case["skyhole"] is None or
                                case["skyhole"] >= a["n"]):
        return np.array(case["skyvals"][:a["n"]]) * d2r
    crval = 0 if a["crval"] is None else a["crval"]
    cdelt = 1 if a["cdelt"] is None else a["cdelt"]
    pix = np.arange(1, a["n"] + 1, dtype=float)
    return (pix - a["crpix"]) * cdelt * d2r + crval * d2r


def run_header(case):
    m = imp("africanus.util.beams")
    axes = case["axes"]
    drop = case["drop"]
    hdr = build_header(case, axes)
    with sut("BeamAxes"):
        ba = m.BeamAxes(hdr)
        expect(ba.ndims == len(axes), "%s dimensions", ba.ndims)
        got = list(zip(ba.naxis, ba.ctype, ba.crpix, ba.crval, ba.cdelt,
                       ba.cunit, ba.grid))
    for i, (a, g) in enumerate(zip(axes, got)):
        what = "axis %d (%s)" % (i + 1, a["ctype"])
        deg = (a["cunit"] or "").strip().upper() == "DEG"
        s = np.pi / 180 if deg else 1.0
        expect(g[0] == a["n"], "%s: %s pixels", what, g[0])
        if a["ctype"] is not None:
            expect(g[1] == a["ctype"], "%s: type %r", what, g[1])
        expect(abs(g[2] - (a["crpix"] - 1)) < 1e-12, "%s: zero-based "
               "reference pixel %r, expected %r", what, g[2], a["crpix"] - 1)
        close(g[3], (a["crval"] or 0) * s, 1e-14, what + " crval")
        close(g[4], (1 if a["cdelt"] is None else a["cdelt"]) * s, 1e-14,
              what + " cdelt")
        expect(g[5] == ("RAD" if deg else (a["cunit"] or "").strip().upper()),
               "%s: unit %r", what, g[5])
        w = ref_axis(case, a)
        close(np.asarray(g[6], float), w, 1e-13, what + " grid")
    pick = dict(l=("L", "X", "PX"), m=("M", "Y", "PY"), f=("FREQ",))
    where = {}
    for k, names in pick.items():
        where[k] = [i for i, a in enumerate(axes)
                    if (a["ctype"] or "").upper() in names][0]
    with sut("beam_grids"):
        first = m.beam_grids(hdr, case["la"], case["ma"])
        res = deepcopy(first)
        spoil(first)
        kw = m.beam_grids(hdr, l_axis=case["la"], m_axis=case["ma"])
    for r in (res, kw):
        expect(len(r) == 3, "beam_grids returned %d axes", len(r))
        for k, (ax, g), asked in zip("lmf", r, (case["la"], case["ma"],
                                                None)):
            expect(ax == where[k] + 1, "beam_grids %s axis %s, expected %d",
                   k, ax, where[k] + 1)
            s = -1.0 if asked and asked.startswith("-") else 1.0
            close(np.asarray(g, float), s * ref_axis(case, axes[where[k]]),
                  1e-13, "beam_grids %s" % k)
    if drop:
        ax2 = [a for i, a in enumerate(axes) if i != where[drop]]
        h2 = build_header(case, ax2)
        expect_raises((ValueError,), "a header without %s axis" % drop,
                      lambda: m.beam_grids(h2))
    return any(a["n"] > 1 for a in axes), [case["irr"]]


LIT = st.text(alphabet=st.characters(blacklist_characters="$",
                                     blacklist_categories=("Cs",)),
              max_size=6)


def gen_names(draw):
    pieces = draw(st.lists(st.one_of(
        LIT.map(lambda s: ["lit", s]),
        st.sampled_from([["p", n] for n in ("corr", "CORR", "reim", "REIM")]),
        st.sampled_from([["n", n] for n in ("corr", "CORR", "reim", "REIM")]),
        st.just(["esc", "$$"])), min_size=1, max_size=7))
    return dict(pieces=pieces,
                ids=draw(st.lists(st.integers(1, 32), max_size=5)),
                bad=draw(st.sampled_from(
                    ["", "", "key", "named", "id", "id0", "dangling"])),
                pos=draw(st.integers(0, 7)))


def run_names(case):
    f = imp("africanus.util.beams", "beam_filenames")
    ids = [int(i) for i in case["ids"]]
    schema = ""
    for kind, s in case["pieces"]:
        schema += dict(lit=s, p="$(%s)" % s, n="$%s-" % s, esc="$$")[kind]
    bad = case["bad"]
    if bad and (ids or bad in ("id", "id0")):
        if bad == "key":
            schema += "$(pol)"
        elif bad == "named":
            schema += "$pol"
        elif bad == "dangling":
            schema += "$("
        else:
            ids.insert(case["pos"] % (len(ids) + 1),
                       33 if bad == "id" else 4711)
        expect_raises((ValueError,), "file names %r of %s" % (schema, ids),
                      lambda: f(schema, ids))
        return True, [bad]
    with sut("beam_filenames"):
        spoil(f(schema, ids))
        got = f(schema, ids)
        got = [(k, list(v)) for k, v in got.items()]
    want = []
    for i in ids:
        c = STOKES[i - 1]
        if c.lower() in [k for k, _ in want]:
            continue
        names = []
        for ri in ("re", "im"):
            sub = dict(corr=c.lower(), CORR=c.upper(), reim=ri,
                       REIM=ri.upper())
            names.append("".join(
                dict(lit=lambda s: s, p=lambda s: sub[s],
                     n=lambda s: sub[s] + "-", esc=lambda s: "$")[k](s)
                for k, s in case["pieces"]))
        want.append((c.lower(), names))
    expect(got == want, "beam_filenames(%r, %s) is %s, expected %s", schema,
           ids, got, want)
    return bool(ids) and any(k in "pn" for k, _ in case["pieces"]), ["names"]


def gen_sign(draw):
    return dict(name=draw(st.text(alphabet="LMXYPlmxy", min_size=1,
                                  max_size=3)),
                neg=draw(st.booleans()), none=draw(st.sampled_from(
                    ["", "", "none", "empty"])),
                default=draw(st.sampled_from([None, "L", "M"])))


def run_sign(case):
    f = imp("africanus.util.beams", "axis_and_sign")
    if case["none"]:
        a = None if case["none"] == "none" else ""
        if case["default"] is None:
            expect_raises((ValueError,), "no axis and no default",
                          lambda: f(a))
            return True, ["no default"]
        want = (case["default"], 1.0)
    else:
        a = ("-" if case["neg"] else "") + case["name"]
        want = (case["name"], -1.0 if case["neg"] else 1.0)
    with sut("axis_and_sign"):
        got = tuple(f(a, case["default"]))
    expect(got == want, "axis_and_sign(%r, %r) is %r", a, case["default"],
           got)
    return True, ["axis"]


SUBS = [Sub("header", gen_header, run_header, 1500, 20000),
        Sub("filenames", gen_names, run_names, 1500, 20000),
        Sub("sign", gen_sign, run_sign, 200, 1000)]

for _s in SUBS:
    _s.quick *= 2

SUBS += all_histories(SUBS)
