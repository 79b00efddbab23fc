"""C25: convex regions, bounding boxes and facets."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import Sub, sut, imp, expect, expect_raises, close, rng, \
    frozen, unchanged, short

PROPERTY = "C25"
RULE = ("generated convex hulls, boxes, masks and image cubes, around and "
        "across the image's edges and in negative coordinates, against "
        "half-plane tests, separating axes and per-pixel bookkeeping; "
        "non-trivial: a hull that is not a box, two or more regions, or a "
        "region partly outside the image")


# a reference hull: Andrew's monotone chain, counter-clockwise
def chain(pts):
    pts = sorted(set(map(tuple, pts)))

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def inside(h, p):
    return all(cross(a, b, p) >= 0 for a, b in zip(h, h[1:] + h[:1]))


def draw_hull(draw, lo=-8, hi=12):
    """integer points, not all on one line"""
    c = st.integers(lo, hi)
    pts = draw(st.lists(st.tuples(c, c), min_size=2, max_size=6))
    a = pts[0]
    b = next((p for p in pts if p != a), (a[0] + 1, a[1]))
    if b not in pts:
        pts.append(b)
    if all(cross(a, b, p) == 0 for p in pts):
        k = draw(st.sampled_from([1, -1, 3, -4]))
        pts.append((a[0] - k * (b[1] - a[1]), a[1] + k * (b[0] - a[0])))
    return [list(p) for p in pts]


def draw_box(draw, lo=-8, hi=12, big=9):
    x, y = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
    return [x, x + draw(st.integers(1, big)), y, y + draw(st.integers(1, big))]


def pixels(h):
    xs, ys = zip(*h)
    return {(y, x) for x in range(min(xs), max(xs) + 1)
            for y in range(min(ys), max(ys) + 1) if inside(h, (x, y))}


def boxpix(b):
    return {(y, x) for x in range(b[0], b[1] + 1)
            for y in range(b[2], b[3] + 1)}


def extent(h):
    xs, ys = zip(*h)
    return [min(xs), max(xs), min(ys), max(ys)]


def smask(reg):
    """the sparse mask, as a set; pixels must not repeat"""
    m = [tuple(int(i) for i in p) for p in reg.sparse_mask]
    expect(len(m) == len(set(m)), "a region's mask repeats pixels: %s", m)
    return set(m)


def grid(ext, weights):
    g = np.zeros((ext[3] - ext[2] + 1, ext[1] - ext[0] + 1))
    for (y, x), w in weights.items():
        g[y - ext[2], x - ext[0]] = w
    return g


def boxof(reg):
    c = reg.corners
    return [int(c[:, 0].min()), int(c[:, 0].max()), int(c[:, 1].min()),
            int(c[:, 1].max())]


def gen_hull(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                pts=draw_hull(draw), more=draw_hull(draw),
                form=draw(st.sampled_from(["list", "array", "hulls"])),
                mask=draw(st.sampled_from(["none", "init", "set", "empty"])),
                name=draw(st.sampled_from(["unnamed", "facet 1"])))


def run_hull(case):
    H = imp("africanus.linalg.geometry", "BoundingConvexHull")
    R = rng(case)
    pts = case["pts"]
    given = pts
    if case["form"] == "array":
        given = np.array(pts)
    elif case["form"] == "hulls":
        with sut("a hull of a hull and points"):
            given = [H(case["more"])] + pts
        pts = pts + case["more"]
    h = chain(pts)
    pix = pixels(h)
    ext = extent(h)
    part = [(y, x) for y in range(ext[2] - 1, ext[3] + 2)
            for x in range(ext[0] - 1, ext[1] + 2) if R.uniform() < .5]
    if case["mask"] == "empty":
        part = []
    kw = {} if case["name"] == "unnamed" else dict(name=case["name"])
    want = pix
    with sut("BoundingConvexHull"):
        if case["mask"] in ("init", "empty"):
            r = H(given, mask=part, **kw)
            want = pix & set(part)
        else:
            r = H(given, **kw)
    expect(r.name == case["name"], "name %r", r.name)
    if case["mask"] == "set":
        with sut("masks"):
            g0 = r.mask
            r.sparse_mask = part
        close(g0, grid(ext, dict.fromkeys(pix, 1.0)), 0, "mask of a hull")
        want = pix & set(part)
    with sut("masks"):
        got, g, w = smask(r), r.mask, r.sprase_mask_weights
    expect(got == want, "the mask of hull %s holds %s, expected %s", pts,
           short(sorted(got)), short(sorted(want)))
    close(g, grid(ext, dict.fromkeys(want, 1.0)), 0, "mask of hull %s" % pts)
    close(w, np.ones(len(want)), 0, "mask weights")
    expect_raises((TypeError,), "a mask of the wrong shape",
                  lambda: setattr(r, "sparse_mask", [(1, 2, 3)]))
    expect_raises((TypeError,), "a mask that is not a list",
                  lambda: setattr(r, "sparse_mask", (1, 2)))
    with sut("invalidate_cached_masks"):
        r.invalidate_cached_masks()
        g = r.mask
    close(g, grid(ext, dict.fromkeys(pix, 1.0)), 0, "the mask of an "
          "invalidated hull")
    # points between the pixels, away from the edges
    n = len(h)
    for p in R.uniform([ext[0] - 2, ext[2] - 2], [ext[1] + 2, ext[3] + 2],
                       (20, 2)):
        cr = [cross(h[i], h[(i + 1) % n], p) for i in range(n)]
        if min(abs(c) for c in cr) < .51:
            continue
        with sut("in"):
            i = tuple(p) in r
        expect(bool(i) == (min(cr) > 0), "%s in hull %s: %s", p, pts, i)
    # outline: clockwise, the edges meet, the normals point to their sides
    with sut("outline"):
        c, e, m = r.corners, r.edges, r.edge_midpoints
        ln, rn = r.lnormals, r.rnormals
        cen = r.centre
    expect({tuple(x) for x in c} == set(h) and len(c) == n,
           "corners %s, expected %s", c.tolist(), h)
    j = h.index(tuple(c[0]))
    expect([tuple(x) for x in c] == [h[(j - i) % n] for i in range(n)],
           "corners are not clockwise: %s", c.tolist())
    close(e, np.stack([c, np.roll(c, -1, 0)], 1), 0, "edges")
    close(m, e.mean(1), 1e-12, "edge midpoints")
    d = e[:, 1] - e[:, 0]
    close(rn, np.stack([d[:, 1], -d[:, 0]], 1), 0, "right normals")
    close(ln, -rn, 0, "left normals")
    true = np.mean(given if case["form"] != "hulls" else
                   [list(q) for q in given[0].corners] + case["pts"], 0)
    expect([int(x) for x in cen] == [int(x) for x in true],
           "centre %s of %s", cen, pts)
    return len(h) != 4 or len(pix) != (ext[1] - ext[0] + 1) * (
        ext[3] - ext[2] + 1), [case["mask"], case["form"]]


def gen_overlap(draw):
    a = draw_hull(draw)
    b = draw_hull(draw)
    near = draw(st.booleans())
    if near:
        # right next to each other
        dx = draw(st.integers(-2, 3))
        m = max(p[0] for p in a) - min(p[0] for p in b) + dx
        b = [[p[0] + m, p[1]] for p in b]
    return dict(a=a, b=b, sep=draw(st.sampled_from([None, None, 0.1, 1.3, 4])),
                boxes=draw(st.booleans()))


def run_overlap(case):
    m = imp("africanus.linalg.geometry")
    ha, hb = chain(case["a"]), chain(case["b"])
    if case["boxes"]:
        e = extent(hb)
        hb = [(e[0], e[2]), (e[1], e[2]), (e[1], e[3]), (e[0], e[3])]
    gap = -np.inf
    for h in (ha, hb):
        for p, q in zip(h, h[1:] + h[:1]):
            n = np.array([q[1] - p[1], p[0] - q[0]], float)
            n /= np.linalg.norm(n)
            pa, pb = np.array(ha) @ n, np.array(hb) @ n
            gap = max(gap, pb.min() - pa.max(), pa.min() - pb.max())
    sep = .5 if case["sep"] is None else case["sep"]
    if abs(gap - sep) < 1e-6:
        return False, []
    kw = {} if case["sep"] is None else dict(min_sep_dist=case["sep"])
    with sut("overlaps_with"):
        a = m.BoundingConvexHull(case["a"])
        b = m.BoundingBox(*extent(hb)) if case["boxes"] else \
            m.BoundingConvexHull(case["b"])
        ab, ba = a.overlaps_with(b, **kw), b.overlaps_with(a, **kw)
    expect(ab == (gap <= sep) and ba == (gap <= sep),
           "overlaps_with of %s and %s, %.3f apart (limit %s): %s, swapped %s",
           case["a"], hb, gap, sep, ab, ba)
    expect_raises((TypeError,), "overlap with something else",
                  lambda: a.overlaps_with(case["b"]))
    return True, ["apart" if gap > sep else "close" if gap > 0 else "overlap"]


def gen_boxes(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), pts=draw_hull(draw),
                box=draw_box(draw), k=draw(st.integers(1, 5)),
                dx=draw(st.integers(0, 6)), dy=draw(st.integers(0, 6)),
                square=draw(st.booleans()), odd=draw(st.booleans()),
                masked=draw(st.booleans()),
                itype=draw(st.sampled_from(["int", "i4", "i8"])))


def run_boxes(case):
    m = imp("africanus.linalg.geometry")
    F = m.BoundingBoxFactory
    R = rng(case)
    b = case["box"]
    ty = int if case["itype"] == "int" else np.dtype(case["itype"]).type
    lim = [ty(x) for x in b]
    nx, ny = b[1] - b[0] + 1, b[3] - b[2] + 1
    pix = boxpix(b)
    kw = {}
    if case["masked"]:
        pix = {p for p in sorted(pix) if R.uniform() < .6} or pix
        kw["mask"] = sorted(pix) + [(b[3] + 1, b[0]), (b[2], b[0] - 1)]
    with sut("BoundingBox"):
        o = m.BoundingBox(*lim, "the box", **kw)
        got, npx, g, ar, ci = (smask(o), o.box_npx, o.mask, o.area,
                               o.circumference)
    expect(boxof(o) == b and tuple(npx) == (nx, ny) and o.name == "the box",
           "BoundingBox%s spans %s of %s pixels", b, boxof(o), npx)
    expect(got == pix, "mask of BoundingBox%s: %s", b, short(sorted(got)))
    close(g, grid(b, dict.fromkeys(pix, 1.0)), 0, "mask of a box")
    close(ar, nx * ny, 1e-12, "area of BoundingBox%s" % b)
    close(ci, 2 * (nx + ny), 1e-12, "circumference of BoundingBox%s" % b)
    for x in range(b[0] - 1, b[1] + 2):
        for y in range(b[2] - 1, b[3] + 2):
            with sut("in"):
                i = (x, y) in o
            expect(bool(i) == (b[0] <= x <= b[1] and b[2] <= y <= b[3]),
                   "(%d, %d) in BoundingBox%s: %s", x, y, b, i)
    expect_raises((ValueError,), "fractional limits",
                  lambda: m.BoundingBox(b[0] + .5, b[1], b[2], b[3]))
    # the smallest box around a hull
    h = chain(case["pts"])
    with sut("AxisAlignedBoundingBox"):
        hull = m.BoundingConvexHull(case["pts"], name="hull")
        a = F.AxisAlignedBoundingBox(hull, square=case["square"],
                                     enforce_odd=case["odd"])
        got, npx = smask(a), a.box_npx
    e, f = extent(h), boxof(a)
    what = "AxisAlignedBoundingBox(%s, square=%s, enforce_odd=%s)" % (
        case["pts"], case["square"], case["odd"])
    expect(f[0] <= e[0] and f[1] >= e[1] and f[2] <= e[2] and f[3] >= e[3],
           "%s: %s does not contain the hull's %s", what, f, e)
    n = [e[1] - e[0] + 1, e[3] - e[2] + 1]
    if case["square"]:
        n = [max(n)] * 2
    if case["odd"]:
        n = [x + 1 - x % 2 for x in n]
    expect(list(npx) == n, "%s: %s pixels, expected %s", what, npx, n)
    expect(got == pixels(h), "%s changed the hull's mask", what)
    expect(a.name == "hull", "%s lost the name", what)
    expect_raises((TypeError,), "a box around points",
                  lambda: F.AxisAlignedBoundingBox(case["pts"]))
    # padding
    X, Y = nx + case["dx"], ny + case["dy"]
    with sut("PadBox"):
        p = F.PadBox(o, X, Y)
        got, npx = smask(p), p.box_npx
    f = boxof(p)
    what = "PadBox(%s, %d, %d)" % (b, X, Y)
    expect(tuple(npx) == (X, Y), "%s: %s pixels", what, npx)
    expect(f[0] <= b[0] and f[1] >= b[1] and f[2] <= b[2] and f[3] >= b[3],
           "%s: %s does not contain the box", what, f)
    for i in (0, 2):
        expect(abs((b[i] - f[i]) - (f[i + 1] - b[i + 1])) <= 2,
               "%s: %s is not around the box", what, f)
    expect(got == pix and p.name == o.name, "%s changed the mask", what)
    expect_raises((ValueError,), "PadBox to a smaller size",
                  lambda: F.PadBox(o, nx - 1, ny))
    expect_raises((ValueError,), "PadBox to a smaller size",
                  lambda: F.PadBox(o, nx, ny - 1))
    # splitting
    k = case["k"]
    expect_raises((ValueError,), "no sub-boxes", lambda: F.SplitBox(o, 0))
    expect_raises((TypeError,), "SplitBox of a hull",
                  lambda: F.SplitBox(hull, k))
    if nx // k < 2 or ny // k < 2:
        return True, []
    with sut("SplitBox(%s, %d)" % (b, k)):
        s = F.SplitBox(o, nsubboxes=k)
        masks = [smask(x) for x in s]
    what = "SplitBox(%s, %d) into %s" % (b, k, [boxof(x) for x in s])
    expect(len(s) == k * k, "%s: %d boxes", what, len(s))
    cover = {}
    for x, msk in zip(s, masks):
        for q in boxpix(boxof(x)):
            cover[q] = cover.get(q, 0) + 1
        expect(msk == pix & boxpix(boxof(x)), "%s: the masks differ", what)
    expect(set(cover) == boxpix(b) and set(cover.values()) == {1},
           "%s does not cover each pixel of the box once", what)
    return True, ["split"]


def gen_regional(draw):
    nd = draw(st.integers(2, 4))
    ax = draw(st.permutations(range(nd)))[:2]
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), nd=nd, axes=list(ax),
                n=draw(st.lists(st.integers(1, 3), min_size=2, max_size=2)),
                shape=[draw(st.integers(2, 12)), draw(st.integers(2, 12))],
                pts=draw_hull(draw, -6, 16), box=draw(st.booleans()),
                oob=draw(st.sampled_from([None, 0, "nan", 7.5, -1])),
                dt=draw(st.sampled_from(["f4", "f8", "c16"])),
                default=draw(st.booleans()))


def run_regional(case):
    m = imp("africanus.linalg.geometry")
    h = chain(case["pts"])
    e = extent(h)
    axes = case["axes"]
    nd = case["nd"]
    if case["default"]:
        nd, axes = 4, [2, 3]
    lo, hi = sorted(axes)
    shape = [None] * nd
    shape[lo], shape[hi] = case["shape"]
    rest = iter(case["n"] * 2)
    shape = [next(rest) if x is None else x for x in shape]
    R = rng(case)
    data = R.normal(size=shape)
    if case["dt"] == "c16":
        data = data + 1j * R.normal(size=shape)
    data = data.astype(case["dt"])
    oob = {None: 0, "nan": np.nan}.get(case["oob"], case["oob"])
    kw = {} if case["oob"] is None else dict(oob_value=oob)
    if not case["default"]:
        kw["axes"] = tuple(axes)
    keep = frozen(data)
    with sut("a region"):
        reg = m.BoundingBox(*e) if case["box"] else \
            m.BoundingConvexHull(case["pts"])
    ny, nx = case["shape"]
    what = "regional_data(%s, %s, %s)" % (case["pts"], shape, kw)
    if e[0] >= nx or e[2] >= ny or e[1] < 0 or e[3] < 0:
        expect_raises((ValueError,), what + " outside the image", lambda:
                      m.BoundingConvexHull.regional_data(reg, data, **kw))
        return True, ["outside"]
    with sut(what):
        o, win = m.BoundingConvexHull.regional_data(reg, data, **kw)
    expect([int(x) for x in win] == e, "%s: window %s", what, win)
    want = list(shape)
    want[lo], want[hi] = e[3] - e[2] + 1, e[1] - e[0] + 1
    w = np.full(want, oob, dtype=data.dtype)
    for y, x in (boxpix(e) if case["box"] else pixels(h)):
        if 0 <= y < ny and 0 <= x < nx:
            src, dst = [slice(None)] * nd, [slice(None)] * nd
            src[lo], src[hi], dst[lo], dst[hi] = y, x, y - e[2], x - e[0]
            w[tuple(dst)] = data[tuple(src)]
    close(o, w, 0, what)
    expect(o.dtype == data.dtype, "%s: dtype %s", what, o.dtype)
    unchanged((data,), keep, "regional_data")
    c = o.copy()
    with sut("writing to the result"):
        o += 1
    unchanged((data,), keep, "writing to the result of regional_data")
    o[...] = c
    part = e[0] < 0 or e[2] < 0 or e[1] >= nx or e[3] >= ny
    return part or not case["box"], ["partly outside" if part else "inside"]


def gen_norm(draw):
    regs = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            regs.append(dict(box=draw_box(draw, -4, 4, 5)))
        else:
            regs.append(dict(pts=draw_hull(draw, -4, 6)))
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), regs=regs,
                only=draw(st.sampled_from([None, True, False])),
                peek=draw(st.booleans()), again=draw(st.booleans()))


def build_regs(m, case):
    regs, pixs = [], []
    for r in case["regs"]:
        if "box" in r:
            regs.append(m.BoundingBox(*r["box"]))
            pixs.append(boxpix(r["box"]))
        else:
            regs.append(m.BoundingConvexHull(r["pts"]))
            pixs.append(pixels(chain(r["pts"])))
    return regs, pixs


def counts(pixs):
    n = {}
    for p in pixs:
        for q in p:
            n[q] = n.get(q, 0) + 1
    return n


def run_norm(case):
    m = imp("africanus.linalg.geometry")
    with sut("regions"):
        regs, pixs = build_regs(m, case)
        if case["peek"]:
            [r.mask for r in regs]
    kw = {} if case["only"] is None else dict(
        only_overlapped_regions=case["only"])
    with sut("normalize_masks"):
        for _ in range(1 + case["again"]):
            m.BoundingConvexHull.normalize_masks(regs, **kw)
        masks = [r.mask for r in regs]
    n = counts(pixs)
    for r, p, g, c in zip(regs, pixs, masks, case["regs"]):
        ext = c["box"] if "box" in c else extent(chain(c["pts"]))
        close(g, grid(ext, {q: 1.0 / n[q] for q in p}), 1e-15,
              "normalised mask of %s among %s" % (c, case["regs"]))
    expect_raises((TypeError,), "masks of something else", lambda:
                  m.BoundingConvexHull.normalize_masks(regs + [1]))
    return max(n.values()) > 1, ["overlap" if max(n.values()) > 1 else "none"]


def gen_facets(draw):
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)), pts=draw_hull(draw),
             shape=[draw(st.integers(3, 14)), draw(st.integers(3, 14))],
             k=draw(st.integers(1, 4)), pad=draw(st.integers(0, 3)),
             square=draw(st.booleans()), odd=draw(st.booleans()),
             oob=draw(st.sampled_from([0, "nan"])),
             n=draw(st.lists(st.integers(1, 2), max_size=2)))
    return c


def run_facets(case):
    """cut an image into facets, pad them, and put them together again"""
    m = imp("africanus.linalg.geometry")
    F = m.BoundingBoxFactory
    H = m.BoundingConvexHull
    h = chain(case["pts"])
    ny, nx = case["shape"]
    data = rng(case).normal(size=case["n"] + case["shape"])
    axes = (data.ndim - 2, data.ndim - 1)
    with sut("the bounding box of %s" % case["pts"]):
        box = F.AxisAlignedBoundingBox(H(case["pts"]), square=case["square"],
                                       enforce_odd=case["odd"])
    b = boxof(box)
    n = min(b[1] - b[0] + 1, b[3] - b[2] + 1)
    k = min(case["k"], n // 2)
    with sut("facets of %s" % b):
        s = F.SplitBox(box, nsubboxes=k)
        s = [F.PadBox(f, f.box_npx[0] + case["pad"],
                      f.box_npx[1] + case["pad"]) for f in s]
    # those that see the image
    s = [f for f in s if boxof(f)[0] < nx and boxof(f)[1] >= 0 and
         boxof(f)[2] < ny and boxof(f)[3] >= 0]
    if not s:
        return False, ["outside"]
    oob = np.nan if case["oob"] == "nan" else 0
    with sut("facets of %s" % b):
        d = [H.regional_data(f, data, axes=axes, oob_value=oob)[0] for f in s]
        img, reg = m.BoundingBox.project_regions(d, s, axes=axes)
    e = [min(boxof(f)[0] for f in s), max(boxof(f)[1] for f in s),
         min(boxof(f)[2] for f in s), max(boxof(f)[3] for f in s)]
    expect(boxof(reg) == e, "the stitched region is %s, expected %s",
           boxof(reg), e)
    w = np.zeros(case["n"] + [e[3] - e[2] + 1, e[1] - e[0] + 1])
    pix = pixels(h)
    for y, x in pix:
        if 0 <= y < ny and 0 <= x < nx and (y, x) in boxpix(e):
            w[..., y - e[2], x - e[0]] = data[..., y, x]
    close(img, w, 1e-15, "stitched facets of hull %s in an image of %s" %
          (case["pts"], case["shape"]))
    with sut("mask of the stitched region"):
        got = smask(reg)
    seen = set().union(*[boxpix(boxof(f)) for f in s])
    expect(got == pix & seen or got == pix & set().union(
        *[smask(f) for f in s]), "mask of the stitched region: %s",
           short(sorted(got)))
    return len(s) > 1, ["facets %d" % k]


def gen_stitch(draw):
    c = gen_norm(draw)
    c["regs"] = [dict(box=draw_box(draw, 0, 5, 5))
                 for _ in range(draw(st.integers(2, 4)))]
    c["nan"] = draw(st.booleans())
    return c


def run_stitch(case):
    """overlapping facets of an image add up to the image"""
    m = imp("africanus.linalg.geometry")
    data = rng(case).normal(size=(2, 1, 11, 11))
    with sut("regions"):
        regs, pixs = build_regs(m, case)
        m.BoundingConvexHull.normalize_masks(regs)
        d = [m.BoundingConvexHull.regional_data(r, data)[0] for r in regs]
    if case.get("nan"):
        # blank pixels count as zero
        blank = rng(case, 1).uniform(size=data.shape) < 0.1
        data[blank] = np.nan
        with sut("regions"):
            d = [m.BoundingConvexHull.regional_data(r, data)[0]
                 for r in regs]
        data[blank] = 0
    keep = frozen(*d)
    with sut("project_regions"):
        img, reg = m.BoundingBox.project_regions(d, regs)
    unchanged(d, keep, "project_regions")
    e = boxof(reg)
    n = counts(pixs)
    w = np.zeros((2, 1, e[3] - e[2] + 1, e[1] - e[0] + 1))
    for y, x in n:
        w[..., y - e[2], x - e[0]] = data[..., y, x]
    close(img, w, 1e-14, "stitched overlapping facets %s" % case["regs"])
    if len(regs) > 1:
        P = m.BoundingBox.project_regions
        expect_raises((TypeError,), "lists of unequal length",
                      lambda: P(d[:-1], regs))
        expect_raises((ValueError,), "data that do not fit their boxes",
                      lambda: P([d[0][..., 1:]] + d[1:], regs))
        expect_raises((ValueError,), "cubes of unequal dimensions",
                      lambda: P([d[0][0]] + d[1:], regs))
        expect_raises((TypeError,), "data that are not arrays",
                      lambda: P([x.tolist() for x in d], regs))
    return len(regs) > 1, ["overlap" if max(n.values()) > 1 else "none"]


SUBS = [Sub("hull", gen_hull, run_hull, 250, 6000),
        Sub("overlap", gen_overlap, run_overlap, 400, 20000),
        Sub("boxes", gen_boxes, run_boxes, 250, 6000),
        Sub("regional", gen_regional, run_regional, 400, 12000),
        Sub("normalise", gen_norm, run_norm, 200, 4000),
        Sub("facets", gen_facets, run_facets, 200, 5000),
        Sub("stitch", gen_stitch, run_stitch, 150, 3000)]

SUBS += all_histories(SUBS)
