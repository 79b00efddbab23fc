"""Generator and reference for time and channel averaging."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import sz, rng, close, same, expect

ROWF = ["antenna1", "antenna2", "time_centroid", "exposure", "uvw", "weight",
        "sigma"]
CHANF = ["chan_freq", "chan_width", "effective_bw", "resolution"]
RCF = ["vis", "flag", "weight_spectrum", "sigma_spectrum"]


def gen(draw, maxrow=40):
    nant = sz(draw, 1, 5, 9)
    bls = [(p, q) for p in range(nant) for q in range(nant)]
    bl = draw(st.lists(st.sampled_from(bls), unique=True, min_size=1,
                       max_size=sz(draw, 6, 6, 30)))
    ntime = sz(draw, draw(st.sampled_from([1, 4])), 9, 50)
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)), bl=bl, ntime=ntime,
                drop=draw(st.sampled_from([0.0, 0.0, 0.2, 0.5])),
                order=draw(st.sampled_from(["time", "shuffle", "reverse",
                                            "bl"])),
                gaps=draw(st.sampled_from(["even", "uneven", "random"])),
                t0=draw(st.sampled_from([0.0, 5.0e9, -3.25])),
                vary=draw(st.booleans()),
                tbs=draw(st.sampled_from([2.0, 3.0, 4.0, 2.5, 1.5, 3.0, 2.0,
                                          100.0, 6.0, 1.0, 0.125])),
                cbs=sz(draw, 1, 5, 40), nchan=sz(draw, 1, 7, 80),
                ncorr=draw(st.integers(1, 4)),
                pflag=draw(st.sampled_from([0.0, 0.3, 0.7, 0.95, 1.0])),
                prow=draw(st.sampled_from([0.0, 0.2, 0.4, 0.6, 1.0])),
                nan=draw(st.booleans()), zerow=draw(st.booleans()),
                flagval=draw(st.sampled_from([1, 1, 2, 255])),
                ids=draw(st.sampled_from([0, 0, 1])))


def build(case, fields, dtypes=("f8", "c16", "u1")):
    """Arrays for the requested optional fields; fields is a set of names."""
    R = rng(case)
    fdt, cdt, bdt = [np.dtype(d) for d in dtypes]
    nt = case["ntime"]
    if case["gaps"] == "even":
        t = np.arange(nt) * 1.0
    elif case["gaps"] == "uneven":
        t = np.cumsum(R.randint(1, 5, nt)) * 0.5
    else:
        t = np.cumsum(R.randint(1, 24, nt)) * 0.125
    t = t + case["t0"]
    rows = [(i, tuple(b)) for i in range(nt) for b in case["bl"]
            if R.uniform() >= case["drop"]]
    if not rows:
        rows = [(0, tuple(case["bl"][0]))]
    if case["order"] == "shuffle":
        R.shuffle(rows)
    elif case["order"] == "reverse":
        rows = rows[::-1]
    elif case["order"] == "bl":
        rows.sort(key=lambda r: (r[1], r[0]))
    n, f, c = len(rows), case["nchan"], case["ncorr"]
    d = {}
    d["time"] = np.array([t[i] for i, _ in rows])
    d["interval"] = (np.ones(n) if not case["vary"] else
                     R.randint(1, 5, n) * 0.5)
    if case.get("ids"):
        # antenna numbers need not be small
        ids = np.sort(rng(case, 5).choice(70000, 10, False))
        rows = [(i, (ids[b[0]], ids[b[1]])) for i, b in rows]
    d["antenna1"] = np.array([b[0] for _, b in rows], dtype=np.int32)
    d["antenna2"] = np.array([b[1] for _, b in rows], dtype=np.int32)
    # flags: whole rows, and single samples
    rowfl = R.uniform(size=n) < case["prow"]
    fl = R.uniform(size=(n, f, c)) < case["pflag"]
    fl[rowfl] = True
    rowfl = fl.all(axis=(1, 2)) if "flag" in fields else rowfl
    val = 1 if bdt.kind == "b" else case["flagval"]
    if "flag_row" in fields:
        d["flag_row"] = (rowfl * val).astype(bdt)
    if "flag" in fields:
        d["flag"] = fl.astype(bdt)
    if "uvw" in fields:
        d["uvw"] = R.uniform(-1e3, 1e3, (n, 3))
    if "time_centroid" in fields:
        d["time_centroid"] = d["time"] + R.uniform(-.2, .2, n)
    if "exposure" in fields:
        d["exposure"] = R.uniform(0.1, 2, n)
    for k in ("weight", "sigma"):
        if k in fields:
            d[k] = R.uniform(0.1, 3, (n, c)).astype(fdt)
    for k in ("weight_spectrum", "sigma_spectrum"):
        if k in fields:
            d[k] = R.uniform(0.1, 3, (n, f, c)).astype(fdt)
    if case["zerow"]:
        for k in ("weight", "weight_spectrum"):
            if k in fields:
                d[k][R.uniform(size=d[k].shape) < 0.3] = 0
    if "vis" in fields:
        d["vis"] = (R.normal(size=(n, f, c)) +
                    1j * R.normal(size=(n, f, c))).astype(cdt)
    for k in CHANF:
        if k in fields:
            d[k] = R.uniform(1, 2, f) * (1e9 if k == "chan_freq" else 1e6)
    if case["nan"]:
        # what is flagged may hold anything
        if "flag" in fields and "vis" in fields:
            d["vis"][fl & (R.uniform(size=fl.shape) < 0.5)] = np.nan
        if "flag_row" in fields:
            bad = rowfl & (R.uniform(size=n) < 0.5)
            for k in ("uvw", "time_centroid", "vis"):
                if k in fields:
                    d[k][bad] = np.nan
    return d


def ref_bins(d, tbs, rows=None, rowfl=None):
    """Greedy bins per baseline: list of (rows) in (time, a1, a2) order."""
    rows = range(len(d["time"])) if rows is None else rows
    per = {}
    for r in rows:
        per.setdefault((int(d["antenna1"][r]), int(d["antenna2"][r])),
                       []).append(r)
    bins = []
    for b, rs in per.items():
        rs = sorted(rs, key=lambda r: d["time"][r])
        cur, low = [], None
        for r in rs:
            half = d["interval"][r] * 0.5
            if cur and d["time"][r] + half - low > tbs:
                bins.append((b, cur))
                cur = []
            if not cur:
                low = d["time"][r] - half
            cur.append(r)
        bins.append((b, cur))
    bins.sort(key=lambda x: (np.mean(d["time"][x[1]]), x[0]))
    return bins


def row_flags(d):
    n = len(d["time"])
    if d.get("flag_row") is not None:
        return d["flag_row"] != 0
    if d.get("flag") is not None:
        return (d["flag"] != 0).all(axis=(1, 2))
    return None


def ref(d, tbs, cbs, rowchunks=None, chanchunks=None):
    """Expected outputs, a dict of arrays; rows in (chunk, time, a1, a2)
    order.  Also returns the bins."""
    n = len(d["time"])
    rowchunks = rowchunks or (n,)
    rf = row_flags(d)
    bins, sizes, s = [], [], 0
    for c in rowchunks:
        b = ref_bins(d, tbs, range(s, s + c))
        bins += b
        sizes.append(len(b))
        s += c
    nchan = None
    for k in RCF:
        if d.get(k) is not None:
            nchan = d[k].shape[1]
    for k in CHANF:
        if d.get(k) is not None:
            nchan = d[k].shape[0]
    cb = []
    if nchan is not None:
        s = 0
        for c in (chanchunks or (nchan,)):
            cb += [list(range(i, min(i + cbs, s + c)))
                   for i in range(s, s + c, cbs)]
            s += c
    out = {k: None for k in ["time", "interval", "flag_row"] + ROWF + CHANF +
           RCF}
    out["time"] = np.array([np.sum(d["time"][rs]) / len(rs)
                            for _, rs in bins])
    out["interval"] = np.array([np.sum(d["interval"][rs]) for _, rs in bins])
    out["antenna1"] = np.array([b[0] for b, _ in bins])
    out["antenna2"] = np.array([b[1] for b, _ in bins])
    use = []
    if rf is None:
        use = [rs for _, rs in bins]
    else:
        out["flag_row"] = np.array([rf[rs].all() for _, rs in bins])
        for _, rs in bins:
            f = rf[rs].all()
            use.append([r for r in rs if rf[r] == f])
    for k in ("time_centroid", "uvw"):
        if d.get(k) is not None:
            out[k] = np.array([d[k][rs].sum(axis=0) / len(rs) for rs in use])
    for k in ("exposure", "weight"):
        if d.get(k) is not None:
            out[k] = np.array([d[k][rs].astype("f8").sum(axis=0)
                               for rs in use])
    if d.get("sigma") is not None:
        o = []
        for rs in use:
            w = (d["weight"][rs].astype("f8") if d.get("weight") is not None
                 else np.ones((len(rs), d["sigma"].shape[1])))
            ws = w.sum(axis=0)
            ws[ws == 0] = 1
            o.append(np.sqrt((d["sigma"][rs].astype("f8") ** 2 *
                              w ** 2).sum(axis=0)) / ws)
        out["sigma"] = np.array(o)
    if d.get("chan_freq") is not None:
        out["chan_freq"] = np.array([d["chan_freq"][c].mean() for c in cb])
    for k in CHANF[1:]:
        if d.get(k) is not None:
            out[k] = np.array([d[k][c].sum() for c in cb])
    have = [k for k in RCF if d.get(k) is not None]
    if have:
        ncorr = d[have[0]].shape[2]
        shape = (len(bins), len(cb), ncorr)
        skip = np.zeros(shape, dtype=bool)
        for k in have:
            out[k] = np.zeros(shape, dtype="c16" if k == "vis" else "f8")
        for i, rs in enumerate(use):
            for j, cs in enumerate(cb):
                for c in range(ncorr):
                    idx = [(r, ch, c) for r in rs for ch in cs]
                    if d.get("flag") is not None:
                        good = [x for x in idx if d["flag"][x] == 0]
                        out["flag"][i, j, c] = not good
                        idx = good or idx
                    t = tuple(np.array(idx).T)
                    if d.get("weight_spectrum") is not None:
                        w = d["weight_spectrum"][t].astype("f8")
                    elif d.get("weight") is not None:
                        w = d["weight"][t[0], t[2]].astype("f8")
                    else:
                        w = np.ones(len(idx))
                    ws = w.sum()
                    nrm = ws if ws != 0 else 1.0
                    if ws == 0 and d.get("vis") is not None and \
                            not np.isfinite(d["vis"][t]).all():
                        # nothing but NaNs of zero weight: no average
                        skip[i, j, c] = True
                    if d.get("vis") is not None:
                        out["vis"][i, j, c] = (
                            d["vis"][t].astype("c16") * w).sum() / nrm
                    if d.get("weight_spectrum") is not None:
                        out["weight_spectrum"][i, j, c] = ws
                    if d.get("sigma_spectrum") is not None:
                        s2 = d["sigma_spectrum"][t].astype("f8") ** 2
                        out["sigma_spectrum"][i, j, c] = np.sqrt(
                            (s2 * w ** 2).sum()) / nrm
        if out["vis"] is not None:
            out["vis"] = np.ma.array(out["vis"], mask=skip)
    return out, bins, sizes


def compare(got, want, sizes, tol, what):
    """got: namedtuple or dict of arrays, want from ref()."""
    g = got if isinstance(got, dict) else got._asdict()
    for k, w in want.items():
        expect((g[k] is None) == (w is None), "%s: output %s is %s, expected "
               "%s", what, k, "absent" if g[k] is None else "present",
               "absent" if w is None else "present")
    expect(g["time"].shape == want["time"].shape,
           "%s: %d output rows, expected %d", what, len(g["time"]),
           len(want["time"]))
    perm, s = [], 0
    for n in sizes:
        t = np.asarray(g["time"][s:s + n])
        expect(np.all(np.diff(t) >= 0), "%s: output times are not in "
               "ascending order: %s", what, t)
        perm.append(s + np.lexsort((g["antenna2"][s:s + n],
                                    g["antenna1"][s:s + n], t)))
        s += n
    perm = np.concatenate(perm).astype(int)
    for k in ["time", "interval", "flag_row"] + ROWF + RCF:
        if want[k] is None:
            continue
        v = np.asarray(g[k])
        expect(v.shape == want[k].shape, "%s: %s has shape %s, expected %s",
               what, k, v.shape, want[k].shape)
        v = v[perm]
        if k in ("flag_row", "flag"):
            same(v != 0, want[k] != 0, "%s: %s" % (what, k))
        elif k in ("antenna1", "antenna2"):
            same(v, want[k], "%s: %s" % (what, k))
        else:
            w = want[k]
            if isinstance(w, np.ma.MaskedArray):
                v = np.where(w.mask, 0, v)
                w = w.filled(0)
            a = np.abs(w)
            a = a[np.isfinite(a)]
            close(v, w, tol if k not in ("time", "interval", "uvw",
                                               "time_centroid", "exposure")
                  else 1e-13, "%s: %s" % (what, k),
                  scale=max(1.0, a.max() if a.size else 1.0))
    for k in CHANF:
        if want[k] is not None:
            close(g[k], want[k], 1e-13, "%s: %s" % (what, k),
                  scale=np.abs(want[k]).max())
