"""Generator and references for the calibration functions."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import rng, sz

MODES = ["diagdiag1", "diagdiag2", "diag", "full"]
C = 2.99792458e8


def gen(draw, maxdir=3):
    nt = sz(draw, 1, 5, 30)
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                nant=sz(draw, 2, 5, 70),
                counts=[sz(draw, 1, 5, 40) for _ in range(nt)],
                nchan=sz(draw, 1, 4, 40), ndir=draw(st.integers(1, maxdir)),
                off=draw(st.sampled_from([0, 0, 3, 17])),
                pflag=draw(st.sampled_from([0.0, 0.2, 0.6, 1.0])),
                nan=draw(st.booleans()),
                auto=draw(st.booleans()),
                layout=draw(st.sampled_from(["C", "C", "view"])))


def cplx(R, shape):
    return R.normal(size=shape) + 1j * R.normal(size=shape)


def corr_shapes(mode):
    """(correlation axes of a visibility, of a jones term)"""
    return {"diagdiag1": ((1,), (1,)), "diagdiag2": ((2,), (2,)),
            "diag": ((2, 2), (2,)), "full": ((2, 2), (2, 2))}[mode]


def build(case, mode, ndir=None):
    R = rng(case)
    vs, js = corr_shapes(mode)
    ndir = ndir or case["ndir"]
    cnt = np.array(case["counts"], dtype=np.int32)
    nt, nr = len(cnt), int(cnt.sum())
    na, nc = case["nant"], case["nchan"]
    idx = np.zeros(nt, dtype=np.int32)
    idx[1:] = np.cumsum(cnt)[:-1]
    a1 = R.randint(0, na, nr).astype(np.int32)
    a2 = R.randint(0, na, nr).astype(np.int32)
    if not case["auto"]:
        a2 = np.where(a1 == a2, (a2 + 1) % na, a2).astype(np.int32)
    d = dict(idx=idx, cnt=cnt, a1=a1, a2=a2,
             t=np.repeat(np.arange(nt), cnt))
    # gains well away from singular
    j = cplx(R, (nt, na, nc, ndir) + js) * 0.3
    if len(js) == 2:
        j += np.eye(2) * np.exp(1j * R.uniform(0, 6, (nt, na, nc, ndir, 1,
                                                      1)))
    else:
        j += 1.5 * np.exp(1j * R.uniform(0, 6, j.shape))
    d["jones"] = j
    d["model"] = cplx(R, (nr, nc, ndir) + vs)
    d["vis"] = cplx(R, (nr, nc) + vs)
    d["flag"] = R.uniform(size=(nr, nc) + vs) < case["pflag"]
    d["flag"] &= R.uniform(size=(nr, nc) + (1,) * len(vs)) < 0.7
    d["uvw"] = R.uniform(-200, 200, (nr, 3))
    d["freq"] = np.sort(R.uniform(0.5e9, 2e9, nc))
    d["lm"] = R.uniform(-0.3, 0.3, (nt, ndir, 2))
    d["tmodel"] = cplx(R, (nt, nc, ndir) + vs)
    d["weight"] = R.uniform(0.2, 3, (nr, nc) + vs)
    if case.get("nan"):
        # what is flagged may hold anything
        d["vis"][flagged(d)] = np.nan
    if case.get("layout") == "view":
        for k in ("jones", "model", "vis"):
            d[k] = np.repeat(d[k], 2, axis=1)[:, ::2]
    return d


def mats(x, mode):
    """jones / coherency as 2x2 (or 1x1 per correlation) matrices"""
    return x


def apply(gp, m, gq, mode):
    """G_p M G_q^H for one direction."""
    if mode.startswith("diagdiag"):
        return gp * m * np.conj(gq)
    if mode == "diag":
        return np.diag(gp) @ m @ np.diag(gq).conj().T
    return gp @ m @ gq.conj().T


def unapply(gp, v, gq, mode):
    if mode.startswith("diagdiag"):
        return v / (gp * np.conj(gq))
    if mode == "diag":
        gp, gq = np.diag(gp), np.diag(gq)
    return np.linalg.inv(gp) @ v @ np.linalg.inv(gq.conj().T)


def corrupt(d, mode, model=None, jones=None):
    model = d["model"] if model is None else model
    jones = d["jones"] if jones is None else jones
    out = np.zeros(model.shape[:2] + model.shape[3:], dtype=complex)
    for r in range(model.shape[0]):
        g = jones[d["t"][r]]
        for c in range(model.shape[1]):
            for s in range(model.shape[2]):
                out[r, c] += apply(g[d["a1"][r], c, s], model[r, c, s],
                                   g[d["a2"][r], c, s], mode)
    return out


def residual(d, mode):
    out = d["vis"] - corrupt(d, mode)
    out[flagged(d)] = 0
    return out


def flagged(d):
    f = d["flag"]
    return f.reshape(f.shape[:2] + (-1,)).any(axis=2)


def correct(d, mode):
    out = np.zeros(d["vis"].shape, dtype=complex)
    f = flagged(d)
    for r in range(out.shape[0]):
        g = d["jones"][d["t"][r]]
        for c in range(out.shape[1]):
            if not f[r, c]:
                out[r, c] = unapply(g[d["a1"][r], c, 0], d["vis"][r, c],
                                    g[d["a2"][r], c, 0], mode)
    return out


def predict_model(d, mode):
    """(row, chan, dir, corr...) of the time variable point sources"""
    nr, nc = d["vis"].shape[:2]
    tm = d["tmodel"]
    out = np.zeros((nr,) + tm.shape[1:], dtype=complex)
    for r in range(nr):
        t = d["t"][r]
        for s in range(tm.shape[2]):
            l, m = d["lm"][t, s]
            n = np.sqrt(1 - l * l - m * m)
            ph = -2 * np.pi / C * d["freq"] * (
                d["uvw"][r] @ np.array([l, m, n - 1]))
            k = (np.exp(1j * ph) / n).reshape((nc,) + (1,) * (tm.ndim - 3))
            out[r, :, s] = tm[t, :, s] * k
    return out


def jhj_jhr(d, residual=None):
    j, m = d["jones"], d["model"]
    residual = d["vis"] if residual is None else residual
    jhj = np.zeros(j.shape)
    jhr = np.zeros(j.shape, dtype=complex)
    f = flagged(d)
    for r in range(m.shape[0]):
        t, p, q = d["t"][r], d["a1"][r], d["a2"][r]
        for c in range(m.shape[1]):
            if f[r, c]:
                continue
            v = j[t, p, c] * m[r, c] * np.conj(j[t, q, c])
            for a, sg in ((p, 1j), (q, -1j)):
                jhj[t, a, c] += np.abs(v) ** 2
                jhr[t, a, c] += np.conj(sg * v) * residual[r, c]
    return jhj, jhr
