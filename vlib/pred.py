"""Generator and reference for the RIME prediction."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import rng, sz
from vlib import sched

CORRS = {"one": (1,), "two": (2,), "full": (2, 2)}


def gen(draw):
    counts = [sz(draw, 1, 5, 40) for _ in range(sz(draw, 1, 4, 15))]
    c = dict(seed=draw(st.integers(0, 2 ** 32 - 1)), counts=counts,
             nant=sz(draw, 1, 5, 70), nchan=sz(draw, 1, 4, 40),
             nsrc=sz(draw, 1, 5, 40), toff=draw(st.sampled_from(
                 [0, 0, 1, 7])),
             sorted=draw(st.booleans()), auto=draw(st.booleans()),
             mix=draw(st.booleans()),
             idt=draw(st.sampled_from(["i4", "i8"])),
             sched=draw(st.integers(0, 2 ** 32 - 1)))
    for k, n in (("sc", c["nsrc"]), ("tc", len(counts)), ("fc", c["nchan"])):
        c[k] = sched.chunks(draw, st, n, 4)
    return c


def dt_of(spec, k):
    return spec.get(k, "c16") if isinstance(spec, dict) else spec


def build(case, corr, dts="c16", blocks=None):
    """blocks: numbers of times between which rows are not exchanged"""
    R = rng(case)
    t, a, f, s = (len(case["counts"]), case["nant"], case["nchan"],
                  case["nsrc"])
    ti = np.repeat(np.arange(t), case["counts"])
    r = len(ti)
    if case["mix"]:
        # rows need not be in the order of their times
        R2, e = rng(case, 3), np.cumsum([0] + list(blocks or [t]))
        ti = np.concatenate([R2.permutation(ti[(ti >= i) & (ti < j)])
                             for i, j in zip(e[:-1], e[1:])])
    if not case["sorted"]:
        # any order of rows inside a time, antennas in any order
        a1, a2 = R.randint(0, a, r), R.randint(0, a, r)
    else:
        a1 = R.randint(0, a, r)
        a2 = np.maximum(a1, R.randint(0, a, r))
        a1, a2 = np.minimum(a1, a2), a2
    if not case["auto"] and a > 1:
        a2 = np.where(a1 == a2, (a1 + 1) % a, a2)

    def cplx(k, *shape):
        dt = np.dtype(dt_of(dts, k))
        x = R.normal(size=shape + corr)
        if dt.kind == "c":
            x = x + 1j * R.normal(size=x.shape)
        return x.astype(dt)
    d = dict(ti=ti.astype(case["idt"]), a1=a1.astype(case["idt"]),
             a2=a2.astype(case["idt"]),
             dde1=cplx("dde1", s, t, a, f), coh=cplx("coh", s, r, f),
             dde2=cplx("dde2", s, t, a, f), die1=cplx("die1", t, a, f),
             base=cplx("base", r, f), die2=cplx("die2", t, a, f))
    return d


def mul(*ms):
    """product of Jones terms; (c,) arrays are diagonals / scalars"""
    return ms


def ref(d, have, corr):
    """V = G_p (B + sum_s E_ps X_s E_qs^H) G_q^H, with explicit matrices"""
    ti, a1, a2 = d["ti"], d["a1"], d["a2"]
    r = len(ti)
    f = d["base"].shape[1]

    def M(x):
        x = np.asarray(x, dtype=np.complex128)
        return x if len(corr) == 2 else np.diag(x)
    n = corr[0]
    out = np.zeros((r, f) + corr, np.complex128)
    nsrc = d["dde1"].shape[0] if ("dde" in have or "coh" in have) else 0
    for i in range(r):
        for c in range(f):
            v = np.zeros((n, n), np.complex128)
            for s in range(nsrc):
                x = M(d["coh"][s, i, c]) if "coh" in have else np.eye(n)
                if "dde" in have:
                    x = M(d["dde1"][s, ti[i], a1[i], c]) @ x @ \
                        M(d["dde2"][s, ti[i], a2[i], c]).conj().T
                v = v + x
            if "base" in have:
                v = v + M(d["base"][i, c])
            if "die" in have:
                v = M(d["die1"][ti[i], a1[i], c]) @ v @ \
                    M(d["die2"][ti[i], a2[i], c]).conj().T
            out[i, c] = v if len(corr) == 2 else np.diag(v)
    return out


def args(d, have, off=0):
    g = d.get
    return [g("ti") + g("ti").dtype.type(off), g("a1"), g("a2"),
            g("dde1") if "dde" in have else None,
            g("coh") if "coh" in have else None,
            g("dde2") if "dde" in have else None,
            g("die1") if "die" in have else None,
            g("base") if "base" in have else None,
            g("die2") if "die" in have else None]


HAVES = [h for h in (["dde", "coh", "die", "base"], ["dde", "coh"],
                     ["dde", "coh", "base"], ["dde", "coh", "die"],
                     ["dde"], ["dde", "die"], ["dde", "base"],
                     ["dde", "die", "base"],
                     ["coh"], ["coh", "die"], ["coh", "base"],
                     ["coh", "die", "base"], ["die", "base"], ["base"])]
