"""C07: time and channel averaging partitions rows and channels."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import all_histories
from vlib.core import (strided, Sub, sut, imp, expect, expect_raises, rng, same, close,
                       frozen, unchanged)
from vlib import avg

PROPERTY = "C07"
RULE = ("generated rows (any subset of baselines and times, missing samples, "
        "any row order, even and uneven times and intervals, flagged rows) "
        "binned against a greedy per-baseline reference; malformed inputs; "
        "non-trivial: some bin holds two or more samples, or a rejection")


def run_rows(flag):
    def run(case):
        m = imp("africanus.averaging.time_and_channel_mapping")
        d = avg.build(case, {"flag_row"} if flag else set(),
                      ("f8", "c16", flag or "u1"))
        args = [d["time"], d["interval"], d["antenna1"], d["antenna2"]]
        keep = frozen(*args)
        with sut("row_mapper"):
            o = m.row_mapper(*args, flag_row=d.get("flag_row"),
                             time_bin_secs=case["tbs"])
        unchanged(args, keep, "row_mapper")
        bins = avg.ref_bins(d, case["tbs"])
        n, nb = len(d["time"]), len(bins)
        expect(o.time.shape == (nb,) and o.interval.shape == (nb,),
               "%d output rows, expected %d bins for %d rows",
               len(o.time), nb, n)
        mp = np.asarray(o.map)
        expect(mp.shape == (n,) and mp.min() >= 0 and mp.max() < nb,
               "row map %s is not a map into %d bins", mp, nb)
        expect(np.all(np.diff(o.time) >= 0), "output times not ascending: %s",
               o.time)
        rf = avg.row_flags(d)
        seen = set()
        for b, rs in bins:
            tgt = set(int(x) for x in mp[rs])
            expect(len(tgt) == 1, "rows %s form one bin of baseline %s but "
                   "are mapped to %s", rs, b, sorted(tgt))
            t = tgt.pop()
            expect(t not in seen, "two different bins share output row %d", t)
            seen.add(t)
            close(o.time[t], d["time"][rs].sum() / len(rs), 1e-14,
                  "time of output row %d" % t)
            close(o.interval[t], d["interval"][rs].sum(), 1e-14,
                  "interval of output row %d" % t)
            if flag:
                expect(bool(o.flag_row[t]) == bool(rf[rs].all()),
                       "output row %d flagged: %s, flags of its rows: %s",
                       t, bool(o.flag_row[t]), rf[rs])
        # equal times come in the order of the unique baselines
        with sut("unique_baselines"):
            ubl = imp("africanus.averaging.support").unique_baselines(
                d["antenna1"], d["antenna2"])[0]
        pos = {(int(a), int(b)): i for i, (a, b) in enumerate(ubl)}
        outbl = np.full(nb, -1)
        for b, rs in bins:
            outbl[mp[rs[0]]] = pos[tuple(int(x) for x in b)]
        tie = np.diff(o.time) == 0
        expect(not np.any(tie & (np.diff(outbl) <= 0)), "output rows of the "
               "same time are not in baseline order: times %s, baselines %s",
               o.time, outbl)
        if not flag:
            expect(o.flag_row is None, "flag_row appeared from nowhere")
        return max(len(rs) for _, rs in bins) > 1, [case["order"],
                                                    case["gaps"]]
    return run


def gen_many(draw):
    """Many baselines at the same times."""
    c = avg.gen(draw)
    n = draw(st.integers(4, 9))
    c["bl"] = [[p, q] for p in range(n) for q in range(p + 1, n)]
    c["order"] = draw(st.sampled_from(["time", "shuffle", "reverse"]))
    c["vary"] = False
    return c


def gen_chan(draw):
    return dict(seed=0, nchan=draw(st.integers(0, 200)),
                cbs=draw(st.integers(1, 220)))


def run_chan(case):
    m = imp("africanus.averaging.time_and_channel_mapping")
    n, b = case["nchan"], case["cbs"]
    with sut("channel_mapper"):
        mp, nout = m.channel_mapper(n, b)
    same(mp, np.arange(n) // b, "channel map of %d channels in bins of %d" %
         (n, b))
    expect(nout == -(-n // b), "%d output channels for %d in bins of %d",
           nout, n, b)
    return n > b, []


def gen_uniq(draw):
    return dict(seed=draw(st.integers(0, 2 ** 32 - 1)),
                n=draw(st.integers(0, 40)), k=draw(st.integers(1, 12)),
                off=draw(st.sampled_from([0, 0, 100000, 2 ** 31 - 20])))


def run_uniq(case):
    m = imp("africanus.averaging.support")
    R = rng(case)
    n, k = case["n"], case["k"]
    a1 = (R.randint(0, k, n) + case["off"]).astype(np.int32)
    a2 = R.randint(0, k, n).astype(np.int32)
    t = (R.randint(-k, k, n) * 0.25)
    with sut("unique_baselines"):
        u, idx, inv, cnt = m.unique_baselines(a1, a2)
    pairs = np.stack([a1, a2], axis=1)
    same(u[inv], pairs, "unique_baselines: uniques[inverse]")
    expect(len(set(map(tuple, u.tolist()))) == len(u) ==
           len(set(map(tuple, pairs.tolist()))), "baselines not unique")
    same(pairs[idx], u, "unique_baselines: input[index]")
    same(cnt, np.bincount(inv, minlength=len(u)), "baseline counts")
    with sut("unique_time"):
        u, idx, inv, cnt = m.unique_time(t)
    wu, wi, winv, wc = np.unique(t, return_index=True, return_inverse=True,
                                 return_counts=True)
    for g, w, x in ((u, wu, "uniques"), (idx, wi, "first index"),
                    (inv, winv.ravel(), "inverse"), (cnt, wc, "counts")):
        same(g, w, "unique_time: %s" % x)
    import numba
    for b1, b2 in ((a1, a2.astype("i8")), (a1.astype("i8"), a2)):
        expect_raises((ValueError, numba.core.errors.TypingError),
                      "baselines of %s and %s" % (b1.dtype, b2.dtype),
                      lambda: m.unique_baselines(b1, b2))
    return n > 3, []


FIELDS_BAD = {"flag", "flag_row", "vis", "chan_freq"}


def gen_bad(draw):
    c = avg.gen(draw)
    c["kind"] = draw(st.sampled_from(
        ["duplicate", "mismatch", "mismatch", "chan", "corr", "freq"]))
    c["pos"] = draw(st.integers(0, 1000))
    c["pos2"] = draw(st.integers(0, 1000))
    c["nan"] = False
    return c


def run_bad(case):
    tac = imp("africanus.averaging", "time_and_channel")
    d = avg.build(case, FIELDS_BAD)
    n = len(d["time"])
    k = case["kind"]
    p = case["pos"] % n
    if k == "duplicate":
        for key in d:
            if key == "chan_freq":
                continue
            i = case["pos2"] % (n + 1)
            d[key] = np.insert(d[key], i, d[key][p], axis=0)
    elif k == "mismatch":
        if d["flag_row"][p]:
            d["flag_row"][p] = 0
        elif case["pos2"] % 2:
            d["flag_row"][p] = 1
        else:
            d["flag"][p] = 1
    elif k == "chan":
        d["vis"] = np.concatenate([d["vis"], d["vis"]], axis=1)
    elif k == "corr":
        d["vis"] = np.concatenate([d["vis"], d["vis"][..., :1]], axis=2)
    else:
        d["chan_freq"] = d["chan_freq"].repeat(2)
    args = [d.pop(x) for x in ("time", "interval", "antenna1", "antenna2")]
    expect_raises((ValueError,), "time_and_channel (%s)" % k,
                  lambda: tac(*args, time_bin_secs=case["tbs"],
                              chan_bin_size=case["cbs"], **d))
    return True, [k]


SUBS = [
    Sub("row_map", avg.gen, run_rows(None), 800, 8000),
    Sub("row_map_flags", avg.gen, run_rows("u1"), 800, 8000),
    Sub("row_map_bool", avg.gen, run_rows("?"), 400, 4000),
    Sub("row_map_many", gen_many, run_rows(None), 200, 3000),
    Sub("chan_map", gen_chan, run_chan, 300, 3000),
    Sub("unique", gen_uniq, run_uniq, 300, 4000),
    Sub("rejects", gen_bad, run_bad, 150, 2000),
]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['row_map_flags']]

SUBS += all_histories(SUBS)
