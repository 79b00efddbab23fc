"""C08: averaged values are the weighted averages of unflagged samples."""
import numpy as np
from vlib.core import all_histories, scaled
from vlib.core import strided, Sub, sut, imp, frozen, unchanged
from vlib import avg

PROPERTY = "C08"
RULE = ("generated measurement-set columns (rows in any order, missing "
        "samples, flagged samples holding NaN, zero weights, single and "
        "double precision, every group of optional columns) averaged and "
        "compared element by element with a direct sum over each bin; "
        "non-trivial: some bin holds two or more rows or channels")

CONFIGS = {
    "all": (("f8", "c16", "u1"),
            {"time_centroid", "exposure", "uvw", "weight", "sigma",
             "chan_freq", "chan_width", "effective_bw", "resolution", "vis",
             "flag", "flag_row", "weight_spectrum", "sigma_spectrum"}),
    "natural": (("f8", "c16", "?"),
                {"time_centroid", "uvw", "sigma", "chan_freq", "vis", "flag",
                 "sigma_spectrum"}),
    "row_weights": (("f4", "c8", "u1"),
                    {"exposure", "weight", "sigma", "chan_width", "vis",
                     "flag_row", "sigma_spectrum"}),
    "spectrum": (("f8", "c16", "u1"),
                 {"uvw", "vis", "flag", "weight_spectrum",
                  "sigma_spectrum"}),
    "rows_only": (("f8", "c16", "u1"),
                  {"time_centroid", "exposure", "uvw", "weight", "sigma",
                   "flag_row"}),
    "unflagged": (("f8", "c16", "u1"),
                  {"uvw", "weight", "vis", "chan_freq", "effective_bw",
                   "resolution"}),
    "no_vis": (("f8", "c16", "u1"),
               {"weight", "sigma", "flag", "weight_spectrum",
                "chan_width"}),
    "channels": (("f8", "c16", "u1"),
                 {"chan_freq", "chan_width", "effective_bw", "resolution"}),
}


def run_cfg(name):
    dt, fields = CONFIGS[name]
    tol = 1e-12 if dt[0] == "f8" else 1e-5

    def run(case):
        tac = imp("africanus.averaging", "time_and_channel")
        d = avg.build(case, fields, dt)
        want, bins, sizes = avg.ref(d, case["tbs"], case["cbs"])
        keys = sorted(d)
        keep = frozen(*[d[k] for k in keys])
        kw = {k: v for k, v in d.items() if k not in
              ("time", "interval", "antenna1", "antenna2")}
        with sut("time_and_channel"):
            got = tac(d["time"], d["interval"], d["antenna1"], d["antenna2"],
                      time_bin_secs=case["tbs"], chan_bin_size=case["cbs"],
                      **kw)
        unchanged([d[k] for k in keys], keep, "time_and_channel")
        avg.compare(got, want, sizes, tol, "time_and_channel")
        rf = avg.row_flags(d)
        mixed = rf is not None and any(
            0 < rf[rs].sum() < len(rs) for _, rs in bins)
        nt = max(len(rs) for _, rs in bins) > 1 or (
            case["cbs"] > 1 and case["nchan"] > 1)
        return nt, [name] + (["mixed flags"] if mixed else [])
    return run


SUBS = [Sub(k, avg.gen, run_cfg(k), 300, 4000) for k in CONFIGS]

SUBS += [strided(s, 30, 400) for s in SUBS if s.name in
         ['all', 'natural']]

SUBS += all_histories(SUBS) + scaled(SUBS)
