#!/opt/venv/bin/python
"""Entry point of every check.

    run.py CNN                     run the check of property CNN
    run.py CNN --replay FILE       re-run one recorded case
    run.py --selftest              what setup_cmd runs

Environment: VERIF_SEED, VERIF_TIER (quick|thorough).
Exit status: 0 held, 1 + VIOLATION line broken, anything else harness error.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = "/repo"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
# a single case that runs this long, twice, in separate processes is a hang
CASE_LIMIT = 150.0
NPROC = max(1, min(8, os.cpu_count() or 1))


def worker_env(scratch):
    deps = os.path.join(scratch, "deps")
    if not os.path.isdir(deps):
        os.makedirs(deps)
        for n in ("hypothesis", "_hypothesis_globals.py",
                  "_hypothesis_ftz_detector.py", "sortedcontainers", "attr",
                  "attrs"):
            p = os.path.join(VT, n)
            if os.path.exists(p):
                os.symlink(p, os.path.join(deps, n))
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("NUMBA_", "PYTEST", "DASK", "READTHEDOCS")):
            del env[k]
    env.update(PYTHONPATH=os.pathsep.join([HERE, REPO, deps]),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="2",
               NUMBA_CACHE_DIR=os.path.join(scratch, "nbcache"),
               HYPOTHESIS_NO_PLUGINS="1", TMPDIR=scratch,
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
               DASK_CONFIG=os.path.join(scratch, "daskcfg"),
               HOME=scratch, XDG_CACHE_HOME=os.path.join(scratch, "cache"),
               MPLCONFIGDIR=scratch, VERIF_SCRATCH=scratch)
    return env


def worker(prop, subname, tier, seed, outfile, statusfile, replay=None):
    """One sub-check (or one replayed case), in its own process."""
    import warnings
    warnings.simplefilter("ignore")
    from vlib import core

    def status(case):
        with open(statusfile, "w") as f:
            f.write(core.jdump(dict(t=time.time(), case=case)))

    res = dict(sub=subname, evaluations=0, nontrivial=[], samples=[],
               labels={}, violation=None, error=None)
    try:
        status(None)
        try:
            mod = importlib.import_module("checks." + prop.lower())
            with open(os.path.join(os.path.dirname(outfile), "rule"),
                      "w") as f:
                f.write(mod.RULE)
            if subname == "__known__":
                found = []
                for k in getattr(mod, "KNOWN", []):
                    if k.probe():
                        found.append(k.key)
                res["known"] = found
            else:
                sub = [s for s in mod.SUBS if s.name == subname][0]
                if replay is not None:
                    rec = json.load(open(replay))
                    case = rec["case"]
                    status(case)
                    res["evaluations"] = 1
                    try:
                        for c in list(rec.get("prior") or []) + [case]:
                            core.CURRENT[:] = [c]
                            sub.run(c)
                    except core.Violation as v:
                        res["violation"] = dict(case=case, message=str(v))
                else:
                    res = core.run_sub(prop, sub, tier, seed, status,
                                       45 if tier == "quick" else 240)
        except core.Violation as v:
            # an import of the code under test failed
            res["violation"] = dict(case=None, message=str(v))
    except BaseException:
        res["error"] = traceback.format_exc()
    tmp = outfile + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, outfile)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


class Job(object):
    def __init__(self, prop, sub, tier, seed, scratch, env, replay=None):
        self.prop, self.sub, self.tier, self.seed = prop, sub, tier, seed
        self.scratch, self.env, self.replay = scratch, env, replay
        self.dir = tempfile.mkdtemp(prefix="j_", dir=scratch)
        self.out = os.path.join(self.dir, "out.json")
        self.status = os.path.join(self.dir, "status.json")
        self.log = open(os.path.join(self.dir, "log"), "w")
        env = dict(env, TMPDIR=self.dir)
        cmd = [PY, os.path.join(HERE, "run.py"), "--worker", prop, sub, tier,
               str(seed), self.out, self.status] + ([replay] if replay else [])
        self.p = subprocess.Popen(cmd, env=env, cwd=self.dir,
                                  stdin=subprocess.DEVNULL, stdout=self.log,
                                  stderr=subprocess.STDOUT,
                                  start_new_session=True)
        self.t0 = time.time()

    def last(self):
        try:
            return json.load(open(self.status))
        except Exception:
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def poll(self):
        """None while running, else ('done', res) / ('crash', case, sig) /
        ('hang', case) / ('error', text)"""
        rc = self.p.poll()
        if rc is None:
            st = self.last()
            t = st["t"] if st else self.t0
            if time.time() - t > CASE_LIMIT:
                self.kill()
                return ("hang", st and st["case"])
            return None
        if os.path.exists(self.out):
            return ("done", json.load(open(self.out)))
        st = self.last()
        if rc < 0:
            if -rc == signal.SIGKILL:
                return ("error", "worker was killed (memory?)\n" + self.tail())
            return ("crash", st and st["case"], -rc)
        return ("error", "worker exited %s\n%s" % (rc, self.tail()))

    def tail(self):
        self.log.flush()
        return open(os.path.join(self.dir, "log")).read()[-3000:]


def wait(job):
    while True:
        r = job.poll()
        if r is not None:
            return r
        time.sleep(0.2)


def write_replay(prop, sub, case, message, seed, tier, prior=()):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s.json" % (prop, sub))
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=message,
                       prior=list(prior),
                       seed=seed, tier=tier,
                       how="%s %s/run.py %s --replay <this file>" %
                           (PY, HERE, prop)), f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def main(argv):
    if argv and argv[0] == "--worker":
        prop, sub, tier, seed, out, status = argv[1:7]
        worker(prop, sub, tier, int(seed), out, status,
               argv[7] if len(argv) > 7 else None)
    if argv and argv[0] == "--selftest":
        scratch = tempfile.mkdtemp(prefix="verif_")
        try:
            return subprocess.call(
                [PY, "-c", "import hypothesis, numpy, vlib.core; print('ok')"],
                env=worker_env(scratch), cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return check(prop, tier, seed, scratch, argv)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, scratch, argv):
    t0 = time.time()
    env = worker_env(scratch)
    if "--replay" in argv:
        path = os.path.abspath(argv[argv.index("--replay") + 1])
        sub = json.load(open(path))["sub"]
        r = wait(Job(prop, sub, tier, seed, scratch, env, replay=path))
        print(json.dumps(r[1] if r[0] == "done" else r, indent=1)[:4000])
        bad = r[0] in ("crash", "hang") or (
            r[0] == "done" and r[1]["violation"])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if r[0] == "done" and not r[1]["error"] else 2

    # names of the sub-checks, without importing the code under test
    names = json.load(open(os.path.join(HERE, "checks", "subs.json")))[prop]
    if "--only" in argv:
        names = [argv[argv.index("--only") + 1]]
    known_entries = [e for e in json.load(open(os.path.join(
        HERE, "known_findings.json")))["findings"] if e["property"] == prop]
    todo = list(names) + (["__known__"] if known_entries else [])
    running, results, violations, errors = [], [], [], []
    while todo or running:
        while todo and len(running) < NPROC:
            running.append(Job(prop, todo.pop(0), tier, seed, scratch, env))
        time.sleep(0.1)
        for j in list(running):
            r = j.poll()
            if r is None:
                continue
            running.remove(j)
            if r[0] == "done":
                res = r[1]
                res["wall"] = time.time() - j.t0
                results.append(res)
                if res["error"]:
                    errors.append("%s: %s" % (j.sub, res["error"]))
                if res["violation"]:
                    violations.append((j.sub, res["violation"]["case"],
                                       res["violation"]["message"],
                                       res["violation"].get("prior", ())))
            elif r[0] == "error":
                errors.append("%s: %s" % (j.sub, r[1]))
            else:
                what = ("the process died with signal %s" % r[2]
                        if r[0] == "crash" else
                        "no answer within %d s" % CASE_LIMIT)
                # confirm in a fresh process before calling it a violation
                if r[1] is None:
                    # died or hung while importing the code under test
                    j2 = Job(prop, j.sub, tier, seed, scratch, env)
                    r2 = wait(j2)
                    ok = r2[0] == r[0] and r2[1] is None
                else:
                    p = os.path.join(j.dir, "case.json")
                    json.dump(dict(sub=j.sub, case=r[1]), open(p, "w"))
                    r2 = wait(Job(prop, j.sub, tier, seed, scratch, env,
                                  replay=p))
                    ok = r2[0] == r[0]
                    if not ok and r[0] == "crash":
                        # memory corruption need not repeat on one case:
                        # repeat the whole sequence
                        r2 = wait(Job(prop, j.sub, tier, seed, scratch, env))
                        ok = r2[0] == "crash"
                if ok:
                    violations.append((j.sub, r[1], what, ()))
                elif r2[0] == "done" and r2[1]["violation"]:
                    violations.append((j.sub, r[1],
                                       r2[1]["violation"]["message"], ()))
                else:
                    errors.append("%s: %s, not repeatable\n%s" %
                                  (j.sub, what, j.tail()))
    known_now = [k for r in results for k in r.get("known", [])]
    for e in known_entries:
        if e["key"] in known_now:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    results = [r for r in results if r["sub"] != "__known__"]
    results.sort(key=lambda r: names.index(r["sub"]))
    rule = ""
    for d in os.listdir(scratch):
        p = os.path.join(scratch, d, "rule")
        if os.path.exists(p):
            rule = open(p).read()
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=sum(len(r["nontrivial"]) for r in results),
            rule=rule,
            samples=[dict(sub=r["sub"], case=s)
                     for r in results for s in r["samples"][:1]][:8],
            per_sub={r["sub"]: dict(evaluations=r["evaluations"],
                                    distinct_nontrivial=len(r["nontrivial"]),
                                    labels=r["labels"],
                                    wall_s=round(r.get("wall", 0), 1))
                     for r in results}),
        assumptions=[
            "bulk numeric content is a pseudo-random function of a seed drawn "
            "by the generator; structure and special values are drawn directly",
            "numpy, scipy, numba, dask and ducc0 as installed are trusted"],
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if "--only" not in argv:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    for r in results:
        print("%s/%s: %d cases, %d distinct non-trivial, %.1f s %s" %
              (prop, r["sub"], r["evaluations"], len(r["nontrivial"]),
               r.get("wall", 0), r["labels"] if "-v" in argv else ""))
    for e in errors:
        print("HARNESS ERROR %s" % e)
    if violations:
        for sub, case, msg, prior in violations:
            path = write_replay(prop, sub, case, msg, seed, tier, prior)
            print("  %s: %s" % (sub, msg))
            print("  case: %s" % json.dumps(case)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %.1f s" %
          (prop, ev["coverage"]["evaluations"],
           ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
