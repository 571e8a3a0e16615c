"""Runs the check of one property:  python -m symex.run C06 [--tier thorough]"""
import argparse
import importlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)


class Replayer:
    """one concrete process per worker, started when first needed"""

    def __init__(self, prop, tier, overlay_flag):
        self.prop, self.tier, self.flag = prop, tier, overlay_flag
        self.p = None
        self.n = 0

    def __call__(self, case, inputs):
        for attempt in (0, 1):
            try:
                r = self._call(case, inputs)
                if r["status"] != "timeout" or attempt:
                    return r
            except (BrokenPipeError, json.JSONDecodeError, OSError):
                self.close()
        return {"status": "broken replayer"}

    def _call(self, case, inputs):
        if self.p is None:
            t0 = time.time()
            while not os.path.exists(self.flag + ".ok"):
                if os.path.exists(self.flag + ".err") or time.time() - t0 > 300:
                    return {"status": "no build"}
                time.sleep(0.1)
            env = dict(os.environ, PYTHONPATH=VERIF, OMP_NUM_THREADS="1",
                       OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                       PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            self.p = subprocess.Popen(
                [PY, "-m", "symex.concrete", self.prop, self.tier, self.flag],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=VERIF, env=env,
                text=True, bufsize=1, start_new_session=True)
        self.p.stdin.write(json.dumps({"case": case, "inputs": inputs}) + "\n")
        self.p.stdin.flush()
        self.n += 1
        return json.loads(self.p.stdout.readline())

    def close(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p = None


def worker(prop, tier, case, flag, deadline, out, opts):
    from . import harness
    resource.setrlimit(resource.RLIMIT_AS, (
        14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    rep = Replayer(prop, tier, flag)
    res = {"case": case.name}
    try:
        r = harness.CaseRun(prop, case, rep, deadline,
                            timeout_ms=opts["timeout_ms"]).run()
        res.update(
            stats=r.E.stats, violations=r.violations, unreproduced=r.unreproduced,
            complete=r.complete, left=r.left, wall=r.wall, validated=r.validated,
            samples=r.samples, files=sorted(r.files), replays=rep.n,
            extra=getattr(r, "extra", {}))
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        rep.close()
    with open(out, "wb") as f:
        pickle.dump(res, f)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:") and f"property={prop} " in ln + " ":
                out.append(ln)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--time", type=float, default=None)
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get(
        "SYMEX_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    os.environ["PYTHONHASHSEED"] = "0"
    mod = importlib.import_module("checks." + prop)
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    budget = a.time or getattr(mod, "BUDGET", {}).get(
        tier, 480 if tier == "quick" else 1500)
    deadline = t0 + budget
    opts = {"timeout_ms": getattr(mod, "TIMEOUT_MS", 60000 if tier == "quick"
                                  else 300000)}
    scratch = tempfile.mkdtemp(prefix="symex_")
    flag = os.path.join(scratch, "overlay")
    bpid = os.fork()
    if bpid == 0:
        try:
            from . import concrete
            concrete.make_overlay(flag)
            open(flag + ".ok", "w").close()
        except BaseException:
            with open(flag + ".err", "w") as f:
                f.write(traceback.format_exc())
        os._exit(0)
    from . import harness                      # loads z3 before forking
    import warnings
    warnings.simplefilter("ignore")
    import cv2, scipy.ndimage, skimage.io, prettytable  # noqa
    import scipy.interpolate, scipy.io, scipy.signal, skimage.util  # noqa
    import scipy.sparse, matplotlib.pyplot, multiprocessing, logging  # noqa
    cv2.setNumThreads(1)
    running, results = {}, []
    todo = sorted(cases, key=lambda c: -c.prio)
    viol = 0
    try:
        while todo or running:
            while todo and len(running) < a.jobs and viol == 0 \
                    and time.time() < deadline:
                c = todo.pop(0)
                out = os.path.join(scratch, f"r{len(results)}_{id(c)}")
                pid = os.fork()
                if pid == 0:
                    try:
                        worker(prop, tier, c, flag, deadline, out, opts)
                    finally:
                        os._exit(0)
                running[pid] = (c, out, time.time())
            if not running:
                for c in todo:
                    results.append(dict(case=c.name, skipped=True))
                break
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                late = time.time() > deadline + 45
                if late or viol and time.time() > viol + 20:
                    for q in list(running):
                        try:
                            os.kill(q, signal.SIGKILL)
                        except OSError:
                            pass
                time.sleep(0.02)
                continue
            if pid == bpid:
                continue
            if pid not in running:
                continue
            c, out, ts = running.pop(pid)
            if os.path.exists(out) and os.path.getsize(out):
                r = pickle.load(open(out, "rb"))
            else:
                r = dict(case=c.name, error=f"worker ended ({st})")
            results.append(r)
            if r.get("violations") and not viol:
                viol = time.time()
                todo_left = [c.name for c in todo]
                for n in todo_left:
                    results.append(dict(case=n, skipped=True))
                todo = []
            if a.verbose:
                s = r.get("stats")
                print(f"  {c.name}: " + (
                    f"paths={s.paths} q={s.queries} solver={s.solver_s:.1f}s "
                    f"wall={r['wall']:.1f}s complete={r['complete']} "
                    f"validated={r['validated']} "
                    f"viol={len(r['violations'])} unrep={len(r['unreproduced'])} "
                    f"limits={s.limits} notes={s.notes}" if s else
                    r.get("error", "skipped")[-1500:]), flush=True)
                for u in r.get("unreproduced", [])[:1]:
                    print("    unreproduced:", u["labels"], str(u["exc"])[-500:],
                          json.dumps(u["inputs"])[:600], u["replay"])
    finally:
        for q in list(running):
            try:
                os.kill(q, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(bpid, 0)
        except ChildProcessError:
            pass
        build_err = None
        if os.path.exists(flag + ".err"):
            build_err = open(flag + ".err").read()
        shutil.rmtree(scratch, ignore_errors=True)
    if build_err:
        print("build of the current tree failed:\n" + build_err, file=sys.stderr)
        sys.exit(2)
    rc = report(prop, tier, seed, mod, cases, results, time.time() - t0, a)
    sys.exit(rc)


def report(prop, tier, seed, mod, cases, results, wall, a):
    from .core import Stats
    tot = Stats()
    viols, unrep, errors, skipped, incomplete = [], [], [], [], []
    validated, files, samples, percase, extra = 0, set(), [], [], {}
    bounds = {c.name: c.bounds for c in cases}
    for r in results:
        n = r["case"]
        if r.get("skipped"):
            skipped.append(n)
            continue
        if "error" in r:
            errors.append((n, r["error"]))
            continue
        s = r["stats"]
        tot.add(s)
        viols += r["violations"]
        unrep += r["unreproduced"]
        validated += r["validated"]
        files |= set(r["files"])
        samples += r["samples"][:1]
        if not r["complete"]:
            incomplete.append(n)
        for k, v in r.get("extra", {}).items():
            extra[k] = sorted(set(extra.get(k, [])) | set(v))
        percase.append(dict(
            case=n, bounds=bounds.get(n, ""), paths=s.paths, queries=s.queries,
            solver_s=round(s.solver_s, 2), wall_s=round(r["wall"], 2),
            assertions=s.asserts, complete=r["complete"], paths_left=r["left"],
            validated=r["validated"], limits=s.limits, notes=s.notes))
    known = known_findings(prop)
    new = []
    for v in viols:
        new.append(v)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot.paths, transitions=tot.decisions,
            traces_validated_against_impl=validated,
            samples=samples[:6] or [dict(note="no path completed")],
            explanation=("bounded symbolic execution of the current source; states "
                         "= feasible paths finished, transitions = branch "
                         "decisions put to the solver; every assertion on every "
                         "finished path was decided by Z3 for all values within "
                         "the bounds of its case"),
            solver_queries=tot.queries, solver_seconds=round(tot.solver_s, 2),
            solver_unknown=tot.unknown, assertions=tot.asserts,
            assertion_sites=tot.assert_sites,
            functions_encoded=list(getattr(mod, "FUNCTIONS", [])),
            files_loaded=sorted(x.replace(os.environ.get(
                "SYMEX_REPO", "/repo") + "/", "") for x in files),
            outside_bounds=getattr(mod, "OUTSIDE", ""),
            cases=percase, incomplete_cases=incomplete, cases_not_run=skipped,
            cases_failed=[n for n, _ in errors],
            engine_limits=tot.limits, engine_notes=tot.notes,
            unreproduced_counterexamples=len(unrep), **extra),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n, e in errors:
        print(f"case {n} ended without a result: {e[-1500:]}", file=sys.stderr)
    for ln in known:
        print("KNOWN-FINDING: " + ln[len("finding:"):].strip())
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:5]):
            p = os.path.join(rd, f"{prop}-{i}.json")
            v["tier"] = tier
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  case {v['case']}: {'; '.join(v['labels'])[:300]} | real run: "
                  f"{v['replay'].get('status')} {v['replay'].get('label', '')[:300]}")
        return 1
    print(f"{prop} {tier}: {len(percase)} cases, {tot.paths} paths, {tot.queries} "
          f"queries ({tot.solver_s:.1f} s), {tot.asserts} assertions, {validated} "
          f"real runs, {len(incomplete)} incomplete, {len(skipped)} not run, "
          f"{len(errors)} failed, {wall:.1f} s")
    if os.environ.get("SYMEX_STRICT") and (incomplete or errors or skipped or unrep):
        for c in percase:
            if not c["complete"]:
                print("INCOMPLETE", c["case"], c["limits"])
        return 3
    return 0


if __name__ == "__main__":
    main()
