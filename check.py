#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE

Decides one property on the current tree of /repo:
1. every obligation of the contracts that carries the property is generated from the sources and given to the solvers;
2. the same contracts are evaluated on runs of the compiled functions (bounded, not counted as proved); a failing run
   is the failing input of a violation.
"""
import os, sys, time, json, random, pickle, tempfile, shutil, signal, importlib, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "dv"), os.path.join(HERE, "conc")]
sys.setrecursionlimit(20000)
REPO = os.environ.get("DV_REPO", "/repo")
NPROC = 8
import registry
import conc, scen, extra
from contracts import c_step

LIMITS = {"quick": dict(conc=float(os.environ.get("DV_CONC", 30)), sym=150, timeout=10, nconc=3),
          "thorough": dict(conc=420, sym=760, timeout=40, nconc=4)}
WEIGHT = {"Step": 3.0, "RelaxTerrain": 1.5, "RelaxBodySoil": 1.5, "MoveIntersectingCells": 1.5}


# ---- what belongs to a property -----------------------------------------------------------------------------------------

def key(c):
    return c.name + ("/" + c.variants if c.variants else "")


def frame_tags(c, name):
    t = set(c.opts.get("frame_tags", ()))
    for n, x in (("body_soil_pos", "C02"), ("body_soil_ ", "C02"), ("terrain", "C01"), ("sim_out.body_ ", "C03"), ("area", "C16"), ("equilibrium", "C07"),
                 ("pose", "C12")):
        if n in name:
            t.add(x)
    return t


def all_tags(c):
    t = set(c.opts.get("frame_tags", ()))
    for cl in c.ensures:
        if not cl.lemma:
            t |= set(cl.tags)
    return t


def scenarios(prop):
    out = []
    for c in registry.contracts():
        k = key(c)
        if k in scen.CASES and (prop == "C08" or prop in all_tags(c)):
            out.append(k)
    if prop in all_tags(c_step.STEP) or prop == "C08":
        out.append("Step")
    for k, (g, tags) in extra.CUSTOM.items():
        if tags and prop in tags:
            out.append(k)
    return out


CTORS = ("SimParam", "Body", "Bucket", "Blade", "Grid", "SimOut")
BYKEY = {key(c): c for c in registry.contracts()}


def make(name, seed):
    r = random.Random("%s/%s" % (name, seed))
    if name in extra.CUSTOM:
        return extra.CUSTOM[name][0](r)
    return scen.CASES[name](r)


def run_case(name, seed, drv, prop):
    """-> None (not a case), (text, failures)"""
    try:
        x = make(name, seed)
    except scen.Retry:
        return None
    c = BYKEY.get(name) if name != "Step" else c_step.STEP
    try:
        if name in extra.CUSTOM:
            bad = x.run(drv, {prop}) if name in ("Step", "files") else x.run(drv)
            text = x.full
        else:
            x.drv = drv
            if conc.requires(c, x):
                return None
            x.full = x.text() + "\ncall " + x.call
            res = x.run(drv)
            bad = conc.evaluate(c, x, res, {prop})
            text = x.full
    except (conc.Crash, conc.Hang) as e:
        return x.full, [(str(e), (prop,), "")]
    out = []
    for n, t, w in bad:
        t = set(t)
        if "frame" in t and c is not None:
            t |= frame_tags(c, n)
        if n in ("never refuses", "returns", "grid sizes"):
            t.add(prop)
        if prop in t:
            out.append((n, sorted(t), str(w)))
    return text, out


def conc_worker(names, wid, seed, seconds, exe, prop, until=None):
    """evaluates the contracts on generated calls; -> statistics, first failure"""
    drv = conc.Driver(exe)
    spent = {n: 0.0 for n in names}
    cnt = {n: 0 for n in names}
    calls = {n: set() for n in names}
    end = time.time() + seconds
    k = 0
    fail, sample = None, None
    try:
        while time.time() < end:
            n = min(names, key=lambda x: spent[x] / WEIGHT.get(x, 1.0))
            t0 = time.time()
            s = "%s/%d/%d" % (seed, wid, k)
            k += 1
            r = run_case(n, s, drv, prop)
            spent[n] += time.time() - t0 + 1e-5
            if r is None:
                continue
            cnt[n] += 1
            calls[n].add(hash(r[0]))
            if sample is None and len(r[0]) < 1500:
                sample = {"scenario": n, "seed": s, "input": r[0]}
            if r[1]:
                fail = dict(scenario=n, seed=s, input=r[0], failures=[list(x) for x in r[1]])
                break
    finally:
        drv.kill()
    return dict(kind="conc", cnt=cnt, distinct={n: len(v) for n, v in calls.items()}, fail=fail, sample=sample)


# ---- the deductive part ---------------------------------------------------------------------------------------------------

def baseline():
    p = os.path.join(HERE, "dv", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def case_key(c, n):
    return "%s|%d" % (key(c), n)


# the long proofs that the check of one property always redoes
FACES = {"DecomposeVectorRectangle": "CalcRectanglePos", "DecomposeVectorTriangle": "CalcTrianglePos"}
PRIMARY = {"UpdateBodySoil": "C18", "RelaxBodySoil": "C07"}


def sym_jobs(prop, tier, reg, prog, base):
    import verify
    jobs = []
    for c in reg.all:
        if c.opts.get("ready") is False:
            continue
        fs = verify.find_func(prog, c)
        for f in fs or [None]:
            for n, fx in enumerate(verify.cases(c)):
                b = base.get(case_key(c, n))
                if b is None or not b.get("tags", {}).get(prop):
                    continue
                if tier == "quick" and b.get("slow") and PRIMARY.get(c.name) != prop:
                    continue
                jobs.append((b.get("wall", 1), c, f, n, fx))
    jobs.sort(key=lambda j: -j[0])
    return jobs


def sym_run(prog, reg, c, f, n, fx, prop, lim, inner):
    import verify
    if f is None:
        return dict(kind="sym", key=case_key(c, n), res={"function": c.name, "case": {}, "unsupported": "function not found", "wall_s": 0})
    opts = {"tags": {prop}, "inner": inner, "timeout": lim["timeout"], "exec_limit": lim["sym"], "solve_limit": lim["sym"]}
    k = case_key(c, n)
    b = baseline().get(k, {})
    o, t0 = None, time.time()
    hint = verify.load_hints().get(k)
    if hint is not None:
        # start from the loop invariants kept on the unchanged tree: each is an obligation here. Anything that fails is
        # looked at again with the invariants inferred from scratch
        o = verify.run(prog, reg, c, f, fx, dict(opts, hints=hint))
        left = lim["sym"] - (time.time() - t0)
        inv = [x for x in o.get("obligations", []) if x["kind"] == "inv" and x["result"] != "proved" and x["name"] not in b.get("unproved", ())]
        ref = [x for x in o.get("obligations", []) if x["kind"] != "inv" and x["result"] == "refuted" and x["name"] not in b.get("unproved", ())]
        if not o.get("unsupported") and not inv and ref and left <= 1.3 * b.get("full", 0):
            # no time to infer the invariants again: look for a failing input, but raise no alarm without one
            for x in ref:
                x["result"] = "not proved (invariants not inferred again)"
        elif o.get("unsupported") or inv or (ref and left > 1.3 * b.get("full", 0)):
            o = None
            opts["exec_limit"] = opts["solve_limit"] = max(left, 20)
    if o is None:
        o = verify.run(prog, reg, c, f, fx, opts)
    return dict(kind="sym", key=case_key(c, n), res=o)


class Sched:
    """runs functions in child processes, at most NPROC at a time"""

    def __init__(self, work):
        self.work, self.q, self.live, self.done = work, [], {}, []
        self.n = 0

    def add(self, fn, *a, **kw):
        self.q.append((fn, a, kw))

    def pump(self, nmax=NPROC):
        while self.q and len(self.live) < nmax:
            fn, a, kw = self.q.pop(0)
            self.n += 1
            path = os.path.join(self.work, "out%d" % self.n)
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                try:
                    r = fn(*a, **kw)
                    with open(path + ".t", "wb") as h:
                        pickle.dump(r, h)
                    os.rename(path + ".t", path)
                except BaseException:
                    import traceback
                    with open(path + ".err", "w") as h:
                        h.write(traceback.format_exc())
                os._exit(0)
            self.live[pid] = (path, time.time())

    def wait(self):
        """-> results that arrived"""
        out = []
        while True:
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                break
            if pid in self.live:
                path, t = self.live.pop(pid)
                if os.path.exists(path):
                    out.append(pickle.load(open(path, "rb")))
                else:
                    e = open(path + ".err").read() if os.path.exists(path + ".err") else "child ended with %d" % st
                    out.append(dict(kind="error", error=e))
        return out

    def stop(self):
        for pid in self.live:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        while self.live:
            try:
                pid, st = os.waitpid(-1, 0)
                self.live.pop(pid, None)
            except ChildProcessError:
                break
        self.q = []


TRUST = ["cell heights, distances and angles are real numbers and indices mathematical integers in the proofs (single precision and overflow are not modelled; the runs of the compiled code use both)",
         "heights are measured in cell heights in the proofs (cell_size_z = 1), the tolerance is a constant between 0 and 1/10 of it",
         "the front end (clang -ast-dump of the current sources), the executor in dv/, z3 4.x and cvc5",
         "std:: containers, <cmath> and <random> follow their specification; logging has no effect on the state",
         "ledger lemmas: the amounts of a parcel list per cell and layer are the sums of its non-negative entries"]


def main():
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    lim = dict(LIMITS[tier])
    if tier == "quick" and prop in PRIMARY.values():
        lim["sym"] = 260
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    work = tempfile.mkdtemp(prefix="dv_%s_" % prop)
    try:
        rc = decide(prop, tier, seed, lim, work, ev, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(prop, tier, seed, lim, work, ev, t0):
    import frontend
    names = scenarios(prop)
    exe, msg = conc.build(os.path.join(work, "drv"), REPO)
    if exe is None:
        print("cannot build the sources: " + msg)
        return 2
    s = Sched(work)
    for w in range(lim["nconc"]):
        s.add(conc_worker, names, w, seed, lim["conc"], exe, prop)
    s.pump()
    base = baseline()
    err = None
    reg = prog = None
    try:
        prog = frontend.load()
        reg = registry.load()
        jobs = sym_jobs(prop, tier, reg, prog, base)
    except Exception as e:
        jobs, err = [], "front end: %s: %s" % (type(e).__name__, e)
    free = NPROC - lim["nconc"]
    inner = max(1, min(4, free // max(1, len(jobs)))) if jobs else 1
    for wall, c, f, n, fx in jobs:
        s.add(sym_run, prog, reg, c, f, n, fx, prop, lim, inner)
    results, stats, fail, errors, samples = [], [], None, [], []
    suspects = []
    deadline = t0 + lim["sym"] + 60
    hunted = set()
    while s.q or s.live:
        s.pump()
        for r in s.wait():
            if r["kind"] == "error":
                errors.append(r["error"])
            elif r["kind"] == "conc":
                stats.append(r)
                if r["sample"]:
                    samples.append(r["sample"])
                if r["fail"] and fail is None:
                    fail = r["fail"]
            else:
                results.append(r)
                b = base.get(r["key"], {})
                for o in r["res"].get("obligations", []):
                    weak = o["result"].startswith("not proved")
                    if (o["result"] == "refuted" or weak) and o["name"] not in b.get("unproved", ()) and not b.get("partial"):
                        if not weak:
                            suspects.append((r, o))
                        nm = r["key"].split("|")[0]
                        nm = "Step" if nm.startswith("Step/") else "constructors" if nm in CTORS else "noise" if nm in ("Init", "simplex_noise") else FACES.get(nm, nm)
                        if (nm in scen.CASES or nm in extra.CUSTOM) and nm not in hunted:
                            hunted.add(nm)
                            for w in range(3):
                                s.q.insert(0, (conc_worker, ([nm], 100 + w, seed, 25 if tier == "quick" else 120, exe, prop), {}))
        if fail:
            s.stop()
            break
        if time.time() > deadline:
            late = [j for j in s.live]
            errors.append("time limit: %d jobs not finished" % (len(s.live) + len(s.q)))
            s.stop()
            break
        time.sleep(0.05)
    return report(prop, tier, seed, lim, ev, t0, names, results, stats, fail, suspects, errors, samples, err, base, jobs)


def report(prop, tier, seed, lim, ev, t0, names, results, stats, fail, suspects, errors, samples, err, base, jobs):
    ob = pr = 0
    backends, funcs, undecided, solver = {}, {}, [], 0.0
    inlined, used = set(), set()
    for r in sorted(results, key=lambda r: r["key"]):
        o = r["res"]
        nm = r["key"]
        fn = funcs.setdefault(nm.split("|")[0], {"cases": 0, "obligations": 0, "discharged": 0})
        fn["cases"] += 1
        if o.get("unsupported"):
            undecided.append("%s: %s" % (nm, o["unsupported"]))
            continue
        inlined |= set(o.get("inlined", []))
        used |= set(o.get("contracts", []))
        for x in o.get("obligations", []):
            ob += 1
            fn["obligations"] += 1
            solver += x["time"]
            if x["result"] == "proved":
                pr += 1
                fn["discharged"] += 1
                backends[x["backend"] or "z3"] = backends.get(x["backend"] or "z3", 0) + 1
            else:
                undecided.append("%s/%s line %s: %s" % (nm, x["name"], x["line"], x["result"]))
    cnt, dist = {}, {}
    for st in stats:
        for k, v in st["cnt"].items():
            cnt[k] = cnt.get(k, 0) + v
        for k, v in st["distinct"].items():
            dist[k] = dist.get(k, 0) + v
    path = os.path.join(ev, "replay_%s.json" % prop)
    verdict = 0
    line = None
    if fail:
        json.dump(dict(property=prop, kind="run", **fail), open(path, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        verdict = 1
        print("%s: %s" % (fail["scenario"], "; ".join("%s %s" % (x[0], x[2]) for x in fail["failures"][:3])))
    elif suspects:
        json.dump(dict(property=prop, kind="obligation", obligations=[
            dict(function=r["key"], name=o["name"], line=o["line"], result=o["result"], model=o["model"]) for r, o in suspects[:20]]),
            open(path, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
        verdict = 1
        print("refuted: " + "; ".join("%s/%s line %s" % (r["key"], o["name"], o["line"]) for r, o in suspects[:3]))
    e = {"property": prop, "tier": tier, "seed": seed, "level": level(prop), "wall_s": round(time.time() - t0, 1),
         "violations": verdict,
         "coverage": {
             "obligations": ob, "discharged": pr, "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
             "trusted_base": TRUST, "functions_under_contract": funcs, "back_ends": backends, "solver_s": round(solver, 1),
             "contracts_used_at_calls": sorted(used),
             "contracts_assumed_not_proved": sorted(used - {v["function"] for v in base.values() if not v["unproved"]}), "functions_inlined": sorted(inlined),
             "undecided": undecided[:60], "errors": errors[:5] + ([err] if err else []),
             "bounded": {"what": "contracts of these functions evaluated on generated calls of the compiled code (address and undefined-behaviour "
                                 "sanitizers on); grids up to 23x21 cells, histories up to 12 steps; not counted as proved",
                         "evaluations": sum(cnt.values()), "distinct": sum(dist.values()), "per_function": cnt},
             "evaluations": sum(cnt.values()), "distinct_nontrivial": sum(dist.values()),
             "rule": "random states satisfying the preconditions of the contract, one call (or history) each; distinct inputs counted",
             "samples": samples[:2],
             "explanation": "obligations of the contracts that carry the property, plus the contracts evaluated on runs (bounded)"},
         "assumptions": TRUST}
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided; %d runs; %.0f s" % (prop, ob, pr, len(undecided), sum(cnt.values()), time.time() - t0))
    if errors:
        print("errors: %s" % errors[0][-300:])
    for l in known(prop):
        print(l)
    if line:
        print(line)
        return 1
    if not sum(cnt.values()) and not ob:
        return 2
    return 0


def level(prop):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "other"


def known(prop):
    p = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(p):
        return []
    return ["KNOWN-FINDING: " + l.strip() for l in open(p) if l.startswith("property=%s " % prop)]


def replay(path):
    d = json.load(open(path))
    if d["kind"] != "run":
        print(json.dumps(d, indent=1)[:4000])
        return 0
    work = tempfile.mkdtemp(prefix="dv_replay_")
    try:
        exe, msg = conc.build(work, REPO)
        r = run_case(d["scenario"], d["seed"], conc.Driver(exe), d["property"])
        print(r[0])
        print(r[1] if r and r[1] else "holds")
        return 1 if r and r[1] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
