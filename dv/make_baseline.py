"""Runs the verifier on every function under contract and records, per function and case, which obligations the
unchanged tree proves (baseline.json) and the loop invariants it kept (hints.json). Names in 'unproved' never raise an alarm.
Each run is done twice: invariants inferred, then started from the recorded ones (what the checks do first).
    python3-vt make_baseline.py [--hinted] [NAME ...]      --hinted: keep the recorded invariants, only redo the second run"""
import sys, os, json, time, fcntl
import multiprocessing as mp
import verify, frontend, registry
sys.setrecursionlimit(20000)
LIM = {"inner": 8, "timeout": 20, "exec_limit": 3000, "solve_limit": 1500}
HERE = os.path.dirname(os.path.abspath(__file__))
P, PH = os.path.join(HERE, "baseline.json"), os.path.join(HERE, "hints.json")


def bad_of(o):
    return sorted(set(x["name"] for x in o["obligations"] if x["result"] != "proved"))


def put(k, entry, hint):
    with open("/tmp/.baseline.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for p, v in ((P, entry), (PH, hint)):
            d = json.load(open(p)) if os.path.exists(p) else {}
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
            json.dump(d, open(p, "w"), indent=1 if p == P else None, sort_keys=True)


def one(job):
    ci, fi, n, again = job
    sys.setrecursionlimit(20000)
    prog, reg = frontend.load(), registry.load()
    c = reg.all[ci]
    f = verify.find_func(prog, c)[fi]
    fx = list(verify.cases(c))[n]
    k = verify.key(c, n)
    base = json.load(open(P)) if os.path.exists(P) else {}
    hints = verify.load_hints()
    hint, o = hints.get(k), None
    if not (again and hint is not None):
        o = verify.run(prog, reg, c, f, fx, LIM)
        if o.get("unsupported"):
            put(k, None, None)
            print(k, o["unsupported"][:150], flush=True)
            return
        hint = o["kept"]
    h = verify.run(prog, reg, c, f, fx, dict(LIM, hints=hint))
    b1 = bad_of(o) if o else None
    b2 = None if h.get("unsupported") else bad_of(h)
    print("  ", k, "inferred", o and (o["exec_s"], o["wall_s"], len(b1)), "from hints", h.get("unsupported") or (
        h["exec_s"], h["wall_s"], len(b2)), flush=True)
    if b2 is None or b1 is not None and len(b2) > len(b1):
        hint, h = None, o
    if h is None:
        return
    ob = h["obligations"]
    bad = sorted(set(bad_of(h)) | set(b1 or ()))
    tags = {}
    for x in ob:
        for t in x["tags"]:
            tags[t] = tags.get(t, 0) + 1
    if "*" in tags:
        n0 = tags.pop("*")
        for t in ["C%02d" % q for q in range(1, 20)]:
            if t in tags:
                tags[t] += n0
    put(k, dict(function=c.name, obligations=len(ob), unproved=bad, tags=tags, wall=round(h["exec_s"], 1),
                full=round(o["exec_s"], 1) if o else base.get(k, {}).get("full", 0), slow=h["wall_s"] > 90), hint)
    print(k, len(ob), len(bad), bad[:4], h["wall_s"], flush=True)


if __name__ == "__main__":
    names = [x for x in sys.argv[1:] if x[0] != "-"]
    prog, reg = frontend.load(), registry.load()
    jobs = [(ci, fi, n, "--hinted" in sys.argv) for ci, c in enumerate(reg.all) if c.opts.get("ready") is not False and (not names or c.name in names)
            for fi, f in enumerate(verify.find_func(prog, c)) for n, fx in enumerate(verify.cases(c))]
    with mp.Pool(int(os.environ.get("JOBS", "5")), maxtasksperchild=1) as pool:
        for _ in pool.imap_unordered(one, jobs, 1):
            pass
