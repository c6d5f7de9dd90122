"""concrete runs only, all scenarios: soak.py SECONDS SEED [WORKERS]"""
import sys, os, time, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, conc, scen, extra
import registry
secs, seed, nw = float(sys.argv[1]), sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 4
names = [n for n in list(scen.CASES) + list(extra.CUSTOM) if (len(sys.argv) < 5 or n in sys.argv[4:])]
work = tempfile.mkdtemp(prefix="soak_")
exe, msg = conc.build(os.path.join(work, "drv"), check.REPO)
ALL = {"C%02d" % k for k in range(1, 20)}


def one(name, s, drv):
    try:
        x = check.make(name, s)
    except scen.Retry:
        return None
    c = check.BYKEY.get(name) if name != "Step" else check.c_step.STEP
    try:
        if name in extra.CUSTOM:
            return x.run(drv, ALL) if name in ("Step", "files") else x.run(drv)
        x.drv = drv
        if conc.requires(c, x):
            return None
        x.full = x.text() + "\ncall " + x.call
        return conc.evaluate(c, x, x.run(drv), ALL)
    except (conc.Crash, conc.Hang) as e:
        return [(str(e)[:300], (), "")]


def worker(w):
    drv = conc.Driver(exe)
    spent = {n: 0.0 for n in names}
    cnt = {n: 0 for n in names}
    end = time.time() + secs
    k = 0
    fails = {}
    while time.time() < end:
        n = min(names, key=lambda x: spent[x] / check.WEIGHT.get(x, 1.0))
        t0 = time.time()
        s = "%s/%d/%d" % (seed, w, k)
        k += 1
        r = one(n, s, drv)
        spent[n] += time.time() - t0 + 1e-5
        if r is None:
            continue
        cnt[n] += 1
        for b in r:
            fk = (n, b[0])
            fails[fk] = fails.get(fk, 0) + 1
            if fails[fk] <= 2:
                print("FAIL", n, s, b, flush=True)
    drv.kill()
    print("worker", w, sum(cnt.values()), cnt if w == 0 else "", flush=True)


try:
    pids = []
    for w in range(nw):
        p = os.fork()
        if p == 0:
            worker(w)
            os._exit(0)
        pids.append(p)
    for p in pids:
        os.waitpid(p, 0)
finally:
    shutil.rmtree(work, ignore_errors=True)
