import sys, os, time, random
sys.path.insert(0, "/verif/dv"); sys.path.insert(0, "/verif/conc")
sys.setrecursionlimit(20000)
import conc, scen, importlib
from collections import Counter
MODS = ["c_relax", "c_intersect", "c_body_soil", "c_utils", "c_body_pos", "c_step"]
C = {}
for m in MODS:
    for c in importlib.import_module("contracts." + m).CONTRACTS:
        C[c.name + ("/" + c.variants if c.variants else "")] = c
if __name__ == "__main__":
    exe, msg = conc.build("/tmp/cw", os.environ.get("DV_REPO", "/repo"))
    assert exe, msg
    names = [a for a in sys.argv[2:]] or list(scen.CASES)
    N = int(sys.argv[1])
    d = conc.Driver(exe)
    for nm in names:
        t0 = time.time(); bad = Counter(); ex = {}; pre = Counter(); n = 0; retry = 0
        for s in range(N):
            r = random.Random("%s%d" % (nm, s))
            try:
                c = scen.CASES[nm](r)
            except scen.Retry:
                retry += 1; continue
            c.drv = d
            q = conc.requires(C[nm], c)
            if q:
                pre[q[0]] += 1; continue
            n += 1
            try:
                res = c.run(d)
                b = conc.evaluate(C[nm], c, res)
            except (conc.Crash, conc.Hang) as e:
                b = [(str(e)[:150], ("C08",), ())]
            for x in b:
                bad[x[0]] += 1; ex.setdefault(x[0], (s, x[2]))
        print("%-28s n=%d retry=%d pre=%s %.1fms %s" % (nm, n, retry, dict(pre), 1000 * (time.time() - t0) / max(1, N), {k: (v, ex[k]) for k, v in bad.items()}))
