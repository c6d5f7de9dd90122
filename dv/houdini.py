"""(development) Loop invariants of all loops of a function at once: every run assumes what is still alive at each loop and
drops what was not proved, until everything is. The result goes to hints.json; make_baseline.py --hinted then records it.
    python3-vt houdini.py NAME [--case N] [--inner N] [--rounds N] [--start FILE] [--drop WORD] ..."""
import sys, re, json, time
import loops, exec as ex_, verify, frontend, registry
sys.setrecursionlimit(20000)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    name, case, inner, rounds = a[0], int(opt("--case", 0)), int(opt("--inner", 6)), int(opt("--rounds", 12))
    drop = [a[k + 1] for k, x in enumerate(a) if x == "--drop"]
    save = opt("--save", "/tmp/houdini_%s_%d.json" % (name, case))
    prog, reg = frontend.load(), registry.load()
    c = [c for c in reg.all if c.name == name][0]
    f = verify.find_func(prog, c)[0]
    fx = list(verify.cases(c))[case]
    dead = set()
    if "--start" in a:
        dead = {tuple(x) for x in json.load(open(opt("--start", "")))}
    orig = loops.candidates
    cur = {}

    def cands(ex, st0, head, M, suffix, loopvar, cond, inc, body, n):
        r = orig(ex, st0, head, M, suffix, loopvar, cond, inc, body, n)
        ex._case = tuple(sorted(str(v[1]) for v in st0.known.values()))
        ids = sorted({int(x) for q in r for x in re.findall(r"\b\d{2,}\b", q.name)})
        ex._plain = {id(q): re.sub(r"\b\d{2,}\b", lambda m: "#%d" % ids.index(int(m.group(0))), q.name) for q in r}
        return r
    loops.candidates = cands
    ex_.Exec.next_hint = lambda self, total: set(range(total))

    def pool(ex):
        seen, which = {}, {}

        def pick(n, cs, index):
            q = (n.line, ex._case)
            seen[q] = seen.get(q, -1) + 1
            key = "%s/%s/%d" % (n.line, ",".join(ex._case), seen[q])
            out, names = [], {}
            for x in cs:
                nm = ex._plain[id(x)]
                names[nm] = names.get(nm, -1) + 1
                tag = "%s@%d" % (nm, names[nm])
                if (key, tag) in dead or any(w in nm for w in drop):
                    continue
                x.label = "%s\u00a7%s\u00a7%s" % (x.name, key, tag)
                out.append(x)
            print("   ", key, "candidates", len(cs), "alive", len(out), flush=True)
            return out
        return pick
    init = ex_.Exec.__init__

    def mk(self, *x, **k):
        init(self, *x, **k)
        self.pool = pool(self)
    ex_.Exec.__init__ = mk
    for r in range(rounds):
        t0 = time.time()
        o = verify.run(prog, reg, c, f, fx, dict(inner=inner, timeout=8 if r < rounds - 1 else 20, exec_limit=1500, solve_limit=900, hints=[[0, []]]))
        if o.get("unsupported"):
            print(o["unsupported"])
            return
        gone, bad = 0, []
        for x in o["obligations"]:
            if x["result"] == "proved":
                continue
            q = x["name"].split("\u00a7")
            if len(q) >= 3:
                k = (q[1], q[2].split(" [")[0])
                if k not in dead:
                    gone += 1
                    if "-m" in a:
                        print(x.get("model"))
                    if gone < 25:
                        print("      drop", k[0], q[0].split("/")[-1], x["result"], flush=True)
                dead.add(k)
            else:
                bad.append((x["name"], x.get("line"), x["result"]))
        print("round", r, "obligations", len(o["obligations"]), "dropped", gone, "other", len(bad), "%.0f s" % (time.time() - t0), sorted(set(bad))[:30], flush=True)
        json.dump(sorted(dead), open(save, "w"))
        if not gone:
            h = verify.load_hints()
            json.dump(o["kept"], open(save + ".kept", "w"))
            if "--write" in a:
                h[verify.key(c, case)] = o["kept"]
                json.dump(h, open("hints.json", "w"), sort_keys=True)
            return


main()
