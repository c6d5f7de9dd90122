"""Verification of one function against its contract: entry state from the parameters, symbolic execution of the
function's own body (callees through their contracts), postconditions and frame at every return, and the solving of all
obligations."""
import os, sys, time, json, pickle, subprocess, tempfile, traceback, itertools
from fractions import Fraction
import z3
import terms as T
import values as V
import wf
import contract as K
from values import Num, Bool, StructV, CVec, SVec, LNum, LVec, LStruct, Ptr, Unsupported, fresh, fresh_value, parse_type
from exec import State, Fact, Obl, Budget, HintMiss
from expr import E
import loops

I, R, B = V.I, V.R, V.B


class Registry:
    def __init__(self, contracts):
        self.all = contracts
        self.by = {}
        for c in contracts:
            self.by.setdefault((c.name, len(c.params)), []).append(c)

    def get(self, f):
        for c in self.by.get((f.name, len(f.params)), []):
            if c.callee and self.matches(c, f):
                return c
        return None

    def matches(self, c, f):
        return c.variants is None or any(c.variants in (p.qt or "") for p in f.params)


def find_func(prog, c):
    """the functions of the program the contract is about (several for template instantiations)"""
    out = []
    for f in prog.funcs.get(c.name, []):
        if len(f.params) != len(c.params) or f.body is None and not f.inits:
            continue
        if c.variants is not None and not any(c.variants in (p.qt or "") for p in f.params):
            continue
        if any("T *" in (p.qt or "") for p in f.params):
            continue
        if f.name in ("Grid", "Body", "SimParam", "SimOut", "Bucket", "Blade") and c.opts.get("ctor") and f.cls not in (None, f.name):
            continue
        out.append(f)
    # one per instantiation: prefer the definition in a source file
    best = {}
    for f in out:
        best.setdefault(f.qt, f)
    return list(best.values())


def grid_value(name="grid"):
    f = {}
    for fn, ty, d in V.Types.fields("Grid"):
        f[fn] = fresh_value(ty, name + "." + fn, d)
    f["cell_size_z_"] = Num(Fraction(1), 1)
    return StructV("Grid", f)


def vec_value(name, n, dim):
    return CVec([Num(fresh("%s%d" % (name, k), R), dim) for k in range(n)], ("num", "r"))


def body_value(tyname, name="body"):
    f = {}
    for fn, ty, d in V.Types.fields(tyname):
        if ty == ("vec", ("num", "r")):
            f[fn] = vec_value(name + "." + fn, 4 if fn == "ori_" else 3, d)
        else:
            f[fn] = fresh_value(ty, name + "." + fn, d)
    return StructV(tyname, f)


class Entry:
    pass


def build(ex, c, f, fixed):
    """entry state"""
    st = State()
    ent = Entry()
    ent.locs = {}
    hx, hy = fresh("hx", I), fresh("hy", I)
    st.assume(T.ge(hx, 1)), st.assume(T.ge(hy, 1))
    nx, ny = T.add(T.mul(2, hx), 1), T.add(T.mul(2, hy), 1)
    args, ptrs, env = {}, {}, {}
    grid = None
    for cn, p in zip(c.params, f.params):
        ty = parse_type(p.qt, V.Types.records)
        q = (p.qt or "")
        kind = c.kinds.get(cn)
        lv = None
        if cn in fixed:
            v = fixed[cn]
            val = Num(v, c.dims.get(cn, 1) if isinstance(v, Fraction) else None) if not isinstance(v, bool) else Bool(v)
        elif kind:
            val = kind(cn, c, ent) if callable(kind) else vec_value(cn, kind[1], kind[2]) if kind[0] == "cvec" else None
        elif ty == ("ptr", ("struct", "SimOut")) or ty == ("struct", "SimOut"):
            val = K.make_simout(nx, ny, "s")
        elif ty == ("struct", "Grid"):
            val = grid_value(cn)
            val.f["half_length_x_"], val.f["half_length_y_"] = Num(hx), Num(hy)
            st.assume(T.ge(val.f["half_length_z_"].t, 1))
            st.assume(T.ge(val.f["cell_size_xy_"].t, 1))
            for fn, n in (("vect_x_", nx), ("vect_y_", ny), ("vect_z_", T.add(T.mul(2, val.f["half_length_z_"].t), 1))):
                sv = val.f[fn]
                val.f[fn] = SVec(n, sv.elem, sv.ety, sv.g)
            grid = val
        elif ty[0] == "ptr" and ty[1][0] == "struct" and ty[1][1] in ("Body", "Bucket", "Blade"):
            val = body_value(ty[1][1], cn)
        elif ty == ("ptr", ("vec", ("struct", "body_soil"))):
            val = K.list_value(cn)
        elif ty == ("vec", ("num", "r")):
            val = vec_value(cn, 4 if cn == "ori" else 3, 0 if cn == "ori" else 1)
        elif ty[0] == "num" and ty[1] == "r":
            if V.Grid.on and cn in c.opts.get("whole", ()):
                val = Num(T.toreal(fresh(cn, I)), c.dims.get(cn, 1))
            else:
                val = Num(fresh(cn, R), c.dims.get(cn, 1))
        else:
            val = fresh_value(ty[1] if ty[0] == "ptr" else ty, cn, c.dims.get(cn))
        if isinstance(val, (V.Opaque,)):
            raise Unsupported("parameter %s of type %s" % (cn, q))
        loc = ex.alloc(st, val)
        ent.locs[cn] = loc
        if ty[0] == "ptr":
            ptrs[cn] = loc
            pl = ex.alloc(st, Ptr(loc))
            env[p.get("id")] = pl
        elif q.rstrip().endswith("&"):
            ptrs[cn] = loc
            env[p.get("id")] = loc
        else:
            env[p.get("id")] = loc
        args[cn] = K.unwrap(val)
        if cn == "tol" and "tol" not in fixed:
            T.Mode.tol = None
            st.assume(T.gt(val.t, 0))
            st.assume(T.lt(val.t, Fraction(1, 10)))
            T.Mode.tol = val.t
            T._LIN.clear()
    st.env = env
    ent.st, ent.args, ent.ptrs, ent.grid, ent.nx, ent.ny = st, args, ptrs, grid, nx, ny
    # all the lists hold a non-negative number of elements
    for loc, v in list(st.store.items()):
        for path, x in loops.leafpaths(v):
            if isinstance(x, SVec) and not T.isc(x.len):
                st.assume(T.ge(x.len, 0))
    return ent


def frame(ex, c, ent, s, out):
    """everything outside the modifies clause is as before"""
    for pn, lv in ent.ptrs.items():
        mods = []
        for m in c.modifies:
            parts = m.split(".")
            if parts[0] == pn:
                mods.append(tuple(("i", int(p)) if p.isdigit() else ("f", p) for p in parts[1:]))
        a, b = ent.st0.store[lv[0]], s.store[lv[0]]
        same(ex, s, a, b, (), mods, pn, lv)


def same(ex, s, a, b, path, mods, nm, lv):
    if any(path[:len(m)] == m for m in mods):
        return
    name = nm + "".join("." + str(p[1]) for p in path)
    if V.same_value(a, b):
        ex.oblige(s, "frame/%s unchanged" % name, True, ("frame",), None, "frame")
        return
    if isinstance(a, StructV):
        for k in a.f:
            same(ex, s, a.f[k], b.f[k], path + (("f", k),), mods, nm, lv)
        return
    if isinstance(a, CVec) and isinstance(b, CVec) and len(a.e) == len(b.e):
        for k in range(len(a.e)):
            same(ex, s, a.e[k], b.e[k], path + (("i", k),), mods, nm, lv)
        return
    tags = ("frame",)
    if isinstance(a, (Num, Bool)):
        ex.oblige(s, "frame/%s unchanged" % name, T.eq(a.t, b.t), tags, None, "frame")
        return
    if isinstance(a, SVec) and isinstance(b, SVec) and a.ety == ("vec", ("num", "r")):
        i, j = fresh("i", I), fresh("j", I)
        g = T.eq(V.lower(V.lower(a.elem, i).elem, j).t, V.lower(V.lower(b.elem, i).elem, j).t)
        ins = T.land(T.le(0, i), T.lt(i, ex.nx), T.le(0, j), T.lt(j, ex.ny))
        ex.oblige(s, "frame/%s unchanged" % name, T.limp(ins, g), tags, None, "frame", extra_pts={"cell": [(i, j)]})
        ex.oblige(s, "frame/%s sum unchanged" % name, T.eq(a.g["sum"], b.g["sum"]), tags, None, "frame")
        return
    if isinstance(a, SVec) and isinstance(b, SVec) and isinstance(a.elem, (LNum, LStruct)):
        k = fresh("k", I)
        x, y = V.lower(a.elem, k), V.lower(b.elem, k)
        fs = [(x, y)] if not isinstance(x, StructV) else [(x.f[n], y.f[n]) for n in x.f]
        g = T.land(T.eq(a.len, b.len), *[T.limp(T.land(T.le(0, k), T.lt(k, a.len)), T.eq(p.t, q.t)) for p, q in fs])
        ex.oblige(s, "frame/%s unchanged" % name, g, tags, None, "frame", extra_pts={"list:" + ex.listkey((lv[0], lv[1] + path)): [(k,)]})
        for gk in ("LT", "L", "C"):
            if gk in a.g and not T.same(a.g[gk], b.g[gk]):
                ex.oblige(s, "frame/%s %s unchanged" % (name, gk), T.z(a.g[gk]) == T.z(b.g[gk]), tags, None, "frame")
        return
    ex.oblige(s, "frame/%s unchanged" % name, False, tags, None, "frame")


def symbolic(prog, reg, c, f, fixed, deadline=None, log=None, hints=None):
    """-> (executor, obligations, info)"""
    V.Types.records, V.Types.bases = prog.records, prog.bases
    opts = dict(c.opts)
    opts.setdefault("unroll", c.unroll)
    ex = E(prog, reg, f.name, opts)
    ex._sid = 0
    ex.retref = []
    ex.hints, ex.kept = ([list(x) for x in hints] if hints is not None else None), []
    import exec as exec_mod
    exec_mod.ALIAS.clear()
    ex.lv_init = {}
    ex.cursors = []
    ex.deadline = deadline
    T.Mode.unit = bool(opts.get("unit_mul"))
    T.Mode.dist = bool(opts.get("ctor"))
    T.Mode.poly = bool(opts.get("poly"))
    T.Mode.grid = V.Grid.on = bool(opts.get("grid"))
    T.Mode.round = bool(opts.get("opaque_round"))
    T.Mode.tol = None
    T._LIN.clear()

    def ongrid(t):
        if V.Grid.st is not None:
            ex.oblige(V.Grid.st, "stored height is on the grid", T.isint(t), ("C05",) + tuple(opts.get("index_tags", ())), None, "grid")
    V.Grid.hook = ongrid
    ent = build(ex, c, f, fixed)
    st = ent.st
    so = ent.ptrs.get("sim_out")
    ex.locs0 = ent.locs
    ex.entry_grid = ent.grid
    ex.world_lv = so
    ex.nx, ex.ny = ent.nx, ent.ny
    ex.inv_preds = opts.get("inv_preds", wf.WALLS + wf.SOIL + wf.CLEAR)
    w0 = c.view(ex, st, ent.ptrs)
    ex.entry_world, ex.entry_args, ex.contract = w0, ent.args, c
    l0 = c.lists(ex, st, ent.ptrs, "old_")
    ctx0 = c.ctx(w0, w0, ent.args, None, ex, st, l0)
    if c.pre_setup:
        c.pre_setup(ctx0, ent)
    for cl in c.requires:
        if cl.symbolic:
            c.assume_clause(ex, st, cl, ctx0, so)
    ent.st0 = st.copy()
    ex.entry = ent
    # not vacuous: the precondition has a model
    info = {"pre": str(ex.check(ex.assumptions(st, {"cell": [(fresh("pi", I), fresh("pj", I))]}), 20000)[0])}
    ex.cur_tu = f.tu
    if opts.get("ctor"):
        res = ex.run_ctor(st, f, f.name, [ex.read(st, st.env[p.get("id")]) for p in f.params])
        outs = [(s, o or "return", v) for s, v, o in res]
    else:
        ex.callstack.append(f.name)
        rq = (f.ret or "").strip()
        ex.retref.append(rq.endswith("&"))
        outs = ex.stmt(st, f.body)
    rty = parse_type((f.ret or "").strip(), V.Types.records)
    info["returns"] = 0
    info["throws"] = 0
    info["live"] = 0
    for s, o, v in outs:
        throw = o == "throw"
        if v is not None and not throw and not opts.get("ctor") and rty[0] not in ("other", "void"):
            v = ex.coerce(v, rty)
        w1 = c.view(ex, s, ent.ptrs)
        l1 = c.lists(ex, s, ent.ptrs, "new_")
        c2 = c.ctx(w0, w1, ent.args, K.unwrap(v) if v is not None and not throw else None, ex, s, {**l0, **l1})
        c2.retv = v
        c2.thrown = throw
        c2.ent = ent
        info["throws" if throw else "returns"] += 1
        if c.opts.get("width") and not throw:
            ln = v.elem.len[1] if isinstance(v, V.SVec) and isinstance(v.elem, V.LVec) and isinstance(v.elem.len, tuple) else None
            if isinstance(v, V.CVec):
                ln = c.opts["width"] if all(isinstance(x, V.CVec) and len(x.e) == c.opts["width"] for x in v.e) else None
            ex.oblige(s, "entries of the result have %d numbers" % c.opts["width"], ln == c.opts["width"], ("C08",), None, "post")
        if throw:
            if not c.throws:
                ex.oblige(s, "never refuses", False, ("C14",), None, "post")
                continue
        if ex.feasible(s):
            info["live"] += 1
        for cl in c.ensures:
            if not cl.symbolic or cl.lemma:
                continue
            if throw and not getattr(cl, "on_throw", False):
                continue
            c.prove_clause(ex, s, cl, c2, "post", None, so)
        if not throw and not opts.get("ctor"):
            frame(ex, c, ent, s, c2)
    ex.side_all = list(ex.side)
    return ex, ex.obls, info


def key(c, n):
    return "%s|%d" % (c.name + ("/" + c.variants if c.variants else ""), n)


def load_hints():
    """invariants kept by the inference on the unchanged tree (a guess to start from, never assumed)"""
    try:
        return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "hints.json")))
    except OSError:
        return {}


# ---- solving ------------------------------------------------------------------------------------------------------

def solve1(o, side, timeout, seed=0):
    """an obligation the solver gives up on is tried again one conjunct at a time"""
    if o.result:
        return
    t0 = time.time()
    if o.poly and o.kind == "inv":
        solve_cases(o, side, timeout)
        o.time = time.time() - t0
        return
    solve2(o, side, timeout)
    if o.result == "unknown" and not o.poly:
        goal, parts = o.goal, T.conjuncts(o.goal)
        parts = [(h, y) for x in parts for h, y in (T.store_cases(x) or [(None, x)])]
        if len(parts) > 1:
            base = o.assume
            for h, g in parts:
                o.goal, o.assume = g, base if h is None else base + [h]
                solve2(o, side, timeout)
                if o.result != "proved":
                    break
            o.goal, o.assume = goal, base
    o.time = time.time() - t0


def solve_cases(o, side, timeout):
    """an invariant about the elements of a table: the element just written and the others"""
    goal, base = o.goal, o.assume
    todo = [(base, x, 3) for x in T.conjuncts(goal)]
    while todo:
        b, g, d = todo.pop()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*(b + list(side or []) + [z3.Not(g)]))
        if s.check() == z3.unsat:
            o.result, o.backend = "proved", "z3"
            continue
        cs = T.store_cases(g) if d else None
        if cs:
            todo += [(b + [h], y, d - 1) for h, y in cs]
            continue
        o.goal, o.assume = g, b
        solve2(o, side, timeout)
        if o.result != "proved":
            break
    o.goal, o.assume = goal, base


def solve2(o, side, timeout):
    t0 = time.time()
    if o.poly:
        import poly
        if poly.prove(o.assume, side or [], o.goal, 4 * timeout):
            o.time, o.result, o.backend = time.time() - t0, "proved", "algebra"
            return
        o.assume, side, o.goal = poly.canon(o.assume, side or [], o.goal, 2 * timeout)
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*o.assume)
    if side:
        s.add(*side)
    s.add(z3.Not(o.goal))
    r = s.check()
    o.backend = "z3"
    if r == z3.unknown:
        s2 = z3.SimpleSolver()
        s2.set("timeout", int(timeout * 1000))
        s2.set("random_seed", 17)
        s2.add(s.assertions())
        r2 = s2.check()
        if r2 != z3.unknown:
            r, s = r2, s2
        else:
            rc = cvc5(s, timeout)
            if rc == "unsat":
                r = z3.unsat
                o.backend = "cvc5"
    o.time = time.time() - t0
    o.result = "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
    if r == z3.sat:
        try:
            m = s.model()
            d = []
            for k in m.decls():
                if k.arity() == 0 and not z3.is_array(m[k]):
                    d.append("%s=%s" % (k.name(), m[k]))
            o.model = " ".join(sorted(d))[:1500]
        except Exception:
            pass


def cvc5(s, timeout):
    try:
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        r = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        os.unlink(f.name)
        return r.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"


def result_of(o):
    return {"name": o.name, "tags": o.tags, "line": o.line, "result": o.result, "time": round(o.time, 3), "backend": o.backend,
            "kind": o.kind, "model": o.model}


def run(prog, reg, c, f, fixed, opts):
    """everything for one function and one split case; runs in its own process"""
    t0 = time.time()
    out = {"function": f.name, "qt": f.qt, "case": {k: str(v) for k, v in fixed.items()}, "line": f.node.line,
           "file": os.path.basename(f.node.file or f.tu)}
    try:
        ex, obls, info = symbolic(prog, reg, c, f, fixed, deadline=time.time() + opts.get("exec_limit", 300), hints=opts.get("hints"))
        out["info"] = info
        out["kept"] = ex.kept
        out["exec_s"] = round(time.time() - t0, 2)
        out["contracts"] = sorted(ex.used_contracts)
        out["inlined"] = sorted(ex.inlined)
        out["notes"] = ex.notes
        out["loops"] = ex.loops
        want = opts.get("tags")
        todo = [o for o in obls if want is None or "*" in o.tags or set(o.tags) & want or o.kind == "inv" and opts.get("hints") is not None]
        # identical obligations once
        tl = opts.get("timeout", 10)
        t1 = time.time()
        nw = opts.get("inner", 1)
        res = parallel(todo, ex.side_all, tl, nw, opts.get("solve_limit", 400))
        out["obligations"] = res
        out["solve_s"] = round(time.time() - t1, 2)
        out["queries"] = ex.nq
    except HintMiss as e:
        out["unsupported"] = "HintMiss: %s" % e
    except (Unsupported, Budget) as e:
        out["unsupported"] = "%s: %s" % (type(e).__name__, e)
        if opts.get("trace"):
            out["trace"] = traceback.format_exc()[-3000:]
    except RecursionError as e:
        out["unsupported"] = "RecursionError"
    except Exception as e:
        out["unsupported"] = "internal: %s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-3000:]
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def parallel(todo, side, tl, nw, limit):
    end = time.time() + limit
    if nw <= 1:
        for o in todo:
            if time.time() > end:
                o.result = o.result or "timeout"
                continue
            solve1(o, side, tl)
        return [result_of(o) for o in todo]
    kids = []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = []
            try:
                for k in range(w, len(todo), nw):
                    o = todo[k]
                    if time.time() > end:
                        o.result = o.result or "timeout"
                    else:
                        solve1(o, side, tl)
                    res.append((k, result_of(o)))
            except BaseException:
                traceback.print_exc()
            with os.fdopen(wr, "wb") as h:
                pickle.dump(res, h)
            os._exit(0)
        os.close(wr)
        kids.append((pid, r))
    allr = {}
    for pid, r in kids:
        with os.fdopen(r, "rb") as h:
            data = h.read()
        os.waitpid(pid, 0)
        if data:
            allr.update(dict(pickle.loads(data)))
    out = []
    for k, o in enumerate(todo):
        if k in allr:
            out.append(allr[k])
        else:
            o.result = "unknown"
            out.append(result_of(o))
    return out


def cases(c):
    if not c.split:
        return [{}]
    keys = list(c.split)
    return [dict(zip(keys, vs)) for vs in itertools.product(*[c.split[k] for k in keys])]


if __name__ == "__main__":
    import frontend, argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--case", type=int)
    ap.add_argument("--inner", type=int, default=8)
    ap.add_argument("--timeout", type=int, default=10)
    ap.add_argument("--limit", type=int, default=1500)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--hints", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    import registry
    prog = frontend.load()
    reg = registry.load()
    for c in reg.all:
        if a.names and c.name not in a.names:
            continue
        fs = find_func(prog, c)
        if not fs:
            print("no function for contract", c.name)
        for f in fs:
            for n, fx in enumerate(cases(c)):
                if a.case is not None and n != a.case:
                    continue
                o = run(prog, reg, c, f, fx, {"inner": a.inner, "timeout": a.timeout, "trace": True, "exec_limit": a.limit, "solve_limit": a.limit,
                                         "hints": load_hints().get(key(c, n)) if a.hints else None})
                ob = o.get("obligations", [])
                bad = [x for x in ob if x["result"] != "proved"]
                print("%-28s %s %s obligations %d bad %d  exec %.1fs wall %.1fs %s" % (
                    f.name, o["case"] or "", o.get("unsupported", ""), len(ob), len(bad), o.get("exec_s", 0), o["wall_s"], o.get("info", "")))
                if "trace" in o and o.get("unsupported"):
                    print(o["trace"][-1800:])
                if a.v:
                    for x in o.get("notes", []):
                        print("    ", x)
                for x in bad[:40]:
                    print("   ", x["result"], x["name"], "line", x["line"], ",".join(x["tags"]), (x["model"] or "")[:300] if a.v else "")
