"""Symbolic execution of clang's AST of the real code: verification conditions function by function.

A call to a function under contract is replaced by its contract; any other function of the repository is executed in
place (so a helper extracted by a refactoring needs no contract).  Loops are cut by invariants (loops.py)."""
from fractions import Fraction
import z3, time
import terms as T
import values as V
from values import (Num, Bool, StructV, CVec, SVec, LNum, LStruct, LVec, Ptr, Iter, StrDigits, Opaque, Closure, InitList,
                    Unsupported, fresh, parse_type, fresh_value, zero_value)

I, R, B = V.I, V.R, V.B


class NeedSplit(Exception):
    def __init__(self, term, values):
        self.term, self.values = term, values


class HintMiss(Exception):
    pass


class Budget(Exception):
    pass


class Fact:
    __slots__ = ("kind", "fn", "cache", "name", "heavy", "link")

    def __init__(self, kind, fn, name="", heavy=False, link=None):
        self.kind, self.fn, self.cache, self.name, self.heavy, self.link = kind, fn, {}, name, heavy, link

    def at(self, p):
        k = tuple(x if isinstance(x, int) else x.get_id() for x in p)
        if k not in self.cache:
            self.cache[k] = (p, self.fn(*p))
        return self.cache[k][1]


ALIAS = {}      # points of a copied list are points of the original list too


class State:
    __slots__ = ("store", "env", "pc", "facts", "pts", "known", "checked", "ghost", "path")

    def __init__(self):
        self.store, self.env, self.pc, self.facts = {}, {}, [], []
        self.pts, self.known, self.checked, self.ghost, self.path = {}, {}, set(), {}, ()

    def copy(self):
        s = State.__new__(State)
        s.store, s.env, s.pc, s.facts = dict(self.store), dict(self.env), list(self.pc), list(self.facts)
        s.pts, s.known, s.checked = dict(self.pts), dict(self.known), set(self.checked)
        s.ghost, s.path = dict(self.ghost), self.path
        return s

    def become(self, o):
        for a in State.__slots__:
            setattr(self, a, getattr(o, a))

    def assume(self, t):
        if t is True:
            return
        self.pc.append(T.z(t))

    def touch(self, kind, p):
        if kind in ALIAS:
            self.touch(ALIAS[kind], p)
        cur = self.pts.get(kind, ())
        for q in cur:
            if all(T.same(a, b) for a, b in zip(p, q)):
                return
        self.pts[kind] = cur + (tuple(p),)


class Obl:
    __slots__ = ("name", "tags", "line", "assume", "goal", "st", "result", "time", "backend", "model", "kind", "extra", "poly")

    def __init__(self, name, tags, line, assume, goal, kind, extra=None):
        self.name, self.tags, self.line, self.assume, self.goal, self.kind = name, tags, line, assume, goal, kind
        self.result, self.time, self.backend, self.model, self.extra = None, 0, None, None, extra
        self.poly = T.Mode.poly


def suffix_add(g, k, e, sign, cond=True):
    c = V.cellof(e)
    h = T.toreal(e.f["h_soil"].t)
    d = T.ite(cond, h if sign > 0 else T.neg(h), Fraction(0))
    one = T.ite(cond, sign, 0)
    g["S:" + k] = V.aset(g["S:" + k], c, V.ghostval(T.add(T.norm(V.aget(g["S:" + k], *c)), d), g["S:" + k]))
    g["SC:" + k] = V.aset(g["SC:" + k], c, T.z(T.add(T.norm(V.aget(g["SC:" + k], *c)), one)))
    g["ST:" + k] = T.add(g["ST:" + k], d)


PI = z3.Real("pi")
PURE = {}


def realfn(name, n=1):
    return z3.Function(name, *([R] * (n + 1)))


class Exec:
    def __init__(self, prog, contracts, fn_name="?", opts=None):
        self.prog, self.contracts, self.fn_name = prog, contracts, fn_name
        self.obls = []
        self.emit = True
        self.nloc = 0
        self.side = []
        self.sideids = set()
        self.callstack = []
        self.deadline = None
        self.opts = opts or {}
        self.used_contracts = set()
        self.inlined = set()
        self.loops = 0
        self.notes = []
        self.nq = 0
        self.tq = 0.0
        self.tags_index = ("C08",) + tuple(self.opts.get("index_tags", ()))
        self.cur = None
        self.callguard = []
        self.havoced = False
        self.keep = []
        self.perms = {}
        self.loopvars = []
        self.contract = None
        self.entry = None
        T.Mode.side = self.add_side

    # ---- solver -------------------------------------------------------------------------------------------------
    def add_side(self, f):
        if f.get_id() not in self.sideids:
            self.sideids.add(f.get_id())
            self.side.append(f)

    def assumptions(self, st, extra_pts=None, light=False):
        out = list(st.pc)
        pts = st.pts
        for f in st.facts:
            if f.link:
                # an entry of the joined list is an entry of the list it came from
                ps = pts.get(f.kind, ())
                if extra_pts:
                    ps = tuple(ps) + tuple(extra_pts.get("*list", extra_pts.get(f.kind, ())))
                pts = dict(pts)
                pts[f.link[0]] = tuple(pts.get(f.link[0], ())) + tuple(f.link[1](p) for p in ps)
        for f in st.facts:
            if f.heavy and light:
                continue
            if f.kind == "plain":
                t = f.at(())
                if t is not True:
                    out.append(T.z(t))
                continue
            for p in pts.get(f.kind, ()):
                t = f.at(p)
                if t is not True:
                    out.append(T.z(t))
            if extra_pts and f.kind == "tuples" and "*list" not in extra_pts:
                for k, ps in extra_pts.items():
                    if k[:5] == "list:":
                        for p in ps:
                            t = f.at(p)
                            if t is not True:
                                out.append(T.z(t))
            if extra_pts:
                for p in extra_pts.get(f.kind, ()) if not (f.kind[:5] in ("list:", "tuple") and "*list" in extra_pts) else extra_pts["*list"]:
                    t = f.at(p)
                    if t is not True:
                        out.append(T.z(t))
        return out

    hints, kept = None, None      # invariants kept in an earlier run, loop by loop
    pool = None                   # (development) all loops at once: see houdini.py

    def next_hint(self, total):
        if not self.hints or self.hints[0][0] != total:
            raise HintMiss("loop invariants of another shape")
        return set(self.hints.pop(0)[1])

    def check(self, assume, timeout=2000):
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*assume)
        if self.side:
            s.add(*self.side)
        r = s.check()
        self.nq += 1
        self.tq += time.time() - t0
        return r, s

    def feasible(self, st, cond=True):
        if cond is False:
            return False
        a = self.assumptions(st, light=True)
        if cond is not True:
            a.append(T.z(cond))
        for x in a:
            if z3.is_false(x):
                return False
        r, _ = self.check(a, 1500)
        return r != z3.unsat

    def valid(self, st, goal, timeout=3000, extra_pts=None):
        if goal is True:
            return True
        a = self.assumptions(st, extra_pts)
        a.append(z3.Not(T.z(goal)))
        r, s = self.check(a, timeout)
        return r == z3.unsat

    def oblige(self, st, name, goal, tags, line=None, kind="assert", extra_pts=None, assume_after=True, extra=None):
        if goal is True:
            if self.emit:
                o = Obl(self.fn_name + "/" + name, tags, line, None, True, kind)
                o.result, o.backend = "proved", "evaluation"
                self.obls.append(o)
            return
        if self.emit:
            g = self.callguard
            a = self.assumptions(st, extra_pts)
            self.obls.append(Obl(self.fn_name + "/" + name, tags, line, a, T.z(goal), kind, extra))
        if assume_after and extra_pts is None:
            st.assume(goal)

    # ---- store --------------------------------------------------------------------------------------------------
    def alloc(self, st, v):
        self.nloc += 1
        st.store[self.nloc] = v
        if self.opts.get("alias") and isinstance(v, SVec) and "LT" in v.g and getattr(self, "world_lv", None):
            so = self.world_lv
            if V.same_l(v.elem, self.entry_world.v.f["body_soil_pos_"].elem):
                ALIAS["list:%d." % self.nloc] = "list:" + self.listkey((so[0], so[1] + (("f", "body_soil_pos_"),)))
        return (self.nloc, ())

    def _idx(self, st, t):
        if not T.isc(t):
            k = st.known.get(t.get_id())
            if k is not None:
                return k[1]
        return t

    def step_read(self, st, v, p):
        if p[0] == "f":
            if isinstance(v, StructV):
                return v.f[p[1]]
            raise Unsupported("field %s of %s" % (p[1], type(v).__name__))
        t = p[1]
        if isinstance(v, CVec):
            if isinstance(t, int):
                if 0 <= t < len(v.e):
                    return v.e[t]
                return zero_value(v.ety) if v.ety else Opaque("oob")
            if not v.e:
                return Opaque("oob")
            if all(self.small(x) for x in v.e):
                r = v.e[-1]
                for k in range(len(v.e) - 2, -1, -1):
                    r = V.merge(T.eq(t, k), v.e[k], r)
                return r
            raise NeedSplit(t, list(range(len(v.e))))
        if isinstance(v, SVec):
            return V.lower(v.elem, t)
        if isinstance(v, StrDigits):
            return Num(T.add(T.imod(T.idiv(v.t, 10), 10) if p[1] == 0 else T.imod(v.t, 10), 48)) if isinstance(t, int) else Opaque()
        raise Unsupported("index into %s" % type(v).__name__)

    def small(self, v):
        if isinstance(v, (Num, Bool)):
            return True
        return isinstance(v, CVec) and len(v.e) <= 4 and all(self.small(x) for x in v.e)

    def read(self, st, lv):
        v = st.store[lv[0]]
        for p in lv[1]:
            v = self.step_read(st, v, p)
        return v

    def write(self, st, lv, nv):
        V.Grid.st = st
        loc, path = lv
        if not path:
            st.store[loc] = self.conform(st.store.get(loc), nv)
            return
        st.store[loc] = self._upd(st, st.store[loc], path, nv)

    def conform(self, old, nv):
        if isinstance(old, Num) and isinstance(nv, Num):
            d = nv.dim
            t = nv.t
            if T.isreal(old.t) and not T.isreal(t):
                t = T.toreal(t)
            return Num(t, d)
        return nv

    def _upd(self, st, v, path, nv):
        p = path[0]
        rest = path[1:]
        if p[0] == "f":
            if not isinstance(v, StructV):
                raise Unsupported("field of %s" % type(v).__name__)
            f = dict(v.f)
            f[p[1]] = self._upd(st, f[p[1]], rest, nv) if rest else self.conform(f[p[1]], nv)
            return StructV(v.name, f)
        t = p[1]
        if isinstance(v, CVec):
            if isinstance(t, int):
                if not 0 <= t < len(v.e):
                    return v
                e = list(v.e)
                e[t] = self._upd(st, e[t], rest, nv) if rest else self.conform(e[t], nv)
                return CVec(e, v.ety)
            if all(self.small(x) for x in v.e):
                e = []
                for k, x in enumerate(v.e):
                    y = self._upd(st, x, rest, nv) if rest else self.conform(x, nv)
                    e.append(V.merge(T.eq(t, k), y, x))
                return CVec(e, v.ety)
            raise NeedSplit(t, list(range(len(v.e))))
        if isinstance(v, SVec):
            old = V.lower(v.elem, t)
            new = self._upd(st, old, rest, nv) if rest else nv
            if isinstance(new, InitList):
                new = CVec(new.vals)
            delta = None
            if "sum" in v.g and len(rest) == 1 and rest[0][0] == "i" and isinstance(nv, (Num, Bool)):
                o = V.lower(old.elem, rest[0][1]) if isinstance(old, SVec) else None
                if o is not None:
                    delta = T.sub(V.num_or_bool(nv), V.num_or_bool(o))
                    if T.isreal(T.z(v.g["sum"])) or (not T.isc(v.g["sum"]) and z3.is_real(v.g["sum"])):
                        delta = T.toreal(delta)
            elif "sum" in v.g and isinstance(new, SVec) and isinstance(new.g.get("delta"), object) and "delta" in new.g:
                delta = new.g["delta"]
            g = V.ghost_write(v, t, old, new, v.g, delta)
            if isinstance(old, StructV) and "LT" in v.g and v.g is not None:
                self.slhook(st, v, t, old, new, g)
            return SVec(v.len, V.put(v.elem, t, self.conform(old, new)), v.ety, g)
        raise Unsupported("write into %s" % type(v).__name__)

    def slhook(self, st, v, t, old, new, g):
        """suffix ledgers: entries at or after the cursor change the remaining amount as well"""
        for k in [k[2:] for k in g if k.startswith("S:")]:
            after = T.ge(t, g["cur:" + k])
            suffix_add(g, k, old, -1, after)
            suffix_add(g, k, new, +1, after)

    # ---- index obligations --------------------------------------------------------------------------------------
    def index(self, st, base_lv, t, line, what=""):
        """append an index step, with its bounds obligation and instantiation points"""
        t = self._idx(st, t)
        v = self.read(st, base_lv)
        if isinstance(v, Opaque):
            raise Unsupported("index into opaque " + v.what)
        if isinstance(v, CVec):
            n = len(v.e)
        elif isinstance(v, SVec):
            n = v.len
        elif isinstance(v, StrDigits):
            n = 2
        elif isinstance(v, Ptr):
            return self.index(st, v.lv, t, line, what)
        else:
            raise Unsupported("index into %s" % type(v).__name__)
        if not (isinstance(t, int) and isinstance(n, int) and 0 <= t < n):
            key = (t if isinstance(t, int) else t.get_id(), n if isinstance(n, int) else n.get_id())
            if key not in st.checked:
                goal = T.land(T.le(0, t), T.lt(t, n))
                self.oblige(st, "index@%s" % (self.lvname(base_lv) or what), goal, self.tags_index, line, "index")
                st.checked = set(st.checked)
                st.checked.add(key)
                self.keep.append((t, n))
        self.touch_lv(st, base_lv, v, t)
        return (base_lv[0], base_lv[1] + (("i", t),))

    def lvname(self, lv):
        fs = [p[1] for p in lv[1] if p[0] == "f"]
        return fs[-1] if fs else ""

    def touch_lv(self, st, base_lv, v, t):
        if isinstance(v, SVec):
            nm = self.lvname(base_lv)
            path = base_lv[1]
            if path and path[-1][0] == "i" and isinstance(v.elem, LNum):
                # second index of a grid of numbers
                prev = path[-1][1]
                st.touch("cell", (prev, t))
                st.touch("list:%s" % (self.listkey((base_lv[0], path[:-1]))), (prev,))
            else:
                st.touch("list:%s" % (self.listkey(base_lv)), (t,))
                if v.ety == ("vec", ("num", "i")):
                    st.touch("tuples", (t,))

    def listkey(self, lv):
        return "%s.%s" % (lv[0], ".".join(str(p[1]) for p in lv[1]))

    # ---- merging ------------------------------------------------------------------------------------------------
    def merge_states(self, sts):
        """one state equivalent to the disjunction of the given ones"""
        if len(sts) == 1:
            return sts[0]
        base = 0
        a0 = sts[0].pc
        n = min(len(s.pc) for s in sts)
        while base < n and all(s.pc[base].eq(a0[base]) for s in sts[1:]):
            base += 1
        conds = [T.land(*[x for x in s.pc[base:]]) for s in sts]
        m = sts[-1].copy()
        m.pc = list(a0[:base])
        m.assume(T.lor(*conds))
        nf = min(len(s.facts) for s in sts)
        k = 0
        while k < nf and all(s.facts[k] is sts[0].facts[k] for s in sts[1:]):
            k += 1
        facts = list(sts[0].facts[:k])
        for s, c in zip(sts, conds):
            for f in s.facts[k:]:
                facts.append(Fact(f.kind, (lambda f, c: lambda *p: T.limp(c, f.at(p)))(f, c), f.name))
        m.facts = facts
        locs = set(sts[0].store)
        for s in sts[1:]:
            locs &= set(s.store)
        store = {}
        for l in locs:
            v = sts[-1].store[l]
            for s, c in zip(reversed(sts[:-1]), reversed(conds[:-1])):
                w = s.store[l]
                if not V.same_value(v, w):
                    v = V.merge(c, w, v)
            store[l] = v
        m.store = store
        m.known = {kk: vv for kk, vv in sts[0].known.items() if all(s.known.get(kk) == vv for s in sts[1:])}
        m.checked = set.intersection(*[s.checked for s in sts])
        pts = {}
        for s in sts:
            for kk, ps in s.pts.items():
                cur = list(pts.get(kk, ()))
                for p in ps:
                    if not any(all(T.same(x, y) for x, y in zip(p, q)) for q in cur):
                        cur.append(p)
                pts[kk] = tuple(cur)
        m.pts = pts
        for s in sts:
            for kk in s.ghost:
                if kk not in m.ghost:
                    m.ghost[kk] = s.ghost[kk]
        for kk in list(m.ghost):
            vals = [s.ghost.get(kk) for s in sts]
            if isinstance(vals[0], (Num,)):
                v = vals[-1]
                for w, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
                    v = V.merge(c, w, v)
                m.ghost[kk] = v
        m.path = sts[0].path + ("merge",)
        return m

    # ---- statements ---------------------------------------------------------------------------------------------
    def run_block(self, st, stmts):
        """-> list of (state, outcome, value)"""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                for (c2, o, v) in self.stmt(c, s):
                    if o is None:
                        nxt.append(c2)
                    else:
                        done.append((c2, o, v))
            if len(nxt) > self.opts.get("maxpaths", 48):
                try:
                    nxt = [self.merge_states(nxt)]
                except Unsupported:
                    pass
            cur = nxt
            if not cur:
                break
        return [(c, None, None) for c in cur] + done

    def stmt(self, st, n):
        snap = st.copy()
        no = len(self.obls)
        try:
            return self.stmt0(st, n)
        except NeedSplit as e:
            self.obls = self.obls[:no]
            out = []
            tried = 0
            for v in e.values:
                c = T.eq(e.term, v)
                s2 = snap.copy()
                if not self.feasible(s2, c):
                    continue
                s2.assume(c)
                s2.known[e.term.get_id()] = (e.term, v)
                tried += 1
                out += self.stmt(s2, n)
            # completeness of the split
            rest = T.lnot(T.lor(*[T.eq(e.term, v) for v in e.values]))
            s3 = snap.copy()
            if self.emit:
                self.oblige(s3, "index@layer", T.lnot(rest), self.tags_index, n.line, "index", assume_after=False)
            return out

    def fork(self, st, cond):
        """[(state, truth)] for the feasible outcomes"""
        if cond is True:
            return [(st, True)]
        if cond is False:
            return [(st, False)]
        out = []
        s1 = st.copy()
        f1 = self.feasible(s1, cond)
        f2 = self.feasible(st, T.lnot(cond))
        if f1:
            if f2:
                s1.assume(cond)
            else:
                s1.assume(cond)
            self.learn(s1, cond)
            out.append((s1, True))
        if f2:
            st.assume(T.lnot(cond))
            out.append((st, False))
        return out

    def learn(self, st, cond):
        """x == const becomes known (needed for layer numbers)"""
        if T.isc(cond):
            return
        if z3.is_and(cond):
            for c in cond.children():
                self.learn(st, c)
        elif z3.is_eq(cond):
            a, b = cond.arg(0), cond.arg(1)
            if z3.is_int_value(b) and z3.is_int(a):
                st.known[a.get_id()] = (a, b.as_long())
            elif z3.is_int_value(a) and z3.is_int(b):
                st.known[b.get_id()] = (b, a.as_long())

    def stmt0(self, st, n):
        k = n.k
        if k == "CompoundStmt":
            return self.run_block(st, n.inner)
        if k == "DeclStmt":
            return self.seq(st, [lambda s, d=d: self.decl(s, d) for d in n.inner])
        if k == "NullStmt" or k is None:
            return [(st, None, None)]
        if k == "IfStmt":
            return self.ifstmt(st, n)
        if k == "ForStmt":
            import loops
            init, condvar, cond, inc, body = n.inner[0], n.inner[1], n.inner[2], n.inner[3], n.inner[4]
            outs = self.stmt(st, init) if init.k else [(st, None, None)]
            res = []
            for s, o, v in outs:
                res += loops.loop(self, s, n, cond if cond.k else None, inc if inc.k else None, body)
            return res
        if k == "WhileStmt":
            import loops
            return loops.loop(self, st, n, n.inner[-2], None, n.inner[-1])
        if k == "DoStmt":
            import loops
            body, cond = n.inner[0], n.inner[1]
            outs = self.stmt(st, body)
            res = []
            for s, o, v in outs:
                if o in (None, "continue"):
                    res += loops.loop(self, s, n, cond, None, body)
                elif o == "break":
                    res.append((s, None, None))
                else:
                    res.append((s, o, v))
            return res
        if k == "CXXForRangeStmt":
            import loops
            return loops.rangefor(self, st, n)
        if k == "ReturnStmt":
            if not n.inner:
                return [(st, "return", None)]
            outs = self.root_eval(st, n.inner[0])
            return [(s, o or "return", v) for s, v, o in outs]
        if k == "BreakStmt":
            return [(st, "break", None)]
        if k == "ContinueStmt":
            return [(st, "continue", None)]
        if k == "SwitchStmt":
            return self.switch(st, n)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.stmt(st, n.inner[-1])
        if k == "CXXTryStmt":
            return self.stmt(st, n.inner[0])
        # expression statement
        outs = self.root_eval(st, n, discard=True)
        return [(s, o, v if o else None) for s, v, o in outs]

    def seq(self, st, fs):
        cur = [(st, None, None)]
        for f in fs:
            nxt = []
            for s, o, v in cur:
                if o is None:
                    nxt += f(s)
                else:
                    nxt.append((s, o, v))
            cur = nxt
        return cur

    def is_log(self, n):
        """logging / console output is dropped"""
        st = [n]
        c = 0
        while st and c < 4000:
            x = st.pop()
            c += 1
            if x.k == "DeclRefExpr" and x.ref and x.ref.get("name") in ("cout", "cerr", "clog"):
                return True
            q = (x.qt or "")
            if "google::" in q or "LogMessage" in q:
                return True
            st.extend(x.inner)
        return False

    def ifstmt(self, st, n):
        inner = list(n.inner)
        hasinit = n.get("hasInit")
        hasvar = n.get("hasVar")
        haselse = n.get("hasElse")
        if n.get("constexpr"):
            pass
        if hasinit or hasvar:
            outs = self.stmt(st, inner[0])
            inner = inner[1:]
            if hasinit and hasvar:
                raise Unsupported("if with init and var")
        else:
            outs = [(st, None, None)]
        res = []
        for s, o, v in outs:
            if o:
                res.append((s, o, v))
                continue
            for s1, c, o1 in self.root_eval(s, inner[0]):
                if o1:
                    res.append((s1, o1, c))
                    continue
                t = self.truth(c)
                for s2, tv in self.fork(s1, t):
                    s2.path = s2.path + ((n.line, tv),)
                    if tv:
                        res += self.stmt(s2, inner[1])
                    elif haselse:
                        res += self.stmt(s2, inner[2])
                    else:
                        res.append((s2, None, None))
        return res

    def switch(self, st, n):
        cond = n.inner[-2]
        body = n.inner[-1]
        res = []
        for s, v, o in self.root_eval(st, cond):
            t = v.t
            # flatten
            items = []
            labels = []

            def flat(x):
                if x.k == "CaseStmt":
                    labels.append(("case", x.inner[0]))
                    flat(x.inner[-1])
                elif x.k == "DefaultStmt":
                    labels.append(("default", None))
                    flat(x.inner[-1])
                else:
                    items.append((list(labels), x))
                    labels.clear()
            for x in body.inner:
                flat(x)
            consts = []
            for ls, x in items:
                for kind, cn in ls:
                    if kind == "case":
                        consts.append(self.ev(s, cn).t)
            start = []
            rest = s
            alive = True
            for i, (ls, x) in enumerate(items):
                for kind, cn in ls:
                    if kind == "case":
                        c = T.eq(t, self.ev(s, cn).t)
                        start.append((c, i))
                    else:
                        start.append((T.land(*[T.ne(t, kk) for kk in consts]), i))
            hasdef = any(kind == "default" for ls, x in items for kind, cn in ls)
            if not hasdef:
                start.append((T.land(*[T.ne(t, kk) for kk in consts]), len(items)))
            for c, i in start:
                s2 = s.copy()
                if not self.feasible(s2, c):
                    continue
                s2.assume(c)
                self.learn(s2, c)
                for s3, o3, v3 in self.run_block(s2, [x for ls, x in items[i:]]):
                    res.append((s3, None if o3 == "break" else o3, v3))
        return res

    # ---- declarations -------------------------------------------------------------------------------------------
    def decl(self, st, d):
        if d.k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "EnumDecl", "CXXRecordDecl",
                   "FunctionDecl", "EmptyDecl", "NamespaceAliasDecl"):
            return [(st, None, None)]
        if d.k == "DecompositionDecl":
            init = next(c for c in d.inner if c.k != "BindingDecl")
            binds = [c for c in d.inner if c.k == "BindingDecl"]
            res = []
            isref = (d.qt0 or "").rstrip().endswith("&")
            if isref and self.is_lvalue(init):
                lv = self.lval(st, init)
                outs = [(st, lv, None)]
            else:
                outs = [(s, self.alloc(s, v) if not o else v, o) for s, v, o in self.root_eval(st, init)]
            for s, lv, o in outs:
                if o:
                    res.append((s, o, lv))
                    continue
                val = self.read(s, lv)
                if isinstance(val, StructV):
                    names = [f for f, t, dd in V.Types.fields(val.name)]
                    paths = [("f", x) for x in names]
                else:
                    paths = [("i", i) for i in range(len(binds))]
                for b, p in zip(binds, paths):
                    blv = (lv[0], lv[1] + (p,))
                    s.env[b.get("id")] = blv
                    for c in b.inner:
                        if c.k == "VarDecl":
                            s.env[c.get("id")] = blv
                res.append((s, None, None))
            return res
        if d.k != "VarDecl":
            raise Unsupported("declaration %s" % d.k)
        qt = d.qt0 or ""
        init = d.inner[0] if d.inner else None
        while init is not None and init.k and init.k.endswith("Attr"):
            d.inner.pop(0)
            init = d.inner[0] if d.inner else None
        ty = parse_type(d.qt, V.Types.records)
        if init is None:
            st.env[d.get("id")] = self.alloc(st, self.uninit(st, ty, d.name))
            return [(st, None, None)]
        if qt.rstrip().endswith("&") or (d.qt or "").rstrip().endswith("&"):
            if self.is_lvalue(init):
                st.env[d.get("id")] = self.lval(st, init)
                return [(st, None, None)]
        if self.is_log(init) and ty[0] == "other":
            st.env[d.get("id")] = self.alloc(st, Opaque("stream"))
            return [(st, None, None)]
        res = []
        for s, v, o in self.root_eval(st, init):
            if o:
                res.append((s, o, v))
                continue
            s.env[d.get("id")] = self.alloc(s, self.coerce(v, ty))
            res.append((s, None, None))
        return res

    def uninit(self, st, ty, name):
        if ty[0] in ("num", "bool"):
            return fresh_value(ty, name or "u")
        if ty[0] in ("vec", "struct", "arr", "tuple"):
            if ty[0] in ("arr",):
                return fresh_value(ty, name or "u")
            return zero_value(ty)
        if ty[0] == "str":
            return Opaque("string")
        return Opaque(str(ty))

    def coerce(self, v, ty):
        if isinstance(v, InitList):
            return self.from_init(v, ty)
        if ty[0] == "num" and isinstance(v, (Num, Bool)):
            if ty[1] == "r":
                return Num(T.toreal(v.t), getattr(v, "dim", None))
            if isinstance(v, Bool):
                return Num(T.ite(v.t, 1, 0))
            if T.isreal(v.t):
                return Num(T.trunc(v.t), v.dim)
        if ty[0] == "bool" and isinstance(v, Num):
            return Bool(T.boolof(v.t))
        if ty[0] in ("vec", "arr") and isinstance(v, CVec) and v.ety is None:
            return CVec([self.coerce(x, ty[1]) for x in v.e], ty[1])
        if ty[0] == "tuple" and isinstance(v, CVec):
            return CVec([self.coerce(x, t) for x, t in zip(v.e, ty[1])], ty)
        return v

    def from_init(self, v, ty):
        if ty[0] in ("vec",):
            return CVec([self.coerce(x, ty[1]) for x in v.vals], ty[1])
        if ty[0] == "arr":
            e = [self.coerce(x, ty[1]) for x in v.vals]
            while ty[2] and len(e) < ty[2]:
                e.append(zero_value(ty[1]))
            return CVec(e, ty[1])
        if ty[0] == "tuple":
            return CVec([self.coerce(x, t) for x, t in zip(v.vals, ty[1])], ty)
        if ty[0] == "struct":
            fl = V.Types.fields(ty[1])
            f = {}
            for i, (fn, ft, d) in enumerate(fl):
                f[fn] = self.coerce(v.vals[i], ft) if i < len(v.vals) else zero_value(ft)
            return StructV(ty[1], f)
        if len(v.vals) == 1:
            return self.coerce(v.vals[0], ty)
        if not v.vals:
            return zero_value(ty)
        raise Unsupported("init list for %r" % (ty,))

    # ---- expressions: forking at the root ----------------------------------------------------------------------
    WRAP = ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr",
            "ConstantExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr")

    def root_eval(self, st, n, discard=False):
        """-> [(state, value, outcome)] ; calls executed in place at the root of the expression may fork"""
        m = n
        chain = []
        while m.k in self.WRAP and m.inner:
            chain.append(m)
            m = m.inner[-1]
        if m.k == "CXXThrowExpr":
            return [(st, None, "throw")]
        call = None
        if m.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            call = self.user_target(st, m)
        if call is not None:
            outs = self.call_user(st, m, call, fork=True)
            res = []
            for s, v, o in outs:
                if o:
                    res.append((s, v, o))
                    continue
                s.ghost = dict(s.ghost)
                s.ghost["callres"] = (m, v)
                w = self.ev(s, n)
                s.ghost.pop("callres", None)
                res.append((s, w, None))
            return res
        if m.k in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator", "CXXConstructExpr", "InitListExpr", "CXXTemporaryObjectExpr"):
            # a call as the right-hand side of an assignment
            rhs = m.inner[-1] if m.inner else None
            if rhs is not None and m.k != "CXXOperatorCallExpr" or (rhs is not None and self.opname(m) == "="):
                r = rhs
                while r.k in self.WRAP and r.inner:
                    r = r.inner[-1]
                if r.k in ("CallExpr", "CXXMemberCallExpr") and (m.get("opcode") == "=" or m.k in ("CXXOperatorCallExpr", "CXXConstructExpr")):
                    tgt = self.user_target(st, r)
                    if tgt is not None:
                        res = []
                        for s, v, o in self.call_user(st, r, tgt, fork=True):
                            if o:
                                res.append((s, v, o))
                                continue
                            s.ghost = dict(s.ghost)
                            s.ghost["callres"] = (r, v)
                            w = self.ev(s, n)
                            s.ghost.pop("callres", None)
                            res.append((s, w, None))
                        return res
        return [(st, self.ev(st, n), None)]

    def truth(self, v):
        if isinstance(v, (Num, Bool)):
            return T.boolof(v.t)
        if isinstance(v, Ptr):
            return True
        raise Unsupported("condition of %s" % type(v).__name__)

    # ---- lvalues ------------------------------------------------------------------------------------------------
    def is_lvalue(self, n):
        while n.k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr") or (n.k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase")):
            n = n.inner[0]
        if n.k == "MaterializeTemporaryExpr":
            return False
        return n.get("valueCategory") in ("lvalue", "xvalue") and n.k in (
            "DeclRefExpr", "MemberExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr", "UnaryOperator", "ArraySubscriptExpr",
            "CallExpr", "ConditionalOperator", "BinaryOperator", "CompoundAssignOperator")

    def lval(self, st, n):
        k = n.k
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "CXXBindTemporaryExpr"):
            return self.lval(st, n.inner[0])
        if k == "MaterializeTemporaryExpr" and (n.qt in ("reference", "std::vector<bool>::reference") or "_Bit_reference" in (n.qt or "")):
            return self.lval(st, n.inner[0])      # element of a vector<bool>
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr"):
            ck = n.get("castKind")
            if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived"):
                return self.lval(st, n.inner[0])
            return self.alloc(st, self.ev(st, n))
        if k == "DeclRefExpr":
            rid = n.ref.get("id")
            if rid in st.env:
                return st.env[rid]
            return self.globalvar(st, n)
        if k == "MemberExpr":
            base = n.inner[0]
            if n.get("isArrow"):
                p = self.ev(st, base)
                if isinstance(p, Iter):
                    blv = self.index(st, p.lv, p.idx, n.line)
                elif isinstance(p, Ptr):
                    blv = p.lv
                else:
                    raise Unsupported("-> on %s" % type(p).__name__)
            else:
                blv = self.lval(st, base)
            nm = n.name
            v = self.read(st, blv)
            if isinstance(v, CVec) and nm in ("first", "second"):
                return (blv[0], blv[1] + (("i", 0 if nm == "first" else 1),))
            return (blv[0], blv[1] + (("f", nm),))
        if k == "CXXOperatorCallExpr":
            op = self.opname(n)
            if op == "[]":
                b = self.lval(st, n.inner[1])
                bv = self.read(st, b)
                if isinstance(bv, (Iter,)):
                    i = self.ev(st, n.inner[2])
                    return self.index(st, bv.lv, T.add(bv.idx, i.t), n.line)
                i = self.ev(st, n.inner[2])
                return self.index(st, b, i.t, n.line)
            if op == "*":
                it = self.ev(st, n.inner[1])
                if isinstance(it, Iter):
                    return self.index(st, it.lv, it.idx, n.line)
                if isinstance(it, Ptr):
                    return it.lv
            if op == "->":
                it = self.ev(st, n.inner[1])
                raise Unsupported("operator->")
            if op in ("=", "+=", "-=", "++", "--"):
                self.ev(st, n)
                return self.lval(st, n.inner[1])
        if k == "UnaryOperator":
            op = n.get("opcode")
            if op == "*":
                p = self.ev(st, n.inner[0])
                if isinstance(p, Ptr):
                    return p.lv
                if isinstance(p, Iter):
                    return self.index(st, p.lv, p.idx, n.line)
            if op in ("++", "--"):
                self.ev(st, n)
                return self.lval(st, n.inner[0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n.get("opcode") or "").endswith("="):
            self.ev(st, n)
            return self.lval(st, n.inner[0])
        if k == "ArraySubscriptExpr":
            a, b = n.inner
            base = a
            bv = self.ev_ptr(st, base)
            i = self.ev(st, b)
            return self.index(st, bv, i.t, n.line)
        if k == "CXXMemberCallExpr":
            me = n.inner[0]
            nm = me.name
            if nm in ("back", "front", "at"):
                b = self.lval(st, me.inner[0]) if not me.get("isArrow") else self.ev(st, me.inner[0]).lv
                v = self.read(st, b)
                ln = len(v.e) if isinstance(v, CVec) else v.len
                i = {"back": T.sub(ln, 1), "front": 0}[nm] if nm != "at" else self.ev(st, n.inner[1]).t
                return self.index(st, b, i, n.line)
        if k == "CXXThisExpr":
            return st.env["this"].lv
        if k == "CallExpr":
            tgt = self.user_target(st, n)
            if tgt is None:
                nm = self.calleename(n)
                if nm in ("move", "forward", "as_const"):
                    return self.lval(st, n.inner[1])
                if nm == "get":
                    b = self.lval(st, n.inner[1])
                    import re
                    m = re.search(r"tuple_element_t<(\d+)", n.inner[0].qt or "")
                    if m:
                        return (b[0], b[1] + (("i", int(m.group(1))),))
            v = self.ev(st, n)
            if isinstance(v, Ptr) and n.get("valueCategory") == "lvalue":
                return v.lv
            return self.alloc(st, v)
        if k == "ConditionalOperator":
            c = self.truth(self.ev(st, n.inner[0]))
            a, b = self.lval(st, n.inner[1]), self.lval(st, n.inner[2])
            if c is True or a == b:
                return a
            if c is False:
                return b
            if self.is_readonly_context(n):
                return self.alloc(st, V.merge(c, self.read(st, a), self.read(st, b)))
            return self.alloc(st, V.merge(c, self.read(st, a), self.read(st, b)))
        return self.alloc(st, self.ev(st, n))

    def is_readonly_context(self, n):
        return True

    def ev_ptr(self, st, n):
        """array decay"""
        while n.k in ("ImplicitCastExpr", "ParenExpr") and n.get("castKind") in ("ArrayToPointerDecay", "NoOp", None):
            n = n.inner[0]
        if n.k == "ImplicitCastExpr":
            v = self.ev(st, n)
            if isinstance(v, Ptr):
                return v.lv
        return self.lval(st, n)

    def globalvar(self, st, n):
        r = n.ref
        nm = r.get("name")
        tu = self.cur_tu
        g = self.prog.globals.get((tu, r.get("id"))) or self.prog.globals.get(nm)
        if nm == "rng":
            lv = self.alloc(st, Opaque("rng"))
            return lv
        if nm == "pi" or nm == "pi_v":
            return self.alloc(st, Num(PI))
        if nm in ("cout", "cerr", "clog", "endl"):
            return self.alloc(st, Opaque("stream"))
        if g is None:
            self.prog.fetch(tu, nm)
            g = self.prog.globals.get((tu, r.get("id"))) or self.prog.globals.get(nm)
        if g is not None and g.inner:
            init = [c for c in g.inner if not (c.k or "").endswith("Attr")]
            if init:
                v = self.coerce(self.ev(st, init[0]), parse_type(g.qt, V.Types.records))
                lv = self.alloc(st, v)
                if "const" in (g.qt0 or "") or True:
                    st.env[r.get("id")] = lv
                return lv
        raise Unsupported("variable %s" % nm)

    def opname(self, n):
        c = n.inner[0]
        while c.k == "ImplicitCastExpr":
            c = c.inner[0]
        nm = (c.ref or {}).get("name") or ""
        return nm[len("operator"):].strip() if nm.startswith("operator") else nm

    def calleename(self, n):
        c = n.inner[0]
        while c.k in ("ImplicitCastExpr", "ParenExpr") and c.inner:
            c = c.inner[0]
        if c.k == "DeclRefExpr":
            return c.ref.get("name")
        if c.k == "MemberExpr":
            return c.name
        if c.k == "UnresolvedLookupExpr":
            return c.name
        return None

    # ---- helpers for loops ------------------------------------------------------------------------------------
    world_lv = None
    inv_preds = ()
    lv_init = {}
    cursors = []
    _sid = 0

    def nextsid(self):
        self._sid += 1
        return self._sid

    def nonneg(self, st):
        return st.ghost.get("nonneg", frozenset())

    def write_raw(self, st, lv, nv):
        """replace a value without ghost maintenance"""
        loc, path = lv

        def up(v, path):
            if not path:
                return nv
            p = path[0]
            if p[0] == "f":
                f = dict(v.f)
                f[p[1]] = up(f[p[1]], path[1:])
                return StructV(v.name, f)
            e = list(v.e)
            e[p[1]] = up(e[p[1]], path[1:])
            return CVec(e, v.ety)
        st.store[loc] = up(st.store[loc], path)

    def inv_tags(self, c):
        return tuple(self.opts.get("inv_tags", {}).get(c.name.split("+")[0].split("@")[0], ("*",)))

    def loop_ctx(self, st):
        return self.contract.ctx(self.entry_world, K_world(self, st) if self.world_lv is not None else None, self.entry_args, None, self, st)


def K_world(ex, st):
    import contract
    return contract.SymWorld(ex.read(st, ex.world_lv), ())
