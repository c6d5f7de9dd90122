"""Contracts: clauses over an abstract view of the simulation state, used three ways - assumed and proved by the
verifier, assumed at call sites, and evaluated on concrete runs of the compiled code."""
from fractions import Fraction
import itertools
import z3
import terms as T
import values as V
from values import Num, Bool, StructV, CVec, SVec, LNum, LVec, LStruct, Ptr, Unsupported, fresh, fresh_value, parse_type
from exec import State, Fact, Obl, Budget

I, R, B = V.I, V.R, V.B


class Clause:
    def __init__(self, name, tags, kind, fn, **kw):
        self.name, self.tags, self.kind, self.fn = name, tuple(tags), kind, fn
        self.concrete = kw.get("concrete", True)
        self.symbolic = kw.get("symbolic", True)
        self.assume = kw.get("assume", True)
        self.lst = kw.get("lst")
        self.lemma = kw.get("lemma", False)
        self.on_throw = kw.get("on_throw", False)
        self.nints = kw.get("nints", 0)
        self.heavy = kw.get("heavy", False)    # not used to decide which paths exist
        self.dom = kw.get("dom")               # extent of the cells, where it is not that of the grid
        self.near = kw.get("near", False)      # proved with the facts about the neighbouring cells at hand
        self.world = kw.get("world", False)    # says something only where the state changes
        self.hyp = kw.get("hyp", ())       # assumed for every cell / entry while the clause is proved: [(kind, fn)]
        if self.hyp:
            self.assume = False


def nearby(i, j):
    return [(i, j), (T.add(i, 1), j), (T.sub(i, 1), j), (i, T.add(j, 1)), (i, T.sub(j, 1))]


def plain(name, tags, fn, **kw):
    return Clause(name, tags, "plain", fn, **kw)


def cell(name, tags, fn, **kw):
    return Clause(name, tags, "cell", fn, **kw)


def ent(name, tags, fn, **kw):
    return Clause(name, tags, "ent", fn, **kw)


class Entry:
    __slots__ = ("ind", "ii", "jj", "x", "y", "z", "h")

    def __init__(self, ind, ii, jj, x, y, z, h):
        self.ind, self.ii, self.jj, self.x, self.y, self.z, self.h = ind, ii, jj, x, y, z, h


def entry_of(v):
    f = v.f
    return Entry(f["ind"].t, f["ii"].t, f["jj"].t, f["x_b"].t, f["y_b"].t, f["z_b"].t, f["h_soil"].t)


class SymWorld:
    """view of a symbolic SimOut value"""
    sym = True

    def __init__(self, v, extra=()):
        self.v = v
        self.extra = tuple(extra)

    def _grid(self, g, i, j):
        return V.lower(V.lower(g.elem, i).elem, j)

    @property
    def nx(self):
        return self.v.f["terrain_"].len

    @property
    def ny(self):
        e = self.v.f["terrain_"].elem
        return e.len[1] if isinstance(e.len, tuple) else T.norm(V.sel(e.len, 0))

    def terrain(self, i, j):
        return self._grid(self.v.f["terrain_"], i, j).t

    def body(self, l, i, j):
        return self._grid(self.v.f["body_"].e[l], i, j).t

    def bs(self, l, i, j):
        return self._grid(self.v.f["body_soil_"].e[l], i, j).t

    def area(self, which, d, k):
        return self.v.f[which + "_area_"].e[d].e[k].t

    @property
    def eq(self):
        return self.v.f["equilibrium_"].t

    @property
    def n(self):
        return self.v.f["body_soil_pos_"].len

    def ent(self, k):
        return entry_of(V.lower(self.v.f["body_soil_pos_"].elem, k))

    def L(self, l, i, j):
        t = T.toreal(T.norm(V.aget(self.v.f["body_soil_pos_"].g["L"], l, i, j)))
        for a in self.extra:
            t = T.add(t, T.toreal(T.norm(V.aget(a[0], l, i, j))))
        return t

    def C(self, l, i, j):
        t = T.norm(V.aget(self.v.f["body_soil_pos_"].g["C"], l, i, j))
        for a in self.extra:
            t = T.add(t, T.norm(V.aget(a[1], l, i, j)))
        return t

    def gsum(self, g):
        return T.toreal(g.g["sum"])

    def ground(self):
        return self.gsum(self.v.f["terrain_"])

    def soil(self):
        b = self.v.f["body_soil_"].e
        return T.sub(T.add(self.gsum(b[1]), self.gsum(b[3])), T.add(self.gsum(b[0]), self.gsum(b[2])))

    def total(self):
        return T.add(self.ground(), self.soil())


def list_view(sv):
    return (sv.g["L"], sv.g["C"])


class ListView:
    """view of a vector<body_soil> that is not the main list"""

    def __init__(self, sv):
        self.sv = sv

    @property
    def n(self):
        return self.sv.len

    def ent(self, k):
        return entry_of(V.lower(self.sv.elem, k))

    def L(self, l, i, j):
        return T.toreal(T.norm(V.aget(self.sv.g["L"], l, i, j)))

    def C(self, l, i, j):
        return T.norm(V.aget(self.sv.g["C"], l, i, j))


class Ctx:
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.T = T


def grid_shape(nx, ny, name, leaf=R, dim=1):
    srt = "r" if leaf == R else ("i" if leaf == I else "b")
    ety = ("num", srt) if srt != "b" else ("bool",)
    hs = V.HS() if leaf == R else leaf
    return SVec(nx, LVec(("u", ny), LNum(fresh(name, V.nested(hs, 2)), srt, dim), ety), ("vec", ety),
                {"sum": fresh(name + ".sum", hs if leaf == R else I)})


def list_value(name):
    return V.svec_fresh(("struct", "body_soil"), name)


def make_simout(nx, ny, name="s"):
    f = {}
    for fn, ty, d in V.Types.fields("SimOut"):
        if fn == "terrain_":
            f[fn] = grid_shape(nx, ny, name + ".terrain")
        elif fn in ("body_", "body_soil_"):
            f[fn] = CVec([grid_shape(nx, ny, "%s.%s%d" % (name, fn, k)) for k in range(4)], ("vec", ("vec", ("num", "r"))))
        elif fn == "body_soil_pos_":
            f[fn] = list_value(name + ".list")
        elif fn.endswith("_area_"):
            f[fn] = CVec([CVec([Num(fresh("%s.%s%d%d" % (name, fn, a, b), I)) for b in range(2)], ("num", "i")) for a in range(2)],
                         ("vec", ("num", "i")))
        else:
            f[fn] = fresh_value(ty, name + "." + fn, d)
    return StructV("SimOut", f)


def havoc_like(v, name="h"):
    """fresh value of the same shape"""
    if isinstance(v, Num):
        return Num(fresh(name, R if T.isreal(v.t) else I), v.dim)
    if isinstance(v, Bool):
        return Bool(fresh(name, B))
    if isinstance(v, StructV):
        return StructV(v.name, {k: havoc_like(x, name + "." + k) for k, x in v.f.items()})
    if isinstance(v, CVec):
        return CVec([havoc_like(x, "%s%d" % (name, i)) for i, x in enumerate(v.e)], v.ety)
    if isinstance(v, SVec):
        if v.ety == ("struct", "body_soil"):
            r = list_value(name)
            return r
        g = {}
        for k, x in v.g.items():
            g[k] = fresh(name + "." + k, V.ghostsort(x))
        grid = isinstance(v.elem, LVec) and isinstance(v.elem.len, tuple)
        return SVec(v.len if grid and v.ety[1][0] == "num" and v.ety[1] == ("num", "r") else fresh(name + ".len", I), havoc_l(v.elem, name), v.ety, g)
    return v


def havoc_l(l, name):
    if isinstance(l, LNum):
        return LNum(fresh(name, l.a.sort()), l.sort, l.dim)
    if isinstance(l, LStruct):
        return LStruct(l.name, {k: havoc_l(x, name + "." + k) for k, x in l.f.items()})
    return LVec(l.len if isinstance(l.len, tuple) else fresh(name + ".len", l.len.sort()), havoc_l(l.elem, name), l.ety)


class Contract:
    """one function under contract"""

    def __init__(self, name, params, requires=(), ensures=(), modifies=(), dims=None, split=None, ret=None, kinds=None,
                 unroll=4, loop_inv=(), list_from=None, instances=None, opts=None, callee=True, throws=False, nargs=None,
                 post_setup=None, pre_setup=None, loop_opts=None, variants=None, search=None, extra_list=None):
        self.name, self.params = name, params
        self.requires, self.ensures = list(requires), list(ensures)
        self.modifies = list(modifies)
        self.dims, self.split, self.ret, self.kinds = dims or {}, split or {}, ret, kinds or {}
        self.unroll, self.loop_inv = unroll, list(loop_inv)
        self.list_from = list_from
        self.opts = opts or {}
        self.callee = callee
        self.throws = throws
        self.pre_setup, self.post_setup = pre_setup, post_setup
        self.loop_opts = loop_opts or {}
        self.variants = variants
        self.search = search
        self.extra_list = extra_list

    # ---- contexts ------------------------------------------------------------------------------------------------
    def ctx(self, old, new, args, ret, ex=None, st=None, lists=None):
        c = Ctx(old=old, new=new, a=args, ret=ret, ex=ex, st=st)
        c.__dict__.update(lists or {})
        return c

    def points(self, ex, c, clause, soloc):
        pass

    # ---- use at a call site --------------------------------------------------------------------------------------
    def apply(self, ex, st, f, bound, line):
        args, ptrs = {}, {}
        for pn, (kind, v) in zip(self.params, bound):
            val = ex.read(st, v) if kind == "ref" else v
            if kind == "ref":
                ptrs[pn] = v
            if isinstance(val, Ptr):
                ptrs[pn] = val.lv
                val = ex.read(st, val.lv)
            args[pn] = unwrap(val)
        so = ptrs.get("sim_out")
        for s in ("", "_c", "_n", "_p"):
            if so and "ii" + s in args and "jj" + s in args:
                st.touch("cell", (args["ii" + s], args["jj" + s]))
        view = lambda: self.view(ex, st, ptrs)
        old = view()
        oldl = self.lists(ex, st, ptrs, "old_")
        c = self.ctx(old, old, args, None, ex, st, oldl)
        c.line = line
        nm = "pre:%s" % self.name
        for cl in self.requires:
            if not cl.symbolic or cl.lemma:
                continue
            self.prove_clause(ex, st, cl, c, nm, line, so)
        # effects
        pre_list = ex.read(st, so).f["body_soil_pos_"] if so else None
        for m in self.modifies:
            lv = self.lvof(m, ptrs)
            v = ex.read(st, lv)
            nv = havoc_like(v, m.split(".")[-1])
            ex.write(st, lv, nv)
        if so is not None and "sim_out.body_soil_pos_" in self.modifies:
            self.carry_suffix(ex, st, so, pre_list, c, line)
        ret = self.make_ret(f, args)
        if isinstance(ret, V.SVec):
            st.assume(T.ge(ret.len, 0))
        new = view()
        newl = self.lists(ex, st, ptrs, "new_")
        c2 = self.ctx(old, new, args, unwrap(ret) if ret is not None else None, ex, st, {**oldl, **newl})
        c2.line = line
        if self.post_setup:
            r2 = self.post_setup(c2)
            if r2 is not None:
                ret = r2
                c2.ret = unwrap(ret)
        for cl in self.ensures:
            if cl.symbolic and cl.assume:
                self.assume_clause(ex, st, cl, c2, so)
        if self.throws:
            # the callee may refuse its arguments
            pass
        return [(st, ret, None)]

    def carry_suffix(self, ex, st, so, pre, c, line):
        lv = (so[0], so[1] + (("f", "body_soil_pos_"),))
        cur = ex.read(st, lv)
        keys = [k[2:] for k in pre.g if k.startswith("S:")]
        if not keys:
            return
        k0 = self.list_from(c) if self.list_from else 0
        g = dict(cur.g)
        for k in keys:
            ex.oblige(st, "call:%s entries before the cursor stay" % self.name, T.le(pre.g["cur:" + k], k0), ("C02",), line)
            S, SC, ST = fresh("S", V.nested(V.HS(), 3)), fresh("SC", V.nested(I, 3)), T.add(pre.g["ST:" + k], T.sub(g["LT"], pre.g["LT"]))
            g["S:" + k], g["SC:" + k], g["ST:" + k], g["cur:" + k] = S, SC, ST, pre.g["cur:" + k]
            pg, ng = pre.g, dict(g)
            for l in (0, 2):
                def f(i, j, l=l, S=S, SC=SC, pg=pg, ng=ng, k=k):
                    return T.land(
                        T.eq(V.aget(S, l, i, j), T.add(V.aget(pg["S:" + k], l, i, j), T.sub(V.aget(ng["L"], l, i, j), V.aget(pg["L"], l, i, j)))),
                        T.eq(V.aget(SC, l, i, j), T.add(V.aget(pg["SC:" + k], l, i, j), T.sub(V.aget(ng["C"], l, i, j), V.aget(pg["C"], l, i, j)))))
                st.facts.append(Fact("cell", f, "suffix"))
        ex.write(st, lv, SVec(cur.len, cur.elem, cur.ety, g))

    def view(self, ex, st, ptrs):
        so = ptrs.get("sim_out")
        if so is None:
            return None
        extra = []
        if self.extra_list and self.extra_list in ptrs:
            sv = ex.read(st, ptrs[self.extra_list])
            if isinstance(sv, CVec):
                sv = V.to_svec(sv, ("struct", "body_soil"))
            extra.append(list_view(sv))
        return SymWorld(ex.read(st, so), extra)

    def lists(self, ex, st, ptrs, pre):
        out = {}
        if self.extra_list and self.extra_list in ptrs:
            sv = ex.read(st, ptrs[self.extra_list])
            if isinstance(sv, CVec):
                sv = V.to_svec(sv, ("struct", "body_soil"))
            out[pre + "list"] = ListView(sv)
            out["xkey"] = "list:" + ex.listkey(ptrs[self.extra_list])
        for k in ("body",):
            if k in ptrs:
                out[pre + k] = unwrap(ex.read(st, ptrs[k]))
        return out

    def lvof(self, m, ptrs):
        parts = m.split(".")
        lv = ptrs[parts[0]]
        path = lv[1]
        for p in parts[1:]:
            path = path + (("f", p),) if not p.isdigit() else path + (("i", int(p)),)
        return (lv[0], path)

    def make_ret(self, f, args):
        if self.ret is None:
            ty = parse_type(f.ret, V.Types.records)
            if ty[0] == "void" or ty[0] == "other":
                return None
            if self.opts.get("width"):
                return V.svec_fresh(ty[1], self.name + ".ret", uni=[self.opts["width"]])
            return fresh_value(ty, self.name + ".ret")
        return self.ret(args) if callable(self.ret) else self.ret

    # ---- clauses -------------------------------------------------------------------------------------------------
    def guard(self, w, cl, p, c=None):
        if cl.kind == "cell":
            i, j = p
            if cl.dom:
                n = cl.dom(c)
                return T.land(T.le(0, i), T.lt(i, n[0]), T.le(0, j), T.lt(j, n[1]))
            return T.land(T.le(0, i), T.lt(i, w.nx), T.le(0, j), T.lt(j, w.ny))
        if cl.kind == "ent":
            return T.land(T.le(0, p[0]), T.lt(p[0], cl.lst(self_c(w)) if False else w.n))
        return True

    def nlist(self, c, cl):
        return cl.lst(c) if cl.lst else (c.new or c.old).n

    def factkey(self, c, cl, so):
        if cl.kind == "cell":
            return "cell"
        if cl.lst is not None and getattr(cl.lst, "key", None):
            return cl.lst.key(c)
        return "list:%s.%s" % (so[0], ".".join([str(p[1]) for p in so[1]] + ["body_soil_pos_"]))

    def assume_clause(self, ex, st, cl, c, so):
        if cl.kind == "plain":
            st.assume(cl.fn(c))
        elif cl.kind == "cell":
            w = c.new or c.old
            st.facts.append(Fact("cell", lambda i, j: T.limp(self.guard(w, cl, (i, j), c), cl.fn(c, i, j)), cl.name))
        else:
            n = self.nlist(c, cl)
            st.facts.append(Fact(self.factkey(c, cl, so), lambda k: T.limp(T.land(T.le(0, k), T.lt(k, n)), cl.fn(c, k)), cl.name))

    def prove_clause(self, ex, st, cl, c, prefix, line, so):
        name = "%s/%s" % (prefix, cl.name)
        if cl.kind == "plain":
            if cl.hyp:
                st = st.copy()
                w = c.new or c.old
                for kind, fn in cl.hyp:
                    st.facts.append(Fact(kind, lambda i, j, fn=fn: T.limp(T.land(T.le(0, i), T.lt(i, w.nx), T.le(0, j), T.lt(j, w.ny)), fn(c, i, j)), cl.name))
            ex.oblige(st, name, cl.fn(c), cl.tags, line, "pre" if prefix.startswith("pre") else "post", assume_after=prefix.startswith("pre"))
            return
        if not ex.emit:
            return
        if cl.kind == "cell":
            i, j = fresh("i", I), fresh("j", I)
            w = c.new or c.old
            goal = T.limp(self.guard(w, cl, (i, j), c), cl.fn(c, i, j))
            xp = {"cell": [(i, j)] + (nearby(i, j) if cl.near else [])}
            if cl.near:
                # the entry of each list that holds this cell
                for loc, val in list(st.store.items()):
                    if isinstance(val, SVec) and "where" in val.g:
                        xp["list:" + ex.listkey((loc, ()))] = [(T.norm(V.aget(val.g["where"], i, j, 0)),)]
        else:
            k = fresh("k", I)
            n = self.nlist(c, cl)
            goal = T.limp(T.land(T.le(0, k), T.lt(k, n)), cl.fn(c, k))
            xp = {self.factkey(c, cl, so): [(k,)]}
            if getattr(cl.lst, "anylist", False):
                xp["*list"] = [(k,)]
            e = c.new.ent(k) if c.new is not None and cl.lst is None else None
            if e is not None:
                xp["cell"] = [(e.ii, e.jj)]
        ex.oblige(st, name, goal, cl.tags, line, "pre" if prefix.startswith("pre") else "post", extra_pts=xp)


def unwrap(v):
    """values as the clauses see them: terms for scalars, lists for small vectors"""
    if isinstance(v, (Num, Bool)):
        return v.t
    if isinstance(v, CVec):
        return [unwrap(x) for x in v.e]
    if isinstance(v, StructV):
        return Rec(v)
    return v


class Rec:
    def __init__(self, v):
        self._v = v

    def __getattr__(self, k):
        f = self.__dict__["_v"].f
        for cand in (k, k + "_"):
            if cand in f:
                return unwrap(f[cand])
        raise AttributeError(k)
