"""Loops: small constant ones are unrolled, all others cut by invariants found by Houdini from the contract's predicates
and from templates."""
from fractions import Fraction
import os
import z3
import terms as T
import values as V
from values import Num, Bool, StructV, CVec, SVec, LNum, LStruct, LVec, Ptr, Iter, Unsupported, fresh, StrDigits, Opaque
from exec import Fact, suffix_add, Budget, NeedSplit
import contract as K
import wf

I, R, B = V.I, V.R, V.B


class Cand:
    __slots__ = ("name", "kind", "build", "heavy", "near", "label")

    def __init__(self, name, kind, build, heavy=False, near=None):
        self.name, self.kind, self.build, self.heavy, self.near = name, kind, build, heavy, near
        self.label = None


def loop(ex, st, n, cond, inc, body):
    ex.loops += 1
    lim = ex.opts.get("unroll", 4)
    r = unroll(ex, st, cond, inc, body, lim)
    if r is not None:
        return r
    return cut(ex, st, n, cond, inc, body)


def modifies_world(ex, st, cond, inc, body):
    return False


def unroll(ex, st, cond, inc, body, lim):
    if cond is None:
        return None
    no = len(ex.obls)
    cur = st.copy()
    c = ex.truth(ex.ev(cur, cond))
    if not isinstance(c, bool):
        ex.obls = ex.obls[:no]
        return None
    # the trip count from the index variable, if it is visible
    lv = find_loopvar(ex, st, cond, inc)
    if lv is not None and c is True:
        s = st.copy()
        for k in range(lim):
            v = ex.read(s, lv)
            if not (isinstance(v, Num) and isinstance(v.t, int)):
                break
            ex.ev(s, inc)
            try:
                if ex.truth(ex.ev(s, cond)) is not True:
                    break
            except Unsupported:
                break
        else:
            if ex.truth(ex.ev(s, cond)) is True:
                ex.obls = ex.obls[:no]
                return None
    cur = st.copy()
    done = []
    it = 0
    while True:
        c = ex.truth(ex.ev(cur, cond))
        if c is False:
            done.append((cur, None, None))
            break
        if c is not True or it >= lim:
            ex.obls = ex.obls[:no]
            return None
        it += 1
        nxt = []
        for s, o, v in ex.stmt(cur, body):
            if o in (None, "continue"):
                if inc is not None:
                    ex.ev(s, inc)
                nxt.append(s)
            elif o == "break":
                done.append((s, None, None))
            else:
                done.append((s, o, v))
        if not nxt:
            break
        for s in nxt:
            restore_env(s, st)
        cur = ex.merge_states(nxt) if len(nxt) > 1 else nxt[0]
    norm = [s for s, o, v in done if o is None]
    if len(norm) > ex.opts.get("merge_exits", 1):
        for s in norm:
            restore_env(s, st)
        return [(ex.merge_states(norm), None, None)] + [d for d in done if d[1] is not None]
    return done


def restore_env(s, st):
    s.env = dict(st.env)


# ---- what a loop changes -----------------------------------------------------------------------------------------

def leafpaths(v, path=()):
    if isinstance(v, StructV):
        for k, x in v.f.items():
            yield from leafpaths(x, path + (("f", k),))
    elif isinstance(v, CVec) and v.e and any(isinstance(x, (SVec, StructV)) or (isinstance(x, CVec) and path) for x in v.e):
        for i, x in enumerate(v.e):
            yield from leafpaths(x, path + (("i", i),))
    else:
        yield path, v


def getpath(v, path):
    for p in path:
        if p[0] == "f":
            if not isinstance(v, StructV):
                return None
            v = v.f[p[1]]
        else:
            if not isinstance(v, CVec) or p[1] >= len(v.e):
                return None
            v = v.e[p[1]]
    return v


def changed(before, after, M, listify):
    new = False
    for loc, v in before.items():
        w = after.get(loc)
        if w is None or w is v:
            continue
        for path, x in list(leafpaths(v)):
            y = getpath(w, path)
            if y is None:
                if (loc, ()) not in M:
                    M[(loc, ())] = set()
                    new = True
                continue
            if x is y or V.same_value(x, y):
                continue
            key = (loc, path)
            if "sfx" in M.get(key, ()):
                if isinstance(y, SVec) and V.same_value(bare(x), bare(y)):
                    continue
                M[key].discard("sfx")
                new = True
            if key not in M:
                M[key] = set()
                new = True
            if isinstance(x, CVec) and (not isinstance(y, CVec) or len(x.e) != len(y.e)):
                if key not in listify:
                    listify[key] = y if isinstance(y, SVec) else None
                    new = True
                listify[key] = y if isinstance(y, SVec) else (V.to_svec(y, x.ety) if isinstance(y, CVec) else None)
            if isinstance(x, SVec) and isinstance(y, SVec):
                if not T.same(x.len, y.len) and "len" not in M[key]:
                    M[key].add("len")
                    new = True
                if isinstance(x.elem, LVec) and isinstance(y.elem, LVec):
                    if isinstance(x.elem.len, tuple) and not (isinstance(y.elem.len, tuple) and T.same(x.elem.len[1], y.elem.len[1])):
                        if "inner" not in M[key]:
                            M[key].add("inner")
                            new = True
    return new


def bare(v):
    """a list without the ledgers of the loops over it"""
    return SVec(v.len, v.elem, v.ety, {k: x for k, x in v.g.items() if ":" not in k})


def havoc_leaf(ex, st, v, flags, name):
    if "sfx" in flags:
        # the list itself is not changed by the loop; only what remains of it
        return SVec(v.len, v.elem, v.ety, {k: x if ":" not in k or k.startswith("cur:") else fresh(name + "." + k, V.ghostsort(x)) for k, x in v.g.items()})
    if isinstance(v, CVec):
        base = ex.permbase(v)
        if base is not None and len(base) > 1 and "noperm" not in flags:
            return ex.fresh_perm(st, base, v.ety)
        return CVec([havoc_leaf(ex, st, x, flags, name) for x in v.e], v.ety)
    if isinstance(v, SVec):
        ln = v.len if "len" not in flags else fresh(name + ".len", I)
        elem = K.havoc_l(v.elem, name)
        if "inner" in flags and isinstance(elem, LVec) and isinstance(elem.len, tuple):
            elem = LVec(fresh(name + ".ilen", V.nested(I, 1)), elem.elem, elem.ety)
        g = {}
        for k, x in v.g.items():
            if k.startswith("cur:"):
                g[k] = x
            else:
                g[k] = fresh(name + "." + k, V.ghostsort(x))
        if "len" in flags:
            st.assume(T.ge(ln, 0))
        return SVec(ln, elem, v.ety, g)
    if isinstance(v, (Num, Bool)):
        return K.havoc_like(v, name)
    if isinstance(v, Iter):
        return Iter(v.lv, fresh(name, I))
    if isinstance(v, StructV):
        return StructV(v.name, {k: havoc_leaf(ex, st, x, flags, name) for k, x in v.f.items()})
    if isinstance(v, StrDigits):
        return StrDigits(fresh(name, I))
    return v


def names_of(ex, st):
    return {}


def cut(ex, st0, n, cond, inc, body):
    emit0 = ex.emit
    st0 = st0.copy()
    if ex.opts.get("trace") and ex.world_lv is not None:
        lk = (ex.world_lv[0], ex.world_lv[1] + (("f", "body_soil_pos_"),))
        v = ex.read(st0, lk)
        if isinstance(v, SVec) and "src" not in v.g:
            g = dict(v.g)
            g["src"], g["dst"] = fresh("src", V.nested(I, 1)), fresh("dst", V.nested(I, 1))
            ex.write_raw(st0, lk, SVec(v.len, v.elem, v.ety, g))
    M, listify = {}, {}
    suffix = []          # (var lv, list lv, id)
    loopvar = find_loopvar(ex, st0, cond, inc)

    def mkhead(cands, with_cond=True, s0=None):
        h = (s0 or st0).copy()
        for (loc, path), flags in M.items():
            nm = "L%s_%s" % (n.line, ".".join(str(p[1]) for p in path) or loc)
            v = ex.read(h, (loc, path))
            ex.write_raw(h, (loc, path), havoc_leaf(ex, h, v, flags, nm))
        # cursors follow their variables
        for var, lst, sid in suffix:
            lv = ex.read(h, lst)
            vt = ex.read(h, var).t
            if "S:" + sid in lv.g:
                g = dict(lv.g)
                g["cur:" + sid] = vt
                ex.write_raw(h, lst, SVec(lv.len, lv.elem, lv.ety, g))
        assume_cands(ex, h, cands)
        for var, lst, sid in suffix:
            suffix_lemmas(ex, h, var, lst, sid)
        ledger_lemmas(ex, h, cands, M)
        return h

    def iterate(h):
        """body once from the head -> (back-edge states, exits)"""
        backs, exits = [], []
        s = h.copy()
        heads = {sid: ex.read(s, var).t for var, lst, sid in suffix}
        if cond is not None:
            cs = []
            for s1, c, o in ex.root_eval(s, cond):
                t = ex.truth(c)
                s1f = s1.copy()
                if ex.feasible(s1f, T.lnot(t)):
                    s1f.assume(T.lnot(t))
                    restore_env(s1f, st0)
                    exits.append((s1f, None, None))
                if ex.feasible(s1, t):
                    s1.assume(t)
                    ex.learn(s1, t)
                    cs.append(s1)
        else:
            cs = [s]
        ex.loopvars.append(loopvar)
        if suffix:
            ex.cursors.append(suffix[0][0])
        try:
            for s1 in cs:
                for var, lst, sid in suffix:
                    v = ex.read(s1, lst)
                    e = V.lower(v.elem, heads[sid])
                    st_touch_entry(ex, s1, lst, heads[sid], e)
                for s2, o, v in ex.stmt(s1, body):
                    if o in (None, "continue"):
                        if inc is not None:
                            ex.ev(s2, inc)
                        for var, lst, sid in suffix:
                            advance(ex, s2, var, lst, sid, heads[sid])
                        restore_env(s2, st0)
                        backs.append(s2)
                    elif o == "break":
                        restore_env(s2, st0)
                        exits.append((s2, None, None))
                    else:
                        exits.append((s2, o, v))
        finally:
            ex.loopvars.pop()
            if suffix:
                ex.cursors.pop()
        for s1, o, v in exits:
            if o is None and ex.opts.get("zero_sum"):
                zero_sum(ex, s1)
        return backs, exits

    ex.emit = False
    nobl = len(ex.obls)
    quickly = getattr(ex, "discover", False)
    try:
        # --- discover the modified locations
        for rnd in range(8):
            h = mkhead([])
            ex.discover = True
            try:
                backs, exits = iterate(h)
            finally:
                ex.discover = quickly
            new = False
            for s in backs:
                new |= changed(h.store, s.store, M, listify)
            for s, o, v in exits:
                pass
            if listify:
                for key, y in list(listify.items()):
                    v = ex.read(st0, key)
                    if isinstance(v, CVec):
                        sv = V.to_svec(v, (y.ety if y is not None else v.ety))
                        if not v.e and y is not None and isinstance(y.elem, LVec) and isinstance(y.elem.len, tuple):
                            sv = SVec(sv.len, LVec(y.elem.len, sv.elem.elem, sv.elem.ety), sv.ety, sv.g)
                        ex.write_raw(st0, key, sv)
                        M.setdefault(key, set()).add("len")
                        new = True
                listify.clear()
            # --- suffix ledgers for index loops over parcel lists
            if rnd == 0 and loopvar is not None:
                v0 = ex.read(st0, loopvar)
                if isinstance(v0, Num) and v0.t == 0 and isinstance(v0.t, int):
                    hv = h.copy()
                    for loc, val in list(st0.store.items()):
                        for path, x in list(leafpaths(val)):
                            if isinstance(x, SVec) and "LT" in x.g:
                                hh = mkhead_simple(ex, st0, loopvar)
                                vt = ex.read(hh, loopvar).t
                                c = ex.truth(ex.ev(hh, cond)) if cond is not None else True
                                if not T.isc(c):
                                    hh.assume(c)
                                if ex.valid(hh, T.lt(vt, ex.read(hh, (loc, path)).len), 1500):
                                    sid = "%s_%d" % (loopvar[0], ex.nextsid())
                                    g = dict(x.g)
                                    g["S:" + sid], g["SC:" + sid], g["ST:" + sid], g["cur:" + sid] = x.g["L"], x.g["C"], x.g["LT"], 0
                                    ex.write_raw(st0, (loc, path), SVec(x.len, x.elem, x.ety, g))
                                    suffix.append((loopvar, (loc, path), sid))
                                    M.setdefault((loc, path), {"sfx"})
                                    new = True
            if not new:
                break
        # --- candidates
        if quickly:
            # an outer loop only asks what is modified here
            cands = []
        else:
            head0 = mkhead([])
            cands = candidates(ex, st0, head0, M, suffix, loopvar, cond, inc, body, n)
            total = len(cands)
            memo, mkey = memo_key(ex, n, total)
            if mkey in memo:
                # candidates that failed under stronger assumptions fail again
                cands = [c for k, c in enumerate(cands) if k in memo[mkey]]
            index = {id(c): k for k, c in enumerate(cands)} if mkey not in memo else dict(zip([id(c) for c in cands], sorted(memo[mkey])))
            hint = ex.next_hint(total) if emit0 and ex.hints is not None else None
            inner = {"memo": {}, "seen": {}}
            if hint is not None:
                # the invariants that were kept before; that they hold is an obligation like any other
                cands = [c for k, c in enumerate(cands) if index[id(c)] in hint]
                if ex.pool:
                    cands = ex.pool(n, filter_valid(ex, st0, cands, "entry"), index)
            else:
                cands = filter_valid(ex, st0, cands, "entry")
                outer, ex.phase = ex.__dict__.get("phase"), {"memo": {}, "seen": {}}
                try:
                    for rnd in range(40):
                        ex.phase["seen"] = {}
                        h = mkhead(cands)
                        backs, exits = iterate(h)
                        keep = cands
                        for s in backs:
                            keep = filter_valid(ex, s, keep, "back")
                        if len(keep) == len(cands):
                            break
                        cands = keep
                    else:
                        raise Unsupported("invariant inference did not settle")
                finally:
                    inner, ex.phase = ex.phase, outer
            if emit0:
                ex.kept.append([total, sorted(index[id(c)] for c in cands)])
            memo[mkey] = {index[id(c)] for c in cands}
    finally:
        ex.emit = emit0
        ex.obls = ex.obls[:nobl]
    ex.notes.append("%s:%s invariants: %s" % (ex.fn_name, n.line, ", ".join(c.name for c in cands)))
    if emit0:
        # the accepted invariants are obligations of the final run
        prove_cands(ex, st0, cands, n.line, "init")
        outer, ex.phase = ex.__dict__.get("phase"), inner
        inner["seen"] = {}
        try:
            h = mkhead(cands)
            backs, exits = iterate(h)
            for s in backs:
                prove_cands(ex, s, cands, n.line, "step")
        finally:
            ex.phase = outer
    ex.havoced = True
    out = []
    for s, o, v in exits:
        if o is None and loopvar is not None and any(c.kind[:4] == "idx:" for c in cands):
            for k in range(ex.opts.get("idx", 9)):
                s.touch("idx:%s" % (loopvar[0],), (k,))
        strip_suffix(ex, s, suffix)
        out.append((s, o, v))
    norm = [s for s, o, v in out if o is None]
    if len(norm) > ex.opts.get("merge_exits", 1):
        return [(ex.merge_states(norm), None, None)] + [d for d in out if d[1] is not None]
    return out


def zero_sum(ex, st):
    """without soil in any cell there is no soil (definition of the sum)"""
    w = worldof(ex, st)
    i, j = fresh("wi", I), fresh("wj", I)
    st.touch("cell", (i, j))
    st.assume(T.lor(T.eq(w.soil(), 0), T.land(wf.inside(w, i, j), T.lor(wf.bspresent(w, 0, i, j), wf.bspresent(w, 2, i, j)))))


def memo_key(ex, n, count):
    """which earlier run of this loop, under the same outer loops, this one repeats"""
    ph = ex.__dict__.get("phase")
    if ph is None:
        ph = {"memo": {}, "seen": {}}
    k = (n.line, count)
    ph["seen"][k] = ph["seen"].get(k, 0) + 1
    return ph["memo"], k + (ph["seen"][k],)


def ledger_lemmas(ex, st, cands, M):
    """consequences of the definition of the ledger of a list whose parcels are all non-negative"""
    so = ex.world_lv
    if so is None:
        return
    lst = (so[0], so[1] + (("f", "body_soil_pos_"),))
    if lst in M and not any(c.name == "parcel-amount" for c in cands):
        return
    w = worldof(ex, st)
    st.facts.append(Fact("cell", lambda i, j: T.limp(wf.inside(w, i, j), wf.p_lemma(w, i, j)), "lemma-ledger"))
    st.facts.append(Fact("list:" + ex.listkey(lst), lambda k: T.limp(T.land(T.le(0, k), T.lt(k, w.n)), wf.e_lemma(w, k)), "lemma-parcel"))


def mkhead_simple(ex, st0, loopvar):
    h = st0.copy()
    v = ex.read(h, loopvar)
    ex.write_raw(h, loopvar, Num(fresh("nn", I)))
    h.assume(T.ge(ex.read(h, loopvar).t, 0))
    return h


def find_loopvar(ex, st, cond, inc):
    if inc is None:
        return None
    x = inc
    while x.k in ex.WRAP and x.inner:
        x = x.inner[0]
    if x.k == "UnaryOperator" and x.get("opcode") == "++" or x.k == "CompoundAssignOperator" and x.get("opcode") == "+=":
        t = x.inner[0]
        if t.k == "DeclRefExpr" and t.ref.get("id") in st.env:
            lv = st.env[t.ref.get("id")]
            if isinstance(ex.read(st, lv), Num):
                return lv
    return None


def st_touch_entry(ex, st, lst, k, e):
    st.touch("list:%s" % ex.listkey(lst), (k,))
    f = e.f
    if "ii" in f:
        st.touch("cell", (f["ii"].t, f["jj"].t))


def advance(ex, st, var, lst, sid, k):
    v = ex.read(st, lst)
    g = dict(v.g)
    if "S:" + sid not in g:
        return
    e = V.lower(v.elem, k)
    suffix_add(g, sid, e, -1)
    g["cur:" + sid] = ex.read(st, var).t
    ex.write_raw(st, lst, SVec(v.len, v.elem, v.ety, g))


def suffix_lemmas(ex, st, var, lst, sid):
    v = ex.read(st, lst)
    g = v.g
    vt = ex.read(st, var).t
    e = V.lower(v.elem, vt)
    c = V.cellof(e)
    inr = T.lt(vt, v.len)
    h = T.toreal(e.f["h_soil"].t)
    # definition of the suffix ledgers: nothing remains at the end; the entry at the cursor is part of what remains
    st.assume(T.limp(T.ge(vt, v.len), T.eq(g["ST:" + sid], 0)))
    S, SC = g["S:" + sid], g["SC:" + sid]
    ln = v.len
    for l in (0, 2):
        st.facts.append(Fact("cell", lambda i, j, l=l: T.limp(T.ge(vt, ln), T.land(
            T.eq(V.aget(S, l, i, j), 0), T.eq(V.aget(SC, l, i, j), 0))), "suffix-empty"))
        st.facts.append(Fact("cell", lambda i, j, l=l: T.land(T.ge(V.aget(SC, l, i, j), 0),
                             T.limp(T.eq(V.aget(SC, l, i, j), 0), T.eq(V.aget(S, l, i, j), 0))), "suffix-count"))
        if ("nonneg", lst) in ex.nonneg(st):
            st.facts.append(Fact("cell", lambda i, j, l=l: T.ge(V.aget(S, l, i, j), 0), "suffix-nonneg"))
    st.assume(T.limp(inr, T.ge(V.aget(SC, *c), 1)))
    if ("nonneg", lst) in ex.nonneg(st):
        st.assume(T.limp(inr, T.ge(T.norm(V.aget(S, *c)), h)))


def strip_suffix(ex, st, suffix):
    for var, lst, sid in suffix:
        try:
            v = ex.read(st, lst)
        except Exception:
            continue
        if isinstance(v, SVec):
            g = {k: x for k, x in v.g.items() if not k.endswith(":" + sid)}
            ex.write_raw(st, lst, SVec(v.len, v.elem, v.ety, g))


# ---- candidates --------------------------------------------------------------------------------------------------

def assume_cands(ex, st, cands):
    nn = set()
    for c in cands:
        f = c.build(st)
        if c.kind == "plain":
            if c.heavy:
                st.facts.append(Fact("plain", f, c.name, True))
            else:
                st.assume(f())
        else:
            st.facts.append(Fact(c.kind, f, c.name, c.heavy))
        if c.name.startswith("nonneg:"):
            nn.add(("nonneg", c.build.lst))
    if nn:
        st.ghost = dict(st.ghost)
        st.ghost["nonneg"] = st.ghost.get("nonneg", frozenset()) | nn


def goals(ex, st, cands, sk):
    out = []
    for c in cands:
        f = c.build(st)
        if c.kind == "plain":
            out.append((c, f()))
        else:
            if c.kind not in sk:
                m = 2 if c.kind == "cell" else 1
                sk[c.kind] = tuple(fresh("sk", I) for _ in range(m))
            out.append((c, f(*sk[c.kind])))
    return out


def points(sk, nears):
    xp = {k: [p] for k, p in sk.items()}
    for f in nears:
        for p in sk.values():
            for q in f(p):
                xp.setdefault("cell", [])
                xp["cell"] = xp["cell"] + [q]
    return xp


def filter_valid(ex, st, cands, what):
    far, close = [c for c in cands if not c.near], [c for c in cands if c.near]
    if far and close:
        ok = {id(c) for c in filter_valid(ex, st, far, what) + filter_valid(ex, st, close, what)}
        return [c for c in cands if id(c) in ok]
    sk = {}
    gs = []
    for c in cands:
        try:
            gs += goals(ex, st, [c], sk)
        except Unsupported:
            continue
    gs = [(c, g) for c, g in gs if g is not False]
    ok = {id(c) for c, g in gs if g is True}
    rest = [(c, g) for c, g in gs if g is not True]
    base = ex.assumptions(st, points(sk, [c.near(st) for c, g in rest if c.near]))
    while rest:
        r, s = ex.check(base + [z3.Not(z3.And(*[T.z(g) for c, g in rest]))], 500 if T.Mode.poly else 4000)
        if r == z3.unsat:
            ok |= {id(c) for c, g in rest}
            break
        if r == z3.sat:
            m = s.model()
            bad = [k for k, (c, g) in enumerate(rest) if z3.is_false(m.eval(T.z(g), model_completion=True))]
            if bad:
                rest = [x for k, x in enumerate(rest) if k not in bad]
                continue
        # undecided: one by one
        nxt = []
        for c, g in rest:
            r, s = ex.check(base + [z3.Not(T.z(g))], 1000 if T.Mode.poly else 3000)
            if os.environ.get("DV_DBG"):
                print("   one", what, c.name, r, flush=True)
            if r == z3.unsat:
                ok.add(id(c))
            elif r == z3.unknown:
                if prove_parts(ex, base, T.z(g), 1000 if T.Mode.poly else 15000 if c.heavy else 3000):
                    ok.add(id(c))
        break
    return [c for c in cands if id(c) in ok]


def prove_parts(ex, base, g, timeout):
    """conjunct by conjunct, and for the index just written and the others"""
    q = T.conjuncts(g)
    if len(q) == 1 and not T.store_cases(g):
        return False
    for x in q:
        cs = T.store_cases(x)
        if cs:
            if not all(holds(ex, base + [h], y, timeout, 2 if T.Mode.poly else 0) for h, y in cs):
                return False
        elif ex.check(base + [z3.Not(x)], timeout)[0] != z3.unsat:
            return False
    return True


def holds(ex, base, g, timeout, depth):
    if ex.check(base + [z3.Not(g)], timeout)[0] == z3.unsat:
        return True
    cs = T.store_cases(g) if depth else None
    if cs:
        return all(holds(ex, base + [h], y, timeout, depth - 1) for h, y in cs)
    return by_algebra(ex, base, g)


def by_algebra(ex, base, g):
    if not T.Mode.poly:
        return False
    import poly
    r = poly.prove(base, list(ex.side), g, 10)
    if os.environ.get("DV_DBG"):
        print("   algebra", r, str(g)[:1500], flush=True)
    return r


def prove_cands(ex, st, cands, line, what):
    sk = {}
    for c, g in goals(ex, st, cands, sk):
        if g is True:
            continue
        if c.kind == "plain":
            ex.oblige(st, "invariant %s [%s]" % (c.label or c.name, what), g, ex.inv_tags(c), line, "inv", assume_after=False)
        else:
            ex.oblige(st, "invariant %s [%s]" % (c.label or c.name, what), g, ex.inv_tags(c), line, "inv",
                      extra_pts=points({c.kind: sk[c.kind]}, [c.near(st)] if c.near else []))


def worldof(ex, st, extra=()):
    so = ex.world_lv
    if so is None:
        return None
    return K.SymWorld(ex.read(st, so), extra)


def candidates(ex, st0, head, M, suffix, loopvar, cond, inc, body, n):
    out = []
    so = ex.world_lv
    world_mod = so is not None and any(loc == so[0] for (loc, p) in M)
    listmods = [(loc, p) for (loc, p) in M if isinstance(ex.read(st0, (loc, p)), SVec) and "LT" in ex.read(st0, (loc, p)).g]
    extras = [k for k in listmods if so is None or k[0] != so[0]]
    ct = ex.contract
    for cl in (ct.loop_inv if ct else []):
        if cl.kind == "intvec":
            # every element of the lists of integers
            for (loc, p) in M:
                for path, x in leafpaths(ex.read(st0, (loc, p))):
                    if isinstance(x, SVec) and x.ety == ("num", "i"):
                        def b(st, cl=cl, lv=(loc, p + path)):
                            c = ex.loop_ctx(st)
                            v = ex.read(st, lv)
                            n = ex.read(st, loopvar).t if loopvar is not None else 0
                            cl.fn(c, v, 0, n)
                            return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, v.len)), cl.fn(c, v, k, n))
                        probe(out, ex, head, Cand("%s %s" % (cl.name, ".".join(str(q[-1]) for q in p + path)), "list:" + ex.listkey((loc, p + path)), b))
        elif cl.kind == "tables" and loopvar is not None:
            # local tables: every choice of the wanted sorts
            import itertools
            tabs = [(loc, p) for (loc, p) in M for x in [ex.read(st0, (loc, p))] if isinstance(x, SVec) and isinstance(x.elem, LVec) and isinstance(x.elem.elem, LNum)]
            for pick in itertools.permutations(tabs, len(cl.nints)):
                if any((ex.read(st0, k).elem.ety[0] == "bool") != (b == "b") for k, b in zip(pick, cl.nints)):
                    continue

                for swap in (False, True):
                    # rows first, columns first
                    def b(st, cl=cl, pick=pick, swap=swap):
                        c = ex.loop_ctx(st)
                        vs = [ex.read(st, v).t for v in ex.loopvars + [loopvar] if v is not None]
                        c.visited = lambda i, j: lex([j, i] if swap else [i, j], vs)
                        arrs = [ex.read(st, k) for k in pick]
                        get = [lambda i, j, v=v: V.lower(V.lower(v.elem, i).elem, j).t for v in arrs]
                        return lambda i, j: T.limp(T.land(T.le(0, i), T.lt(i, arrs[0].len), T.le(0, j), T.lt(j, V.lower(arrs[0].elem, i).len)), cl.fn(c, i, j, *get))
                    probe(out, ex, head, Cand("%s %s%s" % (cl.name, [k[0] for k in pick], " by column" if swap else ""), "cell", b))
        elif cl.kind == "numvec" and loopvar is not None and cl.nints == 2:
            # a local running along with the list
            rl = [(loc, p) for (loc, p) in M if isinstance(ex.read(st0, (loc, p)), Num) and T.isreal(ex.read(st0, (loc, p)).t)]
            for (loc, p) in M:
                for path, x in leafpaths(ex.read(st0, (loc, p))):
                    for r in rl if isinstance(x, SVec) and x.ety == ("num", "r") else []:
                        def b(st, cl=cl, lv=(loc, p + path), r=r):
                            t = cl.fn(ex.loop_ctx(st), ex.read(st, lv), ex.read(st, loopvar).t, ex.read(st, r).t)
                            return lambda: t
                        probe(out, ex, head, Cand("%s %s" % (cl.name, r[0]), "plain", b))
        elif cl.kind == "numvec" and loopvar is not None:
            # lists of numbers: up to the position reached by the loop
            for (loc, p) in M:
                for path, x in leafpaths(ex.read(st0, (loc, p))):
                    if isinstance(x, SVec) and x.ety == ("num", "r"):
                        def b(st, cl=cl, lv=(loc, p + path)):
                            c = ex.loop_ctx(st)
                            v = ex.read(st, lv)
                            n = ex.read(st, loopvar).t
                            if cl.nints:
                                t = T.limp(T.gt(n, 0), cl.fn(c, v))
                                return lambda: t
                            cl.fn(c, v, 0)
                            st.touch("numvec", (n,)), st.touch("numvec", (T.sub(n, 1),))
                            return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, n)), cl.fn(c, v, k))
                        probe(out, ex, head, Cand("%s %s" % (cl.name, ".".join(str(q[-1]) for q in p + path)), "plain" if cl.nints else "numvec", b))

    def sfx(st, sid_l, kind):
        var, lst, sid = sid_l
        g = ex.read(st, lst).g
        return g["S:" + sid], g["SC:" + sid]

    if so is not None:
        modes = [("", lambda st: ())]
        for e in extras:
            modes.append(("+list", lambda st, e=e: (K.list_view(ex.read(st, e)),)))
        for s in suffix:
            modes.append(("+rest", lambda st, s=s: (sfx(st, s, 0),)))
            if s[1][0] == so[0]:
                pass
        if world_mod or suffix or extras:
            preds = ex.inv_preds
            for nm, tags, kind, fn in preds:
                variants = modes if nm in ("parcels-add-up",) else modes[:1]
                for mnm, mk in variants:
                    if kind == "cell":
                        def build(st, fn=fn, mk=mk):
                            w = worldof(ex, st, mk(st))
                            return lambda i, j: T.limp(wf.inside(w, i, j), fn(w, i, j))
                        out.append(Cand(nm + mnm, "cell", build))
                    elif kind == "ent":
                        if not any(loc == so[0] and p and p[-1] == ("f", "body_soil_pos_") for (loc, p) in M):
                            continue
                        lk = "list:" + ex.listkey((so[0], so[1] + (("f", "body_soil_pos_"),)))

                        def build(st, fn=fn):
                            w = worldof(ex, st)
                            return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, w.n)), fn(w, k))
                        out.append(Cand(nm, lk, build))
                    else:
                        out.append(Cand(nm, "plain", lambda st, fn=fn: (lambda: fn(worldof(ex, st)))))
            # amounts
            out += total_cands(ex, st0, M, suffix)
        for cl in (ct.loop_inv if ct else []):
            if cl.kind in ("numvec", "intvec", "tables"):
                continue
            if cl.world and not world_mod:
                continue
            mark = len(out)
            def ctx(st):
                c = ex.loop_ctx(st)
                c.suffix = {}
                for s in suffix:
                    g = ex.read(st, s[1]).g
                    c.S = lambda l, i, j, g=g, s=s: V.aget(g["S:" + s[2]], l, i, j)
                    c.SC = lambda l, i, j, g=g, s=s: V.aget(g["SC:" + s[2]], l, i, j)
                    c.ST = g["ST:" + s[2]]
                if not suffix:
                    c.S = c.SC = None
                    c.ST = None
                vs = [v for v in ex.loopvars + [loopvar] if v is not None]
                c.lv = [ex.read(st, v).t for v in vs]
                c.lv0 = [ex.lv_init.get(v) for v in vs]
                c.visited = lambda i, j: lex([i, j], c.lv)
                c.k = ex.read(st, loopvar).t if loopvar is not None else None
                return c
            if cl.kind == "plain":
                def b(st, cl=cl):
                    t = cl.fn(ctx(st))
                    return lambda: t
                probe(out, ex, head, Cand(cl.name, "plain", b))
            elif cl.kind == "cell":
                def b(st, cl=cl):
                    c = ctx(st)
                    cl.fn(c, 0, 0)
                    return lambda i, j: T.limp(wf.inside(c.new, i, j), cl.fn(c, i, j))
                probe(out, ex, head, Cand(cl.name, "cell", b, near=(lambda st: lambda p: K.nearby(*p) if len(p) == 2 else []) if cl.near else None))
            elif cl.kind == "ent":
                def b(st, cl=cl):
                    c = ctx(st)
                    nl = cl.lst(c) if cl.lst else c.new.n
                    return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, nl)), cl.fn(c, k))
                lk = cl.lst.key_at(ex, st0) if cl.lst is not None else "list:" + ex.listkey((so[0], so[1] + (("f", "body_soil_pos_"),)))
                probe(out, ex, head, Cand(cl.name, lk, b))
            elif cl.kind == "tuples":
                # every element of every list of int tuples in scope
                for loc, val in list(st0.store.items()):
                    for path, x in list(leafpaths(val)):
                        if isinstance(x, SVec) and x.ety == ("vec", ("num", "i")):
                            def b(st, cl=cl, key=(loc, path)):
                                c = ctx(st)
                                v = ex.read(st, key)
                                c.list = TupleList(v)
                                cl.fn(c, 0)
                                return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, v.len)), cl.fn(c, k))
                            near = None
                            if cl.near:
                                def near(st, key=(loc, path)):
                                    v = ex.read(st, key)
                                    return lambda p: K.nearby(*TupleList(v).at(p[0])[:2]) if len(p) == 1 else []
                            probe(out, ex, head, Cand(cl.name, "list:" + ex.listkey((loc, path)), b, near=near))
            elif cl.kind == "reach":
                # lists of int tuples with two integers that do not change, one that does, and an amount
                for loc, val in list(st0.store.items()):
                    if not (isinstance(val, SVec) and val.ety == ("vec", ("num", "i"))):
                        continue
                    num = [(l, ()) for l, x in st0.store.items() if l != so[0] and isinstance(x, Num)]
                    mod = {k[0] for k in M}
                    vis = {x[0] for x in st0.env.values() if isinstance(x, tuple)}
                    num = [k for k in num if k[0] in vis]
                    fix = [k for k in num if k[0] not in mod and not T.isreal(ex.read(st0, k).t) and not T.isc(ex.read(st0, k).t)]
                    var = [k for k in num if not T.isreal(ex.read(st0, k).t) and (k[0] in mod or k not in fix) and k != loopvar and not T.isc(ex.read(head, k).t)]
                    rl = [k for k in num if T.isreal(ex.read(st0, k).t)]
                    import itertools
                    w0 = worldof(ex, st0)
                    pairs = interior_pairs(ex, st0, w0, fix, lambda k: ex.read(st0, k).t)
                    for a, b in pairs:
                        for p_, h in itertools.product(var + [k for k in fix if k not in (a, b)], rl):
                            def bd(st, cl=cl, loc=loc, a=a, b=b, p_=p_, h=h):
                                c = ctx(st)
                                v = ex.read(st, (loc, ()))
                                L = TupleList(v)
                                rd = lambda k: ex.read(st, k).t
                                inr = loc in mod or loopvar is None or not cl.nints
                                cl.fn(c, rd(a), rd(b), rd(p_), rd(h), L.at(0), 0)
                                return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, v.len)), cl.fn(c, rd(a), rd(b), rd(p_), rd(h), L.at(k), k))
                            probe(out, ex, head, Cand("%s %s" % (cl.name, (a[0], b[0], p_[0], h[0])), "list:" + ex.listkey((loc, ())), bd))
            elif cl.kind == "index":
                # for every index passed so far, with one modified real local
                rl = [(loc, p) for (loc, p) in M if loc != so[0] and isinstance(ex.read(st0, (loc, p)), Num) and T.isreal(ex.read(st0, (loc, p)).t)]
                for r in rl if loopvar is not None else []:
                    def b(st, cl=cl, r=r):
                        c = ctx(st)
                        c.vars = [ex.read(st, r).t]
                        c.local = lambda t: [v for v in st.store.values() if t(v)]
                        cl.fn(c, 0)
                        st.touch("idx:%s" % (loopvar[0],), (c.k,))
                        return lambda m: T.limp(T.land(T.le(0, m), T.lt(m, c.k)), cl.fn(c, m))
                    probe(out, ex, head, Cand("%s %s" % (cl.name, r[0]), "idx:%s" % (loopvar[0],), b))
            elif cl.kind == "locals":
                # every choice of one real and some integers among the modified locals
                import itertools
                rl = [(loc, p) for (loc, p) in M if loc != so[0] and isinstance(ex.read(st0, (loc, p)), Num) and T.isreal(ex.read(st0, (loc, p)).t)]
                il = [(loc, p) for (loc, p) in M if loc != so[0] and (loc, p) != loopvar and isinstance(ex.read(st0, (loc, p)), Num) and not T.isreal(ex.read(st0, (loc, p)).t)]
                for r in rl:
                    for pick in itertools.permutations(il, cl.nints):
                        def b(st, cl=cl, ks=(r,) + pick):
                            c = ctx(st)
                            c.vars = [ex.read(st, k).t for k in ks]
                            c.local = lambda t: [v for v in st.store.values() if t(v)]
                            t = cl.fn(c)
                            return lambda: t
                        probe(out, ex, head, Cand("%s %s" % (cl.name, [k[0] for k in (r,) + pick]), "plain", b))
            elif cl.kind == "ints":
                # every choice of integers among the modified locals
                import itertools
                il = [(loc, p) for (loc, p) in M if loc != so[0] and isinstance(ex.read(st0, (loc, p)), Num) and not T.isreal(ex.read(st0, (loc, p)).t)]
                for pick in itertools.permutations(il, cl.nints):
                    def b(st, cl=cl, ks=pick):
                        c = ctx(st)
                        c.vars = [ex.read(st, k).t for k in ks]
                        t = cl.fn(c)
                        return lambda: t
                    probe(out, ex, head, Cand("%s %s" % (cl.name, [k[0] for k in pick]), "plain", b))
            elif cl.kind == "grids4":
                # every local copy of four grids
                for loc, val in list(st0.store.items()):
                    if loc != so[0] and isinstance(val, CVec) and len(val.e) == 4 and all(isinstance(x, SVec) and "sum" in x.g for x in val.e):
                        def b(st, cl=cl, loc=loc):
                            c = ctx(st)
                            v = ex.read(st, (loc, ()))
                            c.grid4 = lambda l, i, j: V.lower(V.lower(v.e[l].elem, i).elem, j).t
                            cl.fn(c, 0, 0)
                            return lambda i, j: T.limp(wf.inside(c.new, i, j), cl.fn(c, i, j))
                        probe(out, ex, head, Cand(cl.name, "cell", b))
            elif cl.kind == "member":
                for loc, val in list(st0.store.items()):
                    for path, x in list(leafpaths(val)):
                        if isinstance(x, SVec) and "where" in x.g:
                            def b(st, cl=cl, key=(loc, path)):
                                c = ctx(st)
                                v = ex.read(st, key)
                                c.list = TupleList(v)
                                cl.fn(c, 0, 0)
                                return lambda i, j: T.limp(wf.inside(c.new, i, j), cl.fn(c, i, j))
                            probe(out, ex, head, Cand(cl.name, "cell", b))
            for x in out[mark:]:
                x.heavy = cl.heavy
    # what is smaller or larger than every listed coordinate seen so far
    if ex.opts.get("extent") and loopvar is not None:
        il = [k for k in M if k[0] != so[0] and k != loopvar and isinstance(ex.read(st0, k), Num) and not T.isreal(ex.read(st0, k).t)]
        ls = [(loc, p) for loc, val in list(st0.store.items()) for p, x in list(leafpaths(val)) if isinstance(x, SVec) and "where" in x.g]
        for key in ls:
            for k in il:
                for d in (0, 1):
                    for nm, rel in (("<=", T.le), (">=", T.ge)):
                        def build(st, key=key, k=k, d=d, rel=rel):
                            v = ex.read(st, key)
                            L = TupleList(v)
                            x, cur = ex.read(st, k).t, ex.read(st, loopvar).t
                            L.at(0)[d]
                            return lambda m: T.limp(T.land(T.le(0, m), T.lt(m, v.len), T.lt(m, cur)), rel(x, L.at(m)[d]))
                        probe(out, ex, head, Cand("extent %s%s%d %s" % (k[0], nm, d, key[0]), "list:" + ex.listkey(key), build))
    # lists of parcels outside the state
    for e in extras:
        lk = "list:" + ex.listkey(e)

        def build(st, e=e):
            v = ex.read(st, e)
            return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, v.len)), T.ge(V.lower(v.elem, k).f["h_soil"].t, 0))
        build.lst = e
        out.append(Cand("nonneg:" + lk, lk, build))
        if so is not None:
            for nm, tags, kind, fn in ex.inv_preds:
                if kind == "ent" and not nm.startswith("lemma"):
                    def build(st, e=e, fn=fn):
                        w = worldof(ex, st)
                        lv = K.ListView(ex.read(st, e))

                        class W2:
                            nx, ny, n, ent = w.nx, w.ny, lv.n, staticmethod(lv.ent)
                            body = staticmethod(w.body)
                        return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, lv.n)), fn(W2, k))
                    out.append(Cand(nm + "@" + lk, lk, build))
    if so is not None:
        lst = (so[0], so[1] + (("f", "body_soil_pos_"),))
        if lst in M:
            lk = "list:" + ex.listkey(lst)

            def build(st, e=lst):
                v = ex.read(st, e)
                return lambda k: T.limp(T.land(T.le(0, k), T.lt(k, v.len)), T.ge(V.lower(v.elem, k).f["h_soil"].t, 0))
            build.lst = lst
            out.append(Cand("nonneg:" + lk, lk, build))
    out += scalar_cands(ex, st0, head, M, cond, loopvar, body)
    return out


class ConcTuples:
    """a list of integer tuples reported by a run"""

    def __init__(self, v):
        self.v = v
        self.idx = None

    @property
    def n(self):
        return len(self.v)

    def at(self, k):
        return list(self.v[k]) if 0 <= k < len(self.v) else [-999] * 3

    def where(self, *t):
        if self.idx is None:
            self.idx = {}
            for k, x in enumerate(self.v):
                self.idx.setdefault(tuple(x), k)
        return self.idx.get(tuple(t), -1)


class TupleList:
    def __new__(cls, v):
        return ConcTuples(v) if isinstance(v, list) else object.__new__(cls)

    def __init__(self, v):
        self.v = v

    @property
    def n(self):
        return self.v.len

    def at(self, k):
        e = V.lower(self.v.elem, k)
        ln = e.len if isinstance(e.len, int) else None
        return [T.norm(V.sel(e.elem.a, c)) for c in range(ln if ln is not None else 3)]

    def where(self, *t):
        t = list(t) + [0] * (3 - len(t))
        return T.norm(V.aget(self.v.g["where"], *t))


def interior_pairs(ex, st, w, keys, val):
    """pairs of integers that are a cell away from the border"""
    xs = [k for k in keys if ex.valid(st, T.land(T.le(1, val(k)), T.le(val(k), T.sub(w.nx, 2))), 1500)]
    ys = [k for k in keys if ex.valid(st, T.land(T.le(1, val(k)), T.le(val(k), T.sub(w.ny, 2))), 1500)]
    return [(a, b) for a in xs for b in ys if a is not b]


def probe(out, ex, head, cand):
    try:
        f = cand.build(head)
        out.append(cand)
    except (Unsupported, AttributeError, TypeError, IndexError, KeyError) as e:
        pass


def lex(idx, lv):
    """lexicographically before the loop variables"""
    r = False
    pre = True
    for i, v in zip(idx, lv):
        r = T.lor(r, T.land(pre, T.lt(i, v)))
        pre = T.land(pre, T.eq(i, v))
    return r


def total_cands(ex, st0, M, suffix):
    out = []
    reals = []
    for (loc, p), fl in M.items():
        v = ex.read(st0, (loc, p))
        if isinstance(v, Num) and T.isreal(v.t) and loc != ex.world_lv[0]:
            reals.append((loc, p))
    opts = [None] + reals
    sopts = [None] + [s for s in suffix]
    t0 = worldof(ex, st0).total()
    for r in opts:
        for s in sopts:
            def val(st, r=r, s=s):
                t = worldof(ex, st).total()
                if r is not None:
                    t = T.add(t, ex.read(st, r).t)
                if s is not None:
                    t = T.add(t, ex.read(st, s[1]).g["ST:" + s[2]])
                return t
            v0 = val(st0)
            out.append(Cand("total%s%s" % ("+%s" % (r[0],) if r else "", "+rest" if s else ""), "plain",
                            lambda st, val=val, v0=v0: (lambda: T.eq(val(st), v0))))
    # the two ledgers' totals
    def lt(st):
        return T.sub(T.toreal(worldof(ex, st).soil()), T.toreal(ex.read(st, ex.world_lv).f["body_soil_pos_"].g["LT"]))
    return out


class PSum:
    """sum of a grid over the cells before (i, j) in row order, defined by its facts"""

    def __init__(self, ex, st, g, ny, nx):
        a = g.elem.elem.a
        self.f = z3.Function("before!%d" % a.get_id(), z3.IntSort(), z3.IntSort(), V.HS() if True else R)
        self.g, self.nx, self.ny = g, nx, ny

    def at(self, i, j):
        return T.norm(self.f(T.z(i), T.z(j)))

    def facts(self, st):
        st.assume(T.eq(self.at(0, 0), 0))
        st.assume(T.eq(self.at(self.nx, 0), self.g.g["sum"]))
        st.facts.append(Fact("cell", lambda i, j: T.land(
            T.limp(T.land(T.le(0, i), T.lt(i, self.nx), T.le(0, j), T.lt(j, self.ny)), T.eq(self.at(i, T.add(j, 1)), T.add(
                self.at(i, j), V.lower(V.lower(self.g.elem, i).elem, j).t))),
            T.limp(T.land(T.le(0, i), T.lt(i, self.nx)), T.eq(self.at(i, self.ny), self.at(T.add(i, 1), 0)))), "row sums"))


def psums(ex, st):
    w = worldof(ex, st)
    if not hasattr(ex, "psum"):
        ex.psum = {}
    out = []
    v = ex.read(st, ex.world_lv)
    for gs in ((v.f["terrain_"],), tuple(v.f["body_soil_"].e)):
        r = []
        for g in gs:
            k = g.elem.elem.a.get_id()
            if k not in ex.psum:
                ex.psum[k] = PSum(ex, st, g, w.ny, w.nx)
                ex.psum[k].keep = g
            if ("psum", k) not in st.ghost:
                st.ghost = dict(st.ghost)
                st.ghost[("psum", k)] = True
                ex.psum[k].facts(st)
            r.append(ex.psum[k])
        out.append(r)
    t, b = out
    return [lambda i, j: T.toreal(t[0].at(i, j)),
            lambda i, j: T.sub(T.add(T.toreal(b[1].at(i, j)), T.toreal(b[3].at(i, j))), T.add(T.toreal(b[0].at(i, j)), T.toreal(b[2].at(i, j))))]


def psum_cands(ex, st0, M, loopvar):
    out = []
    vs = [v for v in ex.loopvars + [loopvar] if v is not None]
    if not vs or len(vs) > 2:
        return out

    def pos(st):
        p = [ex.read(st, v).t for v in vs]
        return (p + [0])[:2]
    fs = psums(ex, st0)
    for (loc, p), fl in M.items():
        v = ex.read(st0, (loc, p))
        if not isinstance(v, Num) or loc == loopvar[0]:
            continue
        for name, f in zip(("ground", "soil", "both"), fs + [lambda i, j: T.add(fs[0](i, j), fs[1](i, j))]):
            def val(st, k=(loc, p), f=f):
                return T.sub(T.toreal(ex.read(st, k).t), f(*pos(st)))
            d0 = val(st0)

            def b(st, val=val, d0=d0):
                psums(ex, st)
                st.touch("cell", tuple(pos(st)))
                return lambda: T.eq(val(st), d0)
            out.append(Cand("%s counts the %s" % (loc, name), "plain", b))
    return out


def scalar_cands(ex, st0, head, M, cond, loopvar, body):
    out = []
    if ex.opts.get("psum") and ex.world_lv is not None and loopvar is not None:
        out += psum_cands(ex, st0, M, loopvar)
    ints, reals, bools = [], [], []
    for (loc, p), fl in M.items():
        v = ex.read(st0, (loc, p))
        if isinstance(v, Num):
            (reals if T.isreal(v.t) else ints).append((loc, p))
        elif isinstance(v, Bool):
            bools.append((loc, p))
        elif isinstance(v, Iter):
            pass

    def rd(st, k):
        return ex.read(st, k).t
    for k in ints:
        v0 = rd(st0, k)
        nm = str(k[0]) + "".join("." + str(x[1]) for x in k[1])
        out.append(Cand("%s>=start" % nm, "plain", lambda st, k=k, v0=v0: (lambda: T.ge(rd(st, k), v0))))
        out.append(Cand("%s<=start" % nm, "plain", lambda st, k=k, v0=v0: (lambda: T.le(rd(st, k), v0))))
        out.append(Cand("%s>=0" % nm, "plain", lambda st, k=k: (lambda: T.ge(rd(st, k), 0))))
    for a in range(len(ints)):
        for b in range(a):
            ka, kb = ints[a], ints[b]
            d0 = T.sub(rd(st0, ka), rd(st0, kb))
            out.append(Cand("diff(%s,%s)" % (ka[0], kb[0]), "plain", lambda st, ka=ka, kb=kb, d0=d0: (
                lambda: T.eq(T.sub(rd(st, ka), rd(st, kb)), d0))))
    for (loc, p), fl in M.items():
        v = ex.read(st0, (loc, p))
        if isinstance(v, SVec) and "len" in fl:
            out.append(Cand("len(%s)>=start" % loc, "plain", lambda st, k=(loc, p), v0=v.len: (lambda: T.ge(ex.read(st, k).len, v0))))
            out.append(Cand("len(%s)>=0" % loc, "plain", lambda st, k=(loc, p): (lambda: T.ge(ex.read(st, k).len, 0))))
            for kk in ints:
                out.append(Cand("len(%s)>=%s" % (loc, kk[0]), "plain", lambda st, k=(loc, p), kk=kk: (
                    lambda: T.ge(ex.read(st, k).len, rd(st, kk)))))
                out.append(Cand("len(%s)-%s=start" % (loc, kk[0]), "plain", lambda st, k=(loc, p), kk=kk, d0=T.sub(v.len, rd(st0, kk)): (
                    lambda: T.eq(T.sub(ex.read(st, k).len, rd(st, kk)), d0))))
    # bound taken from the loop condition
    if cond is not None:
        x = cond
        while x.k in ex.WRAP and x.inner:
            x = x.inner[0]
        if x.k == "BinaryOperator" and x.get("opcode") in ("<", "<=", ">", ">=", "!="):
            def b(st, x=x):
                s = st.copy()
                was, ex.emit = ex.emit, False
                try:
                    l, r = ex.ev(s, x.inner[0]), ex.ev(s, x.inner[1])
                finally:
                    ex.emit = was
                if not (isinstance(l, Num) and isinstance(r, Num)):
                    return lambda: True
                op = x.get("opcode")
                t = {"<": lambda: T.le(l.t, r.t), "<=": lambda: T.le(l.t, T.add(r.t, 1)), ">": lambda: T.ge(l.t, r.t),
                     ">=": lambda: T.ge(l.t, T.sub(r.t, 1)), "!=": lambda: T.le(l.t, r.t)}[op]()
                return lambda: t
            probe(out, ex, head, Cand("bound", "plain", b))
    for k in reals:
        v0 = rd(st0, k)
        nm = str(k[0])
        out.append(Cand("%s on grid" % nm, "plain", lambda st, k=k: (lambda: T.isint(rd(st, k)))))
        out.append(Cand("%s>=0" % nm, "plain", lambda st, k=k: (lambda: T.ge(rd(st, k), 0))))
        out.append(Cand("%s<=start" % nm, "plain", lambda st, k=k, v0=v0: (lambda: T.le(rd(st, k), v0))))
        out.append(Cand("%s>=start" % nm, "plain", lambda st, k=k, v0=v0: (lambda: T.ge(rd(st, k), v0))))
    for k in bools:
        v0 = rd(st0, k)
        out.append(Cand("%s=start" % k[0], "plain", lambda st, k=k, v0=v0: (lambda: T.eq(rd(st, k), v0))))
    # search distances: integer locals stay inside the grid
    if ex.opts.get("reach") and ex.world_lv is not None:
        w = worldof(ex, st0)
        consts = []
        for eid, lv in st0.env.items():
            if lv in ints or not isinstance(lv, tuple) or lv[1]:
                continue
            v = st0.store.get(lv[0])
            if isinstance(v, Num) and not T.isreal(v.t) and not any(m[0] == lv[0] for m in M):
                consts.append((lv, v.t))
        for k in ints:
            for lv, a in consts:
                for nn, nm in ((w.nx, "x"), (w.ny, "y")):
                    out.append(Cand("reach-%s %s,%s" % (nm, k[0], lv[0]), "plain", lambda st, k=k, a=a, nn=nn: (
                        lambda: T.le(T.add(a, rd(st, k)), T.sub(nn, 2)))))
                out.append(Cand("reach-0 %s,%s" % (k[0], lv[0]), "plain", lambda st, k=k, a=a: (
                    lambda: T.le(1, T.sub(a, rd(st, k))))))
        # the column at two integers that stay the same
        if any(loc == ex.world_lv[0] for loc, p in M):
            for (a, ta), (b, tb) in interior_pairs(ex, st0, w, [x for x in consts if not T.isc(x[1])], lambda k: k[1]):
                if True:
                    if True:
                        probe(out, ex, head, Cand("column %s,%s kept" % (a[0], b[0]), "plain", lambda st, ta=ta, tb=tb, w=w: (
                            (lambda q: (lambda: T.eq(q.terrain(ta, tb), w.terrain(ta, tb))))(worldof(ex, st)))))
        # a search in all directions around two fixed integers, while an amount is left
        allc = [x for x in consts if not T.isc(x[1])]
        for (a, ta), (b, tb) in interior_pairs(ex, st0, w, allc, lambda k: k[1]):
            for h in reals:
                for p in ints if loopvar is None else []:
                    out.append(Cand("square %s,%s,%s,%s" % (a[0], b[0], p[0], h[0]), "plain", lambda st, ta=ta, tb=tb, p=p, h=h: (
                        lambda: T.limp(T.gt(rd(st, h), 0), T.land(*[T.land(T.le(1, T.sub(t, rd(st, p))), T.le(T.add(t, rd(st, p)), T.sub(nn, 2)))
                                                                  for t, nn in ((ta, w.nx), (tb, w.ny))])))))
                for p, tp in allc if loopvar is not None else []:
                    if p in (a, b):
                        continue
                    for loc, val in list(st0.store.items()):
                        if not (isinstance(val, CVec) and len(val.e) >= 4 and all(isinstance(x, CVec) and len(x.e) == 2 and isinstance(x.e[0], Num) for x in val.e)):
                            continue
                        def build(st, ta=ta, tb=tb, tp=tp, h=h, loc=loc):
                            v, cur = ex.read(st, (loc, ())), rd(st, loopvar)
                            q = [T.limp(T.lt(m, cur), wf.interior(w, T.add(ta, T.mul(tp, x.e[0].t)), T.add(tb, T.mul(tp, x.e[1].t)))) for m, x in enumerate(v.e)]
                            return lambda: T.limp(T.gt(rd(st, h), 0), T.land(*q))
                        probe(out, ex, head, Cand("directions %s,%s,%s,%s" % (a[0], b[0], p[0], h[0]), "plain", build))
                # a search in one of several listed directions
                num = {v.t for lv in st0.env.values() if isinstance(lv, tuple) and not lv[1] for v in [st0.store.get(lv[0])]
                       if isinstance(v, Num) and isinstance(v.t, int)}
                for p in ints if loopvar is None and bools else []:
                    for loc, val in list(st0.store.items()):
                        if not (isinstance(val, CVec) and len(val.e) >= 4 and all(isinstance(x, CVec) and len(x.e) == 2 and isinstance(x.e[0], Num) for x in val.e)):
                            continue
                        for m in sorted(q for q in num if 0 <= q < len(val.e)):
                            def build(st, ta=ta, tb=tb, p=p, h=h, loc=loc, m=m):
                                x = ex.read(st, (loc, ())).e[m]
                                go = [T.lnot(rd(st, q)) for q in bools]
                                t = T.limp(T.land(T.gt(rd(st, h), 0), *go), wf.interior(
                                    w, T.add(ta, T.mul(rd(st, p), x.e[0].t)), T.add(tb, T.mul(rd(st, p), x.e[1].t))))
                                return lambda: t
                            probe(out, ex, head, Cand("ray %s,%s,%s,%s:%d" % (a[0], b[0], p[0], h[0], m), "plain", build))
        if loopvar is None and bools:
            # places that are looked at
            for k in ints:
                for nn, nm in ((w.nx, "x"), (w.ny, "y")):
                    out.append(Cand("place-%s %s" % (nm, k[0]), "plain", lambda st, k=k, nn=nn: (
                        lambda: T.land(T.le(1, rd(st, k)), T.le(rd(st, k), T.sub(nn, 2))))))
        # integer expressions of the body that can already be evaluated at the head
        exprs = []

        def harvest(nd):
            if nd.k == "VarDecl" and nd.inner and (nd.qt or "") == "int":
                exprs.append(nd.inner[0])
            for c in nd.inner:
                if c.k not in ("LambdaExpr",):
                    harvest(c)
        harvest(body)
        for xi, x in enumerate(exprs[:12]):
            def b(st, x=x, lo=1, sub=2, ax="nx"):
                s = st.copy()
                was, ex.emit = ex.emit, False       # the expression is only an abbreviation here
                try:
                    v = ex.ev(s, x)
                finally:
                    ex.emit = was
                ww = worldof(ex, st)
                t = T.land(T.le(lo, v.t), T.le(v.t, T.sub(getattr(ww, ax), sub)))
                return lambda: t
            for lo, sub in ((1, 2), (0, 1)):
                for ax in ("nx", "ny"):
                    probe(out, ex, head, Cand("expr%d in [%d..%s]" % (xi, lo, ax), "plain",
                                              lambda st, b=b, lo=lo, sub=sub, ax=ax: b(st, lo=lo, sub=sub, ax=ax)))
    return out


def rangefor(ex, st, n):
    """for (T x : c): index loop over the container"""
    stmts = [c for c in n.inner if c.k]
    rng = None
    lvd = None
    body = n.inner[-1]
    for c in n.inner:
        if c.k == "DeclStmt" and c.inner and c.inner[0].k == "VarDecl":
            nm = c.inner[0].name or ""
            if nm.startswith("__range"):
                rng = c.inner[0]
            elif not nm.startswith("__"):
                lvd = c.inner[0]
        elif c.k == "DeclStmt" and c.inner and c.inner[0].k == "DecompositionDecl":
            lvd = c.inner[0]
    if rng is None or lvd is None:
        raise Unsupported("range for")
    init = rng.inner[0]
    lv = ex.lval(st, init) if ex.is_lvalue(init) else ex.alloc(st, ex.ev(st, init))
    from frontend import Node
    idl = ex.alloc(st, Num(0))
    iid = "rf%d" % idl[0]
    vid = "rv%d" % idl[0]
    st.env[iid] = idl
    st.env[vid] = lv

    def mk(k, d, inner):
        return Node(k, d, inner, n.line, n.file)
    ref = mk("DeclRefExpr", {"referencedDecl": {"id": iid, "kind": "VarDecl", "name": iid}, "type": {"qualType": "int"}, "valueCategory": "lvalue"}, [])
    ival = mk("ImplicitCastExpr", {"castKind": "LValueToRValue", "type": {"qualType": "int"}}, [ref])
    cref = mk("DeclRefExpr", {"referencedDecl": {"id": vid, "kind": "VarDecl", "name": vid}, "type": {"qualType": rng.qt or ""}, "valueCategory": "lvalue"}, [])
    size = mk("CXXMemberCallExpr", {"type": {"qualType": "unsigned long"}}, [mk("MemberExpr", {"name": "size", "type": {"qualType": ""}}, [cref])])
    cond = mk("BinaryOperator", {"opcode": "<", "type": {"qualType": "bool"}}, [ival, size])
    inc = mk("UnaryOperator", {"opcode": "++", "type": {"qualType": "int"}}, [ref])
    opf = mk("DeclRefExpr", {"referencedDecl": {"id": "op[]", "kind": "CXXMethodDecl", "name": "operator[]"}, "type": {"qualType": ""}}, [])
    elem = mk("CXXOperatorCallExpr", {"type": {"qualType": (lvd.qt or "").replace("&", "")}, "valueCategory": "lvalue"}, [opf, cref, ival])
    d2 = Node(lvd.k, dict(lvd.d), [elem] + [c for c in lvd.inner if c.k == "BindingDecl"], n.line, n.file)
    bd = mk("CompoundStmt", {}, [mk("DeclStmt", {}, [d2]), body])
    return loop(ex, st, n, cond, inc, bd)
