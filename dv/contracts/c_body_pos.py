"""Contracts for body_pos.cpp."""
import terms as T
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, div, isint, tmin, tmax, ite, tabs, near
from contract import Contract, Clause, plain, cell, ent
from fractions import Fraction
from loops import TupleList
import wf
import values as V
from exec import Fact, fresh
from wf import present, WALLS, req, keep
from contracts.c_relax import RET, is_cell, at, ii2
from contracts.c_utils import dot, cross, vsub, rotate, in_body_area, NZ, init_not_on_line

HALF = Fraction(1, 2)
WALLKEEP = keep(WALLS)


# ---- a wall span added to a cell ---------------------------------------------------------------------------------------

def spans(w, i, j):
    return [(present(w, l, i, j), w.body(l, i, j), w.body(l + 1, i, j)) for l in (0, 2)]


def within(p, lo, hi, w, i, j):
    """[lo, hi] lies in one of the walls"""
    return limp(p, lor(*[land(q, le(a, lo), ge(b, hi)) for q, a, b in spans(w, i, j)]))


def length(w, i, j):
    r = 0
    for p, a, b in spans(w, i, j):
        r = add(r, ite(p, sub(b, a), 0))
    return r


def overlap(p, a, b, lo, hi):
    return ite(land(p, le(tmax(a, lo), tmin(b, hi))), sub(tmin(b, hi), tmax(a, lo)), 0)


def apart(p, a, b, lo, hi):
    """present and not even touching"""
    return land(p, lor(lt(hi, a), lt(b, lo)))


def gapto(a, b, lo, hi):
    return ite(lt(hi, a), sub(a, hi), sub(lo, b))


def added(c, i, j, lo, hi):
    s = spans(c.old, i, j)
    third = land(*[apart(p, a, b, lo, hi) for p, a, b in s])
    extra = tmin(gapto(s[0][1], s[0][2], lo, hi), gapto(s[1][1], s[1][2], lo, hi))
    ov = 0
    for p, a, b in s:
        ov = add(ov, overlap(p, a, b, lo, hi))
    base = sub(add(length(c.old, i, j), sub(hi, lo)), ov)
    return eq(length(c.new, i, j), ite(third, add(base, extra), base))


include = Contract(
    "IncludeNewBodyPos", ["sim_out", "ii", "jj", "min_h", "max_h", "tol"],
    opts={"grid": True, "whole": ("min_h", "max_h"), "inv_preds": WALLS, "frame_tags": ("C09",)},
    unroll=4,
    requires=req(WALLS) + [
        plain("cell inside the border", ("C08",), lambda c: wf.interior(c.old, c.a["ii"], c.a["jj"])),
        plain("span", ("C09",), lambda c: land(lt(c.a["min_h"], c.a["max_h"]), isint(c.a["min_h"]), isint(c.a["max_h"])))],
    modifies=["sim_out.body_"],
    ensures=WALLKEEP + [
        plain("contains the old walls", ("C09",), lambda c: land(*[within(p, a, b, c.new, c.a["ii"], c.a["jj"])
                                                                   for p, a, b in spans(c.old, c.a["ii"], c.a["jj"])])),
        plain("contains the new span", ("C09",), lambda c: within(True, c.a["min_h"], c.a["max_h"], c.new, c.a["ii"], c.a["jj"])),
        plain("contains nothing else", ("C09",), lambda c: added(c, c.a["ii"], c.a["jj"], c.a["min_h"], c.a["max_h"])),
        cell("no other cell changes", ("C09",), lambda c, i, j: limp(lnot(is_cell(i, j, c.a["ii"], c.a["jj"])),
                                                                     land(*[eq(c.new.body(l, i, j), c.old.body(l, i, j)) for l in range(4)])))])


# ---- drawing a list of wall cells ------------------------------------------------------------------------------------

def zof(c, k):
    """upper end of vertical cell k"""
    return sub(add(k, 1), c.a["grid"].half_length_z)


def conc_draw(c):
    """per cell: the span from the lowest to the highest listed height was added (runs only)"""
    w, v = c.old, c.new
    sp = {}
    for i, j, k in c.a["area_pos"]:
        z = zof(c, k)
        a, b = sp.get((i, j), (z - 1, z))
        sp[(i, j)] = (min(a, z - 1), max(b, z))
    for i in range(w.nx):
        for j in range(w.ny):
            if (i, j) in sp:
                lo, hi = sp[(i, j)]
                if not (within(True, lo, hi, v, i, j) and all(within(p, a, b, v, i, j) for p, a, b in spans(w, i, j)) and added(c, i, j, lo, hi)):
                    return False
            elif any(w.body(l, i, j) != v.body(l, i, j) for l in range(4)):
                return False
    return True


class Param:
    """the list given to the function"""
    anylist = True

    def __call__(self, c):
        return TupleList(c.a["area_pos"]).n

    def key(self, c):
        return area_key(c)

    def key_at(self, ex, st):
        return "list:" + ex.listkey(ex.locs0["area_pos"])


def area_key(c):
    return "list:" + c.ex.listkey(c.ex.locs0["area_pos"]) if "area_pos" in c.ex.locs0 else "list:?"


PARAM = Param()


def cells_of(c):
    """-> number of entries, entry k, first and last position of a cell in the list (ghost: any choice would do where it
    is not listed)"""
    v = c.a["area_pos"]
    L = TupleList(v)
    g = v.g
    return L.n, L.at, lambda i, j: T.norm(V.aget(g["first"], i, j)), lambda i, j: T.norm(V.aget(g["last"], i, j))


def listed(c, i, j):
    n, at, first, last = cells_of(c)
    k = first(i, j)
    return land(ge(k, 0), lt(k, n), eq(at(k)[0], i), eq(at(k)[1], j))


def lexle(x, y):
    return lor(lt(x[0], y[0]), land(eq(x[0], y[0]), lor(lt(x[1], y[1]), land(eq(x[1], y[1]), le(x[2], y[2])))))


def area_setup(c, ent):
    """names the first and the last position of every listed cell (they exist in any list), and the order of the entries"""
    v = c.a["area_pos"]
    st, key = ent.st, area_key(c)
    srt = V.nested(V.I, 2)
    v.g["first"], v.g["last"] = fresh("first", srt), fresh("last", srt)
    n, at, first, last = cells_of(c)

    def by_entry(k):
        i, j, _ = at(k)
        a, b = first(i, j), last(i, j)
        return limp(land(le(0, k), lt(k, n)), land(ge(a, 0), le(a, k), ge(b, k), lt(b, n), *[
            land(eq(at(q)[0], i), eq(at(q)[1], j)) for q in (a, b)]))

    def by_cell(i, j):
        b = last(i, j)
        return limp(listed(c, i, j), land(le(first(i, j), b), lt(b, n), eq(at(b)[0], i), eq(at(b)[1], j)))

    st.facts.append(Fact(key, by_entry, "positions"))
    st.facts.append(Fact("cell", by_cell, "positions"))
    st.facts.append(Fact("pairs", lambda a, b: limp(land(le(0, a), le(a, b), lt(b, n)), lexle(at(a), at(b))), "sorted"))
    g = c.a["grid"]
    gv = ent.grid.f["vect_z_"]
    st.facts.append(Fact("list:" + c.ex.listkey((c.ex.locs0["grid"][0], (("f", "vect_z_"),))), lambda k: limp(
        land(le(0, k), lt(k, gv.len)), eq(V.lower(gv.elem, k).t, T.toreal(zof(c, k)))), "heights"))


def span_of(c, i, j):
    n, at, first, last = cells_of(c)
    return sub(zof(c, at(first(i, j))[2]), 1), zof(c, at(last(i, j))[2])


def drawn(c, i, j):
    lo, hi = [T.toreal(x) for x in span_of(c, i, j)]
    return land(within(True, lo, hi, c.new, i, j), added(c, i, j, lo, hi), *[within(p, a, b, c.new, i, j) for p, a, b in spans(c.old, i, j)])


def untouched(c, i, j):
    return land(*[eq(c.new.body(l, i, j), c.old.body(l, i, j)) for l in range(4)])


def current(c):
    """position in the list of the cell being collected"""
    n, at, first, last = cells_of(c)
    k = tmax(sub(c.k, 1), 0)
    cur = at(k)
    b = last(cur[0], cur[1])
    key = area_key(c)
    for q in (k, c.k, b, first(cur[0], cur[1])):
        c.st.touch(key, (q,))
    a = first(cur[0], cur[1])
    c.st.touch("pairs", (a, k)), c.st.touch("pairs", (a, sub(k, 1))), c.st.touch(key, (sub(k, 1),))
    c.st.touch("pairs", (c.k, b)), c.st.touch("pairs", (k, c.k))
    c.st.touch("cell", (cur[0], cur[1]))
    return k, cur


def drawn_so_far(c, i, j):
    n, at, first, last = cells_of(c)
    k, cur = current(c)
    done = land(listed(c, i, j), lt(last(i, j), c.k), lnot(is_cell(i, j, cur[0], cur[1])))
    return ite(done, drawn(c, i, j), untouched(c, i, j))


def in_span(c, k):
    n, at, first, last = cells_of(c)
    i, j, z = at(k)
    a, b = first(i, j), last(i, j)
    c.st.touch("pairs", (a, k)), c.st.touch("pairs", (k, b))
    lo, hi = span_of(c, i, j)
    return land(listed(c, i, j), le(lo, sub(zof(c, z), 1)), ge(hi, zof(c, z)))


def ok_entry(c, k):
    n, at, first, last = cells_of(c)
    e = at(k)
    return land(wf.interior(c.old, e[0], e[1]), ge(e[2], 0), le(e[2], mul(2, c.a["grid"].half_length_z)))


update_body = Contract(
    "UpdateBody", ["area_pos", "sim_out", "grid", "tol"],
    kinds={"area_pos": lambda cn, c, ent: V.svec_fresh(("vec", ("num", "i")), cn, uni=[3])},
    opts={"grid": True, "inv_preds": WALLS, "frame_tags": ("C09",)},
    pre_setup=area_setup,
    requires=req(WALLS) + [
        plain("at least one cell", ("C08",), lambda c: ge(cells_of(c)[0], 1), concrete=False),
        ent("cells inside the border", ("C08",), ok_entry, lst=PARAM, concrete=False)],
    modifies=["sim_out.body_"],
    loop_inv=[
        Clause("cell being collected", ("C09",), "ints", lambda c: land(eq(c.vars[0], current(c)[1][0]), eq(c.vars[1], current(c)[1][1])), nints=2),
        Clause("its lowest height", ("C09",), "locals", lambda c: eq(c.vars[0], T.toreal(span_of(c, *current(c)[1][:2])[0])), nints=0),
        Clause("its highest height so far", ("C09",), "locals", lambda c: eq(c.vars[0], T.toreal(zof(c, current(c)[1][2]))), nints=0),
        cell("finished cells are drawn, others as before", ("C09",), drawn_so_far),
    ],
    ensures=WALLKEEP + [
        cell("a listed cell gets the span of its listed heights and nothing else", ("C09",), lambda c, i, j: limp(listed(c, i, j), drawn(c, i, j)), concrete=False),
        cell("a cell not listed stays", ("C09",), lambda c, i, j: limp(lnot(listed(c, i, j)), untouched(c, i, j)), concrete=False),
        ent("every listed height is in the span", ("C09",), in_span, lst=PARAM, concrete=False),
        plain("each cell gets the span of its listed heights", ("C09",), conc_draw, symbolic=False)])


# ---- rasterisation ----------------------------------------------------------------------------------------------------

EPS = Fraction(1, 500)


def indices(g, p):
    return [add(div(p[0], g.cell_size_xy), g.half_length_x), add(div(p[1], g.cell_size_xy), g.half_length_y),
            sub(add(p[2], g.half_length_z), 1)]


def cell_of(x):
    return [T.cround(x[0]), T.cround(x[1]), T.ceil(x[2])]


def exact_edge(x):
    """near a cell boundary (runs only: single precision decides)"""
    return any(abs(y - T.floor(y) - HALF) < EPS for y in x[:2]) or abs(x[2] - T.cround(x[2])) < EPS


def conc_line(c, cells, a, b):
    g = c.a["grid"]
    p, q = indices(g, a), indices(g, b)
    if not cells:
        return False
    if not exact_edge(p) and list(cells[0]) != cell_of(p):
        return False
    sg = [1 if p[k] < q[k] else -1 for k in range(3)]
    for s, t in zip(cells, cells[1:]):
        d = [t[k] - s[k] for k in range(3)]
        if sorted(map(abs, d)) != [0, 0, 1] or not all(d[k] in (0, sg[k]) for k in range(3)):
            return False
    e = cell_of(q)
    slack = 1 if exact_edge(q) else 0
    return all(sg[k] * (t[k] - e[k]) <= 1 + slack for t in cells for k in range(3))


def complete_line(c, cells, a, b):
    """the listed cells follow the edge: none is farther than about one cell from it (runs only)"""
    g = c.a["grid"]
    p, q = [[float(x) for x in indices(g, y)] for y in (a, b)]
    d = [q[k] - p[k] for k in range(3)]
    n2 = sum(x * x for x in d)
    lim = 2.6
    for t in cells:
        m = [t[0] - p[0], t[1] - p[1], t[2] - 0.5 - p[2]]
        s = 0.0 if n2 == 0 else max(0.0, min(1.0, sum(x * y for x, y in zip(m, d)) / n2))
        if sum((m[k] - s * d[k]) ** 2 for k in range(3)) > lim * lim:
            return False
    e = cells[-1]
    return abs(e[0] - q[0]) <= 2.1 and abs(e[1] - q[1]) <= 2.1 and abs(e[2] - 0.5 - q[2]) <= 2.6


line = Contract("CalcLinePos", ["a", "b", "grid"], opts={"frame_tags": ("C10",), "ready": False},
                ensures=[plain("walk from the first end towards the other", ("C10",), lambda c: conc_line(c, c.ret, c.a["a"], c.a["b"]), symbolic=False),
                         plain("follows the edge", ("C10",), lambda c: complete_line(c, c.ret, c.a["a"], c.a["b"]), symbolic=False)])


def inner(c, pts, tri):
    """(cells that must be listed, cells that may be listed) for the inside of a face (runs only)"""
    g, tol = c.a["grid"], c.a["tol"]
    P = [indices(g, p) for p in pts]
    a, u, v = P[0], vsub(P[1], P[0]), vsub(P[-1], P[0])
    det = u[0] * v[1] - u[1] * v[0]
    must, may = set(), set()
    n = 0
    if det == 0:
        return must, may, (0, 0)
    lo = [T.floor(min(p[k] for p in P)) - 1 for k in (0, 1)]
    hi = [T.ceil(max(p[k] for p in P)) + 1 for k in (0, 1)]
    cnt = [0, 0]
    for i in range(lo[0], hi[0]):
        for j in range(lo[1], hi[1]):
            x, y = i + HALF - a[0], j + HALF - a[1]
            s = (v[1] * x - v[0] * y) / det
            t = (u[0] * y - u[1] * x) / det
            m = min(s, t, 1 - s - t) if tri else min(s, t, 1 - s, 1 - t)
            e = Fraction(1, 1000)
            if abs(det) < Fraction(1, 50):
                e = Fraction(1, 2)
            if m > -e:
                z = a[2] + s * u[2] + t * v[2]
                ks = {T.ceil(z)}
                sure = m > tol + e
                if abs(z - T.cround(z)) < EPS * 5 or not sure:
                    ks |= {T.ceil(z - EPS * 5), T.ceil(z + EPS * 5)}
                q = [(i + da, j + db, k) for da in (0, 1) for db in (0, 1) for k in ks]
                may |= set(q)
                cnt[1] += 1
                if sure:
                    cnt[0] += 1
                    if len(ks) == 1:
                        must |= set(q)
    return must, may, cnt


def conc_face(c, pts, tri):
    cells = [tuple(x) for x in c.ret]
    must, may, cnt = inner(c, pts, tri)
    s = set(cells)
    if not must <= s:
        return False
    # what is left after the inside is the edges, each a walk
    rest = None
    for k in range(cnt[0], cnt[1] + 1):
        if set(cells[:4 * k]) <= may and edges_ok(c, cells[4 * k:], pts):
            rest = k
            break
    return rest is not None


def edges_ok(c, cells, pts):
    """the cells are the walks along the edges, one after the other"""
    n = len(pts)
    lines = getattr(c, "lines", None)
    want = []
    for k in range(n):
        want += c.case.line(pts[k], pts[(k + 1) % n])
    return cells == want


rect = Contract("CalcRectanglePos", ["a", "b", "c", "d", "grid", "tol"], opts={"frame_tags": ("C10",), "ready": False},
                ensures=[plain("inside and edges", ("C10",), lambda c: conc_face(c, [c.a["a"], c.a["b"], c.a["c"], c.a["d"]], False), symbolic=False)])
tri = Contract("CalcTrianglePos", ["a", "b", "c", "grid", "tol"], opts={"frame_tags": ("C10",), "ready": False},
               ensures=[plain("inside and edges", ("C10",), lambda c: conc_face(c, [c.a["a"], c.a["b"], c.a["c"]], True), symbolic=False)])


# ---- position of the grid corners in the basis of a face ----------------------------------------------------------------

def same_truth(p, q):
    return land(limp(p, q), limp(q, p))


class Face:
    """parameters of the decomposition: two edges, first vertex, corner and extent of the area"""

    def __init__(self, c, second):
        self.u, self.v, self.a = c.a["ab_ind"], c.a[second], c.a["a_ind"]
        self.det = sub(mul(self.u[0], self.v[1]), mul(self.u[1], self.v[0]))
        self.lo = c.a["area_min_x"], c.a["area_min_y"]
        self.n = c.a["area_length_x"], c.a["area_length_y"]
        self.tol = c.a["tol"]

    def corner(self, i, j):
        return [add(T.toreal(add(l, k)), sub(HALF, x)) for l, k, x in zip(self.lo, (i, j), self.a)]


def coord(c, second, which, i, j, x):
    """x is coordinate `which` of the corner (by Cramer's rule)"""
    f = Face(c, second)
    p = f.corner(i, j)
    d = sub(mul(p[0], f.v[1]), mul(p[1], f.v[0])) if which == 0 else sub(mul(f.u[0], p[1]), mul(f.u[1], p[0]))
    return near(mul(x, f.det), d)


def is_inside(c, second, s, t):
    f = Face(c, second)
    if second == "ad_ind":
        return land(*[land(gt(x, f.tol), lt(x, sub(1, f.tol))) for x in (s, t)])
    return land(gt(s, f.tol), gt(t, f.tol), lt(add(s, t), sub(1, f.tol)))


def decompose(name, second):
    def tab(c, k):
        v = c.ret[k]
        return lambda i, j: V.lower(V.lower(v.elem, i).elem, j).t
    dom = lambda c: Face(c, second).n
    TAG = ("C10",)
    vec3 = ("cvec", 3, 0)
    return Contract(
        name, ["ab_ind", second, "a_ind", "area_min_x", "area_min_y", "area_length_x", "area_length_y", "tol"],
        dims={"tol": 0}, kinds={"ab_ind": vec3, second: vec3, "a_ind": vec3}, opts={"frame_tags": TAG, "poly": True, "index_tags": TAG},
        requires=[plain("a face seen from above", TAG, lambda c: ne(Face(c, second).det, 0)),
                  plain("an area", TAG, lambda c: land(*[ge(x, 0) for x in dom(c)]))],
        loop_inv=[Clause("first coordinate", TAG, "tables", lambda c, i, j, x: limp(c.visited(i, j), coord(c, second, 0, i, j, x(i, j))), nints="r"),
                  Clause("second coordinate", TAG, "tables", lambda c, i, j, x: limp(c.visited(i, j), coord(c, second, 1, i, j, x(i, j))), nints="r"),
                  Clause("inside", TAG, "tables", lambda c, i, j, x, y, q: same_truth(q(i, j), land(c.visited(i, j), is_inside(c, second, x(i, j), y(i, j)))), nints="rrb")],
        ensures=[cell("first coordinate", TAG, lambda c, i, j: coord(c, second, 0, i, j, tab(c, 0)(i, j)), dom=dom, concrete=False),
                 cell("second coordinate", TAG, lambda c, i, j: coord(c, second, 1, i, j, tab(c, 1)(i, j)), dom=dom, concrete=False),
                 cell("marks the corners inside", TAG, lambda c, i, j: same_truth(tab(c, 2)(i, j), is_inside(c, second, tab(c, 0)(i, j), tab(c, 1)(i, j))),
                      dom=dom, concrete=False)])


DECOMPOSE = [decompose("DecomposeVectorRectangle", "ad_ind"), decompose("DecomposeVectorTriangle", "ac_ind")]

# ---- the whole body -----------------------------------------------------------------------------------------------------

def covers_body(c, i, j):
    b = c.a["sim_param"].cell_buffer
    A = c.new.area
    n = (sub(c.old.nx, 1), sub(c.old.ny, 1))
    out = []
    for d, x in ((0, i), (1, j)):
        out.append(le(A("body", d, 0), tmax(sub(x, b), 1)))
        out.append(ge(A("body", d, 1), tmin(add(x, b), n[d])))
    return land(*out)


def area_inside(w):
    return land(ge(w.area("body", 0, 0), 1), le(w.area("body", 0, 1), sub(w.nx, 1)), ge(w.area("body", 1, 0), 1), le(w.area("body", 1, 1), sub(w.ny, 1)))


def walls_in_area(w, i, j):
    return limp(lor(present(w, 0, i, j), present(w, 2, i, j)), in_body_area(w, i, j))


def conc_fresh(c):
    """the walls do not depend on those drawn before (runs only)"""
    return c.case.fresh_walls(c) == c.new.B


def conc_tight(c):
    """the area reaches no farther than the margin around the body (runs only)"""
    import math
    from contracts.c_utils import six
    g = c.a["grid"]
    buf = c.a["sim_param"].cell_buffer
    pts = six(c, c.a["ori"], c.a["pos"])
    ex = 0 if not c.case.blade else 1
    for d, h, n in ((0, g.half_length_x, c.old.nx), (1, g.half_length_y, c.old.ny)):
        x = [float(p[d] / g.cell_size_xy) + h for p in pts]
        lo, hi = min(x) - ex, max(x) + ex
        if c.new.area("body", d, 0) < max(lo - buf - 1, 1) or c.new.area("body", d, 1) > min(hi + buf + 1, n - 1):
            return False
    return True


def body_contract(kind):
    return Contract(
        "CalcBodyPos", ["sim_out", "pos", "ori", "grid", kind.lower(), "sim_param", "tol"], variants=kind,
        opts={"grid": True, "frame_tags": ("C16", "C09"), "ready": False},
        requires=req(WALLS) + [plain("area inside", ("C08",), lambda c: area_inside(c.old)), NZB,
                               cell("body area holds all walls", ("C16",), lambda c, i, j: walls_in_area(c.old, i, j))],
        modifies=["sim_out.body_", "sim_out.body_area_"],
        ensures=WALLKEEP + [
            plain("area stays inside the border", ("C16", "C08"), lambda c: area_inside(c.new)),
            cell("area covers every wall with the margin", ("C16",), lambda c, i, j: limp(
                lor(present(c.new, 0, i, j), present(c.new, 2, i, j)), covers_body(c, i, j))),
            plain("area is not larger than the margin", ("C16",), conc_tight, symbolic=False),
            plain("no earlier wall is left", ("C16", "C09"), conc_fresh, symbolic=False),
            plain("walls are the faces of the body", ("C16", "C09", "C10"), lambda c: c.case.faces_drawn(c), symbolic=False)])


NZB = plain("orientation is not zero", ("C11",), lambda c: gt(dot(c.a["ori"], c.a["ori"]), 0))
bucket_pos = body_contract("Bucket")
blade_pos = body_contract("Blade")

CONTRACTS = [include, update_body] + DECOMPOSE + [line, rect, tri, bucket_pos, blade_pos]
