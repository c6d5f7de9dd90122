"""Contracts for relax.cpp."""
import terms as T
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, isint, tmin, tmax, ite, floor
from contract import Contract, Clause, plain, cell, ent
from fractions import Fraction
from loops import TupleList
import wf
from contracts.c_utils import HASORI
from wf import present, bspresent, WALLS, SOIL, CLEAR, LEMMA, req, keep

HALF = Fraction(1, 2)


# ---- the landing rules (the specification of where soil lands) ----------------------------------------------------

def top(w, l, i, j):
    return w.body(l + 1, i, j)


def bot(w, l, i, j):
    return w.body(l, i, j)


def code(tens, l, soil):
    """documented two-digit code"""
    return tens * 10 + (3 if l == 0 else 1) + (0 if soil else 1)


def on_wall(w, l, i, j, tens, cond, cap):
    """landing on layer l, on its soil or on the wall itself"""
    return [(land(cond, bspresent(w, l, i, j)), code(tens, l, True), w.bs(l + 1, i, j), cap, ("wall", l)),
            (land(cond, lnot(bspresent(w, l, i, j))), code(tens, l, False), top(w, l, i, j), cap, ("wall", l))]


def landing_ground(w, i, j):
    """[(condition, status, surface, bottom of the wall above or None, where)] for soil sliding off the ground"""
    p0, p2 = present(w, 0, i, j), present(w, 2, i, j)
    t = w.terrain(i, j)
    out = [(land(lnot(p0), lnot(p2)), 40, t, None, ("ground",))]
    for l, pl, po in ((0, p0, p2), (2, p2, p0)):
        only = land(pl, lnot(po))
        tens = 1 if l == 0 else 2
        gap = lt(t, bot(w, l, i, j))
        out.append((land(only, gap), 10 * tens, t, bot(w, l, i, j), ("ground",)))
        out += on_wall(w, l, i, j, tens, land(only, lnot(gap)), None)
    for lo in (0, 2):
        up = 2 - lo
        order = land(p0, p2, lt(bot(w, lo, i, j), bot(w, up, i, j)))
        gap = lt(t, bot(w, lo, i, j))
        out.append((land(order, gap), 30, t, bot(w, lo, i, j), ("ground",)))
        full = land(bspresent(w, lo, i, j), ge(w.bs(lo + 1, i, j), bot(w, up, i, j)))
        out += on_wall(w, lo, i, j, 3, land(order, lnot(gap), lnot(full)), bot(w, up, i, j))
        out += on_wall(w, up, i, j, 3, land(order, lnot(gap), full), None)
    return out


def landing_body(w, i, j, s):
    """the same for soil sliding off a wall whose top is s"""
    p0, p2 = present(w, 0, i, j), present(w, 2, i, j)
    t = w.terrain(i, j)
    out = [(land(lnot(p0), lnot(p2)), 40, t, None, ("ground",))]
    for l, pl, po in ((0, p0, p2), (2, p2, p0)):
        only = land(pl, lnot(po))
        tens = 1 if l == 0 else 2
        under = lt(s, bot(w, l, i, j))
        out.append((land(only, under), 10 * tens, t, bot(w, l, i, j), ("ground",)))
        out += on_wall(w, l, i, j, tens, land(only, lnot(under)), None)
    for lo in (0, 2):
        up = 2 - lo
        order = land(p0, p2, lt(bot(w, lo, i, j), bot(w, up, i, j)))
        full = land(bspresent(w, lo, i, j), ge(w.bs(lo + 1, i, j), bot(w, up, i, j)))
        between = land(lt(s, bot(w, up, i, j)), lnot(full))
        out += on_wall(w, lo, i, j, 3, land(order, between), bot(w, up, i, j))
        out += on_wall(w, up, i, j, 3, land(order, lnot(between)), None)
    return out


def verdict(rules, h_min, ret):
    """ret is the code of the landing place when that is lower than h_min, else 0"""
    return land(*[limp(c, eq(ret, ite(lt(surf, h_min), code, 0))) for c, code, surf, cap, wh in rules])


def stable(w, i, j, i2, j2, dh):
    """soil of the ground of (i,j) does not slide to (i2,j2)"""
    h = sub(w.terrain(i, j), dh)
    return land(*[limp(c, ge(surf, h)) for c, code, surf, cap, wh in landing_ground(w, i2, j2)])


NEIGH = ((1, 0), (-1, 0), (0, 1), (0, -1))

# ---- CheckUnstable*: the verdict -------------------------------------------------------------------------------

CHECK_PRE = req(WALLS + SOIL[:2] + CLEAR)


def in_area(c, d, k):
    return c


check_terrain = Contract(
    "CheckUnstableTerrainCell", ["sim_out", "ii_c", "jj_c", "h_min", "tol"],
    opts={"grid": True, "whole": ("h_min",)},
    requires=CHECK_PRE + [
        plain("cell inside", ("C08",), lambda c: wf.inside(c.old, c.a["ii_c"], c.a["jj_c"])),
        plain("limit on grid", ("C05",), lambda c: isint(c.a["h_min"]))],
    ensures=[plain("verdict names the landing place", ("C19", "C07"), lambda c: verdict(
        landing_ground(c.old, c.a["ii_c"], c.a["jj_c"]), c.a["h_min"], c.ret))])

check_body = Contract(
    "CheckUnstableBodyCell", ["sim_out", "ii", "jj", "ind", "ii_c", "jj_c", "h_min", "tol"],
    opts={"grid": True, "whole": ("h_min",)},
    requires=CHECK_PRE + [
        plain("cells inside", ("C08",), lambda c: land(wf.inside(c.old, c.a["ii_c"], c.a["jj_c"]), wf.inside(c.old, c.a["ii"], c.a["jj"]))),
        plain("layer", ("C08",), lambda c: lor(eq(c.a["ind"], 0), eq(c.a["ind"], 2))),
        plain("limit on grid", ("C05",), lambda c: isint(c.a["h_min"]))],
    split={"ind": [0, 2]},
    ensures=[plain("verdict names the landing place", ("C19",), lambda c: verdict(
        landing_body(c.old, c.a["ii_c"], c.a["jj_c"], at(c.a["ind"], lambda l: c.old.body(l + 1, c.a["ii"], c.a["jj"]))), c.a["h_min"], c.ret))])


def at(ind, f):
    """f(ind) for a layer index that may be symbolic"""
    if isinstance(ind, int):
        return f(ind)
    return ite(eq(ind, 0), f(0), f(2))


def thick(w, l, i, j):
    return sub(w.bs(l + 1, i, j), w.bs(l, i, j))


# ---- RelaxUnstable*: one avalanche ------------------------------------------------------------------------------

def adjacent(c):
    a = c.a
    di, dj = sub(a["ii_c"], a["ii"]), sub(a["jj_c"], a["jj"])
    return lor(*[land(eq(di, x), eq(dj, y)) for x, y in NEIGH])


def cells_inside(c):
    return land(wf.inside(c.old, c.a["ii"], c.a["jj"]), wf.inside(c.old, c.a["ii_c"], c.a["jj_c"]))


def dh_ok(c):
    return land(ge(c.a["dh_max"], 0), isint(c.a["dh_max"]))


def is_cell(i, j, a, b):
    return land(eq(i, a), eq(j, b))


def rules_ok(c, rules, src):
    """the status passed is the verdict for this pair of cells"""
    return lor(*[land(cnd, eq(c.a["status"], cd), lt(add(surf, c.a["dh_max"]), src)) for cnd, cd, surf, cap, wh in rules])


def amount_ground(c):
    a = c.a
    return sub(c.old.terrain(a["ii"], a["jj"]), c.new.terrain(a["ii"], a["jj"]))


def amount_body(c):
    a = c.a
    return sub(at(a["ind"], lambda l: thick(c.old, l, a["ii"], a["jj"])), at(a["ind"], lambda l: thick(c.new, l, a["ii"], a["jj"])))


def gain(c, wh, i, j):
    if wh[0] == "ground":
        return sub(c.new.terrain(i, j), c.old.terrain(i, j))
    return sub(thick(c.new, wh[1], i, j), thick(c.old, wh[1], i, j))


def avalanche(c, rules, m, src, parcel):
    """the landing column gains what the source lost, and the amount is right"""
    a = c.a
    i, j = a["ii_c"], a["jj_c"]
    out = []
    for cnd, cd, surf, cap, wh in rules:
        s2, f2 = sub(src, m), add(surf, m)
        lim = []
        if cap is not None:
            lim.append(eq(f2, cap))
        if parcel is not None:
            lim.append(eq(m, parcel))
        out.append(limp(land(cnd, eq(a["status"], cd)), lor(*(lim + [land(le(sub(s2, f2), a["dh_max"]), le(sub(f2, s2), 1))]))))
    return land(*out)


def landed(c, rules, m):
    a = c.a
    return land(*[limp(land(cnd, eq(a["status"], cd)), eq(gain(c, wh, a["ii_c"], a["jj_c"]), m)) for cnd, cd, surf, cap, wh in rules])


def only_landing(c, rules, i, j, source):
    """every column other than the source and the landing column is as before"""
    a = c.a
    out = []
    here = is_cell(i, j, a["ii_c"], a["jj_c"])
    g = lor(*[land(cnd, eq(a["status"], cd)) for cnd, cd, surf, cap, wh in rules if wh[0] == "ground"])
    srcg, srcl = source(i, j)
    out.append(limp(lnot(lor(srcg, land(here, g))), eq(c.new.terrain(i, j), c.old.terrain(i, j))))
    for l in (0, 2):
        r = lor(*[land(cnd, eq(a["status"], cd)) for cnd, cd, surf, cap, wh in rules if wh == ("wall", l)])
        out.append(limp(lnot(lor(srcl(l), land(here, r))),
                        land(eq(c.new.bs(l, i, j), c.old.bs(l, i, j)), eq(c.new.bs(l + 1, i, j), c.old.bs(l + 1, i, j)))))
    return land(*out)


def same_parcel(p, q):
    return land(eq(p.ind, q.ind), eq(p.ii, q.ii), eq(p.jj, q.jj), eq(p.x, q.x), eq(p.y, q.y), eq(p.z, q.z), eq(p.h, q.h))


SOILY = ["sim_out.terrain_", "sim_out.body_soil_", "sim_out.body_soil_pos_"]
RULES_G = lambda c: landing_ground(c.old, c.a["ii_c"], c.a["jj_c"])
RULES_B = lambda c: landing_body(c.old, c.a["ii_c"], c.a["jj_c"], at(c.a["ind"], lambda l: c.old.body(l + 1, c.a["ii"], c.a["jj"])))
SRC_B = lambda c: at(c.a["ind"], lambda l: c.old.bs(l + 1, c.a["ii"], c.a["jj"]))
ALLINV = WALLS + SOIL + CLEAR + LEMMA
KEEPS = keep(SOIL + CLEAR + LEMMA)
TOTAL = plain("total soil unchanged", ("C01",), lambda c: eq(c.new.total(), c.old.total()))

relax_terrain_cell = Contract(
    "RelaxUnstableTerrainCell", ["sim_out", "status", "dh_max", "ii", "jj", "ii_c", "jj_c", "grid", "body", "tol"],
    requires=req(ALLINV) + [HASORI, 
        plain("cells inside", ("C08",), cells_inside), plain("adjacent", ("C06",), adjacent), plain("allowed drop", ("C06",), dh_ok),
        plain("status is the verdict", ("C06",), lambda c: rules_ok(c, RULES_G(c), c.old.terrain(c.a["ii"], c.a["jj"])))],
    opts={"grid": True, "whole": ("dh_max",)},
    split={"status": [40, 10, 20, 30, 13, 14, 21, 22, 31, 32, 33, 34]},
    modifies=SOILY,
    list_from=lambda c: c.old.n,
    ensures=KEEPS + [
        TOTAL,
        plain("soil goes downhill", ("C06",), lambda c: ge(amount_ground(c), 0)),
        plain("landing column gains what the source lost", ("C06", "C01"), lambda c: landed(c, RULES_G(c), amount_ground(c))),
        plain("amount", ("C06",), lambda c: avalanche(c, RULES_G(c), amount_ground(c), c.old.terrain(c.a["ii"], c.a["jj"]), None)),
        cell("nothing else touched", ("C06", "C16"), lambda c, i, j: only_landing(
            c, RULES_G(c), i, j, lambda i, j: (is_cell(i, j, c.a["ii"], c.a["jj"]), lambda l: False))),
        plain("parcels kept", ("C02",), lambda c: land(ge(c.new.n, c.old.n), le(c.new.n, add(c.old.n, 1)))),
        ent("old parcels unchanged", ("C02", "C06"), lambda c, k: limp(lt(k, c.old.n), same_parcel(c.new.ent(k), c.old.ent(k)))),
    ])


def entry_nn(c):
    a, w = c.a, c.old
    e = w.ent(a["nn"])
    return land(le(0, a["nn"]), lt(a["nn"], w.n), eq(e.ii, a["ii"]), eq(e.jj, a["jj"]), eq(e.ind, a["ind"]),
                lor(eq(a["ind"], 0), eq(a["ind"], 2)))


def parcel_nn(c):
    return c.old.ent(c.a["nn"]).h


class extra_list:
    """the parcels collected on the side"""

    def __init__(self, when):
        self.when = when

    def view(self, c):
        return getattr(c, self.when + "_list")

    def __call__(self, c):
        return self.view(c).n

    def key(self, c):
        return c.xkey


def side(when):
    out = []
    for nm, tags, fn in (("parcel-cell", ("C02", "C08"), wf.e_cell), ("parcel-amount", ("C02",), wf.e_amount), ("parcel-on-grid", ("C05",), wf.e_lat)):
        x = extra_list(when)

        def f(c, k, fn=fn, x=x):
            w, lv = c.old, x.view(c)

            class W:
                nx, ny, n, ent = w.nx, w.ny, lv.n, staticmethod(lv.ent)
            return fn(W, k)
        out.append(Clause("collected parcels: " + nm, tags, "ent", f, lst=x, concrete=False))
    return out


relax_body_cell = Contract(
    "RelaxUnstableBodyCell",
    ["sim_out", "status", "body_soil_pos", "dh_max", "nn", "ii", "jj", "ind", "ii_c", "jj_c", "grid", "body", "tol"],
    extra_list="body_soil_pos",
    requires=req(ALLINV) + [HASORI, 
        plain("cells inside", ("C08",), cells_inside), plain("adjacent", ("C06",), adjacent), plain("allowed drop", ("C06",), dh_ok),
        plain("parcel", ("C02", "C08"), entry_nn),
        plain("status is the verdict", ("C06",), lambda c: rules_ok(c, RULES_B(c), SRC_B(c)))] + side("old"),
    opts={"grid": True, "whole": ("dh_max",)},
    split={"status": [40, 10, 20, 13, 14, 21, 22, 31, 32, 33, 34], "ind": [0, 2]},
    modifies=SOILY + ["body_soil_pos"],
    list_from=lambda c: c.a["nn"],
    ensures=KEEPS + side("new") + [
        TOTAL,
        cell("the ground never sinks", ("C06",), lambda c, i, j: ge(c.new.terrain(i, j), c.old.terrain(i, j))),
        plain("soil goes downhill", ("C06",), lambda c: ge(amount_body(c), 0)),
        plain("landing column gains what the source lost", ("C06", "C01"), lambda c: landed(c, RULES_B(c), amount_body(c))),
        plain("amount", ("C06",), lambda c: avalanche(c, RULES_B(c), amount_body(c), SRC_B(c), parcel_nn(c))),
        plain("not more than the parcel", ("C06", "C02"), lambda c: land(
            le(amount_body(c), parcel_nn(c)), eq(c.new.ent(c.a["nn"]).h, sub(parcel_nn(c), amount_body(c))))),
        cell("nothing else touched", ("C06", "C16"), lambda c, i, j: only_landing(
            c, RULES_B(c), i, j, lambda i, j: (False, lambda l: land(is_cell(i, j, c.a["ii"], c.a["jj"]), eq(c.a["ind"], l))))),
        plain("list length", ("C02",), lambda c: eq(c.new.n, c.old.n)),
        ent("other parcels unchanged", ("C02", "C06"), lambda c, k: lor(
            same_parcel(c.new.ent(k), c.old.ent(k)),
            land(eq(k, c.a["nn"]), *[eq(getattr(c.new.ent(k), x), getattr(c.old.ent(k), x)) for x in ("ind", "ii", "jj", "x", "y", "z")]))),
    ])



# ---- selection and relaxation of the ground ---------------------------------------------------------------------

def dh_of(c):
    """the allowed drop, on the grid (heights in cell heights)"""
    return T.toreal(T.cround(mul(c.a["grid"].cell_size_xy, T.tan(c.a["sim_param"].repose_angle))))


def selected(w, i, j, dh):
    """the ground of a neighbour is lower than allowed"""
    return lor(*[lt(w.terrain(add(i, di), add(j, dj)), sub(w.terrain(i, j), dh)) for di, dj in NEIGH])


def in_impact(w, i, j):
    return land(le(w.area("impact", 0, 0), i), lt(i, w.area("impact", 0, 1)), le(w.area("impact", 1, 0), j), lt(j, w.area("impact", 1, 1)))


def impact_ok(c):
    w = c.old
    return land(ge(w.area("impact", 0, 0), 1), le(w.area("impact", 0, 1), sub(w.nx, 1)),
                ge(w.area("impact", 1, 0), 1), le(w.area("impact", 1, 1), sub(w.ny, 1)))


class retlist:
    """the list of integer tuples a function returns"""
    anylist = True

    def __call__(self, c):
        return TupleList(c.ret).n

    def key(self, c):
        return "tuples"


RET = retlist()


def is_member(c, L, i, j, *more):
    k = L.where(i, j, *more)
    e = L.at(k)
    return land(le(0, k), lt(k, L.n), *[eq(x, y) for x, y in zip(e, (i, j) + more)])


def ii2(L, k):
    e = L.at(k)
    return e[0], e[1]


locate = Contract(
    "LocateUnstableTerrainCell", ["sim_out", "dh_max", "tol"],
    opts={"grid": True, "whole": ("dh_max",), "inv_preds": [], "width": 2},
    requires=req(SOIL[:1]) + [plain("area inside", ("C08",), impact_ok), plain("allowed drop", ("C06",), dh_ok)],
    loop_inv=[
        Clause("listed cells", ("C16", "C07", "C08"), "tuples", lambda c, k: land(
            in_impact(c.old, *ii2(c.list, k)), selected(c.old, *ii2(c.list, k), c.a["dh_max"]))),
        Clause("every cell so far", ("C07",), "member", lambda c, i, j: limp(
            land(c.visited(i, j), in_impact(c.old, i, j), selected(c.old, i, j, c.a["dh_max"])), is_member(c, c.list, i, j)))],
    ensures=[
        ent("listed cells", ("C16", "C07", "C08"), lambda c, k: (lambda L: land(
            in_impact(c.old, *ii2(L, k)), selected(c.old, *ii2(L, k), c.a["dh_max"])))(TupleList(c.ret)), lst=RET),
        cell("every unstable cell is listed", ("C07", "C16"), lambda c, i, j: limp(
            land(in_impact(c.old, i, j), selected(c.old, i, j, c.a["dh_max"])), is_member(c, TupleList(c.ret), i, j)), new=False),
    ])


def same_cells(c, i, j):
    return land(eq(c.new.terrain(i, j), c.old.terrain(i, j)), *[eq(c.new.bs(l, i, j), c.old.bs(l, i, j)) for l in range(4)])


def all_stable(w, i, j, dh):
    return land(*[stable(w, i, j, add(i, di), add(j, dj), dh) for di, dj in NEIGH])


def near_impact(w, i, j):
    A = w.area
    return land(le(sub(A("impact", 0, 0), 1), i), le(i, A("impact", 0, 1)), le(sub(A("impact", 1, 0), 1), j), le(j, A("impact", 1, 1)))


def covers(c, i, j):
    """the relax area contains the cell with the margin, cut at the border"""
    b = c.a["sim_param"].cell_buffer
    A = c.new.area
    n = (sub(c.old.nx, 1), sub(c.old.ny, 1))
    out = []
    for d, x in ((0, i), (1, j)):
        out.append(le(A("relax", d, 0), tmax(sub(x, b), 2)))
        out.append(ge(A("relax", d, 1), tmin(add(x, b), n[d])))
    return land(*out)


def area_inside(w, which):
    return land(ge(w.area(which, 0, 0), 1), le(w.area(which, 0, 1), sub(w.nx, 1)), ge(w.area(which, 1, 0), 1), le(w.area(which, 1, 1), sub(w.ny, 1)))


def sim_param_ok(c):
    sp = c.a["sim_param"]
    return land(ge(sp.repose_angle, 0), T.le_halfpi(sp.repose_angle), ge(sp.cell_buffer, 2), ge(sp.max_iterations, 0))


def at_tuple(c, k, f):
    return f(*ii2(c.list, k))


GRIDREQ = [plain("grid", ("C14",), lambda c: T.ge(c.a["grid"].cell_size_xy, 1))]

relax_terrain = Contract(
    "RelaxTerrain", ["sim_out", "grid", "body", "sim_param", "tol"],
    opts={"grid": True, "extent": True},
    requires=req(ALLINV) + [HASORI, plain("area inside", ("C08",), impact_ok), plain("parameters", ("C14",), sim_param_ok),
                            plain("relax area inside", ("C16",), lambda c: area_inside(c.old, "relax"))],
    modifies=SOILY + ["sim_out.equilibrium_", "sim_out.relax_area_"],
    list_from=lambda c: c.old.n,
    loop_inv=[
        Clause("listed cells", ("C16", "C07", "C08"), "tuples", lambda c, k: at_tuple(c, k, lambda i, j: land(
            in_impact(c.old, i, j), selected(c.old, i, j, dh_of(c))))),
        Clause("every selected cell is listed", ("C07",), "member", lambda c, i, j: limp(
            land(in_impact(c.old, i, j), selected(c.old, i, j, dh_of(c))), is_member(c, c.list, i, j))),
        cell("equilibrium so far: nothing moved", ("C07",), lambda c, i, j: limp(c.new.eq, same_cells(c, i, j))),
        plain("equilibrium so far: no parcel added", ("C07",), lambda c: limp(c.new.eq, eq(c.new.n, c.old.n))),
        ent("old parcels stay", ("C02",), lambda c, k: limp(lt(k, c.old.n), same_parcel(c.new.ent(k), c.old.ent(k)))),
        plain("list grows", ("C02",), lambda c: ge(c.new.n, c.old.n)),
        Clause("equilibrium so far: visited cells are stable", ("C07",), "tuples", lambda c, k: limp(
            land(c.new.eq, lt(k, c.k)), at_tuple(c, k, lambda i, j: all_stable(c.old, i, j, dh_of(c)))), near=True),
        cell("far cells unchanged", ("C16",), lambda c, i, j: limp(lnot(near_impact(c.old, i, j)), same_cells(c, i, j))),
        cell("only listed cells lose ground", ("C06",), lambda c, i, j: limp(
            lnot(land(in_impact(c.old, i, j), selected(c.old, i, j, dh_of(c)))), ge(c.new.terrain(i, j), c.old.terrain(i, j)))),
    ],
    ensures=KEEPS + [
        TOTAL,
        cell("equilibrium means nothing moved", ("C07",), lambda c, i, j: limp(c.new.eq, same_cells(c, i, j))),
        plain("equilibrium means no parcel added", ("C07",), lambda c: limp(c.new.eq, eq(c.new.n, c.old.n))),
        ent("old parcels stay", ("C02",), lambda c, k: limp(lt(k, c.old.n), same_parcel(c.new.ent(k), c.old.ent(k)))),
        plain("list grows", ("C02",), lambda c: ge(c.new.n, c.old.n)),
        cell("equilibrium means every checked cell is stable", ("C07",), lambda c, i, j: limp(
            land(c.new.eq, in_impact(c.old, i, j)), all_stable(c.new, i, j, dh_of(c))), near=True),
        cell("far cells unchanged", ("C16",), lambda c, i, j: limp(lnot(near_impact(c.old, i, j)), same_cells(c, i, j))),
        cell("only listed cells lose ground", ("C06",), lambda c, i, j: limp(
            lnot(land(in_impact(c.old, i, j), selected(c.old, i, j, dh_of(c)))), ge(c.new.terrain(i, j), c.old.terrain(i, j)))),
        cell("relax area covers the unstable cells", ("C16",), lambda c, i, j: limp(
            land(in_impact(c.old, i, j), selected(c.old, i, j, dh_of(c))), covers(c, i, j)), near=True),
        plain("relax area stays inside", ("C16", "C08"), lambda c: area_inside(c.new, "relax")),
    ])

relax_body = Contract(
    "RelaxBodySoil", ["sim_out", "grid", "body", "sim_param", "tol"],
    opts={"grid": True},
    requires=req(ALLINV) + [HASORI, plain("parameters", ("C14",), sim_param_ok)],
    modifies=SOILY + ["sim_out.equilibrium_"],
    loop_inv=[
        cell("equilibrium so far: nothing moved", ("C07",), lambda c, i, j: limp(c.new.eq, land(c.old.eq, same_cells(c, i, j)))),
        plain("equilibrium so far: no parcel moved", ("C07",), lambda c: limp(c.new.eq, eq(c.new.n, c.old.n))),
        ent("parcels stay in their cells", ("C02",), lambda c, k: limp(lt(k, c.old.n), same_place(c.new.ent(k), c.old.ent(k)))),
        plain("list grows", ("C02",), lambda c: ge(c.new.n, c.old.n)),
        cell("the ground never sinks", ("C06",), lambda c, i, j: ge(c.new.terrain(i, j), c.old.terrain(i, j))),
    ],
    ensures=KEEPS + [
        TOTAL,
        cell("no slide unnoticed", ("C07",), lambda c, i, j: limp(c.new.eq, land(c.old.eq, same_cells(c, i, j)))),
        ent("parcels stay in their cells", ("C02",), lambda c, k: limp(lt(k, c.old.n), same_place(c.new.ent(k), c.old.ent(k)))),
        plain("list grows", ("C02",), lambda c: ge(c.new.n, c.old.n)),
        cell("the ground never sinks", ("C06",), lambda c, i, j: ge(c.new.terrain(i, j), c.old.terrain(i, j))),
    ])


def same_place(p, q):
    return land(eq(p.ind, q.ind), eq(p.ii, q.ii), eq(p.jj, q.jj), eq(p.x, q.x), eq(p.y, q.y), eq(p.z, q.z))


CONTRACTS = [check_terrain, check_body, relax_terrain_cell, relax_body_cell, locate, relax_terrain, relax_body]
