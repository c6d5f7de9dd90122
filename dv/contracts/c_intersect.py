"""Contracts for intersecting_cells.cpp."""
import terms as T
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, isint, tmin, tmax, ite
from contract import Contract, Clause, plain, cell, ent
from loops import TupleList
import wf
from contracts.c_utils import HASORI
from wf import present, bspresent, WALLS, SOIL, CLEAR, LEMMA, req, keep
from contracts.c_relax import (RET, SOILY, TOTAL, same_parcel, same_cells, is_member, thick, top, bot, at, is_cell, KEEPS, ALLINV, same_place)

BASE = WALLS + SOIL + LEMMA
KEEPSOIL = keep(SOIL + LEMMA)


def intersects(w, l, i, j):
    return land(present(w, l, i, j), gt(w.terrain(i, j), bot(w, l, i, j)))


def in_body_area(w, i, j):
    return land(le(w.area("body", 0, 0), i), lt(i, w.area("body", 0, 1)), le(w.area("body", 1, 0), j), lt(j, w.area("body", 1, 1)))


def body_area_ok(c):
    w = c.old
    return land(ge(w.area("body", 0, 0), 0), le(w.area("body", 0, 1), w.nx), ge(w.area("body", 1, 0), 0), le(w.area("body", 1, 1), w.ny))


def tri(L, k, f):
    e = L.at(k)
    return f(e[0], e[1], e[2])


def listed(w, l, i, j):
    return land(in_body_area(w, i, j), lor(land(eq(l, 0), intersects(w, 0, i, j)), land(eq(l, 2), intersects(w, 2, i, j))))


def all_listed(c, L, i, j):
    return land(*[limp(land(in_body_area(c.old, i, j), intersects(c.old, l, i, j)), is_member(c, L, l, i, j)) for l in (0, 2)])


locate = Contract(
    "LocateIntersectingCells", ["sim_out", "tol"],
    opts={"grid": True, "inv_preds": [], "frame_tags": ("C04",), "width": 3},
    requires=req(SOIL[:1] + WALLS) + [plain("area inside", ("C08",), body_area_ok)],
    loop_inv=[
        Clause("listed cells", ("C04", "C08"), "tuples", lambda c, k: tri(c.list, k, lambda l, i, j: listed(c.old, l, i, j))),
        Clause("every cell so far", ("C04",), "member", lambda c, i, j: limp(c.visited(i, j), all_listed(c, c.list, i, j)))],
    ensures=[
        ent("listed cells intersect", ("C04", "C08"), lambda c, k: tri(TupleList(c.ret), k, lambda l, i, j: listed(c.old, l, i, j)), lst=RET),
        cell("every intersecting cell is listed", ("C04",), lambda c, i, j: all_listed(c, TupleList(c.ret), i, j))])


# ---- one step of the search for a free place ------------------------------------------------------------------------

def places(w, i, j, ptop, max_h):
    """[(condition, kind, layer, room)] for soil pushed into cell (i,j)"""
    p0, p2 = present(w, 0, i, j), present(w, 2, i, j)
    out = [(land(lnot(p0), lnot(p2)), "ground", None, None)]
    for l, pl, po in ((0, p0, p2), (2, p2, p0)):
        only = land(pl, lnot(po))
        gap = gt(bot(w, l, i, j), ptop)
        high = ge(top(w, l, i, j), max_h)
        out.append((land(only, gap), "ground", None, None))
        out.append((land(only, lnot(gap), high), "blocked", None, None))
        out.append((land(only, lnot(gap), lnot(high)), "wall", l, None))
    for lo in (0, 2):
        up = 2 - lo
        order = land(p0, p2, lt(bot(w, lo, i, j), bot(w, up, i, j)))
        soil = bspresent(w, lo, i, j)
        full = land(soil, ge(w.bs(lo + 1, i, j), bot(w, up, i, j)))
        room = sub(bot(w, up, i, j), ite(soil, w.bs(lo + 1, i, j), top(w, lo, i, j)))
        out.append((land(order, full), "pass", lo, None))
        out.append((land(order, lnot(full)), "wall", lo, room))
    return out


def ptop_of(c):
    a = c.a
    return at(a["ind_p"], lambda l: c.old.body(l + 1, a["ii_p"], a["jj_p"]))


def placed(c):
    a, r, w, v = c.a, c.ret, c.old, c.new
    i, j, h = a["ii_n"], a["jj_n"], a["h_soil"]
    stay = land(eq(r[0], a["ind_p"]), eq(r[1], a["ii_p"]), eq(r[2], a["jj_p"]))
    out = []
    for cnd, kind, l, room in places(w, i, j, ptop_of(c), a["max_h"]):
        gg = sub(v.terrain(i, j), w.terrain(i, j))
        gl = {k: sub(thick(v, k, i, j), thick(w, k, i, j)) for k in (0, 2)}
        if kind == "ground":
            q = land(eq(gg, h), eq(gl[0], 0), eq(gl[2], 0), eq(r[3], 0), eq(r[4], a["wall_presence"]), stay)
        elif kind == "blocked":
            q = land(eq(gg, 0), eq(gl[0], 0), eq(gl[2], 0), eq(r[3], h), r[4], stay)
        elif kind == "pass":
            q = land(eq(gg, 0), eq(gl[0], 0), eq(gl[2], 0), eq(r[3], h), eq(r[4], a["wall_presence"]), eq(r[0], l), eq(r[1], i), eq(r[2], j))
        else:
            m = h if room is None else tmin(h, room)
            q = land(eq(gg, 0), eq(gl[l], m), eq(gl[2 - l], 0), eq(r[3], sub(h, m)), eq(r[4], a["wall_presence"]))
            if room is not None:
                q = land(q, limp(lt(room, h), land(eq(r[0], l), eq(r[1], i), eq(r[2], j))), limp(gt(room, h), stay))
            else:
                q = land(q, stay)
        out.append(limp(cnd, q))
    return land(*out)


def far(c, i, j):
    return lnot(is_cell(i, j, c.a["ii_n"], c.a["jj_n"]))


move_body_soil = Contract(
    "MoveBodySoil", ["sim_out", "ind_p", "ii_p", "jj_p", "max_h", "ii_n", "jj_n", "h_soil", "wall_presence", "grid", "body", "tol"],
    opts={"grid": True, "whole": ("max_h", "h_soil"), "frame_tags": ("C01", "C02")},
    split={"ind_p": [0, 2]},
    requires=req(BASE) + [
        HASORI,
        plain("cells inside", ("C08",), lambda c: land(wf.inside(c.old, c.a["ii_n"], c.a["jj_n"]), wf.inside(c.old, c.a["ii_p"], c.a["jj_p"]))),
        plain("layer", ("C08",), lambda c: lor(eq(c.a["ind_p"], 0), eq(c.a["ind_p"], 2))),
        plain("amount", ("C01",), lambda c: land(ge(c.a["h_soil"], 0), isint(c.a["h_soil"]))),
        plain("limit on grid", ("C05",), lambda c: isint(c.a["max_h"]))],
    modifies=SOILY,
    list_from=lambda c: c.old.n,
    ensures=KEEPSOIL + [
        plain("soil moved plus soil left", ("C01",), lambda c: eq(add(c.new.total(), c.ret[3]), add(c.old.total(), c.a["h_soil"]))),
        plain("what is left", ("C01", "C05"), lambda c: land(ge(c.ret[3], 0), le(c.ret[3], c.a["h_soil"]), isint(c.ret[3]))),
        plain("soil goes to the free place", ("C04", "C01"), placed),
        cell("nothing else touched", ("C04", "C01"), lambda c, i, j: limp(far(c, i, j), same_cells(c, i, j))),
        cell("free space between walls respected", ("C04",), lambda c, i, j: limp(wf.p_between(c.old, i, j), wf.p_between(c.new, i, j))),
        plain("list grows", ("C02",), lambda c: land(ge(c.new.n, c.old.n), le(c.new.n, add(c.old.n, 1)))),
        ent("old parcels unchanged", ("C02",), lambda c, k: limp(lt(k, c.old.n), same_parcel(c.new.ent(k), c.old.ent(k)))),
    ])


# ---- clearing ----------------------------------------------------------------------------------------------------

def ground_kept(c, i, j):
    return ge(c.new.terrain(i, j), c.old.terrain(i, j))



def unit(c, k):
    e = c.list.at(k)
    return land(*[land(le(-1, x), le(x, 1)) for x in e[:2]], lor(ne(e[0], 0), ne(e[1], 0)))


def not_at_border(c, a, b, p, h, e, m):
    """while there is soil left, no cell looked at was on the border"""
    return limp(land(True if c.k is None else lt(m, c.k), gt(h, 0)), wf.interior(c.new, add(a, mul(p, e[0])), add(b, mul(p, e[1]))))


STEPS = [Clause("unit steps", ("C08", "C01", "C04"), "tuples", unit),
         Clause("search stays inside", ("C08", "C01", "C04"), "reach", not_at_border)]


def to_come(c, i, j):
    return land(*[limp(intersects(c.new, l, i, j), land(is_member(c, c.list, l, i, j), ge(c.list.where(l, i, j), c.lv[0]))) for l in (0, 2)])


def lowered_only_there(c, i, j):
    return lor(intersects(c.old, 0, i, j), intersects(c.old, 2, i, j), ground_kept(c, i, j))


def stays(c, k):
    return limp(lt(k, c.old.n), land(same_place(c.new.ent(k), c.old.ent(k)), le(c.new.ent(k).h, c.old.ent(k).h)))


move_isoil = Contract(
    "MoveIntersectingBodySoil", ["sim_out", "grid", "body", "tol"],
    opts={"grid": True, "reach": True, "frame_tags": ("C01", "C02"), "warn": True},
    unroll=8,
    requires=req(BASE) + [HASORI],
    modifies=SOILY,
    loop_inv=[
        plain("total or warned", ("C01",), lambda c: le(c.new.total(), c.old.total())),
        cell("excess is in the parcels still to come", ("C04",), lambda c, i, j: land(*[
            limp(land(wf.both(c.new, i, j), bspresent(c.new, l, i, j), lt(c.new.body(l, i, j), c.new.body(2 - l, i, j))),
                 lor(le(c.new.bs(l + 1, i, j), c.new.body(2 - l, i, j)),
                     le(sub(c.new.bs(l + 1, i, j), c.new.body(2 - l, i, j)), c.S(l, i, j)))) for l in (0, 2)])),
        plain("list grows", ("C02",), lambda c: ge(c.new.n, c.old.n)),
        ent("parcels stay in their cells", ("C02",), stays),
        cell("ground only gains", ("C01",), ground_kept),
    ],
    ensures=KEEPSOIL + [
        cell("soil between walls cleared", ("C04",), lambda c, i, j: wf.p_between(c.new, i, j)),
        plain("nothing appears", ("C01",), lambda c: le(c.new.total(), c.old.total())),
        plain("nothing is lost without a warning", ("C01",), lambda c: lor(eq(c.new.total(), c.old.total()), c.warned > 0), symbolic=False),
        ent("parcels stay in their cells", ("C02",), stays),
        plain("list grows", ("C02",), lambda c: ge(c.new.n, c.old.n)),
        cell("ground only gains", ("C01",), ground_kept),
    ])


def walls_in_area(w, i, j):
    return limp(lor(present(w, 0, i, j), present(w, 2, i, j)), in_body_area(w, i, j))


AREA_WALLS = cell("body area holds all walls", ("C16", "C04"), lambda c, i, j: walls_in_area(c.old, i, j))

move_ibody = Contract(
    "MoveIntersectingBody", ["sim_out", "tol"],
    opts={"grid": True, "reach": True, "frame_tags": ("C02", "C01")},
    loop_inv=[
        Clause("what intersects is still to come", ("C04",), "member", to_come),
        cell("only intersecting ground is lowered so far", ("C01", "C04"), lowered_only_there)],
    requires=req(WALLS + SOIL[:1]) + [plain("area inside", ("C08",), body_area_ok), AREA_WALLS],
    modifies=["sim_out.terrain_"],
    ensures=keep(SOIL[:1]) + [
        TOTAL,
        cell("ground cleared", ("C04",), lambda c, i, j: wf.p_ground(c.new, i, j)),
        cell("only intersecting ground is lowered", ("C01", "C04"), lowered_only_there),
    ])

move_cells = Contract(
    "MoveIntersectingCells", ["sim_out", "grid", "body", "tol"],
    opts={"grid": True, "frame_tags": ("C01", "C02"), "warn": True},
    requires=req(BASE) + [HASORI, plain("area inside", ("C08",), body_area_ok), AREA_WALLS],
    modifies=SOILY,
    ensures=keep(SOIL + CLEAR + LEMMA) + [
        plain("nothing appears", ("C01",), lambda c: le(c.new.total(), c.old.total())),
        plain("nothing is lost without a warning", ("C01",), lambda c: lor(eq(c.new.total(), c.old.total()), c.warned > 0), symbolic=False),
        plain("list grows", ("C02",), lambda c: ge(c.new.n, c.old.n)),
    ])

CONTRACTS = [locate, move_body_soil, move_isoil, move_ibody, move_cells]
