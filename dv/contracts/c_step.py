"""Contracts for soil_dynamics.cpp: whole steps."""
import terms as T
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, div, isint, tmin, tmax, ite, tabs, near
from contract import Contract, Clause, plain, cell, ent
from fractions import Fraction
import wf
from wf import present, WALLS, SOIL, CLEAR, LEMMA, req, keep
from contracts.c_relax import SOILY, ALLINV, impact_ok, selected, stable, NEIGH, sim_param_ok, in_impact, all_stable, dh_of, same_cells, same_parcel
from contracts.c_relax import area_inside as relax_inside
from contracts.c_body_soil import LEDGER, target_inside
from contracts.c_utils import decision, dot, NZ, moved_enough, init_not_on_line
from contracts.c_body_pos import area_inside, walls_in_area, covers_body

SIX = WALLS + SOIL + CLEAR + LEMMA


def nothing(c):
    return land(*[True])


def dh(c):
    import math
    x = float(c.a["grid"].cell_size_xy) * math.tan(float(c.a["sim_param"].repose_angle))
    return Fraction(T.cround(Fraction(x)))


def same_all(c):
    w, v = c.old, c.new
    return (w.T == v.T and w.B == v.B and w.S == v.S and w.areas == v.areas and w.eq == v.eq and c.old_pose == c.new_pose and
            [tuple(getattr(e, k) for k in e.__slots__) for e in w.lst] == [tuple(getattr(e, k) for k in e.__slots__) for e in v.lst])


def truthful(c):
    """equilibrium after a step: no cell of the checked area has a neighbour its soil should slide to"""
    if not c.new.eq:
        return True
    w = c.new
    d = dh(c)
    for i in range(w.area("impact", 0, 0), w.area("impact", 0, 1)):
        for j in range(w.area("impact", 1, 0), w.area("impact", 1, 1)):
            if selected(w, i, j, d) is True and not all(stable(w, i, j, i + a, j + b, d) is True for a, b in NEIGH):
                return False
    return True


def impact_union(c):
    A = c.new.areas
    if c.a["sim_param"].max_iterations < 1:
        return True
    return all(A["impact"][d][0] <= A["body"][d][0] and A["impact"][d][1] >= A["body"][d][1] for d in (0, 1))


STEP = Contract(
    "Step", ["sim_out", "pos", "ori", "grid", "body", "sim_param", "tol"],
    opts={"frame_tags": ("C12",), "ready": False},
    requires=req(WALLS + SOIL) + [plain("area inside", ("C08",), lambda c: area_inside(c.old)),
                                  cell("body area holds all walls", ("C16",), lambda c, i, j: walls_in_area(c.old, i, j))],
    modifies=SOILY + ["sim_out.body_", "sim_out.body_area_", "sim_out.relax_area_", "sim_out.impact_area_", "sim_out.equilibrium_", "body.pos_"],
    ensures=keep(WALLS + SOIL) + [
        Clause("keeps " + n, t, k, (lambda fn: lambda c, *p: limp(c.ret, fn(c.new, *p)))(fn)) for n, t, k, fn in CLEAR] + [
        plain("total soil unchanged", ("C01",), lambda c: lor(eq(c.new.total(), c.old.total()), land(c.ret, le(c.new.total(), c.old.total()), c.warned > c.case.moved_far))),
        plain("decides on the movement since the last accepted pose", ("C12",), lambda c: decision(c, c.ret, c.old_pose), symbolic=False),
        plain("a skipped step changes nothing", ("C12",), lambda c: c.ret or same_all(c), symbolic=False),
        plain("an accepted pose becomes the reference", ("C12",), lambda c: not c.ret or land(*[near(x, y) for x, y in zip(
            c.new_pose[0] + c.new_pose[1], list(c.a["pos"]) + list(c.a["ori"]))]), symbolic=False),
        plain("equilibrium is truthful", ("C07",), lambda c: not c.ret or truthful(c), symbolic=False),
        plain("gives up with non-equilibrium", ("C07",), lambda c: not c.ret or c.a["sim_param"].max_iterations > 0 or not c.new.eq, symbolic=False),
        plain("checked area is the union", ("C16",), lambda c: not c.ret or impact_union(c), symbolic=False),
        plain("area stays inside the border", ("C16", "C08"), lambda c: area_inside(c.new)),
        cell("area covers every wall with the margin", ("C16",), lambda c, i, j: limp(
            land(c.ret, lor(present(c.new, 0, i, j), present(c.new, 2, i, j))), covers_body(c, i, j))),
        cell("body area holds all walls", ("C16",), lambda c, i, j: walls_in_area(c.new, i, j)),
    ])


# ---- the same, for the verifier: a step is its decision followed by its parts ------------------------------------------

def area_union(c):
    """the checked area is the union of the two others"""
    A = c.new.area
    return land(*[land(le(A("impact", d, 0), A("body", d, 0)), ge(A("impact", d, 1), A("body", d, 1))) for d in (0, 1)])


def stable_cells(c, i, j):
    return limp(land(c.new.eq, in_impact(c.new, i, j)), all_stable(c.new, i, j, dh_of(c)))


def unchanged(c, i, j):
    return land(same_cells(c, i, j), *[eq(c.new.body(l, i, j), c.old.body(l, i, j)) for l in range(4)])


def decided(c):
    return moved_enough(c)


def sym_step(kind):
    return Contract(
        "Step", ["sim_out", "pos", "ori", "grid", "body", "sim_param", "tol"], variants=kind,
        opts={"grid": True, "frame_tags": ("C12",)},
        requires=req(WALLS + LEDGER + SOIL[:2] + LEMMA) + [
            plain("area inside", ("C08",), lambda c: area_inside(c.old)),
            plain("relax area inside", ("C08",), lambda c: relax_inside(c.old, "relax")),
            plain("parameters", ("C14",), sim_param_ok),
            cell("body area holds all walls", ("C16",), lambda c, i, j: walls_in_area(c.old, i, j)),
            NZ, plain("not on a line", ("C11",), init_not_on_line), plain("width", ("C14",), lambda c: gt(c.a["body"].width, 0)),
            plain("a pose has been accepted before", ("C12",), lambda c: gt(dot(c.a["body"].ori, c.a["body"].ori), 0)),
            ent("target away from the border", ("C08",), target_inside),
            plain("lemma: parcels add up to the soil", (), lambda c: eq(c.old.soil(), T.toreal(c.old.v.f["body_soil_pos_"].g["LT"])), lemma=True)],
        modifies=SOILY + ["sim_out.body_", "sim_out.body_area_", "sim_out.relax_area_", "sim_out.impact_area_", "sim_out.equilibrium_", "body.pos_", "body.ori_"],
        loop_inv=[
            plain("area stays inside the border", ("C16", "C08"), lambda c: area_inside(c.new)),
            plain("relax area stays inside the border", ("C16", "C08"), lambda c: relax_inside(c.new, "relax")),
            plain("nothing appears", ("C01",), lambda c: le(c.new.total(), c.old.total())),
            cell("equilibrium is truthful so far", ("C07",), stable_cells, near=True),
            Clause("checked area is the union so far", ("C16",), "ints", lambda c: lor(le(c.vars[0], 0), area_union(c)), nints=1),
            Clause("not more rounds than allowed", ("C07",), "ints", lambda c: le(c.vars[0], c.a["sim_param"].max_iterations), nints=1),
            Clause("no round: no equilibrium", ("C07",), "ints", lambda c: limp(le(c.vars[0], 0), lnot(c.new.eq)), nints=1),
        ],
        ensures=keep(WALLS + SOIL + LEMMA) + [
            Clause("keeps " + n, t, k, (lambda fn: lambda c, *p: limp(c.ret, fn(c.new, *p)))(fn)) for n, t, k, fn in CLEAR] + [
            plain("nothing appears", ("C01",), lambda c: le(c.new.total(), c.old.total())),
            plain("decides on the movement since the last accepted pose", ("C12",), decided),
            cell("a skipped step leaves the cells", ("C12",), lambda c, i, j: limp(lnot(c.ret), unchanged(c, i, j))),
            ent("a skipped step leaves the parcels", ("C12",), lambda c, k: limp(lnot(c.ret), same_parcel(c.new.ent(k), c.old.ent(k)))),
            plain("a skipped step leaves the rest", ("C12",), lambda c: limp(lnot(c.ret), land(
                eq(c.new.n, c.old.n), eqb(c.new.eq, c.old.eq),
                *[eq(c.new.area(a, d, e), c.old.area(a, d, e)) for a in ("body", "relax", "impact") for d in (0, 1) for e in (0, 1)],
                *[eq(x, y) for x, y in zip(list(c.new_body.pos) + list(c.new_body.ori), list(c.old_body.pos) + list(c.old_body.ori))]))),
            plain("an accepted pose becomes the reference", ("C12",), lambda c: limp(c.ret, land(*[eq(x, y) for x, y in zip(
                list(c.new_body.pos) + list(c.new_body.ori), list(c.a["pos"]) + list(c.a["ori"]))]))),
            cell("equilibrium is truthful", ("C07",), lambda c, i, j: limp(c.ret, stable_cells(c, i, j)), near=True),
            plain("gives up with non-equilibrium", ("C07",), lambda c: limp(land(c.ret, le(c.a["sim_param"].max_iterations, 0)), lnot(c.new.eq))),
            plain("checked area is the union", ("C16",), lambda c: limp(land(c.ret, ge(c.a["sim_param"].max_iterations, 1)), area_union(c))),
            plain("area stays inside the border", ("C16", "C08"), lambda c: area_inside(c.new)),
            plain("relax area stays inside the border", ("C16", "C08"), lambda c: relax_inside(c.new, "relax")),
            cell("area covers every wall with the margin", ("C16",), lambda c, i, j: limp(
                land(c.ret, lor(present(c.new, 0, i, j), present(c.new, 2, i, j))), covers_body(c, i, j))),
            cell("body area holds all walls", ("C16",), lambda c, i, j: walls_in_area(c.new, i, j)),
        ])


def eqb(a, b):
    return land(limp(a, b), limp(b, a))


STEPS = [sym_step("Bucket"), sym_step("Blade")]


CONTRACTS = STEPS
