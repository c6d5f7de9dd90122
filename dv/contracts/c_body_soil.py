"""Contracts for body_soil.cpp."""
import terms as T
import values as V
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, isint, tmin, tmax, ite, tabs
from contract import Contract, Clause, plain, cell, ent
from fractions import Fraction
import wf
from wf import present, bspresent, WALLS, SOIL, CLEAR, LEMMA, req, keep
from contracts.c_relax import SOILY, TOTAL, same_parcel
from contracts.c_utils import rotated, dot

LEDGER = [p for p in SOIL if p[0] != "soil-rests-on-wall"]


def moved(q, pos, e):
    """the parcel's place for a pose"""
    r = rotated(q, [e.x, e.y, e.z])
    return [add(r[k], pos[k]) for k in range(3)]


def target_cell(c, e):
    """(new place, i, j, sx, sy, along x)"""
    g = c.a["grid"]
    n = moved(c.a["ori"], c.a["pos"], e)
    o = moved(c.old_pose[1], c.old_pose[0], e) if not c.old.sym else n
    i = T.cround(add(T.div(n[0], g.cell_size_xy), g.half_length_x))
    j = T.cround(add(T.div(n[1], g.cell_size_xy), g.half_length_y))
    dx, dy = sub(n[0], o[0]), sub(n[1], o[1])
    return n, i, j, dx, dy


def target_inside(c, k):
    n, i, j, dx, dy = target_cell(c, c.old.ent(k))
    return wf.interior(c.old, i, j)


def directions(sx, sy, alongx):
    if alongx:
        return [(0, 0), (sx, 0), (sx, sy), (0, sy), (sx, -sy), (0, -sy), (-sx, sy), (-sx, 0), (-sx, -sy)]
    return [(0, 0), (0, sy), (sx, sy), (sx, 0), (-sx, sy), (-sx, 0), (sx, -sy), (0, -sy), (-sx, -sy)]


def conc_follow(c):
    """the parcels after, computed from the definition (runs only)"""
    w, v = c.old, c.new
    lim = 1 + c.a["tol"]
    eps = Fraction(1, 500)
    want, ground = [], {}
    ambiguous = False
    for e in w.lst:
        if e.h == 0:
            continue
        n, i, j, dx, dy = target_cell(c, e)
        nine = [(i + a, j + b) for a in (-1, 0, 1) for b in (-1, 0, 1)]
        tops = [(l, a, b, abs(n[2] - w.body(l + 1, a, b))) for a, b in nine for l in (0, 2) if present(w, l, a, b)]
        near = [t for t in tops if t[3] < lim]
        here = [t for t in near if (t[1], t[2]) == (i, j)]
        if here:
            ok = here
        elif near:
            ok = near
        elif tops:
            m = min(t[3] for t in tops)
            ok = [t for t in tops if t[3] <= m + eps]
        else:
            ok = []
            ground[(i, j)] = ground.get((i, j), 0) + e.h
        if ok:
            want.append((e, ok))
    # every parcel kept, in order, on one of the admissible walls
    if len(v.lst) != len(want):
        return False
    for p, (e, ok) in zip(v.lst, want):
        if not (p.h == e.h and p.x == e.x and p.y == e.y and p.z == e.z):
            return False
        if not any((p.ind, p.ii, p.jj) == t[:3] for t in ok):
            return False
    for i in range(w.nx):
        for j in range(w.ny):
            if v.T[i][j] - w.T[i][j] != ground.get((i, j), 0):
                return False
    return True


def clear_choice(c):
    """no parcel is at the edge of a decision (runs only): the code computes in floats"""
    lim = 1 + c.a["tol"]
    eps = Fraction(1, 500)
    w = c.old
    for e in w.lst:
        n, i, j, dx, dy = target_cell(c, e)
        g = c.a["grid"]
        for x, h in ((n[0], g.half_length_x), (n[1], g.half_length_y)):
            f = x / g.cell_size_xy + h
            if abs(f - T.floor(f) - Fraction(1, 2)) < eps:
                return False
        if not (1 <= i <= w.nx - 2 and 1 <= j <= w.ny - 2):
            return False
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                for l in (0, 2):
                    if present(w, l, i + a, j + b) and abs(abs(n[2] - w.body(l + 1, i + a, j + b)) - lim) < eps:
                        return False
    return True


NINE = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


class OldList:
    """the list of parcels before the call"""

    def __call__(self, c):
        return c.old.n

    def key(self, c):
        so = c.ex.world_lv
        return "list:%s.%s" % (so[0], ".".join([str(p[1]) for p in so[1]] + ["body_soil_pos_"]))

    def key_at(self, ex, st):
        so = ex.world_lv
        return "list:%s.%s" % (so[0], ".".join([str(p[1]) for p in so[1]] + ["body_soil_pos_"]))


OLD = OldList()


def lim(c):
    return add(1, c.a["tol"])


def wall_dist(c, z, l, i, j):
    return tabs(sub(z, c.old.body(l + 1, i, j)))


def among(i, j, p, q):
    return land(le(sub(i, 1), p), le(p, add(i, 1)), le(sub(j, 1), q), le(q, add(j, 1)))


def none_near(c, z, cells):
    return land(*[limp(present(c.old, l, a, b), ge(wall_dist(c, z, l, a, b), lim(c))) for a, b in cells for l in (0, 2)])


def follows(c, e, p):
    """parcel e, whole, on an admissible wall"""
    n, i, j, dx, dy = target_cell(c, e)
    cells = [(add(i, a), add(j, b)) for a, b in NINE]
    out = [eq(p.h, e.h), eq(p.x, e.x), eq(p.y, e.y), eq(p.z, e.z), among(i, j, p.ii, p.jj)]
    for l in (0, 2):
        d = wall_dist(c, n[2], l, p.ii, p.jj)
        out.append(limp(eq(p.ind, l), land(present(c.old, l, p.ii, p.jj), lor(
            land(lt(d, lim(c)), lor(land(eq(p.ii, i), eq(p.jj, j)), none_near(c, n[2], [(i, j)]))),
            land(none_near(c, n[2], cells), *[limp(present(c.old, m, a, b), le(d, wall_dist(c, n[2], m, a, b))) for a, b in cells for m in (0, 2)])))))
    return land(*out)


def src(c, k):
    return T.norm(V.sel(c.new.v.f["body_soil_pos_"].g["src"], k))


def dst(c, k):
    return T.norm(V.sel(c.new.v.f["body_soil_pos_"].g["dst"], k))


def comes_from(c, k, upto):
    """an existing parcel, not used twice, put where it belongs"""
    s = src(c, k)
    c.st.touch(OLD.key(c), (s,))
    return land(le(0, s), lt(s, upto), eq(dst(c, s), k), ge(c.old.ent(s).h, 1), follows(c, c.old.ent(s), c.new.ent(k)))


def has_wall(c, e):
    n, i, j, dx, dy = target_cell(c, e)
    return lor(*[present(c.old, l, add(i, a), add(j, b)) for a, b in NINE for l in (0, 2)])


def goes_to(c, k, upto):
    """a parcel with soil and a wall in the nine cells is put on one"""
    e = c.old.ent(k)
    d = dst(c, k)
    return limp(land(lt(k, upto), ge(e.h, 1), has_wall(c, e)), land(le(0, d), lt(d, c.new.n), eq(src(c, d), k)))


def this_parcel(c):
    n, i, j, dx, dy = target_cell(c, c.old.ent(c.lv[0]))
    return n[2], i, j


def dir_cell(c, m):
    """the cell looked at in place m"""
    z, i, j = this_parcel(c)
    dirs = [v for v in c.local(lambda v: isinstance(v, V.CVec)) if len(v.e) == 9 and all(isinstance(x, V.CVec) and len(x.e) == 2 for x in v.e)][-1]
    if isinstance(m, int):
        x, y = dirs.e[m].e[0].t, dirs.e[m].e[1].t
    else:
        x, y = dirs.e[8].e[0].t, dirs.e[8].e[1].t
        for k in range(7, -1, -1):
            x, y = T.ite(eq(m, k), dirs.e[k].e[0].t, x), T.ite(eq(m, k), dirs.e[k].e[1].t, y)
    return z, add(i, x), add(j, y)


def chosen(c):
    """the wall chosen so far exists"""
    d, ind, ii, jj = c.vars
    z, i, j = this_parcel(c)
    f = c.ex.fmax
    return land(le(d, f), lor(eq(d, f), land(among(i, j, ii, jj), *[limp(eq(ind, l + 1), present(c.old, l, ii, jj)) for l in (0, 2)],
                                             lor(eq(ind, 1), eq(ind, 3)))))


def chosen_dist(c):
    d, ind, ii, jj = c.vars
    z, i, j = this_parcel(c)
    return lor(eq(d, c.ex.fmax), *[land(eq(ind, l + 1), eq(d, wall_dist(c, z, l, ii, jj))) for l in (0, 2)])


def closest(c, m):
    """no wall of the cells looked at is closer than the chosen one, or within reach"""
    z, a, b = dir_cell(c, m)
    return land(*[limp(present(c.old, l, a, b), land(lt(c.vars[0], c.ex.fmax), le(c.vars[0], wall_dist(c, z, l, a, b)), ge(wall_dist(c, z, l, a, b), lim(c)))) for l in (0, 2)])


update = Contract(
    "UpdateBodySoil", ["sim_out", "pos", "ori", "grid", "body", "tol"],
    opts={"grid": True, "frame_tags": ("C01", "C03"), "alias": True, "zero_sum": True, "trace": True, "merge_exits": 64, "opaque_round": True},
    loop_inv=[
        cell("columns without parcels to come are gone", ("C18",), lambda c, i, j: land(*[limp(bspresent(c.new, l, i, j), land(
            ge(c.SC(l, i, j), 1), eq(c.new.bs(l, i, j), c.old.bs(l, i, j)), eq(c.new.bs(l + 1, i, j), c.old.bs(l + 1, i, j)))) for l in (0, 2)])),
        Clause("chosen wall", ("C18",), "locals", chosen, nints=3),
        Clause("distance of the chosen wall", ("C18",), "locals", chosen_dist, nints=3),
        Clause("closest wall so far", ("C18",), "index", closest, heavy=True),
        ent("each parcel follows the body so far", ("C18",), lambda c, k: comes_from(c, k, c.lv[0]), heavy=True, world=True),
        ent("no parcel forgotten so far", ("C18",), lambda c, k: goes_to(c, k, c.lv[0]), lst=OLD, heavy=True, world=True),
    ],
    requires=req(WALLS + LEDGER + LEMMA) + [
        plain("targets away from the border", ("C08",), lambda c: clear_choice(c), symbolic=False),
        plain("orientation is not zero", ("C11",), lambda c: gt(dot(c.a["ori"], c.a["ori"]), 0)),
        plain("a pose has been accepted before", ("C12",), lambda c: lor(le(c.old.n, 0), gt(dot(c.a["body"].ori, c.a["body"].ori), 0)), concrete=False),
        ent("target away from the border", ("C08",), target_inside, concrete=False),
        plain("lemma: parcels add up to the soil", (), lambda c: eq(c.old.soil(), T.toreal(c.old.v.f["body_soil_pos_"].g["LT"])), lemma=True, concrete=False)],
    modifies=SOILY + ["body.pos_", "body.ori_"],
    ensures=keep(SOIL + LEMMA) + [
        TOTAL,
        plain("each parcel follows the body", ("C18",), conc_follow, symbolic=False),
        ent("each parcel comes from one before and is on the right wall", ("C18",), lambda c, k: comes_from(c, k, c.old.n), concrete=False, assume=False),
        ent("no parcel forgotten", ("C18",), lambda c, k: goes_to(c, k, c.old.n), concrete=False, assume=False, lst=OLD),
        cell("nothing is left behind", ("C18",), lambda c, i, j: land(*[
            not bspresent(c.new, l, i, j) or any((e.ind, e.ii, e.jj) == (l, i, j) for e in c.new.lst) for l in (0, 2)]), symbolic=False),
        plain("the pose given is the body's pose", ("C12", "C18", "C11"), lambda c: land(*[eq(x, y) for x, y in zip(
            list(c.new_body.pos) + list(c.new_body.ori), list(c.a["pos"]) + list(c.a["ori"]))]), concrete=False),
        plain("the new pose is the reference", ("C12", "C18"), lambda c: land(*[T.near(x, y) for x, y in zip(
            c.new_pose[0] + c.new_pose[1], list(c.a["pos"]) + list(c.a["ori"]))]), symbolic=False),
    ])

CONTRACTS = [update]
