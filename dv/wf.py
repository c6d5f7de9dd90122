"""The representation invariants of the simulator, as predicates over a view w of the state (symbolic or concrete).
All heights are in units of the cell height."""
import terms as T
from contract import plain, cell, ent
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, isint, tmin, tmax


def present(w, l, i, j):
    if not w.sym:
        return w.body(l, i, j) != 0 or w.body(l + 1, i, j) != 0
    return lor(ne(w.body(l, i, j), 0), ne(w.body(l + 1, i, j), 0))


def bspresent(w, l, i, j):
    if not w.sym:
        return w.bs(l, i, j) != 0 or w.bs(l + 1, i, j) != 0
    return lor(ne(w.bs(l, i, j), 0), ne(w.bs(l + 1, i, j), 0))


def both(w, i, j):
    return land(present(w, 0, i, j), present(w, 2, i, j))


def interior(w, i, j):
    return land(le(1, i), le(i, sub(w.nx, 2)), le(1, j), le(j, sub(w.ny, 2)))


def inside(w, i, j):
    return land(le(0, i), lt(i, w.nx), le(0, j), lt(j, w.ny))


def other(l):
    return 2 - l


# --- cell predicates ---
def p_walls(w, i, j):
    a, b = present(w, 0, i, j), present(w, 2, i, j)
    return land(limp(a, lt(w.body(0, i, j), w.body(1, i, j))), limp(b, lt(w.body(2, i, j), w.body(3, i, j))),
                limp(land(a, b), lor(lt(w.body(1, i, j), w.body(2, i, j)), lt(w.body(3, i, j), w.body(0, i, j)))))


def p_ring(w, i, j):
    return limp(lor(present(w, 0, i, j), present(w, 2, i, j)), interior(w, i, j))


def p_latwall(w, i, j):
    return land(*[isint(w.body(l, i, j)) for l in range(4)])


def p_lat(w, i, j):
    return land(isint(w.terrain(i, j)), *[isint(w.bs(l, i, j)) for l in range(4)])


def p_rest(w, i, j):
    return land(*[lor(land(eq(w.bs(l, i, j), 0), eq(w.bs(l + 1, i, j), 0)),
                      land(present(w, l, i, j), eq(w.bs(l, i, j), w.body(l + 1, i, j)), ge(w.bs(l + 1, i, j), w.bs(l, i, j))))
                  for l in (0, 2)])


def p_ground(w, i, j):
    return land(*[limp(present(w, l, i, j), le(w.terrain(i, j), w.body(l, i, j))) for l in (0, 2)])


def p_between(w, i, j):
    return land(*[limp(land(both(w, i, j), bspresent(w, l, i, j), lt(w.body(l, i, j), w.body(2 - l, i, j))),
                       le(w.bs(l + 1, i, j), w.body(2 - l, i, j))) for l in (0, 2)])


def p_ledger(w, i, j):
    return land(*[land(eq(w.L(l, i, j), sub(w.bs(l + 1, i, j), w.bs(l, i, j))),
                       limp(bspresent(w, l, i, j), ge(w.C(l, i, j), 1)))
                  for l in (0, 2)])


def p_lemma(w, i, j):
    """consequences of the definition of the ledger for a list of non-negative parcels"""
    return land(*[land(ge(w.L(l, i, j), 0), ge(w.C(l, i, j), 0), limp(eq(w.C(l, i, j), 0), eq(w.L(l, i, j), 0))) for l in (0, 2)])


# --- entry predicates ---
def e_cell(w, k):
    e = w.ent(k)
    return land(lor(eq(e.ind, 0), eq(e.ind, 2)), interior(w, e.ii, e.jj))


def e_amount(w, k):
    e = w.ent(k)
    return ge(e.h, 0)


def e_lat(w, k):
    return isint(w.ent(k).h)


def e_wall(w, k):
    """a parcel lies in a cell with a wall in its layer"""
    e = w.ent(k)
    return land(*[limp(eq(e.ind, l), present(w, l, e.ii, e.jj)) for l in (0, 2)])


def e_lemma(w, k):
    e = w.ent(k)
    return land(*[limp(eq(e.ind, l), land(ge(w.L(l, e.ii, e.jj), e.h), ge(w.C(l, e.ii, e.jj), 1))) for l in (0, 2)])


def p_dims(w):
    return land(ge(w.nx, 3), ge(w.ny, 3))


WALLS = [("walls", ("C09",), "cell", p_walls), ("ring", ("C08",), "cell", p_ring), ("walls-on-grid", ("C05",), "cell", p_latwall)]
SOIL = [("heights-on-grid", ("C05",), "cell", p_lat), ("soil-rests-on-wall", ("C03",), "cell", p_rest),
        ("parcels-add-up", ("C02",), "cell", p_ledger),
        ("parcel-cell", ("C02", "C08"), "ent", e_cell), ("parcel-amount", ("C02",), "ent", e_amount), ("parcel-on-grid", ("C05",), "ent", e_lat)]
CLEAR = [("ground-below-walls", ("C04",), "cell", p_ground), ("soil-between-walls", ("C04",), "cell", p_between)]
LEMMA = [("lemma-ledger", (), "cell", p_lemma), ("lemma-parcel", (), "ent", e_lemma)]


def req(preds, skip=()):
    """preconditions on the state before"""
    import contract
    out = []
    for n, tags, kind, fn in preds:
        if n in skip:
            continue
        f = (lambda fn: (lambda c, *p: fn(c.old, *p)))(fn)
        out.append(contract.Clause(n, tags, kind, f, lemma=n.startswith("lemma")))
    return out


def keep(preds, skip=()):
    """postconditions: the same predicate on the state after"""
    import contract
    out = []
    for n, tags, kind, fn in preds:
        if n in skip:
            continue
        f = (lambda fn: (lambda c, *p: fn(c.new, *p)))(fn)
        out.append(contract.Clause("keeps " + n, tags, kind, f, lemma=n.startswith("lemma")))
    return out


def interior(w, i, j):
    """not on the border of the grid"""
    return T.land(T.le(1, i), T.le(i, T.sub(w.nx, 2)), T.le(1, j), T.le(j, T.sub(w.ny, 2)))
