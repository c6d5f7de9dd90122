"""Contracts for the initial terrain: the noise kernel and Init."""
import terms as T
import values as V
from fractions import Fraction
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, div, tabs, isint
from contract import Contract, Clause, plain, cell, ent

TAG = ("C15",)


class Table:
    """the permutation table"""
    anylist = True

    def __call__(self, c):
        return self.of(c).len

    @staticmethod
    def of(c):
        v = c.a["perm_table"]
        return V.to_svec(v, ("num", "i")) if isinstance(v, V.CVec) else v

    def key(self, c):
        e = getattr(c.ex, "entry", None)
        return "list:" + c.ex.listkey(c.ex.locs0["perm_table"]) if "perm_table" in getattr(c.ex, "locs0", {}) else "list:?"


TABLE = Table()


def byte(c, k):
    x = V.lower(Table.of(c).elem, k).t
    return land(ge(x, 0), le(x, 255))


noise = Contract(
    "simplex_noise", ["x", "y", "perm_table"], dims={"x": 0, "y": 0}, opts={"unit_mul": True, "frame_tags": TAG, "index_tags": TAG},
    requires=[
        plain("coordinates in range", TAG, lambda c: land(*[land(ge(c.a[v], 0), le(c.a[v], 32)) for v in "xy"])),
        plain("table of 256 numbers", TAG, lambda c: eq(Table.of(c).len, 256)),
        ent("table holds bytes", TAG, byte, lst=TABLE)],
    ensures=[plain("noise is bounded", TAG, lambda c: le(tabs(c.ret), Fraction(1, 2)))])


# ---- initial terrain ----------------------------------------------------------------------------------------------------

def elem(v, k):
    return V.lower(v.elem, k).t


class Axis:
    def __init__(self, ax):
        self.ax = ax

    def __call__(self, c):
        return c.ex.entry_grid.f["vect_%s_" % self.ax].len

    def key(self, c):
        return "list:" + c.ex.listkey((c.ex.locs0["grid"][0], (("f", "vect_%s_" % self.ax),)))


def spread(c, ax, k):
    """coordinates go from the border at minus the grid size up to at most three times that distance"""
    v = c.ex.entry_grid.f["vect_%s_" % ax]
    a, b = elem(v, 0), elem(v, k)
    return land(lt(a, 0), le(a, b), le(sub(b, a), mul(-4, a)))


def terrain_ok(c, i, j):
    t = c.new.terrain(i, j)
    return land(isint(t), le(tabs(t), add(tabs(c.a["amp_noise"]), Fraction(1, 2))))


def written(c, i, j):
    """the cells before the current one"""
    return limp(c.visited(i, j), terrain_ok(c, i, j))


INIT = Contract(
    "Init", ["sim_out", "grid", "amp_noise"], opts={"grid": True, "unit_mul": True, "frame_tags": TAG, "index_tags": TAG},
    requires=[ent("coordinates of axis " + ax, TAG + ("C14",), lambda c, k, ax=ax: spread(c, ax, k), lst=Axis(ax), concrete=False) for ax in "xy"],
    modifies=["sim_out.terrain_"],
    loop_inv=[
        Clause("table holds bytes", TAG, "intvec", lambda c, v, k, n: land(ge(elem(v, k), 0), le(elem(v, k), 255))),
        cell("on the grid and bounded so far", TAG, written)],
    ensures=[cell("on the grid and bounded", TAG + ("C05",), terrain_ok, concrete=False),
             cell("on the grid and bounded", TAG + ("C05",), lambda c, i, j: land(
                 isint(c.new.terrain(i, j)), le(tabs(c.new.terrain(i, j)), add(c.a["amp_noise"], Fraction(501, 1000)))), symbolic=False)])

CONTRACTS = [noise, INIT]
