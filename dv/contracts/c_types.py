"""Contracts for the constructors of types.cpp: what is refused, and what an accepted call builds."""
import terms as T
import values as V
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, div, ite
from contract import Contract, Clause, plain, Rec
from exec import fresh, I

TAG = ("C14",)


def iff(a, b):
    return land(limp(a, b), limp(b, a))


def valid_param(c):
    a = c.a
    return land(ge(a["repose_angle"], 0), T.le_halfpi(a["repose_angle"]), ge(a["max_iterations"], 0), ge(a["cell_buffer"], 2))


def made(c):
    return Rec(c.retv)


def refuses(valid):
    """called on both ways out"""
    return Clause("refused exactly when invalid", TAG, "plain", lambda c: lnot(valid(c)) if c.thrown else valid(c), on_throw=True)


def ctor(name, params, valid, ensures, **kw):
    opts = {"ctor": True}
    opts.update(kw.pop("opts", {}))
    return Contract(name, params, opts=opts, throws=True, callee=False,
                    ensures=([refuses(valid)] if valid else []) + ensures, **kw)


SIMPARAM = ctor("SimParam", ["repose_angle", "max_iterations", "cell_buffer"], valid_param, [
    plain("keeps the values", TAG, lambda c: land(*[eq(getattr(made(c), k), c.a[k]) for k in ("repose_angle", "max_iterations", "cell_buffer")]))],
    dims={"repose_angle": 0})



# ---- body ---------------------------------------------------------------------------------------------------------------

def any_vec(name, c, ent):
    """a vector of any length"""
    return V.svec_fresh(("num", "r"), name)


def items(v, c, name):
    """the first three numbers of an argument"""
    sv = c.ex.entry.st0.store[c.ex.entry.locs[name][0]]
    return [V.lower(sv.elem, k).t for k in range(3)], sv.len


VECS = ["o_pos_init", "j_pos_init", "b_pos_init", "t_pos_init"]


def same3(p, q):
    return land(*[eq(x, y) for x, y in zip(p, q)])


def valid_body(c):
    v = {n: items(c.a[n], c, n) for n in VECS}
    size = land(*[eq(v[n][1], 3) for n in VECS])
    o, j, b, t = [v[n][0] for n in VECS]
    return land(size, lnot(same3(j, b)), lnot(same3(j, t)), lnot(same3(b, t)), gt(c.a["width"], 0))


def relative(c):
    m = made(c)
    o = items(None, c, "o_pos_init")[0]
    r = []
    for n in VECS[1:]:
        x = getattr(m, n)
        r += [eq(len(x), 3) if isinstance(x, list) else False]
        r += [eq(a, sub(b, z)) for a, b, z in zip(x, items(None, c, n)[0], o)]
    return land(*r)


def at_origin(c):
    m = made(c)
    return land(len(m.pos) == 3, len(m.ori) == 4, *[eq(x, 0) for x in m.pos + m.ori])


def body_ctor(name):
    return ctor(name, VECS + ["width"], valid_body, [
        plain("reference points relative to the origin", TAG, relative),
        plain("no pose yet", TAG, at_origin),
        plain("keeps the width", TAG, lambda c: eq(made(c).width, c.a["width"]))], kinds={n: any_vec for n in VECS}, dims={"width": 1})


# ---- grid ---------------------------------------------------------------------------------------------------------------

AXES = [("x", "grid_size_x", "cell_size_xy"), ("y", "grid_size_y", "cell_size_xy"), ("z", "grid_size_z", "cell_size_z")]


def valid_grid(c):
    a = c.a
    return land(gt(a["cell_size_z"], 0), gt(a["cell_size_xy"], 0), le(a["cell_size_z"], a["cell_size_xy"]),
                *[land(gt(a[s], 0), ge(a[s], a[z])) for _, s, z in AXES])


def half(c, ax, s, z):
    h = getattr(made(c), "half_length_" + ax)
    q = div(c.a[s], c.a[z])
    return land(eq(h, T.cround(T.toreal(q))), ge(h, 1))


def vect(c, ax):
    return c.retv.f["vect_%s_" % ax]


def first(c, ax, s, z):
    v = V.lower(vect(c, ax).elem, 0).t
    return eq(v, origin(c, ax, s, z))


def origin(c, ax, s, z):
    return add(mul(-1, c.a[s]), c.a[z] if ax == "z" else 0)


def starts(ax, s, z):
    return Clause("starts at the border of axis " + ax, TAG, "numvec", lambda c, v: eq(V.lower(v.elem, 0).t, origin(c, ax, s, z)), nints=1)


def sizes(c, ax):
    return eq(vect(c, ax).len, add(mul(2, getattr(made(c), "half_length_" + ax)), 1))


class Coord:
    anylist = True

    def __init__(self, ax):
        self.ax = ax

    def __call__(self, c):
        return vect(c, self.ax).len

    def key(self, c):
        return "numvec"


def spaced(c, v, k, z):
    return limp(ge(k, 1), eq(V.lower(v.elem, k).t, add(V.lower(v.elem, sub(k, 1)).t, c.a[z])))


def monotone(a, b, c):
    """0 <= a <= b and c > 0 give a c <= b c: an instance for the solver, products being opaque"""
    T.Mode.side(T.z(limp(land(le(0, a), le(a, b), gt(c, 0)), le(mul(T.toreal(a), c), mul(T.toreal(b), c)))))


def spread(c, k, ax, s, z):
    """what the initial terrain relies on: see Axis in c_noise.py"""
    size, step = c.a[s], c.a[z]
    q, h = div(size, step), getattr(made(c), "half_length_" + ax)
    T.Mode.side(T.z(limp(gt(step, 0), eq(mul(q, step), size))))
    monotone(k, mul(2, h), step)
    monotone(mul(2, h), add(mul(2, q), 1), step)
    v = vect(c, ax)
    a, b = V.lower(v.elem, 0).t, V.lower(v.elem, k).t
    return land(lt(a, 0), le(a, b), le(sub(b, a), mul(-4, a)))


def steps(z):
    return Clause("evenly spaced so far (%s)" % z, TAG, "numvec", lambda c, v, k: spaced(c, v, k, z))


def closed(ax, s, z):
    return Clause("coordinates of axis %s so far" % ax, TAG, "numvec", lambda c, v, k: eq(V.lower(v.elem, k).t, add(origin(c, ax, s, z), mul(T.toreal(k), c.a[z]))))


def follows(ax, s, z):
    return Clause("runs along axis " + ax, TAG, "numvec", lambda c, v, n, r: eq(r, ite(
        ge(n, 1), add(V.lower(v.elem, sub(n, 1)).t, c.a[z]), origin(c, ax, s, z))), nints=2)


GRID = ctor("Grid", ["grid_size_x", "grid_size_y", "grid_size_z", "cell_size_xy", "cell_size_z"], valid_grid,
            [plain("half size of axis " + ax, TAG, lambda c, ax=ax, s=s, z=z: half(c, ax, s, z)) for ax, s, z in AXES] +
            [plain("number of coordinates of axis " + ax, TAG, lambda c, ax=ax: sizes(c, ax)) for ax, s, z in AXES] +
            [plain("first coordinate of axis " + ax, TAG, lambda c, ax=ax, s=s, z=z: first(c, ax, s, z)) for ax, s, z in AXES] +
            [Clause("coordinates of axis %s evenly spaced" % ax, TAG, "ent", lambda c, k, ax=ax, z=z: spaced(c, vect(c, ax), k, z), lst=Coord(ax)) for ax, s, z in AXES] +
            [Clause("coordinates of axis %s start below zero and end within range" % ax, TAG, "ent", lambda c, k, x=(ax, s, z): spread(c, k, *x), lst=Coord(ax))
             for ax, s, z in AXES[:2]] +
            [plain("keeps the cell sizes", TAG, lambda c: land(*[eq(getattr(made(c), k), c.a[k]) for k in ("cell_size_xy", "cell_size_z")])),
             plain("area and volume of a cell", TAG, lambda c: land(
                 eq(made(c).cell_area, mul(c.a["cell_size_xy"], c.a["cell_size_xy"])),
                 eq(made(c).cell_volume, mul(mul(c.a["cell_size_xy"], c.a["cell_size_xy"]), c.a["cell_size_z"]))))],
            loop_inv=[steps("cell_size_xy"), steps("cell_size_z")] + [f(*x) for x in AXES for f in (starts, follows, closed)],
            dims={"grid_size_x": 1, "grid_size_y": 1, "grid_size_z": 1, "cell_size_xy": 1, "cell_size_z": 1})


# ---- fresh state --------------------------------------------------------------------------------------------------------

def fresh_area(c):
    g = c.a["grid"]
    f = c.retv.f
    r = []
    for a in ("body", "relax", "impact"):
        for d, h in ((0, g.half_length_x), (1, g.half_length_y)):
            lo, hi = [x.t for x in f[a + "_area_"].e[d].e]
            r += [ge(lo, 1), le(hi, mul(2, h)), le(lo, hi), eq(lo, 1), eq(hi, mul(2, h))]
    return land(*r)


def grids(c):
    f = c.retv.f
    return [f["terrain_"]] + list(f["body_"].e) + list(f["body_soil_"].e)


def layers(c):
    f = c.retv.f
    return len(f["body_"].e) == 4 and len(f["body_soil_"].e) == 4


def shape(c):
    """every grid has one number per cell"""
    g = c.a["grid"]
    nx, ny = add(mul(2, g.half_length_x), 1), add(mul(2, g.half_length_y), 1)
    i = fresh("i", I)
    r = []
    for x in grids(c):
        row = V.lower(x.elem, i)
        r += [eq(x.len, nx), limp(land(le(0, i), lt(i, nx)), eq(row.len, ny))]
    return land(*r)


def flat(c):
    i, j = fresh("i", I), fresh("j", I)
    g = c.a["grid"]
    ins = land(le(0, i), le(i, mul(2, g.half_length_x)), le(0, j), le(j, mul(2, g.half_length_y)))
    return limp(ins, land(*[eq(V.lower(V.lower(x.elem, i).elem, j).t, 0) for x in grids(c)]))


def empty(c):
    n = c.retv.f["body_soil_pos_"]
    return eq(len(n.e) if isinstance(n, V.CVec) else n.len, 0)


SIMOUT = ctor("SimOut", ["grid"], None, [
    plain("four layers of walls and of soil", TAG, layers),
    plain("one number per cell", TAG + ("C08",), shape),
    plain("flat, no wall, no soil on the body", TAG + ("C01",), flat),
    plain("no parcel", TAG + ("C02",), empty),
    plain("not at rest yet", TAG + ("C07",), lambda c: lnot(c.retv.f["equilibrium_"].t)),
    plain("areas strictly inside the grid", TAG + ("C08", "C16"), fresh_area)])

CONTRACTS = [SIMPARAM, body_ctor("Body"), body_ctor("Bucket"), body_ctor("Blade"), GRID, SIMOUT]
