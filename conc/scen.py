"""Generators of states and calls for the functions under contract."""
import math, random
from fractions import Fraction
import conc
from conc import World, Case, NS, tuples
import terms as T
import contract as K
import wf
from contracts import c_relax, c_intersect, c_utils

CZ = [1.0, 1.0, 0.5, 0.25, 0.125, 2.0, 4.0, 0.1, 0.05]
NEIGH = ((1, 0), (-1, 0), (0, 1), (0, -1))


class Retry(Exception):
    pass


def frac(x):
    return Fraction(x)


# ---- states -----------------------------------------------------------------------------------------------------------

def new_case(r, hmin=2, hmax=5, ratio=None):
    cz = r.choice(CZ)
    q = ratio or r.choice([1, 1, 1, 2, 3, 1.5])
    hx, hy, hz = r.randint(hmin, hmax), r.randint(hmin, hmax), r.randint(8, 16)
    c = Case(cz, cz * q, hx, hy, hz)
    c.ratio = q
    c.rng = r
    c.moved_far = 0
    c.add("seed %d" % r.randint(1, 10 ** 6))
    return c


def terrain(r, w, lo=-4, hi=4):
    m = r.choice(["flat", "small", "rough", "slope", "spikes", "zero", "steep"])
    base = r.randint(lo, hi)
    sx, sy = r.randint(-3, 3), r.randint(-3, 3)
    for i in range(w.nx):
        for j in range(w.ny):
            if m == "flat":
                v = base
            elif m == "small":
                v = base + r.randint(0, 1)
            elif m == "rough":
                v = base + r.randint(-3, 3)
            elif m == "steep":
                v = base + r.randint(-12, 12)
            elif m == "slope":
                v = base + (sx * i + sy * j) // 2
            elif m == "spikes":
                v = base + (r.randint(-9, 12) if r.random() < 0.12 else 0)
            else:
                v = 0
            w.T[i][j] = v
    return m


def put_wall(w, l, i, j, a, b):
    if a == 0 and b == 0:
        b = 1
    w.B[l][i][j], w.B[l + 1][i][j] = a, b


def put_soil(w, l, i, j, th):
    t = w.B[l + 1][i][j]
    w.S[l][i][j], w.S[l + 1][i][j] = t, t + th


def column(r, w, i, j, clear=True, cfg=None, soil=0.6):
    """walls and soil in one cell; clear: the ground is below the walls and the soil fits"""
    cfg = cfg or r.choice(["none", "none", "0", "2", "02", "20", "02", "20"])
    for l in range(4):
        w.B[l][i][j] = w.S[l][i][j] = 0
    if cfg == "none":
        return
    t = w.T[i][j]
    start = t + r.choice([0, 0, 0, 1, 1, 2, 3, 5])
    if not clear and r.random() < 0.6:
        start = t - r.choice([1, 1, 2, 3, 5, 8])
    th = lambda: r.choice([1, 1, 1, 2, 3])
    order = [int(x) for x in cfg]
    lo = order[0]
    b = start + th()
    put_wall(w, lo, i, j, start, b)
    if start == 0 and b == 0:
        b = 1
    b = w.B[lo + 1][i][j]
    gap = None
    if len(order) == 2:
        gap = r.choice([1, 1, 2, 2, 3, 4, 6])
        up = order[1]
        put_wall(w, up, i, j, b + gap, b + gap + th())
        if r.random() < soil:
            put_soil(w, up, i, j, r.choice([0, 1, 1, 2, 3, 5, 8]))
    if r.random() < soil:
        if gap is None:
            h = r.choice([0, 1, 1, 2, 3, 5, 8])
        else:
            h = r.choice([0, 1, gap, gap, gap - 1, r.randint(0, gap)])
            if not clear and r.random() < 0.4:
                h = gap + r.choice([1, 2, 3, 5])
        put_soil(w, lo, i, j, h)


def parcels(r, w, cells=None):
    """a list of parcels matching the columns"""
    out = []
    for l in (0, 2):
        for i in range(w.nx):
            for j in range(w.ny):
                if w.S[l][i][j] != 0 or w.S[l + 1][i][j] != 0:
                    th = w.S[l + 1][i][j] - w.S[l][i][j]
                    k = r.choice([1, 1, 2, 3])
                    cuts = sorted(r.randint(0, th) for _ in range(k - 1)) if th > 0 else [0] * (k - 1)
                    cuts = [0] + cuts + [th]
                    for a, b in zip(cuts, cuts[1:]):
                        out.append(K.Entry(l, i, j, Fraction(r.randint(-8, 8), 4), Fraction(r.randint(-8, 8), 4), Fraction(r.randint(-8, 8), 4), b - a))
    r.shuffle(out)
    return out


def walls_world(r, c, clear=True, dens=None, soil=0.6):
    w = World(2 * c.hx + 1, 2 * c.hy + 1)
    terrain(r, w)
    d = dens if dens is not None else r.choice([0.0, 0.15, 0.3, 0.5, 0.8, 1.0])
    for i in range(1, w.nx - 1):
        for j in range(1, w.ny - 1):
            if r.random() < d:
                column(r, w, i, j, clear, soil=soil)
    w.lst = parcels(r, w)
    whole_areas(r, w)
    w.eq = r.random() < 0.5
    return w


def whole_areas(r, w):
    for k in ("body", "relax", "impact"):
        w.areas[k] = [[1, w.nx - 1], [1, w.ny - 1]]


def some_area(r, w):
    x0, y0 = r.randint(1, w.nx - 2), r.randint(1, w.ny - 2)
    return [[x0, r.randint(x0, w.nx - 1)], [y0, r.randint(y0, w.ny - 1)]]


def box(w, r, extra=0):
    """an area holding all walls"""
    cs = [(i, j) for i in range(w.nx) for j in range(w.ny) if any(w.B[l][i][j] for l in range(4))]
    if not cs:
        return some_area(r, w)
    a = [[min(x[k] for x in cs) - r.randint(0, extra), max(x[k] for x in cs) + 1 + r.randint(0, extra)] for k in (0, 1)]
    for k, n in ((0, w.nx), (1, w.ny)):
        a[k][0] = max(a[k][0], 1)
        a[k][1] = min(a[k][1], n - 1)
    return a


def quat(r):
    m = r.randint(0, 4)
    if m == 0:
        return [1.0, 0.0, 0.0, 0.0]
    if m == 1:
        a = r.uniform(-3.1, 3.1)
        k = r.randint(1, 3)
        q = [math.cos(a / 2), 0.0, 0.0, 0.0]
        q[k] = math.sin(a / 2)
    else:
        q = [r.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q)) or 1
        q = [x / n for x in q]
    if r.random() < 0.4:
        s = r.choice([0.5, 2.0, 1.5, -1.0, 3.0])
        q = [x * s for x in q]
    return [f32(x) for x in q]


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", float(x)))[0]


def small_body(r, c, pos=(0, 0, 0), ori=(1, 0, 0, 0), blade=None):
    k = c.ratio
    o = [f32(r.uniform(-1, 1)) if r.random() < 0.3 else 0 for _ in range(3)]
    j = [0, 0, r.choice([0, 1, 2]) + 0.25]
    L = r.uniform(1.2, 2.5) * k
    b = [0.1, 0, -r.uniform(1.0, 3.0)]
    t = [L, 0, -r.uniform(0.5, 3.0)]
    j, b, t = [[f32(float(x) + float(y)) for x, y in zip(p, o)] for p in (j, b, t)]
    c.set_body(r.random() < 0.4 if blade is None else blade, o, j, b, t, f32(r.uniform(1.0, 3.0) * k), pos, ori)


def plain_body(c):
    c.set_body(False, [0, 0, 0], [0, 0, 0], [0, 0, -1], [1, 0, -1], 1, [0, 0, 0], [1, 0, 0, 0])


def params(r, c):
    for _ in range(100):
        a = r.choice([0.0, 0.2, 0.4636, 0.7, 0.85, 1.0, 1.2, 1.3, r.uniform(0, 1.4)])
        x = float(c.ratio) * math.tan(a)
        if abs(x - math.floor(x) - 0.5) > 0.01 and x < 40:
            break
    c.set_param(f32(a), r.choice([0, 1, 2, 3, 5, 10]), r.choice([2, 2, 3, 4]))


def std_args(c):
    return dict(grid=c.grid, body=c.body, tol=c.tol, sim_param=getattr(c, "param", None))


def focus(r, w):
    return r.randint(1, w.nx - 2), r.randint(1, w.ny - 2)


def near_levels(w, i, j):
    return [w.T[i][j]] + [w.B[l][i][j] for l in range(4)] + [w.S[l][i][j] for l in range(4)]


# ---- relax ------------------------------------------------------------------------------------------------------------

def g_check_terrain(r):
    c = new_case(r, 1, 2)
    w = walls_world(r, c, True, 1.0)
    i, j = r.randint(0, w.nx - 1), r.randint(0, w.ny - 1)
    h = r.choice(near_levels(w, i, j)) + r.choice([-1, 0, 0, 1, 1, 2, 5])
    plain_body(c)
    c.emit_world(w)
    c.args = dict(ii_c=i, jj_c=j, h_min=h, **std_args(c))
    c.call = "CheckUnstableTerrainCell %d %d %s" % (i, j, c.f(h))
    c.conv = lambda t: int(t[0])
    return c


def g_check_body(r):
    c = new_case(r, 1, 2)
    w = walls_world(r, c, True, 1.0)
    i, j = focus(r, w)
    di, dj = r.choice(NEIGH)
    i2, j2 = i + di, j + dj
    ind = r.choice([0, 2])
    if r.random() < 0.7 and wf.present(w, 0, i2, j2) is True:
        # the wall slid from close to a level of the other cell
        t = r.choice(near_levels(w, i2, j2)) + r.choice([-1, 0, 1])
        if t - 1 >= w.T[i][j] and not (t == 0 and t - 1 == 0):
            for l in range(4):
                w.B[l][i][j] = w.S[l][i][j] = 0
            put_wall(w, ind, i, j, t - 1, t)
            w.lst = parcels(r, w)
    h = r.choice(near_levels(w, i2, j2)) + r.choice([-1, 0, 0, 1, 1, 2, 5])
    plain_body(c)
    c.emit_world(w)
    c.args = dict(ii=i, jj=j, ind=ind, ii_c=i2, jj_c=j2, h_min=h, **std_args(c))
    c.call = "CheckUnstableBodyCell %d %d %d %d %d %s" % (i, j, ind, i2, j2, c.f(h))
    c.conv = lambda t: int(t[0])
    return c


def pick_status(r, rules, dh, src):
    ok = [(cd, surf, cap) for cnd, cd, surf, cap, wh in rules if cnd is True and surf + dh < src]
    return ok[0] if ok else None


def g_relax_terrain_cell(r):
    c = new_case(r, 1, 2)
    for _ in range(30):
        w = walls_world(r, c, True, 1.0)
        i, j = r.randint(0, w.nx - 1), r.randint(0, w.ny - 1)
        di, dj = r.choice(NEIGH)
        if not (0 <= i + di < w.nx and 0 <= j + dj < w.ny):
            continue
        i2, j2 = i + di, j + dj
        dh = r.choice([0, 0, 1, 1, 2, 3, 5])
        if r.random() < 0.8:
            for l in range(4):
                w.B[l][i][j] = w.S[l][i][j] = 0
            w.T[i][j] = r.choice(near_levels(w, i2, j2)) + dh + r.choice([1, 2, 3, 4, 5, 7, 10])
            w.lst = parcels(r, w)
        p = pick_status(r, c_relax.landing_ground(w, i2, j2), dh, w.T[i][j])
        if p:
            break
    else:
        raise Retry()
    plain_body(c)
    c.emit_world(w)
    c.args = dict(status=p[0], dh_max=dh, ii=i, jj=j, ii_c=i2, jj_c=j2, **std_args(c))
    c.call = "RelaxUnstableTerrainCell %d %s %d %d %d %d" % (p[0], c.f(dh), i, j, i2, j2)
    return c


def g_relax_body_cell(r):
    c = new_case(r, 2, 3)
    for _ in range(40):
        w = walls_world(r, c, True, 1.0)
        cand = [k for k, e in enumerate(w.lst)]
        i, j = focus(r, w)
        di, dj = r.choice(NEIGH)
        if not (0 <= i + di < w.nx and 0 <= j + dj < w.ny):
            continue
        i2, j2 = i + di, j + dj
        dh = r.choice([0, 0, 1, 1, 2, 3, 5])
        ind = r.choice([0, 2])
        if r.random() < 0.85:
            for l in range(4):
                w.B[l][i][j] = w.S[l][i][j] = 0
            lv = r.choice(near_levels(w, i2, j2)) + r.choice([-3, -1, 0, 1, 2])
            a = max(w.T[i][j], lv - 1)
            put_wall(w, ind, i, j, a, a + 1)
            put_soil(w, ind, i, j, r.choice([1, 2, 3, 4, 6, 9, 12]))
            if r.random() < 0.2:
                u = 2 - ind
                put_wall(w, u, i, j, w.S[ind + 1][i][j], w.S[ind + 1][i][j] + 1)
            w.lst = parcels(r, w)
        ks = [k for k, e in enumerate(w.lst) if (e.ind, e.ii, e.jj) == (ind, i, j)]
        if not ks:
            continue
        p = pick_status(r, c_relax.landing_body(w, i2, j2, w.B[ind + 1][i][j]), dh, w.S[ind + 1][i][j])
        if p:
            break
    else:
        raise Retry()
    nn = r.choice(ks)
    if r.random() < 0.3:
        # part of the parcels is in the other list
        own = [e for k, e in enumerate(w.lst) if k != nn and r.random() < 0.2]
        e = w.lst[nn]
        w.xl = own
        w.lst = [x for x in w.lst if not any(x is y for y in own)]
        nn = [k for k, x in enumerate(w.lst) if x is e][0]
    plain_body(c)
    c.emit_world(w)
    c.args = dict(status=p[0], dh_max=dh, nn=nn, ii=i, jj=j, ind=ind, ii_c=i2, jj_c=j2, **std_args(c))
    c.call = "RelaxUnstableBodyCell %d %s %d %d %d %d %d %d" % (p[0], c.f(dh), nn, i, j, ind, i2, j2)
    return c


def g_locate(r):
    c = new_case(r, 1, 3)
    w = walls_world(r, c, True, 0.1)
    w.areas["impact"] = some_area(r, w) if r.random() < 0.7 else w.areas["impact"]
    dh = r.choice([0, 1, 1, 2, 3, 4])
    plain_body(c)
    c.emit_world(w)
    c.args = dict(dh_max=dh, **std_args(c))
    c.call = "LocateUnstableTerrainCell " + c.f(dh)
    c.conv = tuples
    return c


def relax_world(r, c, dens=None):
    w = walls_world(r, c, True, dens)
    if r.random() < 0.4:
        w.areas["impact"] = some_area(r, w)
    if r.random() < 0.2:
        i, j = r.randint(1, w.nx - 2), r.randint(1, w.ny - 2)
        w.areas["impact"] = [[i, i + 1], [j, j + 1]]
        if not any(w.B[l][i][j] for l in range(4)):
            w.T[i][j] += r.choice([1, 2, 4, 8])
    if r.random() < 0.4:
        w.areas["relax"] = some_area(r, w)
    return w


def g_relax_terrain(r):
    c = new_case(r, 2, 4)
    w = relax_world(r, c)
    plain_body(c)
    params(r, c)
    c.emit_world(w)
    c.args = std_args(c)
    c.call = "RelaxTerrain"
    return c


def g_relax_body(r):
    c = new_case(r, 2, 4)
    w = relax_world(r, c, r.choice([0.3, 0.6, 1.0]))
    plain_body(c)
    params(r, c)
    c.emit_world(w)
    c.args = std_args(c)
    c.call = "RelaxBodySoil"
    return c


# ---- intersections ----------------------------------------------------------------------------------------------------

def solid_world(r, c, body_only=False):
    w = walls_world(r, c, False, r.choice([0.1, 0.3, 0.6, 1.0, 1.0]))
    w.areas["body"] = box(w, r, 1)
    return w


def g_locate_int(r):
    c = new_case(r, 1, 3)
    w = solid_world(r, c)
    if r.random() < 0.5:
        w.areas["body"] = some_area(r, w)
    plain_body(c)
    c.emit_world(w)
    c.args = std_args(c)
    c.call = "LocateIntersectingCells"
    c.conv = tuples
    return c


def g_move_body_soil(r):
    c = new_case(r, 1, 2)
    w = walls_world(r, c, r.random() < 0.5, 1.0)
    i, j = focus(r, w)
    i2, j2 = r.randint(0, w.nx - 1), r.randint(0, w.ny - 1)
    ind = r.choice([0, 2])
    mh = r.choice(near_levels(w, i2, j2)) + r.choice([-1, 0, 1, 2, 5])
    h = r.choice([0, 1, 1, 2, 3, 5, 8])
    wp = r.random() < 0.5
    if r.random() < 0.6:
        t = r.choice(near_levels(w, i2, j2)) + r.choice([-1, 0, 1])
        for l in range(4):
            w.B[l][i][j] = w.S[l][i][j] = 0
        put_wall(w, ind, i, j, t - 1, t)
        w.lst = parcels(r, w)
    plain_body(c)
    c.emit_world(w)
    c.args = dict(ind_p=ind, ii_p=i, jj_p=j, max_h=mh, ii_n=i2, jj_n=j2, h_soil=h, wall_presence=wp, **std_args(c))
    c.call = "MoveBodySoil %d %d %d %s %d %d %s %d" % (ind, i, j, c.f(mh), i2, j2, c.f(h), wp)
    u = conc.Units(c.cz)
    c.conv = lambda t: [int(t[0]), int(t[1]), int(t[2]), u(t[3]), t[4] == "1"]
    return c


def g_move_isoil(r):
    c = new_case(r, *((4, 7) if r.random() < 0.2 else (2, 4)))
    if r.random() < 0.5:
        w = solid_world(r, c)
    else:
        # mostly clear, few squeezed columns
        w = walls_world(r, c, True, r.choice([0.5, 0.9, 1.0]), soil=0.9)
        for _ in range(r.randint(1, 3)):
            i, j = focus(r, w)
            column(r, w, i, j, False, r.choice(["02", "20"]), 1.0)
        w.lst = parcels(r, w)
    plain_body(c)
    c.emit_world(w)
    c.args = std_args(c)
    c.call = "MoveIntersectingBodySoil"
    return c


def wide_world(r, c):
    """a wide body just above the ground, so that the soil inside it goes far and to many places"""
    w = walls_world(r, c, False, 0.0)
    base = r.randint(-3, 3)
    ci, cj, R = w.nx // 2, w.ny // 2, r.randint(3, min(w.nx, w.ny) // 2 - 1)
    gaps = r.choice([[0, 0, 0, 1], [0, 1], [1, 1, 2], [0, 0, 0, 0, 0, 3]])
    for i in range(w.nx):
        for j in range(w.ny):
            w.T[i][j] = base + r.choice([0, 0, 0, 1])
            if 1 <= i < w.nx - 1 and 1 <= j < w.ny - 1 and max(abs(i - ci), abs(j - cj)) <= R:
                l = r.choice([0, 0, 2])
                a = w.T[i][j] + r.choice(gaps)
                if r.random() < 0.05:
                    a -= r.randint(1, 3)
                put_wall(w, l, i, j, a, a + r.randint(1, 3))
                if r.random() < 0.2:
                    b = w.B[l + 1][i][j] + r.randint(1, 2)
                    put_wall(w, 2 - l, i, j, b, b + 1)
    i, j = ci + r.randint(-1, 1), cj + r.randint(-1, 1)
    for l in range(4):
        w.B[l][i][j] = 0
    a = w.T[i][j] - r.randint(3, 12)
    put_wall(w, r.choice([0, 2]), i, j, a, a + r.randint(1, 14))
    w.areas["body"] = box(w, r, 1)
    return w


def g_move_ibody(r):
    if r.random() < 0.35:
        c = new_case(r, 5, 8)
        w = wide_world(r, c)
    else:
        c = new_case(r, 2, 4)
        w = solid_world(r, c)
    plain_body(c)
    c.emit_world(w)
    c.args = std_args(c)
    c.call = "MoveIntersectingBody"
    return c


def g_move_cells(r):
    c = g_move_isoil(r)
    w = c.old
    # the area must hold all walls
    c.lines = [l for l in c.lines if not l.startswith("area body")]
    w.areas["body"] = box(w, r, 1)
    a = w.areas["body"]
    c.add("area body %d %d %d %d" % (a[0][0], a[0][1], a[1][0], a[1][1]))
    c.call = "MoveIntersectingCells"
    return c


# ---- soil carried by the body -----------------------------------------------------------------------------------------

def g_update_body_soil(r):
    c = new_case(r, 2, 4)
    w = World(2 * c.hx + 1, 2 * c.hy + 1)
    terrain(r, w)
    d = r.choice([0.0, 0.1, 0.3, 0.6, 1.0])
    for i in range(1, w.nx - 1):
        for j in range(1, w.ny - 1):
            if r.random() < d:
                column(r, w, i, j, r.random() < 0.5, soil=0.0)
                if r.random() < 0.15:
                    for l in (0, 2):
                        if w.B[l][i][j] or w.B[l + 1][i][j]:
                            s = r.randint(-c.hz, c.hz - 1) - w.B[l][i][j]
                            th = min(w.B[l + 1][i][j] - w.B[l][i][j], c.hz - (w.B[l][i][j] + s))
                            w.B[l][i][j] += s
                            w.B[l + 1][i][j] = w.B[l][i][j] + th
                    if not wf.p_walls(w, i, j):
                        for l in range(4):
                            w.B[l][i][j] = 0
                for l in (0, 2):
                    if w.B[l][i][j] == 0 and w.B[l + 1][i][j] == 0:
                        w.B[l][i][j] = w.B[l + 1][i][j] = 0
    q0, q1 = quat(r), quat(r)
    if r.random() < 0.5:
        q1 = q0
    p0 = [f32(r.uniform(-1, 1)) for _ in range(3)]
    p1 = [f32(x + r.uniform(-1.5, 1.5)) for x in p0]
    # the soil columns before: anywhere in the old cells (the walls have moved since), parcels add up
    n = r.randint(0, 6)
    rr = float(c.ratio)
    for _ in range(n):
        # aimed at a cell after the move
        ti, tj = r.randint(1, w.nx - 2), r.randint(1, w.ny - 2)
        lv = r.choice(near_levels(w, ti, tj)[:5]) + r.choice([-0.9, -0.5, 0.0, 0.3, 0.9, 1.2, 1.7, -1.4, 4.0])
        lv = max(-c.hz, min(c.hz, lv))
        tgt = [(ti - c.hx + r.uniform(-0.45, 0.45)) * rr, (tj - c.hy + r.uniform(-0.45, 0.45)) * rr, lv]
        v = [x - y for x, y in zip(tgt, p1)]
        qn = sum(x * x for x in q1)
        back = [float(x) for x in c_utils.rotate([Fraction(q1[0])] + [Fraction(-x) for x in q1[1:]], [Fraction(x) for x in v])]
        i, j, l = r.randint(1, w.nx - 2), r.randint(1, w.ny - 2), r.choice([0, 2])
        h = r.choice([0, 1, 1, 2, 3])
        w.lst.append(K.Entry(l, i, j, *[Fraction(f32(x)) for x in back], h))
    for e in w.lst:
        l, i, j = e.ind, e.ii, e.jj
        if not (w.S[l][i][j] or w.S[l + 1][i][j]):
            b = w.T[i][j] + r.choice([1, 2, -1])
            w.S[l][i][j] = w.S[l + 1][i][j] = b if b != 0 else 1
    for e in w.lst:
        w.S[e.ind + 1][e.ii][e.jj] += e.h
    for i in range(w.nx):
        for j in range(w.ny):
            for l in (0, 2):
                if w.S[l][i][j] and w.S[l][i][j] == 0 == w.S[l + 1][i][j]:
                    raise Retry()
    whole_areas(r, w)
    small_body(r, c, p0, q0, False)
    c.emit_world(w)
    c.args = dict(pos=[Fraction(x) for x in p1], ori=[Fraction(x) for x in q1], **std_args(c))
    c.call = "UpdateBodySoil %s %s" % (" ".join(c.f(x) for x in p1), " ".join(repr(float(x)) for x in q1))
    return c


# ---- walls ------------------------------------------------------------------------------------------------------------

def g_include(r):
    c = new_case(r, 1, 2)
    w = World(2 * c.hx + 1, 2 * c.hy + 1)
    for i in range(1, w.nx - 1):
        for j in range(1, w.ny - 1):
            column(r, w, i, j, True, soil=0)
    i, j = focus(r, w)
    # spans close together so that every way of touching occurs
    pts = sorted(r.sample(range(-6, 7), 4))
    cfg = r.choice(["none", "0", "2", "02", "20", "02", "20"])
    for l in range(4):
        w.B[l][i][j] = 0
    if cfg != "none":
        put_wall(w, int(cfg[0]), i, j, pts[0], pts[1])
        if len(cfg) > 1:
            if pts[2] == pts[1]:
                raise Retry()
            put_wall(w, int(cfg[1]), i, j, pts[2], pts[3])
    lo = r.randint(-8, 8)
    hi = lo + r.choice([1, 1, 2, 3, 5, 9, 14])
    whole_areas(r, w)
    plain_body(c)
    c.emit_world(w)
    c.args = dict(ii=i, jj=j, min_h=lo, max_h=hi, **std_args(c))
    c.call = "IncludeNewBodyPos %d %d %s %s" % (i, j, c.f(lo), c.f(hi))
    return c


def g_update_body(r):
    c = new_case(r, 1, 3)
    w = World(2 * c.hx + 1, 2 * c.hy + 1)
    for i in range(1, w.nx - 1):
        for j in range(1, w.ny - 1):
            if r.random() < 0.3:
                column(r, w, i, j, True, soil=0)
    l = []
    for _ in range(r.randint(1, 12)):
        i, j = focus(r, w)
        if l and r.random() < 0.5:
            i, j = l[-1][0], l[-1][1]
        l.append((i, j, c.hz + r.randint(-6, 6)))
        if r.random() < 0.3:
            l.append((i, j, l[-1][2] + 1))
    l.sort()
    whole_areas(r, w)
    plain_body(c)
    c.emit_world(w)
    c.args = dict(area_pos=l, **std_args(c))
    c.call = "UpdateBody %d %s" % (len(l), " ".join("%d %d %d" % x for x in l))
    return c


def pt(r, c, m=1.0):
    k = float(c.ratio)
    z = c.hz * 0.7
    p = [r.uniform(-(c.hx - 1.6) * k, (c.hx - 1.6) * k) * m, r.uniform(-(c.hy - 1.6) * k, (c.hy - 1.6) * k) * m, r.uniform(-z, z) * m]
    return [f32(x) for x in p]


def scaled(c, p):
    """what the program sees, back in cell heights, exactly"""
    return [Fraction(f32(float(x) * c.cz)) / Fraction(c.cz) for x in p]


def lines_of(c):
    def line(a, b):
        txt = "\n".join(c.lines[:2]) + "\ncall CalcLinePos %s %s" % (" ".join(c.f(x) for x in a), " ".join(c.f(x) for x in b))
        rows = c.drv.run(txt)
        for t in rows:
            if t and t[0] == "ret":
                return [tuple(x) for x in tuples(t[1:])]
        return None
    return line


def blank(c):
    w = World(2 * c.hx + 1, 2 * c.hy + 1)
    whole_areas(None, w)
    return w


def g_line(r):
    c = new_case(r, 3, 6)
    a, b = pt(r, c), pt(r, c)
    m = r.randint(0, 4)
    if m == 0:
        k = r.randint(0, 2)
        b[k] = a[k]
    if m == 1:
        k = r.randint(0, 2)
        b = list(a)
        b[k] = pt(r, c)[k]
    a, b = scaled(c, a), scaled(c, b)
    plain_body(c)
    c.emit_world(blank(c))
    c.args = dict(a=a, b=b, **std_args(c))
    c.call = "CalcLinePos %s %s" % (" ".join(c.f(x) for x in a), " ".join(c.f(x) for x in b))
    c.conv = lambda t: [tuple(x) for x in tuples(t)]
    return c


def g_rect(r):
    c = new_case(r, 3, 6)
    for _ in range(100):
        a, u, v = pt(r, c, 0.5), pt(r, c, 0.7), pt(r, c, 0.7)
        m = r.randint(0, 5)
        if m == 0:
            u[1] = v[0] = 0.0
        if m == 1:
            u[2] = v[2] = 0.0
        if m == 2:
            u[0] = u[1] = 0.0
        b = [x + y for x, y in zip(a, u)]
        d = [x + y for x, y in zip(a, v)]
        e = [x + y for x, y in zip(b, v)]
        if all(abs(p[0]) < (c.hx - 1.6) * c.ratio and abs(p[1]) < (c.hy - 1.6) * c.ratio and abs(p[2]) < c.hz - 2 for p in (b, d, e)):
            break
    else:
        raise Retry()
    ps = [scaled(c, p) for p in (a, b, e, d)]
    plain_body(c)
    c.emit_world(blank(c))
    c.args = dict(a=ps[0], b=ps[1], c=ps[2], d=ps[3], **std_args(c))
    c.line = lines_of(c)
    c.call = "CalcRectanglePos " + " ".join(c.f(x) for p in ps for x in p)
    c.conv = lambda t: [tuple(x) for x in tuples(t)]
    return c


def g_tri(r):
    c = new_case(r, 3, 6)
    ps = [pt(r, c) for _ in range(3)]
    if r.random() < 0.2:
        ps[1][1] = ps[2][1] = ps[0][1]
    ps = [scaled(c, p) for p in ps]
    plain_body(c)
    c.emit_world(blank(c))
    c.args = dict(a=ps[0], b=ps[1], c=ps[2], **std_args(c))
    c.line = lines_of(c)
    c.call = "CalcTrianglePos " + " ".join(c.f(x) for p in ps for x in p)
    c.conv = lambda t: [tuple(x) for x in tuples(t)]
    return c


def nums(t):
    """lists of numbers one after the other"""
    out, p = [], 0
    while p < len(t):
        n = int(t[p])
        out.append([float(x) for x in t[p + 1:p + 1 + n]])
        p += 1 + n
    return out


def g_calc_body(blade):
    def gen(r):
        c = new_case(r, 5, 8)
        m = 0.35
        p = [x for x in pt(r, c, m)]
        if r.random() < 0.35:
            # close to the border of the grid
            k = r.randint(0, 1)
            p[k] = f32(r.choice([-1, 1]) * ((c.hx, c.hy)[k] - 5.2) * float(c.ratio))
        q = quat(r)
        small_body(r, c, [0, 0, 0], quat(r), blade)
        params(r, c)
        w = World(2 * c.hx + 1, 2 * c.hy + 1)
        if r.random() < 0.7:
            for i in range(1, w.nx - 1):
                for j in range(1, w.ny - 1):
                    if r.random() < 0.2:
                        column(r, w, i, j, True, soil=0)
        terrain(r, w)
        whole_areas(r, w)
        w.areas["body"] = box(w, r, 1)
        c.emit_world(w)
        g = [Fraction(f32(x)) for x in q]
        P = scaled(c, p)
        c.args = dict(pos=P, ori=g, **std_args(c))
        c.args["blade" if blade else "bucket"] = c.body
        c.call = "CalcBodyPos %s %s" % (" ".join(c.f(x) for x in P), " ".join(repr(float(x)) for x in g))
        if not inside_ok(c):
            raise Retry()
        c.fresh_walls = lambda x: fresh_walls(c)
        c.faces_drawn = lambda x: faces_drawn(c, x)
        return c
    return gen


def inside_ok(c, margin=2.2):
    """the body stays away from the border"""
    cx = K.Ctx(a=dict(c.args))
    cx.a["body"] = c.body
    ex = 1.0 if c.blade else 0.0
    for p in c_utils.six(cx, c.args["ori"], c.args["pos"]):
        if abs(float(p[0]) / float(c.ratio)) + ex > c.hx - margin or abs(float(p[1]) / float(c.ratio)) + ex > c.hy - margin:
            return False
        if abs(float(p[2])) + ex * float(c.ratio) > c.hz - 1.5:
            return False
    return True


def fresh_walls(c):
    keep = [l for l in c.lines if l.split()[0] not in ("b", "area")]
    txt = "\n".join(keep) + "\ndump\ncall " + c.call + "\ndump"
    res = conc.parse(c.drv.run(txt), c.cz)
    return res.worlds[1].B


def faces_drawn(c, cx):
    import numpy as np
    base = c.lines
    pq = c.call.split(" ", 1)[1]
    rows = c.drv.run("\n".join(base) + "\ncall CalcBodyCornerPos " + pq)
    pts = None
    for t in rows:
        if t and t[0] == "ret":
            pts = nums(t[1:])
    F = np.float32
    J, j2, B, b2, Tt, t2 = [np.array(p, dtype=F) for p in pts]
    tol = F(1e-5)

    def nudge(s):
        jr, jl, br, bl, tr, tl = s
        out = []
        jr = jr + tol * ((jl - jr) + (br - jr) + (tr - jr))
        jl = jl + tol * ((jr - jl) + (bl - jl) + (tl - jl))
        br = br + tol * ((bl - br) + (jr - br) + (tr - br))
        bl = bl + tol * ((br - bl) + (jl - bl) + (tl - bl))
        tr = tr + tol * ((tl - tr) + (jr - tr) + (br - tr))
        tl = tl + tol * ((tr - tl) + (jl - tl) + (bl - tl))
        return jr, jl, br, bl, tr, tl
    fr = (J, j2, B, b2, Tt, t2)
    if not c.blade:
        jr, jl, br, bl, tr, tl = nudge(fr)
        faces = [(br, bl, tl, tr), (br, bl, jl, jr), (jr, br, tr), (jl, bl, tl)]
    else:
        n = np.cross((j2 - J).astype(float), (b2 - J).astype(float))
        n = n / math.sqrt(float((n * n).sum()))
        cxy = float(c.cxy)
        bk = tuple((p + cxy * n).astype(F) for p in fr)
        f, b = nudge(fr), nudge(bk)
        faces = []
        for jr, jl, br, bl, tr, tl in (f, b):
            faces += [(br, bl, jl, jr), (tr, tl, jl, jr)]
    spans = {}
    for fc in faces:
        nm = "CalcRectanglePos" if len(fc) == 4 else "CalcTrianglePos"
        rows = c.drv.run("\n".join(base[:2]) + "\ncall %s %s" % (nm, " ".join("%.9g" % float(x) for p in fc for x in p)))
        cells = None
        for t in rows:
            if t and t[0] == "ret":
                cells = tuples(t[1:])
        per = {}
        for i, j, k in cells:
            z = k + 1 - c.hz
            a, b = per.get((i, j), (z - 1, z))
            per[(i, j)] = (min(a, z - 1), max(b, z))
        for k, v in per.items():
            spans.setdefault(k, []).append(v)
    w = cx.new
    for i in range(w.nx):
        for j in range(w.ny):
            ws = [(w.B[l][i][j], w.B[l + 1][i][j]) for l in (0, 2) if wf.present(w, l, i, j)]
            sp = spans.get((i, j), [])
            if not sp:
                if ws:
                    return False
                continue
            if not ws:
                return False
            if min(a for a, b in ws) != min(a for a, b in sp) or max(b for a, b in ws) != max(b for a, b in sp):
                return False
            for a, b in sp:
                if not any(x <= a and b <= y for x, y in ws):
                    return False
            # the walls are no larger than the spans ask for
            mer = []
            for a, b in sorted(sp):
                if mer and a <= mer[-1][1]:
                    mer[-1][1] = max(mer[-1][1], b)
                else:
                    mer.append([a, b])
            if len(mer) <= 2 and len(sp) <= 2 and sum(b - a for a, b in mer) != sum(b - a for a, b in ws):
                return False
    return True


# ---- geometry ---------------------------------------------------------------------------------------------------------

def geo(c, /, **a):
    c.emit_world(blank(c))
    c.args = dict(**std_args(c))
    c.args.update(a)


def fl(v):
    return " ".join(repr(float(x)) for x in v)


def F(v):
    return [Fraction(f32(x)) for x in v]


def unit_case(r):
    c = Case(1.0, 1.0, 3, 3, 5)
    c.ratio, c.rng, c.moved_far = 1, r, 0
    return c


def vec(r, s=3.0):
    return [f32(r.uniform(-s, s)) if r.random() < 0.9 else float(r.randint(-2, 2)) for _ in range(3)]


def conv_vec(t):
    return [Fraction(float(x)) for x in t[1:]]


def g_mulq(r):
    c = unit_case(r)
    plain_body(c)
    a, b = [[f32(r.uniform(-2, 2)) for _ in range(4)] for _ in range(2)]
    geo(c, q1=F(a), q2=F(b))
    c.call = "MultiplyQuaternion %s %s" % (fl(a), fl(b))
    c.conv = conv_vec
    return c


def g_rot(r):
    c = unit_case(r)
    plain_body(c)
    q, p = quat(r), vec(r)
    geo(c, ori=F(q), pos=F(p))
    c.call = "CalcRotationQuaternion %s %s" % (fl(q), fl(p))
    c.conv = conv_vec
    return c


def g_normal(r):
    c = unit_case(r)
    plain_body(c)
    while True:
        a, b, d = vec(r), vec(r), vec(r)
        n = c_utils.cross(c_utils.vsub(F(b), F(a)), c_utils.vsub(F(d), F(a)))
        if float(c_utils.dot(n, n)) > 0.3:
            break
    geo(c, a=F(a), b=F(b), c=F(d))
    c.call = "CalcNormal %s %s %s" % (fl(a), fl(b), fl(d))
    c.conv = conv_vec
    return c


def g_frame(r):
    c = unit_case(r)
    q, p = quat(r), vec(r)
    c.set_body(r.random() < 0.5, [0, 0, 0], [0, 0, 0], [0, 0, -1], [1, 0, -1], 1, p, q)
    c.body.pos_, c.body.ori_ = F(p), F(q)
    i, j, z = r.randint(0, 6), r.randint(0, 6), f32(r.uniform(-4, 4))
    geo(c, ii=i, jj=j, z=Fraction(z))
    c.call = "CalcBodyFramePos %d %d %r" % (i, j, z)
    c.conv = conv_vec
    return c


def any_body(r, c, p, q):
    while True:
        o, j, b, t = vec(r), vec(r), vec(r), vec(r)
        if r.random() < 0.3:
            o = [0.0, 0.0, 0.0]
        n = c_utils.cross(c_utils.vsub(F(b), F(j)), c_utils.vsub(F(t), F(j)))
        if float(c_utils.dot(n, n)) > 0.3:
            break
    w = f32(r.uniform(0.2, 3))
    c.set_body(r.random() < 0.5, o, j, b, t, w, p, q)
    c.body.pos_, c.body.ori_ = F(p), F(q)


def conv_six(t):
    return [[Fraction(x) for x in v] for v in nums(t)]


def g_corner(r):
    c = unit_case(r)
    any_body(r, c, vec(r), quat(r))
    q, p = quat(r), vec(r)
    geo(c, ori=F(q), pos=F(p))
    c.call = "CalcBodyCornerPos %s %s" % (fl(p), fl(q))
    c.conv = conv_six
    return c


def g_a2q(r):
    c = unit_case(r)
    plain_body(c)
    a = [f32(r.uniform(-math.pi, math.pi)) if r.random() < 0.8 else f32(r.choice([0, math.pi / 2, -math.pi / 2, math.pi])) for _ in range(3)]
    geo(c, ori=F(a))
    c.call = "AngleToQuat " + fl(a)
    c.conv = conv_vec
    return c


def g_moved(r):
    cz = r.choice([1.0, 0.5, 2.0, 0.25])
    q = r.choice([1, 1, 2, 3])
    c = Case(cz, cz * q, 3, 3, 5)
    c.ratio, c.rng, c.moved_far = q, r, 0
    p0, q0 = vec(r), quat(r)
    any_body(r, c, p0, q0)
    m = r.randint(0, 3)
    p1, q1 = list(p0), list(q0)
    step = r.choice([0.0, 0.1, 0.3, 0.45, 0.48, 0.52, 0.6, 0.9, 1.5])
    if m in (0, 2, 3):
        d = [r.gauss(0, 1) for _ in range(3)]
        if r.random() < 0.4:
            k = r.randint(0, 2)
            d = [0, 0, 0]
            d[k] = r.choice([-1, 1])
        n = math.sqrt(sum(x * x for x in d))
        p1 = [f32(x + step * y / n) for x, y in zip(p0, d)]
    if m in (1, 2):
        a = r.choice([0.0, 0.02, 0.05, 0.1, 0.15, 0.2, 0.3])
        ax = [r.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in ax))
        dq = [math.cos(a / 2)] + [math.sin(a / 2) * x / n for x in ax]
        q1 = [f32(float(x)) for x in c_utils.qmul([Fraction(x) for x in q0], [Fraction(x) for x in dq])]
    geo(c, ori=F(q1), pos=F(p1))
    c.call = "CheckBodyMovement %s %s" % (" ".join(c.f(x) for x in p1), fl(q1))
    c.conv = lambda t: t[0] == "1"
    return c


# ---- checks -----------------------------------------------------------------------------------------------------------

def g_check_volume(r):
    c = new_case(r, 1, 3)
    if float(c.cz) not in (1.0, 0.5, 0.25, 0.125, 2.0, 4.0):
        raise Retry()
    w = walls_world(r, c, True, r.choice([0.0, 0.3, 1.0]))
    v = w.total()
    m = r.randint(0, 5)
    if m == 1:
        v += r.choice([-3, -1, 1, 2])
    if m == 2 and w.lst:
        e = r.choice(w.lst)
        e.h += r.choice([1, 2]) if e.h == 0 else r.choice([-1, 1])
        if e.h < 0:
            e.h = 0
    if m == 3 and w.lst:
        w.lst.pop(r.randrange(len(w.lst)))
    if m == 4 and len(w.lst) > 1:
        # right total, wrong cells
        a, b = r.sample(w.lst, 2)
        if a.h > 0:
            a.h -= 1
            b.h += 1
    if m == 5:
        i, j = focus(r, w)
        w.T[i][j] += 1
        k, l = focus(r, w)
        w.T[k][l] -= 1
    plain_body(c)
    c.emit_world(w)
    c.args = dict(init_volume=int(v), **std_args(c))
    c.call = "CheckVolume %d" % v
    c.conv = lambda t: t[0] == "1"
    return c


def g_check_soil(r):
    c = new_case(r, 1, 2)
    w = walls_world(r, c, r.random() < 0.8, 1.0)
    if r.random() < 0.5:
        w.areas["body"] = some_area(r, w)
    a = w.areas["body"]
    if r.random() < 0.7 and a[0][1] > a[0][0] and a[1][1] > a[1][0]:
        i, j = r.randint(a[0][0], a[0][1] - 1), r.randint(a[1][0], a[1][1] - 1)
        if r.random() < 0.2:
            i, j = r.randint(0, w.nx - 1), r.randint(0, w.ny - 1)
        m = r.randint(0, 5)
        l = r.choice([0, 2])
        if m == 0:
            w.T[i][j] += r.choice([1, 2, 4])
        elif m == 1:
            w.B[l][i][j], w.B[l + 1][i][j] = w.B[l + 1][i][j], w.B[l][i][j]
        elif m == 2:
            w.S[l][i][j], w.S[l + 1][i][j] = w.S[l + 1][i][j], w.S[l][i][j]
        elif m == 3:
            w.S[l + r.randint(0, 1)][i][j] += r.choice([-1, 1, 2])
        elif m == 4:
            w.B[l + r.randint(0, 1)][i][j] += r.choice([-1, 1, 2])
        else:
            w.B[l][i][j] = w.B[l + 1][i][j] = 0
    w.lst = []
    plain_body(c)
    c.emit_world(w)
    c.args = std_args(c)
    c.call = "CheckSoil"
    c.conv = lambda t: t[0] == "1"
    return c


# ---- whole steps ------------------------------------------------------------------------------------------------------

def g_init(r):
    cz = r.choice([1.0, 0.5, 0.1, 0.05, 0.25])
    q = r.choice([1, 1.5, 2, 2.5, 3, 10 / 3])
    c = Case(cz, cz * q, r.randint(1, 12), r.randint(1, 12), 10)
    c.ratio, c.rng, c.moved_far = q, r, 0
    c.add("seed %d" % r.randint(1, 10 ** 6))
    plain_body(c)
    w = World(2 * c.hx + 1, 2 * c.hy + 1)
    if r.random() < 0.3:
        w = walls_world(r, c, True, 0.3)
    whole_areas(r, w)
    c.emit_world(w)
    a = r.choice([0.0, 0.3, 1.0, 7.0, 50.0, 200.0, 1000.0, 5000.0])
    c.args = dict(amp_noise=Fraction(f32(a * cz)) / Fraction(cz), **std_args(c))
    c.call = "Init %r" % (a * cz)
    return c


CASES = {
    "CheckUnstableTerrainCell": g_check_terrain, "CheckUnstableBodyCell": g_check_body,
    "RelaxUnstableTerrainCell": g_relax_terrain_cell, "RelaxUnstableBodyCell": g_relax_body_cell,
    "LocateUnstableTerrainCell": g_locate, "RelaxTerrain": g_relax_terrain, "RelaxBodySoil": g_relax_body,
    "LocateIntersectingCells": g_locate_int, "MoveBodySoil": g_move_body_soil, "MoveIntersectingBodySoil": g_move_isoil,
    "MoveIntersectingBody": g_move_ibody, "MoveIntersectingCells": g_move_cells, "UpdateBodySoil": g_update_body_soil,
    "IncludeNewBodyPos": g_include, "UpdateBody": g_update_body, "CalcLinePos": g_line, "CalcRectanglePos": g_rect,
    "CalcTrianglePos": g_tri, "CalcBodyPos/Bucket": g_calc_body(False), "CalcBodyPos/Blade": g_calc_body(True),
    "MultiplyQuaternion": g_mulq, "CalcRotationQuaternion": g_rot, "CalcNormal": g_normal, "CalcBodyFramePos": g_frame,
    "CalcBodyCornerPos": g_corner, "AngleToQuat": g_a2q, "CheckBodyMovement": g_moved, "CheckVolume": g_check_volume,
    "CheckSoil": g_check_soil, "Init": g_init,
}
