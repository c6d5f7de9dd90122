"""Contracts for utils.cpp."""
import terms as T
from terms import land, lor, limp, lnot, eq, ne, lt, le, gt, ge, add, sub, mul, div, isint, tmin, tmax, ite, tabs, near, nearle
from contract import Contract, Clause, plain, cell, ent
from fractions import Fraction
import math
import wf
import values as V
import z3
from values import Num, CVec, fresh
from wf import present, bspresent, WALLS, SOIL, CLEAR, LEMMA, req, keep


def vec3(nm, n=3, dim=1):
    return CVec([Num(fresh("%s%d" % (nm, k), V.R), dim) for k in range(n)], ("num", "r"))


# ---- vectors ---------------------------------------------------------------------------------------------------------

def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = add(r, mul(x, y))
    return r


def vsub(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def vadd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def scale(k, a):
    return [mul(k, x) for x in a]


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def qmul(p, q):
    w = sub(mul(p[0], q[0]), dot(p[1:], q[1:]))
    c = cross(p[1:], q[1:])
    return [w] + [add(add(mul(p[0], q[1 + k]), mul(q[0], p[1 + k])), c[k]) for k in range(3)]


def conj(q):
    return [q[0]] + [T.neg(x) for x in q[1:]]


def unscaled(q, v):
    """conj(q) v q, which is the rotated vector times |q|^2"""
    return qmul(qmul(conj(q), [0] + list(v)), q)[1:]


def rotate(q, v):
    n = dot(q, q)
    return [div(x, n) for x in unscaled(q, v)]


def vnear(a, b, s=1):
    return land(*[near(x, y, s) for x, y in zip(a, b)])


NZ = plain("orientation is not zero", ("C11",), lambda c: gt(dot(c.a["ori"], c.a["ori"]), 0))

HASORI = plain("the body has an orientation", ("C11",), lambda c: gt(dot(c.a["body"].ori, c.a["body"].ori), 0))

mulq = Contract("MultiplyQuaternion", ["q1", "q2"], ret=lambda a: vec3("q", 4, 0), opts={"poly": True, "frame_tags": ("C11",)},
                kinds={"q1": ("cvec", 4, 0), "q2": ("cvec", 4, 0)},
                ensures=[plain("Hamilton product", ("C11",), lambda c: vnear(c.ret, qmul(c.a["q1"], c.a["q2"])))])

def rotated(q, v):
    """the rotated vector; outside the algebraic proofs an unknown function of the orientation and the vector"""
    if T.Mode.poly or all(T.isc(x) for x in list(q) + list(v)):
        return rotate(q, v)
    return [T.realf("rotated%d" % k, *(list(q) + list(v))) for k in range(3)]


def rot_ret(a):
    if T.Mode.poly:
        return vec3("rot")
    return CVec([Num(x, 1) for x in rotated(a["ori"], a["pos"])], ("num", "r"))


rot = Contract("CalcRotationQuaternion", ["ori", "pos"], ret=rot_ret, opts={"poly": True, "frame_tags": ("C11",)},
               requires=[NZ],
               ensures=[
                   plain("length kept", ("C11",), lambda c: not (T.Mode.poly or T.isc(c.ret[0])) or near(dot(c.ret, c.ret), dot(c.a["pos"], c.a["pos"]))),
                   plain("rotation by the orientation", ("C11",), lambda c: not (T.Mode.poly or T.isc(c.ret[0])) or vnear(
                       scale(dot(c.a["ori"], c.a["ori"]), c.ret), unscaled(c.a["ori"], c.a["pos"])))])

normal = Contract("CalcNormal", ["a", "b", "c"], ret=lambda a: vec3("normal", 3, 0), opts={"poly": True, "frame_tags": ("C11",)},
                  kinds={k: ("cvec", 3, 1) for k in "abc"},
                  requires=[plain("not on a line", ("C11",), lambda c: (lambda n: gt(dot(n, n), 0))(cross(vsub(c.a["b"], c.a["a"]), vsub(c.a["c"], c.a["a"]))))],
                  ensures=[
                      plain("unit length", ("C11",), lambda c: near(dot(c.ret, c.ret), 1)),
                      plain("normal to the face", ("C11",), lambda c: land(near(dot(c.ret, vsub(c.a["b"], c.a["a"])), 0, 10),
                                                                           near(dot(c.ret, vsub(c.a["c"], c.a["a"])), 0, 10))),
                      plain("cross product scaled to length one", ("C11",), lambda c: (lambda n: vnear(scale(T.realf("sqrt", dot(n, n)), c.ret), n, 10))(
                          cross(vsub(c.a["b"], c.a["a"]), vsub(c.a["c"], c.a["a"])))),
                      plain("orientation of the face", ("C11",), lambda c: gt(dot(c.ret, cross(vsub(c.a["b"], c.a["a"]), vsub(c.a["c"], c.a["a"]))), 0))])


def pick(vec, k):
    """element of a coordinate vector"""
    return vec[k] if isinstance(vec, list) else V.lower(vec.elem, k).t


def inside(c):
    g = c.a["grid"]
    return land(le(0, c.a["ii"]), le(c.a["ii"], mul(2, g.half_length_x)), le(0, c.a["jj"]), le(c.a["jj"], mul(2, g.half_length_y)))


frame_pos = Contract("CalcBodyFramePos", ["ii", "jj", "z", "grid", "body"], opts={"poly": True, "frame_tags": ("C11",)},
                     ret=lambda a: vec3("frame"),
                     requires=[HASORI,
                               plain("cell of the grid", ("C08",), inside)],
                     ensures=[plain("there and back", ("C11",), lambda c: vnear(
                         vadd(rotate(c.a["body"].ori, c.ret), c.a["body"].pos),
                         [pick(c.a["grid"].vect_x, c.a["ii"]), pick(c.a["grid"].vect_y, c.a["jj"]), c.a["z"]], 10))])


def corners(c, q, p):
    b = c.a["body"]
    j, bb, t = rotate(q, b.j_pos_init), rotate(q, b.b_pos_init), rotate(q, b.t_pos_init)
    return [vadd(x, p) for x in (j, bb, t)]


def corner_clause(c):
    b = c.a["body"]
    j, bb, t = corners(c, c.a["ori"], c.a["pos"])
    n = cross(vsub(bb, j), vsub(t, j))
    nn = dot(n, n)
    out = []
    for k, x in enumerate((j, bb, t)):
        r, l = c.ret[2 * k], c.ret[2 * k + 1]
        mid = scale(Fraction(1, 2), vadd(r, l))
        out.append(vnear(mid, x, 10))
        d = vsub(r, x)
        # along the normal, half the width
        out.append(near(dot(d, d), mul(Fraction(1, 4), mul(b.width, b.width))))
        out.append(gt(dot(d, n), 0))
        cr = cross(d, n)
        out.append(land(*[near(y, 0, T.tabs(nn) if T.isc(nn) else 1) for y in cr]))
    return land(*out)


def init_not_on_line(c):
    b = c.a["body"]
    n = cross(vsub(b.b_pos_init, b.j_pos_init), vsub(b.t_pos_init, b.j_pos_init))
    return gt(dot(n, n), 0)


def corner_fn(q, p, b):
    """the six corners of a body in a pose, as a function of the pose (what CalcBodyCornerPos returns)"""
    xs = [T.z(T.toreal(x)) for x in list(p) + list(q) + b.j_pos_init + b.b_pos_init + b.t_pos_init + [b.width]]
    return [[z3.Function("corner_%d_%d" % (k, m), *([z3.RealSort()] * (len(xs) + 1)))(*xs) for m in range(3)] for k in range(6)]


corner = Contract("CalcBodyCornerPos", ["pos", "ori", "body"],
                  ret=lambda a: CVec([CVec([Num(x, 1) for x in v], ("num", "r")) for v in corner_fn(a["ori"], a["pos"], a["body"])]), opts={"poly": True, "frame_tags": ("C11",)},
                  requires=[NZ, plain("not on a line", ("C11",), init_not_on_line), plain("width", ("C14",), lambda c: gt(c.a["body"].width, 0))],
                  ensures=[plain("corners", ("C11",), corner_clause)])

a2q = Contract("AngleToQuat", ["ori"], ret=lambda a: vec3("quat", 4, 0), opts={"poly": True, "frame_tags": ("C11",)}, kinds={"ori": ("cvec", 3, 0)},
               ensures=[plain("unit quaternion", ("C11",), lambda c: near(dot(c.ret, c.ret), 1)),
                        plain("non-negative scalar part", ("C11",), lambda c: ge(c.ret[0], 0)),
                        plain("the rotation of the angles", ("C11",), lambda c: angles_ok(c))])


def angles_ok(c):
    """yaw, pitch, roll about the fixed axes z, y, x: the product of the three single rotations, up to the sign"""
    s = [T.realf("sin", div(x, 2)) for x in c.a["ori"]]
    k = [T.realf("cos", div(x, 2)) for x in c.a["ori"]]
    q = qmul(qmul([k[0], 0, 0, s[0]], [k[1], 0, s[1], 0]), [k[2], s[2], 0, 0])
    return lor(vnear(q, c.ret), vnear([T.neg(x) for x in q], c.ret))


# ---- the decision to update --------------------------------------------------------------------------------------

def six(c, q, p):
    """the six corners of the body for a pose (runs only)"""
    b = c.a["body"]
    j, bb, t = corners(c, q, p)
    n = cross(vsub(bb, j), vsub(t, j))
    ln = Fraction(math.sqrt(float(dot(n, n))))
    out = []
    for x in (j, bb, t):
        for s in (1, -1):
            out.append([x[k] + s * b.width / 2 * n[k] / ln for k in range(3)])
    return out


def max_move(c, old):
    new = six(c, c.a["ori"], c.a["pos"])
    prev = six(c, old[1], old[0])
    return max(math.sqrt(float(dot(vsub(x, y), vsub(x, y)))) for x, y in zip(new, prev))


def decision(c, ret, old):
    if not any(old[1]):
        return True                                # no pose accepted yet
    d = max_move(c, old)
    lim = float(min(c.a["grid"].cell_size_xy, 1)) / 2
    if abs(d - lim) < 2e-4 * max(1, lim) + 1e-5 * 50:
        return True
    return ret == (d >= lim)


def moved_enough(c):
    b, g = c.a["body"], c.a["grid"]
    new, old = corner_fn(c.a["ori"], c.a["pos"], b), corner_fn(b.ori, b.pos, b)
    far = [ge(T.realf("sqrt", dot(vsub(x, y), vsub(x, y))), div(tmin(g.cell_size_xy, 1), 2)) for x, y in zip(new, old)]
    return eq(c.ret, lor(*far))


moved = Contract("CheckBodyMovement", ["pos", "ori", "grid", "body"], opts={"poly": True, "frame_tags": ("C12",)},
                 requires=[NZ, plain("not on a line", ("C11",), init_not_on_line), plain("width", ("C14",), lambda c: gt(c.a["body"].width, 0)),
                           plain("a pose has been accepted before", ("C12",), lambda c: gt(dot(c.a["body"].ori, c.a["body"].ori), 0), concrete=False)],
                 ensures=[plain("decides on the largest movement", ("C12",), lambda c: decision(c, c.ret, (c.a["body"].pos, c.a["body"].ori)), symbolic=False),
                          plain("true exactly when a corner moved by half a cell", ("C12",), moved_enough, concrete=False)])


# ---- consistency checks ----------------------------------------------------------------------------------------------

def volume_ok(c):
    w = c.old
    led = land(*[T.near(w.L(l, i, j), sub(w.bs(l + 1, i, j), w.bs(l, i, j))) for l in (0, 2) for i in range(w.nx) for j in range(w.ny)])
    return led and sum(T.cround(x) for r in w.T for x in r) + sum(
        T.cround(w.S[l + 1][i][j] - w.S[l][i][j]) for l in (0, 2) for i in range(w.nx) for j in range(w.ny)) == c.a["init_volume"]


def ledger_off(c, l, i, j):
    """difference between the column on a wall and its parcels"""
    return tabs(sub(c.old.L(l, i, j), sub(c.old.bs(l + 1, i, j), c.old.bs(l, i, j))))


def balanced(c, i, j):
    return land(*[le(ledger_off(c, l, i, j), c.a["tol"]) for l in (0, 2)])


check_volume = Contract(
    "CheckVolume", ["sim_out", "init_volume", "grid", "tol"], opts={"grid": True, "frame_tags": ("C13",), "inv_preds": [], "psum": True},
    requires=req(SOIL[:1]) + [e for e in req(SOIL) if e.name in ("parcel-cell", "parcel-on-grid")],
    loop_inv=[
        Clause("what the parcels so far leave of the columns", ("C13",), "grids4", lambda c, i, j: land(*[land(
            eq(c.grid4(l, i, j), c.old.bs(l, i, j)),
            eq(c.grid4(l + 1, i, j), add(sub(c.old.bs(l + 1, i, j), c.old.L(l, i, j)), c.S(l, i, j) if c.S else 0))) for l in (0, 2)])),
        cell("cells so far balance", ("C13",), lambda c, i, j: limp(c.visited(i, j), balanced(c, i, j)))],
    ensures=[
        plain("accepts exactly the right states", ("C13",), lambda c: eq(c.ret, volume_ok(c)), symbolic=False),
        cell("accepts only columns that equal their parcels", ("C13",), lambda c, i, j: limp(c.ret, balanced(c, i, j)), concrete=False),
        plain("accepts only the given amount of soil", ("C13",), lambda c: limp(c.ret, eq(c.old.total(), c.a["init_volume"])), concrete=False),
        plain("accepts every balanced state with that amount", ("C13",), lambda c: lor(c.ret, ne(c.old.total(), c.a["init_volume"])), concrete=False,
              hyp=[("cell", balanced)])])


def layout(w, i, j):
    """the documented rules for one cell"""
    p = {l: present(w, l, i, j) for l in (0, 2)}
    s = {l: bspresent(w, l, i, j) for l in (0, 2)}
    t = w.terrain(i, j)
    out = []
    for l in (0, 2):
        u = 2 - l
        out += [limp(p[l], land(le(t, w.body(l, i, j)), lt(w.body(l, i, j), w.body(l + 1, i, j)))),
                limp(s[l], land(p[l], le(w.bs(l, i, j), w.bs(l + 1, i, j)), eq(w.bs(l, i, j), w.body(l + 1, i, j)))),
                limp(land(p[l], s[u]), lor(le(w.body(l + 1, i, j), w.bs(u, i, j)), le(w.bs(u + 1, i, j), w.body(l, i, j))))]
    out.append(limp(land(p[0], p[2]), lor(lt(w.body(1, i, j), w.body(2, i, j)), lt(w.body(3, i, j), w.body(0, i, j)))))
    return land(*out)


def in_body_area(w, i, j):
    return land(le(w.area("body", 0, 0), i), lt(i, w.area("body", 0, 1)), le(w.area("body", 1, 0), j), lt(j, w.area("body", 1, 1)))


check_soil = Contract(
    "CheckSoil", ["sim_out", "tol"], opts={"grid": True, "frame_tags": ("C13",), "inv_preds": []},
    requires=req(SOIL[:1] + WALLS[2:]) + [plain("area inside", ("C08",), lambda c: land(
        ge(c.old.area("body", 0, 0), 0), le(c.old.area("body", 0, 1), c.old.nx), ge(c.old.area("body", 1, 0), 0), le(c.old.area("body", 1, 1), c.old.ny)))],
    loop_inv=[cell("cells so far follow the rules", ("C13",), lambda c, i, j: limp(
        land(c.visited(i, j), in_body_area(c.old, i, j)), layout(c.old, i, j)))],
    ensures=[
        cell("accepts only states that follow the rules", ("C13",), lambda c, i, j: limp(land(c.ret, in_body_area(c.old, i, j)), layout(c.old, i, j))),
        plain("refuses only states that break a rule", ("C13",), lambda c: c.ret or not all(
            layout(c.old, i, j) is True for i in range(c.old.nx) for j in range(c.old.ny) if in_body_area(c.old, i, j) is True), symbolic=False),
        plain("accepts every state that follows the rules", ("C13",), lambda c: c.ret, concrete=False,
              hyp=[("cell", lambda c, i, j: limp(in_body_area(c.old, i, j), layout(c.old, i, j)))])])

CONTRACTS = [mulq, rot, normal, frame_pos, corner, a2q, moved, check_volume, check_soil]
