"""Symbolic values and functional update.

Vectors of symbolic length hold one z3 array per leaf ("lifted").  Ghost state lives in the value itself and is
maintained by every update, so no annotation of the code is needed:
  sum     of a vector<vector<num>>            : sum of all elements (count of true for bool)
  LT,L,C  of a vector<body_soil>              : total amount, amount per (layer, cell), number of parcels per cell
  where   of a vector<vector<int>>            : an index at which a given tuple was last put
"""
from fractions import Fraction
import itertools
import z3
import terms as T

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
_cnt = itertools.count()


class Unsupported(Exception):
    pass


def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_cnt)), sort)


def nested(leaf, depth):
    s = leaf
    for _ in range(depth):
        s = z3.ArraySort(I, s)
    return s


class Num:
    """numeric scalar: term + dimension (power of length; None = neutral, e.g. 0 or a pure count)"""
    __slots__ = ("t", "dim")

    def __init__(self, t, dim=None):
        self.t, self.dim = t, dim

    def __repr__(self):
        return "Num(%s)" % (self.t,)


class Bool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Bool(%s)" % (self.t,)


class StructV:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f


class CVec:
    __slots__ = ("e", "ety")

    def __init__(self, e, ety=None):
        self.e, self.ety = list(e), ety


class SVec:
    __slots__ = ("len", "elem", "ety", "g")

    def __init__(self, len, elem, ety, g=None):
        self.len, self.elem, self.ety, self.g = len, elem, ety, g or {}


class LNum:
    __slots__ = ("a", "dim", "sort")

    def __init__(self, a, sort, dim=None):
        self.a, self.sort, self.dim = a, sort, dim


class LStruct:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f


class LVec:
    """len: ('u', term) uniform or an array"""
    __slots__ = ("len", "elem", "ety")

    def __init__(self, len, elem, ety):
        self.len, self.elem, self.ety = len, elem, ety


class Ptr:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class Iter:
    __slots__ = ("lv", "idx")

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx


class StrDigits:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Opaque:
    __slots__ = ("what",)

    def __init__(self, what=""):
        self.what = what


class Closure:
    __slots__ = ("node", "env", "this")

    def __init__(self, node, env, this=None):
        self.node, self.env, self.this = node, env, this


class InitList:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals


# --- type descriptors -------------------------------------------------------------------------------------------
# ('num','i'|'r') ('bool',) ('struct',name) ('vec',ety) ('tuple',[..]) ('ptr',ty) ('arr',ety,n) ('other',txt)

FIELD_DIM = {("body_soil", "x_b"): 1, ("body_soil", "y_b"): 1, ("body_soil", "z_b"): 1, ("body_soil", "h_soil"): 1,
             ("SimOut", "terrain_"): 1, ("SimOut", "body_"): 1, ("SimOut", "body_soil_"): 1,
             ("Grid", "cell_size_xy_"): 1, ("Grid", "cell_size_z_"): 1, ("Grid", "cell_area_"): 2,
             ("Grid", "cell_volume_"): 3, ("Grid", "vect_x_"): 1, ("Grid", "vect_y_"): 1, ("Grid", "vect_z_"): 1,
             ("Body", "j_pos_init_"): 1, ("Body", "b_pos_init_"): 1, ("Body", "t_pos_init_"): 1,
             ("Body", "width_"): 1, ("Body", "pos_"): 1, ("Body", "ori_"): 0, ("SimParam", "repose_angle_"): 0}

INT_T = {"int", "unsigned int", "long", "unsigned long", "size_t", "std::size_t", "short", "unsigned short", "long long",
         "unsigned long long", "char", "unsigned char", "signed char", "int32_t", "int64_t", "uint32_t", "uint64_t",
         "size_type", "difference_type", "std::vector::size_type", "ptrdiff_t", "result_type"}
REAL_T = {"float", "double", "long double"}


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_tcache = {}


def parse_type(q, records=()):
    if q is None:
        return ("other", "?")
    k = q
    if k in _tcache:
        return _tcache[k]
    r = _parse(q, records)
    _tcache[k] = r
    return r


def _parse(q, records):
    q = q.strip()
    while True:
        o = q
        for p in ("const ", "volatile ", "class ", "struct ", "typename ", "soil_simulator::", "enum "):
            if q.startswith(p):
                q = q[len(p):]
        for p in (" const", "&&", "&", "*const"):
            if q.endswith(p) and p != "*const":
                q = q[:-len(p)].strip()
            elif q.endswith(p):
                q = q[:-5].strip()
        if q == o:
            break
    if q.endswith("*"):
        return ("ptr", parse_type(q[:-1], records))
    if q.endswith("]") and "[" in q:
        i = q.index("[")
        base, dims = q[:i].strip(), q[i:]
        ns = [x for x in dims.strip("[]").split("][")]
        ty = parse_type(base, records)
        for n in reversed(ns):
            ty = ("arr", ty, int(n) if n.isdigit() else None)
        return ty
    if q in ("bool", "std::_Bit_reference", "reference") or q.startswith("std::_Bit_reference"):
        return ("bool",)
    if q in INT_T or q.endswith("::size_type") or q.endswith("::difference_type") or q.endswith("::result_type"):
        return ("num", "i")
    if q in REAL_T:
        return ("num", "r")
    for pre in ("std::", "std::__1::", ""):
        for nm in ("vector<", "array<", "initializer_list<", "tuple<", "pair<", "basic_string<", "deque<", "list<"):
            if q.startswith(pre + nm) and q.endswith(">"):
                args = split_args(q[len(pre + nm):-1])
                if nm in ("vector<", "initializer_list<", "deque<", "list<"):
                    return ("vec", parse_type(args[0], records))
                if nm == "array<":
                    return ("arr", parse_type(args[0], records), int(args[1].rstrip("UL")))
                if nm in ("tuple<", "pair<"):
                    return ("tuple", tuple(parse_type(a, records) for a in args))
                if nm == "basic_string<":
                    return ("str",)
    if q in ("std::string", "string"):
        return ("str",)
    if q in ("body_soil", "Grid", "Body", "Bucket", "Blade", "SimParam", "SimOut") or q in records:
        return ("struct", q)
    if q == "void":
        return ("void",)
    return ("other", q)


# --- construction -----------------------------------------------------------------------------------------------

def sortof(ty):
    if ty[0] == "bool":
        return B
    return I if ty[1] == "i" else R


class Types:
    records = {}
    bases = {}

    @classmethod
    def fields(cls, name):
        out = []
        for b in cls.bases.get(name, []):
            out += cls.fields(b.replace("soil_simulator::", ""))
        for fn, qt, node in cls.records.get(name, []):
            owner = name
            out.append((fn, parse_type(qt, cls.records), FIELD_DIM.get((owner, fn))))
        return out


def lifted_fresh(ty, depth, name, dim=None, uni=None):
    if ty[0] in ("num", "bool"):
        return LNum(fresh(name, nested(I if dim == "grid" else sortof(ty), depth)), "b" if ty[0] == "bool" else ty[1], 1 if dim == "grid" else dim)
    if ty[0] == "struct":
        return LStruct(ty[1], {f: lifted_fresh(t, depth, name + "." + f, "grid" if Grid.on and f == "h_soil" else d) for f, t, d in Types.fields(ty[1])})
    if ty[0] == "vec":
        ln = ("u", uni[0]) if uni else fresh(name + ".len", nested(I, depth))
        return LVec(ln, lifted_fresh(ty[1], depth + 1, name, dim, uni[1:] if uni else None), ty[1])
    raise Unsupported("lifted type %r" % (ty,))


def default_ghosts(ety, name, empty=False):
    g = {}
    if ety[0] == "vec" and ety[1][0] in ("num", "bool"):
        s = I if ety[1][0] == "bool" or ety[1][1] == "i" else R
        g["sum"] = (Fraction(0) if s == R else 0) if empty else fresh(name + ".sum", s)
        if ety[1] == ("num", "i"):
            g.pop("sum")
            g["where"] = fresh(name + ".where", nested(I, 3))
    if ety == ("struct", "body_soil"):
        if empty:
            g["LT"] = Fraction(0)
            g["L"] = kconst(R, 3, 0 if Grid.on else Fraction(0))
            g["C"] = kconst(I, 3, 0)
        else:
            g["LT"] = fresh(name + ".LT", HS())
            g["L"] = fresh(name + ".L", nested(HS(), 3))
            g["C"] = fresh(name + ".C", nested(I, 3))
    return g


def HS():
    """sort of heights"""
    return I if Grid.on else R


def kconst(leaf, depth, v):
    a = T.z(v)
    for _ in range(depth):
        a = z3.K(I, a)
    return a


def svec_fresh(ety, name, ln=None, dim=None, uni=None):
    return SVec(fresh(name + ".len", I) if ln is None else ln, lifted_fresh(ety, 1, name, dim, uni), ety,
                default_ghosts(ety, name))


def fresh_value(ty, name, dim=None):
    if ty[0] == "num":
        return Num(fresh(name, sortof(ty)), dim)
    if ty[0] == "bool":
        return Bool(fresh(name, B))
    if ty[0] == "struct":
        return StructV(ty[1], {f: fresh_value(t, name + "." + f, d) for f, t, d in Types.fields(ty[1])})
    if ty[0] == "vec":
        return svec_fresh(ty[1], name, dim=dim)
    if ty[0] == "arr" and ty[2]:
        return CVec([fresh_value(ty[1], "%s_%d" % (name, i), dim) for i in range(ty[2])], ty[1])
    if ty[0] == "tuple":
        return CVec([fresh_value(t, "%s_%d" % (name, i), dim) for i, t in enumerate(ty[1])], ty)
    return Opaque(str(ty))


def zero_value(ty):
    if ty[0] == "num":
        return Num(0 if ty[1] == "i" else Fraction(0))
    if ty[0] == "bool":
        return Bool(False)
    if ty[0] == "struct":
        return StructV(ty[1], {f: zero_value(t) for f, t, d in Types.fields(ty[1])})
    if ty[0] in ("vec",):
        if ty[1] == ("struct", "body_soil"):
            return empty_svec(ty[1])
        return CVec([], ty[1])
    if ty[0] == "arr" and ty[2] is not None:
        return CVec([zero_value(ty[1]) for _ in range(ty[2])], ty[1])
    if ty[0] == "tuple":
        return CVec([zero_value(t) for t in ty[1]], ty)
    return Opaque(str(ty))


def empty_svec(ety, name="v"):
    return SVec(0, lifted_fresh(ety, 1, name), ety, default_ghosts(ety, name, empty=True))


# --- lowering / lifting -----------------------------------------------------------------------------------------

def sel(a, i):
    i = T.z(i)
    # read over write simplification for syntactically equal / distinct constant indices
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        k = a.arg(1)
        if k.eq(i):
            return a.arg(2)
        if z3.is_int_value(k) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


def lower(l, i, depth=1):
    """element i of a lifted value whose outermost index is removed"""
    if isinstance(l, LNum):
        r = sel(l.a, i)
        if z3.is_array(r):
            return LNum(r, l.sort, l.dim)
        r = T.norm(r)
        if l.sort == "r" and not T.isreal(r):
            r = T.toreal(r)
        return Bool(r) if l.sort == "b" else Num(r, l.dim)
    if isinstance(l, LStruct):
        return_l = {k: lower(v, i) for k, v in l.f.items()}
        if any(isinstance(v, (LNum, LStruct, LVec)) for v in return_l.values()):
            return LStruct(l.name, return_l)
        return StructV(l.name, return_l)
    if isinstance(l, LVec):
        e = lower(l.elem, i)
        if isinstance(l.len, tuple):
            ln = l.len
        else:
            r = sel(l.len, i)
            ln = r if z3.is_array(r) else T.norm(r)
        if isinstance(ln, tuple):
            deep = elem_depth(e) > 1
            if deep:
                return LVec(ln, e, l.ety)
            ln = ln[1]
        elif not T.isc(ln) and z3.is_array(ln):
            return LVec(ln, e, l.ety)
        return SVec(ln, e, l.ety, default_ghosts_row(l.ety))
    raise Unsupported("lower")


def default_ghosts_row(ety):
    return {}


def elem_depth(l):
    if isinstance(l, LNum):
        d = 0
        s = l.a.sort()
        while s.kind() == z3.Z3_ARRAY_SORT:
            d += 1
            s = s.range()
        return d
    if isinstance(l, LStruct):
        return elem_depth(next(iter(l.f.values())))
    return elem_depth(l.elem) - 1


class Grid:
    """heights are whole numbers: the arrays of heights have integer elements, and storing any other value is an
    obligation of its own"""
    on = False
    st = None
    hook = None


def leafsort(a):
    s = a.sort()
    while s.kind() == z3.Z3_ARRAY_SORT:
        s = s.range()
    return s


def gridint(t):
    """the integer stored for a height"""
    k = T.asint(t)
    if k is None:
        if Grid.hook:
            Grid.hook(t)
        k = T.floor(T.toreal(t))
    return T.z(k)


def to_sort(t, sort, leaf=None):
    if sort == "r" and leaf is not None and leaf == I:
        return gridint(t)
    if sort == "r":
        return T.z(T.toreal(t))
    if sort == "b":
        return T.z(T.boolof(t))
    return T.z(t)


def put(l, i, v):
    """lifted value with element i replaced by v"""
    i = T.z(i)
    if isinstance(l, LNum):
        if isinstance(v, LNum):
            return LNum(z3.Store(l.a, i, v.a), l.sort, l.dim if l.dim is not None else v.dim)
        t = v.t
        return LNum(z3.Store(l.a, i, to_sort(t, l.sort, leafsort(l.a))), l.sort, l.dim if l.dim is not None else getattr(v, "dim", None))
    if isinstance(l, LStruct):
        return LStruct(l.name, {k: put(x, i, v.f[k]) for k, x in l.f.items()})
    if isinstance(l, LVec):
        if isinstance(v, CVec):
            v = to_svec(v, l.ety)
        vlen = v.len
        if isinstance(l.len, tuple):
            if isinstance(vlen, tuple):
                ln = l.len if T.same(l.len[1], vlen[1]) else None
            else:
                ln = l.len if T.same(l.len[1], vlen) else None
            if ln is None:
                base = z3.K(I, T.z(l.len[1]))
                ln = z3.Store(base, i, T.z(vlen[1] if isinstance(vlen, tuple) else vlen))
        else:
            ln = z3.Store(l.len, i, T.z(vlen))
        return LVec(ln, put(l.elem, i, v.elem), l.ety)
    raise Unsupported("put")


def elem_type(v):
    """type descriptor of a value"""
    if isinstance(v, Num):
        return ("num", "r" if T.isreal(v.t) else "i")
    if isinstance(v, Bool):
        return ("bool",)
    if isinstance(v, StructV):
        return ("struct", v.name)
    if isinstance(v, SVec):
        return ("vec", v.ety)
    if isinstance(v, CVec):
        if v.ety is not None and v.ety[0] != "tuple":
            return ("vec", v.ety)
        if v.e:
            return ("vec", elem_type(v.e[0]))
    raise Unsupported("element type of %r" % (v,))


def to_svec(cv, ety=None):
    if isinstance(cv, SVec):
        return cv
    if isinstance(cv, InitList):
        cv = CVec(cv.vals)
    ety = ety or cv.ety or elem_type(cv.e[0])
    sv = empty_svec(ety)
    for x in cv.e:
        sv = push(sv, x)
    return sv


def num_or_bool(v):
    if isinstance(v, Bool):
        return T.ite(v.t, 1, 0)
    return v.t


def aget(a, *idx):
    for i in idx:
        a = sel(a, i)
    return a


def aset(a, idx, v):
    if len(idx) == 1:
        return z3.Store(a, T.z(idx[0]), v)
    return z3.Store(a, T.z(idx[0]), aset(sel(a, idx[0]), idx[1:], v))


def cellof(e):
    return [e.f["ind"].t, e.f["ii"].t, e.f["jj"].t]


def ghostval(t, arr):
    if leafsort(arr) == I:
        k = T.asint(t)
        return T.z(k if k is not None else T.floor(T.toreal(t)))
    return T.z(T.toreal(t))


def ghostsort(x):
    s = T.z(x).sort()
    if Grid.on and s == R:
        return I
    return s


def led_add(g, e, sign):
    g = dict(g)
    c = cellof(e)
    h = T.toreal(e.f["h_soil"].t)
    d = h if sign > 0 else T.neg(h)
    g["LT"] = T.add(g["LT"], d)
    g["L"] = aset(g["L"], c, ghostval(T.add(T.norm(aget(g["L"], *c)), d), g["L"]))
    g["C"] = aset(g["C"], c, T.z(T.add(T.norm(aget(g["C"], *c)), sign)))
    return g


def tupidx(v):
    """tuple content of a small int vector as 3 indices, or None"""
    if isinstance(v, CVec) and 1 <= len(v.e) <= 3 and all(isinstance(x, Num) for x in v.e):
        return [v.e[k].t if k < len(v.e) else 0 for k in range(3)]
    if isinstance(v, SVec) and isinstance(v.len, int) and 1 <= v.len <= 3 and isinstance(v.elem, LNum):
        return [T.norm(sel(v.elem.a, k)) if k < v.len else 0 for k in range(3)]
    return None


def ghost_write(sv, idx, old, new, g, delta=None):
    """ghosts after element idx changed from old to new (old None: appended)"""
    g = dict(g)
    if "LT" in g:
        if old is not None:
            g = led_add(g, old, -1)
        g = led_add(g, new, +1)
    if "sum" in g:
        if delta is not None:
            g["sum"] = T.add(g["sum"], delta)
        elif isinstance(new, CVec):
            s = g["sum"]
            for x in new.e:
                s = T.add(s, num_or_bool(x))
            if old is not None:
                g["sum"] = fresh("sum", g["sum"].sort() if not T.isc(g["sum"]) else R)
            else:
                g["sum"] = s
        else:
            so = T.z(g["sum"]).sort()
            g["sum"] = fresh("sum", so)
    if "where" in g:
        ti = tupidx(new)
        if ti is not None:
            g["where"] = aset(g["where"], ti, T.z(idx))
    for k in list(g):
        if k.startswith("S_"):       # suffix ledgers attached by an index loop: same deltas
            pass
    return g


def push(sv, x):
    if isinstance(x, CVec) and sv.ety[0] == "vec":
        xs = x
        # uniform inner length is kept when the vector was empty
        el = sv.elem
        n = len(x.e)
        if isinstance(sv.len, int) and sv.len == 0 and isinstance(el, LVec):
            el = LVec(("u", n), el.elem, el.ety)
        el = put(el, sv.len, to_svec(xs, sv.ety[1]))
    else:
        el = sv.elem
        if isinstance(sv.len, int) and sv.len == 0 and isinstance(el, LVec) and isinstance(x, SVec):
            el = LVec(("u", x.len), el.elem, el.ety)
        el = put(el, sv.len, x)
    return SVec(T.add(sv.len, 1), el, sv.ety, ghost_write(sv, sv.len, None, x, sv.g))


# --- merging ----------------------------------------------------------------------------------------------------

def merge(c, a, b):
    """ite(c, a, b) on values"""
    if a is b:
        return a
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(T.ite(c, a.t, b.t), a.dim if a.dim is not None else b.dim)
    if isinstance(a, (Bool, Num)) and isinstance(b, (Bool, Num)):
        return Bool(T.ite(c, T.boolof(a.t), T.boolof(b.t)))
    if isinstance(a, StructV) and isinstance(b, StructV):
        return StructV(a.name, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, CVec) and isinstance(b, CVec) and len(a.e) == len(b.e):
        return CVec([merge(c, x, y) for x, y in zip(a.e, b.e)], a.ety or b.ety)
    if isinstance(a, (CVec, SVec)) and isinstance(b, (CVec, SVec)):
        if isinstance(a, CVec):
            a = to_svec(a, b.ety if isinstance(b, SVec) else None)
        if isinstance(b, CVec):
            b = to_svec(b, a.ety)
        g = {}
        for k in a.g:
            if k in b.g:
                g[k] = T.norm(T.ite(c, T.z(a.g[k]), T.z(b.g[k]))) if not T.same(a.g[k], b.g[k]) else a.g[k]
        return SVec(T.ite(c, a.len, b.len), lmerge(c, a.elem, b.elem), a.ety, g)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv == b.lv:
        return a
    if isinstance(a, StrDigits) and isinstance(b, StrDigits):
        return StrDigits(T.ite(c, a.t, b.t))
    if isinstance(a, Iter) and isinstance(b, Iter) and a.lv == b.lv:
        return Iter(a.lv, T.ite(c, a.idx, b.idx))
    if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node:
        return a
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("merged")
    raise Unsupported("merge %s / %s" % (type(a).__name__, type(b).__name__))


def lmerge(c, a, b):
    if a is b:
        return a
    if isinstance(a, LNum):
        return LNum(a.a if a.a.eq(b.a) else z3.If(c, a.a, b.a), a.sort, a.dim if a.dim is not None else b.dim)
    if isinstance(a, LStruct):
        return LStruct(a.name, {k: lmerge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a.len, tuple) and isinstance(b.len, tuple):
        ln = ("u", T.ite(c, a.len[1], b.len[1]))
    else:
        if isinstance(a.len, tuple) or isinstance(b.len, tuple):
            aa = z3.K(I, T.z(a.len[1])) if isinstance(a.len, tuple) else a.len
            bb = z3.K(I, T.z(b.len[1])) if isinstance(b.len, tuple) else b.len
        else:
            aa, bb = a.len, b.len
        ln = z3.If(c, aa, bb)
    return LVec(ln, lmerge(c, a.elem, b.elem), a.ety)


def same_value(a, b):
    """syntactic identity (used to find what a loop or call changed)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Num, Bool, StrDigits)):
        return T.same(a.t, b.t)
    if isinstance(a, StructV):
        return all(same_value(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, CVec):
        return len(a.e) == len(b.e) and all(same_value(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, SVec):
        return T.same(a.len, b.len) and same_l(a.elem, b.elem) and all(
            k in b.g and T.same(a.g[k], b.g[k]) for k in a.g)
    if isinstance(a, Ptr):
        return a.lv == b.lv
    if isinstance(a, Iter):
        return a.lv == b.lv and T.same(a.idx, b.idx)
    if isinstance(a, Opaque):
        return True
    if isinstance(a, Closure):
        return a.node is b.node
    return False


def same_l(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, LNum):
        return a.a.eq(b.a)
    if isinstance(a, LStruct):
        return all(same_l(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a.len, tuple) != isinstance(b.len, tuple):
        return False
    le = T.same(a.len[1], b.len[1]) if isinstance(a.len, tuple) else a.len.eq(b.len)
    return le and same_l(a.elem, b.elem)
