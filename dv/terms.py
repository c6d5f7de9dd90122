"""Term layer: Python constants (int, Fraction, bool) folded eagerly, z3 terms otherwise.

Sorts: C++ integers are mathematical integers, floats/doubles are mathematical reals."""
from fractions import Fraction
import z3

CTX = z3.main_ctx()


class Mode:
    dist = False
    unit = False       # True: products and quotients come with bounds relative to their factors
    poly = False       # True: real products/quotients are genuine nonlinear terms; False: uninterpreted with sign facts
    round = False      # True: rounding of a number off the grid is an unknown function
    side = None        # callback(fact) receiving defining facts of abstracted operations
    grid = False       # True: rewrite comparisons of whole-number quantities into integer arithmetic
    tol = None         # the tolerance constant, 0 < tol < 1/10


def isc(t):
    return isinstance(t, (int, Fraction, bool))


def isreal(t):
    if isinstance(t, Fraction):
        return True
    if isinstance(t, (bool, int)):
        return False
    return z3.is_real(t)


def z(t):
    """to z3"""
    if isinstance(t, bool):
        return z3.BoolVal(t)
    if isinstance(t, int):
        return z3.IntVal(t)
    if isinstance(t, Fraction):
        return z3.RealVal(t)
    return t


def norm(t):
    """fold z3 numerals back to Python"""
    if isc(t):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def same(a, b):
    if isc(a) and isc(b):
        return type(a) == type(b) and a == b
    if isc(a) or isc(b):
        return False
    return a.eq(b)


def toreal(t):
    if isinstance(t, bool):
        return Fraction(int(t))
    if isinstance(t, int):
        return Fraction(t)
    if isinstance(t, Fraction):
        return t
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_real(t):
        return t
    if t.decl().kind() == z3.Z3_OP_ITE:
        return ite(t.arg(0), toreal(norm(t.arg(1))), toreal(norm(t.arg(2))))
    return z3.ToReal(t)


def toint(t):
    """real -> int for values known to be whole (unwrap) else floor"""
    return floor(t)


def _bal(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if not isc(a) and z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if not isc(b) and z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if isreal(a) or isreal(b):
        return toreal(a), toreal(b)
    return a, b


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    a, b = _bal(a, b)
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return z(a) + z(b)


def neg(a):
    if isc(a):
        return -a
    return -a


def sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    a, b = _bal(a, b)
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return -z(b)
    if same(a, b):
        return Fraction(0) if isreal(a) else 0
    # (x + c) - x
    return z(a) - z(b)


def is_ite(t):
    return (not isc(t)) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def constite(t, depth=0):
    """an ite tree whose leaves are all numerals"""
    if isc(t):
        return True
    if depth > 12:
        return False
    if is_ite(t):
        return constite(norm(t.arg(1)), depth + 1) and constite(norm(t.arg(2)), depth + 1)
    return False


_MUL = z3.Function("mul", z3.RealSort(), z3.RealSort(), z3.RealSort())
_IMUL = z3.Function("imul", z3.IntSort(), z3.IntSort(), z3.IntSort())
_DIV = z3.Function("quot", z3.RealSort(), z3.RealSort(), z3.RealSort())


def mapite(t, f):
    if is_ite(t):
        return ite(t.arg(0), mapite(norm(t.arg(1)), f), mapite(norm(t.arg(2)), f))
    return f(t)


def mul(a, b):
    a, b = _bal(a, b)
    if isc(a) and isc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0:
                return Fraction(0) if isreal(y) else 0
            if x == 1:
                return y
            return z(x) * z(y)
    for x, y in ((a, b), (b, a)):
        if constite(x) and is_ite(x):
            return mapite(x, lambda c: mul(c, y))
    if Mode.poly:
        return a * b
    if Mode.dist:
        for x, y in ((a, b), (b, a)):
            w = x.arg(0) if z3.is_to_real(x) else x
            if z3.is_add(w) or z3.is_sub(w):
                p = [mul(toreal(norm(q)) if w is not x else norm(q), y) for q in w.children()]
                r = p[0]
                for q in p[1:]:
                    r = add(r, q) if z3.is_add(w) else sub(r, q)
                return r
            if z3.is_mul(w) and w.num_args() == 2 and isc(norm(w.arg(0))):
                return mul(toreal(norm(w.arg(0))), mul(toreal(norm(w.arg(1))) if w is not x else norm(w.arg(1)), y))
    # distribute over explicit negation so that sign facts stay usable
    if a.get_id() > b.get_id():
        a, b = b, a
    if z3.is_real(a):
        r = _MUL(a, b)
        zero = z3.RealVal(0)
    else:
        r = _IMUL(a, b)
        zero = z3.IntVal(0)
    if Mode.side:
        Mode.side(z3.And(z3.Implies(z3.And(a > zero, b > zero), r > zero), z3.Implies(z3.Or(a == zero, b == zero), r == zero),
                         z3.Implies(z3.And(a < zero, b > zero), r < zero), z3.Implies(z3.And(a > zero, b < zero), r < zero),
                         z3.Implies(z3.And(a < zero, b < zero), r > zero),
                         z3.Implies(z3.And(a >= 1, b >= zero), r >= b), z3.Implies(z3.And(b >= 1, a >= zero), r >= a)))
        if Mode.unit and z3.is_real(a):
            ab = lambda x: z3.If(x >= 0, x, -x)
            for x, y in ((a, b), (b, a)):
                for q in (1, Fraction(1, 2), Fraction(1, 4), Fraction(1, 16)):
                    Mode.side(z3.Implies(ab(x) <= z(toreal(q)), ab(r) <= ab(y) * z(toreal(q))))
                Mode.side(z3.Implies(ab(x) >= 1, ab(r) >= ab(y)))
            if a.eq(b):
                Mode.side(r >= 0)
        if not z3.is_real(a):
            Mode.side(z3.And(*[z3.Implies(x == k, r == k * y) for x, y in ((a, b), (b, a)) for k in (-1, 1)]))
    return r


def div(a, b):
    """real division"""
    a, b = toreal(a), toreal(b)
    if isc(b) and b != 0:
        return mul(a, 1 / b)
    if isc(a) and a == 0:
        return Fraction(0)
    if Mode.poly:
        return z(a) / z(b)
    if isc(b):
        return z3.FreshReal("div0")
    r = _DIV(z(a), z(b))
    if Mode.side:
        a_, b_ = z(a), z(b)
        zero = z3.RealVal(0)
        Mode.side(z3.And(z3.Implies(z3.And(a_ >= zero, b_ > zero), r >= zero), z3.Implies(z3.And(a_ <= zero, b_ > zero), r <= zero),
                         z3.Implies(z3.And(a_ >= zero, b_ >= 1), r <= a_),
                         z3.Implies(z3.And(a_ >= b_, b_ > zero), r >= 1)))
        if Mode.unit:
            ab = lambda x: z3.If(x >= 0, x, -x)
            Mode.side(z3.Implies(z3.And(a_ <= zero, b_ < zero), r >= zero))
            for q in (1, 2):
                Mode.side(z3.Implies(z3.And(b_ != zero, ab(a_) <= ab(b_) * q), ab(r) <= q))
    return r


def idiv(a, b):
    """C++ integer division (truncation)"""
    if isc(a) and isc(b) and b != 0:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isc(b) and b > 0:
        return ite(ge(a, 0), z(a) / z(b), neg(z3.IntVal(0) + (-z(a)) / z(b)))
    return z3.FreshInt("idiv")


def imod(a, b):
    if isc(a) and isc(b) and b != 0:
        return a - b * idiv(a, b)
    if isc(b) and b > 0:
        return sub(a, mul(b, idiv(a, b)))
    return z3.FreshInt("imod")


def _gridfloor(a):
    l = lin(a) if Mode.grid else None
    if l is None:
        return None
    D = _den(l)
    if abs(l[2]) * D > 10:
        return None
    N = _num(l, D)
    if l[2] < 0:
        N = sub(N, 1)
    if D == 1:
        return N
    return N // D if isc(N) else z(N) / z3.IntVal(D)


def floor(a):
    if isinstance(a, int):
        return a
    if isinstance(a, Fraction):
        return a.numerator // a.denominator
    r = _gridfloor(a)
    if r is not None:
        return r
    if z3.is_int(a):
        return a
    if a.decl().kind() == z3.Z3_OP_TO_REAL:
        return norm(a.arg(0))
    if is_ite(a):
        x, y = norm(a.arg(1)), norm(a.arg(2))
        if _whole(x) and _whole(y):
            return ite(a.arg(0), floor(x), floor(y))
    return z3.ToInt(a)


def _whole(a, d=0):
    if isc(a):
        return isinstance(a, int) or a.denominator == 1
    if a.decl().kind() == z3.Z3_OP_TO_REAL:
        return True
    if d < 6 and is_ite(a):
        return _whole(norm(a.arg(1)), d + 1) and _whole(norm(a.arg(2)), d + 1)
    return False


def ceil(a):
    if isinstance(a, int):
        return a
    if isinstance(a, Fraction):
        return -((-a.numerator) // a.denominator)
    if _whole(a):
        return floor(a)
    r = _gridfloor(neg(a))
    if r is not None:
        return neg(r)
    return neg(floor(z3.simplify(-a)) if False else z3.ToInt(-a))


_ROUND = z3.Function("rounded", z3.RealSort(), z3.IntSort())


def cround(a):
    """C round(): half away from zero; integer-valued"""
    if isinstance(a, int):
        return a
    if isinstance(a, Fraction):
        h = Fraction(1, 2)
        return floor(a + h) if a >= 0 else -floor(-a + h)
    if _whole(a):
        return floor(a)
    if Mode.round:
        return _ROUND(z(toreal(a)))
    h = Fraction(1, 2)
    return ite(ge(a, 0), floor(add(a, h)), neg(floor(add(neg(a), h))))


def trunc(a):
    if isinstance(a, int):
        return a
    if isinstance(a, Fraction):
        return floor(a) if a >= 0 else -floor(-a)
    if _whole(a) or z3.is_int(a):
        return floor(a)
    return ite(ge(a, 0), floor(a), neg(floor(neg(a))))


def isint(a):
    if isc(a):
        return Fraction(a).denominator == 1
    if z3.is_int(a) or _whole(a):
        return True
    if Mode.grid:
        l = lin(a)
        if l is not None:
            if l[2] != 0 and abs(l[2]) * _den(l) <= 10:
                return False
            if l[2] == 0:
                D = _den(l)
                return True if D == 1 else z(_num(l, D)) % D == 0
    return z3.IsInt(a)


def _cmp(op, a, b):
    a, b = _bal(a, b)
    if isc(a) and isc(b):
        return op(a, b)
    if constite(a) and isc(b) and is_ite(a):
        return ite(a.arg(0), _cmp(op, norm(a.arg(1)), b), _cmp(op, norm(a.arg(2)), b))
    if constite(b) and isc(a) and is_ite(b):
        return ite(b.arg(0), _cmp(op, a, norm(b.arg(1))), _cmp(op, a, norm(b.arg(2))))
    return op(z(a), z(b))


# ---- linear forms over whole numbers -------------------------------------------------------------------------------

_LIN = {}


def lin(t):
    """(atoms {id: (integer term, coefficient)}, constant, coefficient of tol) or None"""
    if isinstance(t, bool):
        return None
    if isc(t):
        return ({}, Fraction(t), Fraction(0))
    k = t.get_id()
    if k in _LIN:
        return _LIN[k][1]
    r = _lin(t)
    _LIN[k] = (t, r)
    return r


def _ladd(a, b, q=1):
    at = dict(a[0])
    for k, (x, c) in b[0].items():
        c2 = (at[k][1] if k in at else 0) + c * q
        if c2 == 0:
            at.pop(k, None)
        else:
            at[k] = (x, c2)
    return (at, a[1] + b[1] * q, a[2] + b[2] * q)


def _lmul(a, q):
    if q == 0:
        return ({}, Fraction(0), Fraction(0))
    return ({k: (x, c * q) for k, (x, c) in a[0].items()}, a[1] * q, a[2] * q)


def _lin(t):
    if Mode.tol is not None and t.eq(Mode.tol):
        return ({}, Fraction(0), Fraction(1))
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return ({}, Fraction(norm(t)), Fraction(0))
    kd = t.decl().kind()
    if kd == z3.Z3_OP_TO_REAL:
        return lin(norm(t.arg(0)))
    if kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = lin(norm(t.arg(0)))
        for x in t.children()[1:]:
            if r is None:
                return None
            y = lin(norm(x))
            if y is None:
                return None
            r = _ladd(r, y, 1 if kd == z3.Z3_OP_ADD else -1)
        return r
    if kd == z3.Z3_OP_UMINUS:
        r = lin(norm(t.arg(0)))
        return None if r is None else _lmul(r, -1)
    if kd == z3.Z3_OP_MUL and t.num_args() == 2:
        for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            x = norm(x)
            if isc(x):
                r = lin(norm(y))
                return None if r is None else _lmul(r, Fraction(x))
        if z3.is_real(t):
            return None
    if kd == z3.Z3_OP_ITE and z3.is_real(t):
        a, b = lin(norm(t.arg(1))), lin(norm(t.arg(2)))
        if a is None or b is None or a[2] != b[2]:
            return None
        d = _ladd(a, b, -1)
        if not d[0] and d[1] == 0:
            return a
        D = _den(a, b)
        x = z3.If(t.arg(0), z(_num((a[0], a[1], Fraction(0)), D)), z(_num((b[0], b[1], Fraction(0)), D)))
        return ({x.get_id(): (x, Fraction(1, D))}, Fraction(0), a[2])
    if z3.is_int(t):
        return ({t.get_id(): (t, Fraction(1))}, Fraction(0), Fraction(0))
    return None


def _den(*ls):
    from math import lcm
    d = 1
    for l in ls:
        for x, c in l[0].values():
            d = lcm(d, c.denominator)
        d = lcm(d, l[1].denominator)
    return d


def _num(l, D):
    """D * l without the tol part, as an integer term"""
    r = int(l[1] * D)
    for x, c in l[0].values():
        q = int(c * D)
        r = add(r, x if q == 1 else (z3.IntVal(q) * x))
    return r


def asint(t):
    """the integer term equal to t, or None"""
    if isinstance(t, bool):
        return None
    if isc(t):
        return int(t) if Fraction(t).denominator == 1 else None
    if z3.is_int(t):
        return t
    if t.decl().kind() == z3.Z3_OP_TO_REAL:
        return norm(t.arg(0))
    l = lin(t)
    if l is None or l[2] != 0 or _den(l) != 1:
        return None
    return _num(l, 1)


def _gridcmp(op, a, b):
    """comparison as integer arithmetic, or None"""
    x, y = lin(a), lin(b)
    if x is None or y is None:
        return None
    d = _ladd(x, y, -1)
    D = _den(d)
    c = d[2]
    if abs(c) * D > 10:
        return None
    N = _num(d, D)
    if op == "eq":
        return _icmp("eq", N) if c == 0 else False
    if op == "lt":
        return _icmp("lt", N) if c >= 0 else _icmp("le", N)
    return _icmp("le", N) if c <= 0 else _icmp("lt", N)


def _icmp(op, N):
    if isc(N):
        return {"eq": N == 0, "lt": N < 0, "le": N <= 0}[op]
    l = lin(N)
    pos, neg_, = 0, 0
    if l is not None:
        # move the negative part to the right
        P = ({k: v for k, v in l[0].items() if v[1] > 0}, l[1] if l[1] > 0 else Fraction(0), Fraction(0))
        M = ({k: (x, -c) for k, (x, c) in l[0].items() if c < 0}, -l[1] if l[1] < 0 else Fraction(0), Fraction(0))
        g = 0
        from math import gcd
        for x, c in list(P[0].values()) + list(M[0].values()):
            g = gcd(g, int(c))
        g = gcd(g, int(l[1]))
        if g > 1:
            P, M = _lmul(P, Fraction(1, g)), _lmul(M, Fraction(1, g))
        p, m = z(_num(P, 1)), z(_num(M, 1))
    else:
        p, m = z(N), z3.IntVal(0)
    if p.eq(m):
        return op != "lt"
    return {"eq": p == m, "lt": p < m, "le": p <= m}[op]


_C = {int, Fraction}


def lt(a, b):
    if type(a) in _C and type(b) in _C:
        return a < b
    if Mode.grid and not (isc(a) and isc(b)):
        r = _gridcmp("lt", a, b)
        if r is not None:
            return r
    if not isc(a) and not isc(b) and a.eq(b):
        return False
    return _cmp(lambda x, y: x < y, a, b)


def le(a, b):
    if type(a) in _C and type(b) in _C:
        return a <= b
    if Mode.grid and not (isc(a) and isc(b)):
        r = _gridcmp("le", a, b)
        if r is not None:
            return r
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    return _cmp(lambda x, y: x <= y, a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if type(a) in _C and type(b) in _C:
        return a == b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if (isinstance(a, bool) or (not isc(a) and z3.is_bool(a))) and (isinstance(b, bool) or (not isc(b) and z3.is_bool(b))):
        if isinstance(a, bool):
            return b if a else lnot(b)
        if isinstance(b, bool):
            return a if b else lnot(a)
        return z(a) == z(b)
    if Mode.grid and not (isc(a) and isc(b)):
        r = _gridcmp("eq", a, b)
        if r is not None:
            return r
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    return _cmp(lambda x, y: x == y, a, b)


def ne(a, b):
    return lnot(eq(a, b))


def lnot(a):
    if isinstance(a, bool):
        return not a
    if isinstance(a, int):
        return a == 0
    if not z3.is_bool(a):
        return eq(a, 0)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def land(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = land(*x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = lor(*x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def limp(a, b):
    if a is False or b is True:
        return True
    if a is True:
        return b
    if b is False:
        return lnot(a)
    return z3.Implies(z(a), z(b))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    ab = isinstance(a, bool) or (not isc(a) and z3.is_bool(a))
    bb = isinstance(b, bool) or (not isc(b) and z3.is_bool(b))
    if ab and bb:
        if a is True and b is False:
            return c
        if a is False and b is True:
            return lnot(c)
        if same(a, b):
            return a
        return lor(land(c, a), land(lnot(c), b)) if isinstance(a, bool) or isinstance(b, bool) else z3.If(c, a, b)
    if not isc(a) and z3.is_array(a):
        return a if a.eq(b) else z3.If(c, a, b)
    a, b = _bal(a, b)
    if same(a, b):
        return a
    return z3.If(c, z(a), z(b))


def tmin(a, b):
    # std::min(a, b): b < a ? b : a
    return ite(lt(b, a), b, a)


def tmax(a, b):
    return ite(lt(a, b), b, a)


def tabs(a):
    if isc(a):
        return abs(a)
    return ite(lt(a, 0), neg(a), a)


def boolof(t):
    """C++ contextual conversion to bool"""
    if isinstance(t, bool):
        return t
    if isinstance(t, (int, Fraction)):
        return t != 0
    if z3.is_bool(t):
        return t
    return ne(t, 0)


def realf(name, *xs):
    """an uninterpreted real function (trigonometry); a number on numbers"""
    import math
    if all(isc(x) for x in xs):
        f = {"pi": lambda: math.pi}.get(name) or getattr(math, name)
        return Fraction(f(*[float(x) for x in xs]))
    return z3.Function(name, *([z3.RealSort()] * (len(xs) + 1)))(*[z(toreal(x)) for x in xs])


def tan(x):
    return realf("tan", x)


def le_halfpi(x):
    if isc(x):
        import math
        return float(x) <= math.pi / 2 + 1e-6
    return z(toreal(x)) <= z3.Real("pi") / 2


def near(a, b, scale=1):
    """equal; on numbers, equal up to the rounding of single precision"""
    if isc(a) and isc(b):
        return abs(a - b) <= Fraction(1, 4000) * max(scale, abs(a), abs(b))
    return eq(a, b)


def nearle(a, b, scale=1):
    if isc(a) and isc(b):
        return a <= b + Fraction(1, 4000) * max(scale, abs(a), abs(b))
    return le(a, b)


def conjuncts(t):
    """a goal as the goals it is the conjunction of (under the same hypotheses)"""
    import z3
    if z3.is_and(t):
        return [q for c in t.children() for q in conjuncts(c)]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IMPLIES:
        return [z3.Implies(t.arg(0), c) for c in conjuncts(t.arg(1))]
    if z3.is_or(t):
        ch = t.children()
        for k, c in enumerate(ch):
            if z3.is_and(c) and all(z3.is_not(o) for m, o in enumerate(ch) if m != k):
                return [z3.Or(*(ch[:k] + [q] + ch[k + 1:])) for q in conjuncts(c)]
    return [t]


def store_cases(t):
    """the cases 'the index is / is not the one just written' of a goal about one index (the skolem of a list or grid fact):
    pairs (condition, goal under it)"""
    import z3
    seen, prs, first = set(), {}, []

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_select(x) and z3.is_store(x.arg(0)) and len(x.children()) == 2:
            k, i = x.arg(1), x.arg(0).arg(1)
            if z3.is_const(k) and k.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.eq(k, i):
                q = (k.get_id(), i.get_id())
                if q not in prs:
                    prs[q] = (k, i, [])
                    first.append(q)
                prs[q][2].append(x)
        for c in x.children():
            walk(c)

    walk(t)
    if not first:
        return []
    k, i, l = prs[first[0]]
    return [(k == i, z3.simplify(z3.substitute(t, (k, i)))), (k != i, z3.substitute(t, *[(x, z3.Select(x.arg(0).arg(0), k)) for x in l]))]
