"""Expressions, calls and the standard-library subset."""
from fractions import Fraction
import re
import z3
import terms as T
import values as V
from values import (Num, Bool, StructV, CVec, SVec, LNum, LStruct, LVec, Ptr, Iter, StrDigits, Opaque, Closure, InitList,
                    Unsupported, fresh, parse_type, fresh_value, zero_value)
from exec import Exec, State, Fact, NeedSplit, Budget, Obl, PI, realfn, suffix_add

I, R, B = V.I, V.R, V.B
UNIT = z3.Real("unit")      # opaque positive scale: appears when quantities of different dimension are mixed


def unitpow(d):
    return realfn("unitpow", 1)(z3.RealVal(d))


STD = {"floor", "ceil", "round", "abs", "fabs", "sqrt", "tan", "sin", "cos", "atan", "atan2", "asin", "acos", "min", "max",
       "swap", "move", "forward", "to_string", "copysign", "sort", "unique", "fill", "tie", "make_tuple", "make_pair", "get", "trunc",
       "clamp", "lround", "fmin", "fmax", "isnan", "isfinite", "pow", "begin", "end", "size", "as_const", "signbit", "hypot", "reverse",
       "nearbyint", "rint", "llround", "stable_sort", "exp", "log", "round", "floorf", "fabsf", "sqrtf", "roundf", "next", "prev", "distance", "fmod", "empty", "max_element", "min_element", "accumulate", "any_of", "all_of", "none_of", "find_if", "for_each", "iota", "shuffle", "fill_n", "copy", "transform", "back_inserter", "ignore", "exists"}


class E(Exec):
    cur_tu = None

    # ---- arithmetic with dimensions -------------------------------------------------------------------------
    def scale_to(self, v, d):
        """v is dimensionless (or unknown) and meets a quantity of dimension d"""
        t = v.t
        if T.isc(t) and t == 0:
            return t
        u = z3.Real("unit^%s" % d)
        self.add_side(u > 0)
        return T.mul(T.toreal(t), u)

    def align(self, a, b):
        da, db = getattr(a, "dim", None), getattr(b, "dim", None)
        if not self.opts.get("dims", True):
            return a.t, b.t, None
        if da == db or (da in (0, None) and db in (0, None)):
            return a.t, b.t, da if da is not None else db
        za = T.isc(a.t) and a.t == 0
        zb = T.isc(b.t) and b.t == 0
        if za:
            return a.t, b.t, db
        if zb:
            return a.t, b.t, da
        if da in (0, None):
            return self.scale_to(a, db), b.t, db
        if db in (0, None):
            return a.t, self.scale_to(b, da), da
        # different proper dimensions
        u = z3.Real("unit^%s:%s" % (da, db))
        self.add_side(u > 0)
        return T.toreal(a.t), T.mul(T.toreal(b.t), u), da

    def binop(self, op, a, b, rty=None):
        if isinstance(a, Bool):
            a = Num(T.ite(a.t, 1, 0)) if op not in ("==", "!=", "&&", "||", "&", "|", "^") else a
        if isinstance(b, Bool):
            b = Num(T.ite(b.t, 1, 0)) if op not in ("==", "!=", "&&", "||", "&", "|", "^") else b
        if isinstance(a, Bool) and isinstance(b, Bool):
            if op == "==":
                return Bool(T.eq(a.t, b.t))
            if op in ("!=", "^"):
                return Bool(T.ne(a.t, b.t))
            if op == "&":
                return Bool(T.land(a.t, b.t))
            if op == "|":
                return Bool(T.lor(a.t, b.t))
        if isinstance(a, Bool):
            a = Num(T.ite(a.t, 1, 0))
        if isinstance(b, Bool):
            b = Num(T.ite(b.t, 1, 0))
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == "-":
                return Num(T.sub(a.idx, b.idx))
            return Bool({"==": T.eq, "!=": T.ne, "<": T.lt, "<=": T.le, ">": T.gt, ">=": T.ge}[op](a.idx, b.idx))
        if isinstance(a, Iter) and isinstance(b, Num):
            return Iter(a.lv, T.add(a.idx, b.t) if op == "+" else T.sub(a.idx, b.t))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
                return Bool((a.lv == b.lv) == (op == "=="))
            return Bool(op == "!=")
        if not isinstance(a, Num) or not isinstance(b, Num):
            raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))
        if op in ("+", "-"):
            x, y, d = self.align(a, b)
            return Num(T.add(x, y) if op == "+" else T.sub(x, y), d)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            x, y, d = self.align(a, b)
            return Bool({"==": T.eq, "!=": T.ne, "<": T.lt, "<=": T.le, ">": T.gt, ">=": T.ge}[op](x, y))
        da, db = a.dim, b.dim
        if op == "*":
            return Num(T.mul(a.t, b.t), None if da is None and db is None else (da or 0) + (db or 0))
        if op == "/":
            if T.isreal(a.t) or T.isreal(b.t) or (rty and rty[1] == "r"):
                return Num(T.div(a.t, b.t), None if da is None and db is None else (da or 0) - (db or 0))
            return Num(T.idiv(a.t, b.t))
        if op == "%":
            return Num(T.imod(a.t, b.t))
        if T.isc(a.t) and T.isc(b.t):
            f = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q, "<<": lambda p, q: p << q,
                 ">>": lambda p, q: p >> q}.get(op)
            if f:
                return Num(f(a.t, b.t))
        if op == "&" and T.isc(b.t) and (b.t + 1) & b.t == 0:
            return Num(z3.ToInt(z3.ToReal(T.z(a.t))) % (b.t + 1) if False else T.z(a.t) % (b.t + 1))
        if op == ">>" and T.isc(b.t):
            return Num(T.z(a.t) / (1 << b.t))
        if op == "<<" and T.isc(b.t):
            return Num(T.mul(a.t, 1 << b.t))
        raise Unsupported("operator " + op)

    # ---- evaluation -------------------------------------------------------------------------------------------
    def ev(self, st, n):
        cr = st.ghost.get("callres")
        if cr is not None and cr[0] is n:
            return cr[1]
        m = getattr(self, "e_" + (n.k or "None"), None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (n.k, n.line))
        return m(st, n)

    def e_ParenExpr(self, st, n):
        return self.ev(st, n.inner[0])
    e_ExprWithCleanups = e_ParenExpr
    e_ConstantExpr = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_MaterializeTemporaryExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = lambda self, st, n: self.ev(st, n.inner[-1])

    def e_IntegerLiteral(self, st, n):
        return Num(int(n.get("value")))

    def e_CharacterLiteral(self, st, n):
        return Num(int(n.get("value")))

    def e_FloatingLiteral(self, st, n):
        return Num(Fraction(repr(float(n.get("value")))))

    def e_CXXBoolLiteralExpr(self, st, n):
        return Bool(bool(n.get("value")))

    def e_StringLiteral(self, st, n):
        return Opaque("string:" + str(n.get("value")))

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return Ptr((0, ()))

    def e_CXXThisExpr(self, st, n):
        return st.env["this"]

    def e_CXXDefaultArgExpr(self, st, n):
        if n.inner:
            return self.ev(st, n.inner[0])
        raise Unsupported("default argument")

    def e_CXXDefaultInitExpr(self, st, n):
        if n.inner:
            return self.ev(st, n.inner[0])
        return self.zero(n)

    def zero(self, n):
        return zero_value(parse_type(n.qt, V.Types.records))

    def e_ImplicitValueInitExpr(self, st, n):
        return self.zero(n)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        return Num(fresh("sizeof", I))

    def e_DeclRefExpr(self, st, n):
        r = n.ref
        if r.get("kind") == "EnumConstantDecl":
            if r.get("name") in self.prog.enums:
                return Num(self.prog.enums[r.get("name")])
            raise Unsupported("enum constant")
        if r.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return Opaque("fn:" + str(r.get("name")))
        return self.read(st, self.lval(st, n))

    def e_MemberExpr(self, st, n):
        if n.get("valueCategory") == "prvalue" or not self.is_lvalue(n.inner[0]) and not n.get("isArrow"):
            b = self.ev(st, n.inner[0])
            if isinstance(b, StructV):
                return b.f[n.name]
            if isinstance(b, CVec):
                return b.e[0 if n.name == "first" else 1]
        return self.read(st, self.lval(st, n))

    def e_ArraySubscriptExpr(self, st, n):
        return self.read(st, self.lval(st, n))

    def cast(self, st, n, v):
        ck = n.get("castKind")
        ty = parse_type(n.qt, V.Types.records)
        if isinstance(v, InitList):
            return self.coerce(v, ty)
        if ck in ("IntegralToFloating",):
            return Num(T.toreal(v.t if not isinstance(v, Bool) else T.ite(v.t, 1, 0)), getattr(v, "dim", None))
        if ck == "FloatingToIntegral":
            return Num(T.trunc(v.t), v.dim)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return Bool(T.boolof(v.t))
        if ck == "PointerToBoolean":
            return Bool(True)
        if ck in ("IntegralCast", "FloatingCast", "BooleanToSignedIntegral", "FloatingComplexToReal"):
            if isinstance(v, Bool) and ty[0] == "num":
                return Num(T.ite(v.t, 1, 0))
            return v
        if ck == "NullToPointer":
            return Ptr((0, ()))
        return v

    def e_ImplicitCastExpr(self, st, n):
        ck = n.get("castKind")
        c = n.inner[0]
        if ck == "LValueToRValue":
            cr = st.ghost.get("callres")
            if cr is not None:
                x = c
                while x.k in self.WRAP and x.inner:
                    x = x.inner[0]
                if cr[0] is x:
                    v = cr[1]
                    return self.read(st, v.lv) if isinstance(v, Ptr) and not (n.qt or "").endswith("*") else v
            return self.read(st, self.lval(st, c)) if self.is_lvalue(c) else self.ev(st, c)
        if ck in ("ArrayToPointerDecay", "FunctionToPointerDecay"):
            if self.is_lvalue(c):
                return Ptr(self.lval(st, c)) if ck == "ArrayToPointerDecay" else self.ev(st, c)
            return self.ev(st, c)
        v = self.ev(st, c)
        return self.cast(st, n, v)

    def e_CXXStaticCastExpr(self, st, n):
        v = self.ev(st, n.inner[0])
        return self.cast(st, n, v)
    e_CStyleCastExpr = e_CXXStaticCastExpr
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr
    e_CXXConstCastExpr = e_CXXStaticCastExpr

    def guarded(self, st, cond, f):
        """evaluate f(st) under a condition, keeping what it assumed as implications"""
        np, nf = len(st.pc), len(st.facts)
        chk = st.checked
        kn = dict(st.known)
        before = dict(st.store)
        st.assume(cond)
        self.learn(st, cond)
        v = f(st)
        new = st.pc[np + (0 if cond is True else 1):]
        st.pc = st.pc[:np]
        for x in new:
            st.pc.append(T.z(T.limp(cond, x)))
        fs = st.facts[nf:]
        st.facts = st.facts[:nf]
        for f0 in fs:
            st.facts.append(Fact(f0.kind, (lambda f0: lambda *p: T.limp(cond, f0.at(p)))(f0), f0.name))
        st.checked = chk
        st.known = kn
        for l, w in list(st.store.items()):
            if l in before and not (before[l] is w) and not V.same_value(before[l], w):
                st.store[l] = V.merge(cond, w, before[l])
        return v

    def e_ConditionalOperator(self, st, n):
        c = self.truth(self.ev(st, n.inner[0]))
        if c is True:
            return self.ev(st, n.inner[1])
        if c is False:
            return self.ev(st, n.inner[2])
        a = self.guarded(st, c, lambda s: self.ev(s, n.inner[1]))
        b = self.guarded(st, T.lnot(c), lambda s: self.ev(s, n.inner[2]))
        ty = parse_type(n.qt, V.Types.records)
        return V.merge(c, self.coerce(a, ty), self.coerce(b, ty))

    def e_BinaryOperator(self, st, n):
        op = n.get("opcode")
        if op == "&&":
            a = self.truth(self.ev(st, n.inner[0]))
            if a is False:
                return Bool(False)
            b = self.guarded(st, a, lambda s: self.truth(self.ev(s, n.inner[1])))
            return Bool(T.land(a, b))
        if op == "||":
            a = self.truth(self.ev(st, n.inner[0]))
            if a is True:
                return Bool(True)
            b = self.guarded(st, T.lnot(a), lambda s: self.truth(self.ev(s, n.inner[1])))
            return Bool(T.lor(a, b))
        if op == "=":
            v = self.ev(st, n.inner[1])
            lv = self.lval(st, n.inner[0])
            v = self.coerce(v, parse_type(n.inner[0].qt, V.Types.records))
            self.write(st, lv, v)
            return v
        if op == ",":
            self.ev(st, n.inner[0])
            return self.ev(st, n.inner[1])
        a = self.ev(st, n.inner[0])
        b = self.ev(st, n.inner[1])
        return self.binop(op, a, b, parse_type(n.qt, V.Types.records))

    def e_CompoundAssignOperator(self, st, n):
        op = n.get("opcode")[:-1]
        b = self.ev(st, n.inner[1])
        lv = self.lval(st, n.inner[0])
        a = self.read(st, lv)
        ty = parse_type(n.inner[0].qt, V.Types.records)
        r = self.coerce(self.binop(op, a, b, ty if ty[0] == "num" and T.isreal(getattr(b, "t", 0)) is False else ("num", "r")), ty)
        self.write(st, lv, r)
        return r

    def e_UnaryOperator(self, st, n):
        op = n.get("opcode")
        if op in ("++", "--"):
            lv = self.lval(st, n.inner[0])
            a = self.read(st, lv)
            if isinstance(a, Iter):
                b = Iter(a.lv, T.add(a.idx, 1) if op == "++" else T.sub(a.idx, 1))
            else:
                b = Num(T.add(a.t, 1) if op == "++" else T.sub(a.t, 1), a.dim)
            self.write(st, lv, b)
            return a if n.get("isPostfix") else b
        if op == "&":
            return Ptr(self.lval(st, n.inner[0]))
        if op == "*":
            return self.read(st, self.lval(st, n))
        v = self.ev(st, n.inner[0])
        if op == "-":
            return Num(T.neg(v.t if isinstance(v, Num) else T.ite(v.t, 1, 0)), getattr(v, "dim", None))
        if op == "+":
            return v
        if op == "!":
            return Bool(T.lnot(self.truth(v)))
        raise Unsupported("unary " + op)

    def e_InitListExpr(self, st, n):
        ty = parse_type(n.qt, V.Types.records)
        vals = [self.ev(st, c) for c in n.inner if c.k]
        if n.get("array_filler") and ty[0] == "arr":
            vals = [v for v in vals]
        if ty[0] == "other" or ty[0] == "void":
            return InitList(vals)
        if ty[0] in ("num", "bool"):
            return self.coerce(vals[0], ty) if vals else zero_value(ty)
        return self.from_init(InitList(vals), ty)

    def e_CXXStdInitializerListExpr(self, st, n):
        v = self.ev(st, n.inner[0])
        return v

    def e_CXXNewExpr(self, st, n):
        init = n.inner[0] if n.inner else None
        ty = parse_type(n.qt, V.Types.records)
        if init is not None:
            v = self.ev(st, init)
        else:
            v = zero_value(ty[1])
        lv = self.alloc(st, v)
        return Ptr(lv)

    def e_CXXDeleteExpr(self, st, n):
        return Opaque("void")

    def e_LambdaExpr(self, st, n):
        return Closure(n, dict(st.env), st.env.get("this"))

    def e_CXXThrowExpr(self, st, n):
        raise Unsupported("throw inside an expression")

    # ---- construction -----------------------------------------------------------------------------------------
    def mkvec(self, n, v, ety):
        if isinstance(n, int) and n <= 16 and ety != ("struct", "body_soil"):
            return CVec([v] * n, ety)
        elem = self.lift_const(v)
        g = V.default_ghosts(ety, "v", empty=True)
        if isinstance(v, CVec):
            v = V.to_svec(v, ety[1])
        if "sum" in g and isinstance(v, SVec):
            z = self.allzero(v)
            if not z:
                g["sum"] = fresh("sum", T.z(g["sum"]).sort())
        if "where" in g:
            g["where"] = fresh("where", V.nested(I, 3))
        return SVec(n, elem, ety, g)

    def allzero(self, v):
        if isinstance(v, (CVec,)):
            return all(self.allzero(x) for x in v.e)
        if isinstance(v, (Num, Bool)):
            return T.isc(v.t) and not v.t
        if isinstance(v, SVec) and isinstance(v.elem, LNum):
            a = v.elem.a
            if z3.is_const_array(a) if hasattr(z3, "is_const_array") else a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
                x = T.norm(a.arg(0))
                return T.isc(x) and not x
        return False

    def lift_const(self, v):
        if isinstance(v, Num):
            return LNum(z3.K(I, T.z(v.t)), "r" if T.isreal(v.t) else "i", v.dim)
        if isinstance(v, Bool):
            return LNum(z3.K(I, T.z(v.t)), "b")
        if isinstance(v, StructV):
            return LStruct(v.name, {k: self.lift_const(x) for k, x in v.f.items()})
        if isinstance(v, CVec):
            v = V.to_svec(v, v.ety)
        if isinstance(v, SVec):
            return LVec(("u", v.len), self.lift_k(v.elem), v.ety)
        raise Unsupported("vector of %s" % type(v).__name__)

    def lift_k(self, l):
        if isinstance(l, LNum):
            return LNum(z3.K(I, l.a), l.sort, l.dim)
        if isinstance(l, LStruct):
            return LStruct(l.name, {k: self.lift_k(x) for k, x in l.f.items()})
        if isinstance(l, LVec) and isinstance(l.len, tuple):
            return LVec(l.len, self.lift_k(l.elem), l.ety)
        raise Unsupported("ragged vector")

    def e_CXXConstructExpr(self, st, n):
        ty = parse_type(n.qt, V.Types.records)
        args = [c for c in n.inner if c.k != "CXXDefaultArgExpr" or c.inner]
        q = n.qt or ""
        if "uniform_int_distribution" in q:
            a = [self.ev(st, c) for c in args]
            if len(a) == 1 and isinstance(a[0], StructV):
                return a[0]
            return StructV("dist", {"lo": a[0] if a else Num(0), "hi": a[1] if len(a) > 1 else Num(2 ** 31 - 1)})
        if ty[0] in ("vec", "arr", "tuple"):
            return self.construct_vec(st, n, ty, args)
        if ty[0] == "struct":
            return self.construct_struct(st, n, ty, args)
        if ty[0] == "str":
            for c in args:
                v = self.ev(st, c)
                return v
            return Opaque("string")
        if ty[0] == "ptr" and len(args) == 1:
            return self.ev(st, args[0])
        if "__normal_iterator" in q and len(args) == 1:
            return self.ev(st, args[0])
        if "ofstream" in q or "ifstream" in q or "stringstream" in q or "basic_o" in q or "basic_i" in q:
            for c in args:
                self.ev(st, c)
            return self.stream(st, n, args)
        if "lambda" in q and len(args) == 1:
            return self.ev(st, args[0])
        if len(args) == 1:
            v = self.ev(st, args[0])
            if isinstance(v, (Closure, Num, Bool, Opaque)):
                return v
        if not args:
            return Opaque(q)
        raise Unsupported("constructor of %s" % q)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def stream(self, st, n, args):
        return Opaque("stream")

    def construct_vec(self, st, n, ty, args):
        if not args:
            return zero_value(ty)
        vals = [self.ev(st, c) for c in args]
        if ty[0] == "tuple":
            if len(vals) == 1 and isinstance(vals[0], CVec):
                return self.coerce(vals[0], ty)
            return self.from_init(InitList(vals), ty)
        v0 = vals[0]
        if n.get("list") or isinstance(v0, InitList):
            if isinstance(v0, InitList):
                return self.from_init(v0, ty)
        if isinstance(v0, (CVec, SVec)) and (len(vals) == 1 or isinstance(vals[-1], Opaque)):
            if isinstance(v0, CVec) and v0.ety is None:
                return self.coerce(v0, ty)
            return CVec([self.coerce(x, ty[1]) for x in v0.e], ty[1]) if isinstance(v0, CVec) else v0
        if isinstance(v0, Iter):
            return self.range_copy(st, vals[0], vals[1], ty)
        if isinstance(v0, Num):
            x = self.coerce(vals[1], ty[1]) if len(vals) > 1 and not isinstance(vals[1], Opaque) else zero_value(ty[1])
            return self.mkvec(v0.t, x, ty[1])
        raise Unsupported("vector constructor")

    def range_copy(self, st, a, b, ty):
        v = self.read(st, a.lv)
        ln = len(v.e) if isinstance(v, CVec) else v.len
        if T.same(a.idx, 0) and (T.same(b.idx, ln)):
            return v
        if isinstance(v, CVec) and T.isc(a.idx) and T.isc(b.idx):
            return CVec(v.e[a.idx:b.idx], v.ety)
        raise Unsupported("partial range copy")

    def construct_struct(self, st, n, ty, args):
        # copy / move / slicing
        if len(args) == 1:
            v = self.ev(st, args[0])
            if isinstance(v, StructV):
                return v
            vals = [v]
        else:
            vals = [self.ev(st, c) for c in args]
        f = self.find_ctor(ty[1], n, len(vals))
        if f is None:
            if not vals:
                return self.default_struct(st, ty[1])
            return self.from_init(InitList(vals), ty)
        outs = self.run_ctor(st, f, ty[1], vals)
        return self.join(st, outs)

    def default_struct(self, st, name):
        return zero_value(("struct", name))

    def find_ctor(self, name, n, nargs):
        c = [f for f in self.prog.funcs.get(name, []) if f.cls in (None, name) and len(f.params) == nargs and
             (f.body is not None or f.inits)]
        for f in c:
            q = n.get("ctorType")
            q = q.get("qualType") if isinstance(q, dict) else None
            if q and f.qt == q:
                return f
        c = [f for f in c if not (nargs == 1 and name in (f.qt or ""))]
        return c[0] if c else None

    def run_ctor(self, st, f, name, vals):
        """constructor body with member initialisers -> [(state, value, outcome)]"""
        obj = self.alloc(st, zero_value(("struct", name)))
        return self.call_body(st, f, [("v", v) for v in vals], Ptr(obj), ctor=(name, obj))

    def join(self, st, outs):
        """[(state, value, outcome)] -> single value, st mutated to the merged state (throwing paths are recorded)"""
        norm = [(s, v) for s, v, o in outs if o is None]
        thr = [(s, v) for s, v, o in outs if o == "throw"]
        if thr:
            raise Unsupported("exception inside an expression")
        if not norm:
            st.assume(False)
            return Opaque("dead")
        if len(norm) == 1:
            st.become(norm[0][0])
            return norm[0][1]
        tmp = self.nloc + 1
        self.nloc += 1
        for s, v in norm:
            s.store[tmp] = v if v is not None else Opaque("void")
        m = self.merge_states([s for s, v in norm])
        st.become(m)
        return st.store.pop(tmp)

    # ---- calls --------------------------------------------------------------------------------------------------
    def user_target(self, st, m):
        """the repository function (or closure) a call refers to, or None for the standard library"""
        if m.k == "CXXOperatorCallExpr":
            if self.opname(m) == "()":
                o = m.inner[1]
                x = o
                while x.k in self.WRAP and x.inner:
                    x = x.inner[0]
                if x.k == "DeclRefExpr" and x.ref.get("id") in st.env:
                    v = self.read(st, st.env[x.ref.get("id")])
                    if isinstance(v, Closure):
                        return v
                if x.k == "LambdaExpr":
                    return self.ev(st, x)
            return None
        c = m.inner[0]
        while c.k in ("ImplicitCastExpr", "ParenExpr") and c.inner:
            c = c.inner[0]
        if m.k == "CXXMemberCallExpr":
            if c.k != "MemberExpr":
                return None
            rid = c.get("referencedMemberDecl")
            f = self.prog.byid.get((self.cur_tu, rid))
            if f is not None and f.body is None:
                f = self.prog.find(f.name, f.qt)
            return f
        if c.k != "DeclRefExpr":
            return None
        r = c.ref
        nm = r.get("name")
        f = self.prog.byid.get((self.cur_tu, r.get("id")))
        if f is not None and f.body is not None:
            return f
        qt = (r.get("type") or {}).get("qualType")
        if f is not None or nm in self.prog.funcs:
            g = self.prog.find(nm, qt, self.cur_tu)
            if g is not None and g.body is not None:
                return g
        if nm in STD:
            return None
        self.prog.fetch(self.cur_tu, nm)
        f = self.prog.byid.get((self.cur_tu, r.get("id")))
        if f is not None and f.body is not None:
            return f
        if nm in self.prog.funcs:
            g = self.prog.find(nm, qt, self.cur_tu)
            if g is not None and g.body is not None:
                return g
        return None

    def call_user(self, st, m, f, fork=True):
        """-> [(state, value, outcome)]"""
        args = m.inner[1:]
        this = None
        if m.k == "CXXMemberCallExpr":
            me = m.inner[0]
            while me.k in ("ImplicitCastExpr", "ParenExpr"):
                me = me.inner[0]
            base = me.inner[0]
            if me.get("isArrow"):
                this = self.ev(st, base)
            else:
                this = Ptr(self.lval(st, base))
        elif m.k == "CXXOperatorCallExpr":
            args = m.inner[2:]
        if isinstance(f, Closure):
            return self.call_closure(st, f, args)
        bound = []
        for p, a in zip(f.params, args):
            bound.append(self.bind_arg(st, p, a))
        return self.dispatch(st, f, bound, this, m.line)

    def bind_arg(self, st, p, a):
        q = (p.qt0 or "").rstrip()
        q2 = (p.qt or "").rstrip()
        if a.k == "CXXDefaultArgExpr" and not a.inner:
            d = [c for c in p.inner if not (c.k or "").endswith("Attr")]
            if not d:
                raise Unsupported("default argument")
            a = d[0]
        if q.endswith("&") or q2.endswith("&"):
            if self.is_lvalue(a):
                return ("ref", self.lval(st, a))
            x = a
            while x.k in ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ImplicitCastExpr") and x.inner and not self.is_lvalue(x):
                if x.k == "ImplicitCastExpr" and x.get("castKind") not in ("NoOp", "DerivedToBase"):
                    break
                x = x.inner[0]
            return ("ref", self.alloc(st, self.coerce(self.ev(st, a), parse_type(p.qt, V.Types.records))))
        v = self.ev(st, a)
        ty = parse_type(p.qt, V.Types.records)
        return ("v", self.coerce(v, ty))

    def dispatch(self, st, f, bound, this, line):
        c = self.contracts.get(f) if self.contracts else None
        if c is not None:
            self.used_contracts.add(c.name)
            return c.apply(self, st, f, bound, line)
        if len(self.callstack) > 14 or self.callstack.count(f.name) > 2:
            raise Unsupported("recursion through %s" % f.name)
        self.inlined.add(f.name)
        return self.call_body(st, f, bound, this)

    def call_closure(self, st, cl, args):
        rec = next((c for c in cl.node.inner if c.k == "CXXRecordDecl"), None)
        meth = None
        if rec:
            for c in rec.inner:
                if c.k == "CXXMethodDecl" and c.name == "operator()":
                    meth = c
                elif c.k == "FunctionTemplateDecl" and c.name == "operator()":
                    for d in c.inner:
                        if d.k == "CXXMethodDecl" and any(x.k == "CompoundStmt" for x in d.inner):
                            meth = d
        if meth is None:
            raise Unsupported("lambda without a body")
        from frontend import Func
        f = Func(meth, self.cur_tu)
        if f.body is None:
            f.body = next((c for c in cl.node.inner if c.k == "CompoundStmt"), None)
        bound = [self.bind_arg(st, p, a) for p, a in zip(f.params, args)]
        return self.call_body(st, f, bound, cl.this, env=cl.env)

    def call_body(self, st, f, bound, this, env=None, ctor=None):
        saved_env, saved_tu = st.env, self.cur_tu
        newenv = dict(env) if env else {}
        for p, (kind, v) in zip(f.params, bound):
            newenv[p.get("id")] = v if kind == "ref" else self.alloc(st, v)
        if this is not None:
            newenv["this"] = this
        st.env = newenv
        self.cur_tu = f.tu
        self.callstack.append(f.name)
        rq = (f.ret or "").strip()
        isref = rq.endswith("&")
        self.retref = getattr(self, "retref", [])
        self.retref.append(isref)
        try:
            states = [(st, None, None)]
            if ctor:
                states = self.run_inits(st, f, ctor)
            outs = []
            for s, o, v in states:
                if o:
                    outs.append((s, o, v))
                    continue
                if f.body is None:
                    outs.append((s, None, None))
                else:
                    outs += self.stmt(s, f.body)
        finally:
            self.callstack.pop()
            self.retref.pop()
            self.cur_tu = saved_tu
        res = []
        rty = parse_type(rq, V.Types.records)
        for s, o, v in outs:
            s.env = saved_env
            if o == "throw":
                res.append((s, v, "throw"))
            elif ctor:
                res.append((s, self.read(s, ctor[1]), None))
            else:
                if v is not None and not isref and rty[0] not in ("other", "void"):
                    v = self.coerce(v, rty)
                res.append((s, v, None))
        return res

    def run_inits(self, st, f, ctor):
        name, obj = ctor
        for c in f.inits:
            ai = c.get("anyInit") or {}
            bi = c.get("baseInit")
            e = c.inner[0] if c.inner else None
            if e is None:
                continue
            if bi:
                x = e
                while x.k in self.WRAP and x.inner:
                    x = x.inner[0]
                if x.k in ("CXXConstructExpr",):
                    bn = (bi.get("desugaredQualType") or bi.get("qualType")).replace("soil_simulator::", "")
                    vals = [self.ev(st, a) for a in x.inner]
                    g = self.find_ctor(bn, x, len(vals))
                    if g is None:
                        raise Unsupported("base constructor of %s" % bn)
                    outs = self.call_body(st, g, [("v", v) for v in vals], Ptr(obj), ctor=(bn, obj))
                    res = []
                    if len(f.inits) > 1 and len(outs) > 1:
                        raise Unsupported("branching base constructor followed by initialisers")
                    return [(s, o, v) for s, v, o in outs]
                continue
            fn = ai.get("name")
            v = self.ev(st, e)
            fty = next((t for a, t, d in V.Types.fields(name) if a == fn), None)
            self.write(st, (obj[0], obj[1] + (("f", fn),)), self.coerce(v, fty) if fty else v)
        return [(st, None, None)]

    def e_CallExpr(self, st, n):
        f = self.user_target(st, n)
        if f is not None:
            v = self.join(st, self.call_user(st, n, f))
            return v
        return self.std_call(st, n)

    def e_CXXMemberCallExpr(self, st, n):
        f = self.user_target(st, n)
        if f is not None:
            return self.join(st, self.call_user(st, n, f))
        me = n.inner[0]
        while me.k in ("ImplicitCastExpr", "ParenExpr"):
            me = me.inner[0]
        nm = me.name
        base = me.inner[0]
        if me.get("isArrow"):
            p = self.ev(st, base)
            if isinstance(p, Iter):
                lv = self.index(st, p.lv, p.idx, n.line)
            elif isinstance(p, Ptr):
                lv = p.lv
            else:
                return Opaque("void")
        else:
            lv = self.lval(st, base) if self.is_lvalue(base) else self.alloc(st, self.ev(st, base))
        return self.method(st, n, nm, lv, n.inner[1:])

    def veclen(self, v):
        return len(v.e) if isinstance(v, CVec) else v.len

    def method(self, st, n, nm, lv, args):
        v = self.read(st, lv)
        if isinstance(v, (CVec, SVec)):
            ln = self.veclen(v)
            if nm in ("size", "length"):
                return Num(ln)
            if nm == "empty":
                return Bool(T.eq(ln, 0))
            if nm in ("begin", "cbegin"):
                return Iter(lv, 0)
            if nm in ("end", "cend"):
                return Iter(lv, ln)
            if nm in ("push_back", "emplace_back"):
                ety = self.ety(v, lv)
                vals = [self.ev(st, a) for a in args]
                if len(vals) == 1:
                    x = self.coerce(vals[0], ety) if ety else vals[0]
                else:
                    x = None
                    if ety and ety[0] == "struct":
                        f = [g for g in self.prog.funcs.get(ety[1], []) if g.cls == ety[1] and len(g.params) == len(vals)]
                        x = self.join(st, self.run_ctor(st, f[0], ety[1], vals)) if f else self.from_init(InitList(vals), ety)
                    elif ety:
                        x = self.mkvec(vals[0].t, vals[1], ety[1]) if len(vals) == 2 else None
                    if x is None:
                        raise Unsupported("emplace_back")
                v = self.read(st, lv)
                if isinstance(v, CVec) and not (x.__class__ is StructV and x.name == "body_soil"):
                    self.write(st, lv, CVec(v.e + [x], v.ety or ety))
                else:
                    if isinstance(v, CVec):
                        v = V.to_svec(v, v.ety or ety)
                    self.push(st, lv, v, x)
                return Opaque("void")
            if nm == "pop_back":
                if isinstance(v, CVec):
                    self.write(st, lv, CVec(v.e[:-1], v.ety))
                    return Opaque("void")
                if "LT" in v.g:
                    last = V.lower(v.elem, T.sub(v.len, 1))
                    self.write(st, lv, SVec(T.sub(v.len, 1), v.elem, v.ety, V.led_add(v.g, last, -1)))
                    return Opaque("void")
                raise Unsupported("pop_back")
            if nm == "clear":
                ety = self.ety(v, lv)
                self.write(st, lv, V.empty_svec(ety) if ety == ("struct", "body_soil") else CVec([], ety))
                return Opaque("void")
            if nm in ("reserve", "shrink_to_fit"):
                for a in args:
                    self.ev(st, a)
                return Opaque("void")
            if nm == "erase":
                its = [self.ev(st, a) for a in args]
                if len(its) == 2 and T.same(its[0].idx, 0) and T.same(its[1].idx, ln):
                    return self.method(st, n, "clear", lv, [])
                raise Unsupported("partial erase")
            if nm in ("resize", "assign"):
                vals = [self.ev(st, a) for a in args]
                ety = self.ety(v, lv)
                if nm == "assign" and isinstance(vals[0], Iter):
                    self.write(st, lv, self.range_copy(st, vals[0], vals[1], None))
                    return Opaque("void")
                x = self.coerce(vals[1], ety) if len(vals) > 1 else zero_value(ety)
                if T.same(ln, 0) or nm == "assign":
                    self.write(st, lv, self.mkvec(vals[0].t, x, ety))
                elif isinstance(v, CVec) and isinstance(vals[0].t, int):
                    e = v.e[:vals[0].t]
                    e += [x] * (vals[0].t - len(e))
                    self.write(st, lv, CVec(e, ety))
                else:
                    raise Unsupported("resize")
                return Opaque("void")
            if nm == "insert":
                its = [self.ev(st, a) for a in args]
                if len(its) == 3 and isinstance(its[1], Iter) and T.same(its[0].idx, ln):
                    w = self.read(st, its[1].lv)
                    if T.same(its[1].idx, 0) and T.same(its[2].idx, self.veclen(w)):
                        self.concat(st, lv, v, w, its[1].lv)
                        return Opaque("void")
                raise Unsupported("insert")
            if nm == "swap":
                lv2 = self.lval(st, args[0])
                w = self.read(st, lv2)
                self.write(st, lv2, v)
                self.write(st, lv, w)
                return Opaque("void")
            if nm in ("back", "front", "at"):
                return self.read(st, self.lval(st, n))
            if nm == "data":
                return Iter(lv, 0)
        for a in args:
            try:
                self.ev(st, a)
            except Unsupported:
                pass
        if isinstance(v, StrDigits) and nm in ("at",):
            i = self.ev(st, args[0])
            return self.read(st, self.index(st, lv, i.t, n.line))
        if isinstance(v, Opaque):
            return self.opaque_method(st, n, nm, lv, v, args)
        if isinstance(v, StructV) and nm.startswith("operator="):
            return v
        raise Unsupported("method %s on %s" % (nm, type(v).__name__))

    def opaque_method(self, st, n, nm, lv, v, args):
        ty = parse_type(n.qt, V.Types.records)
        if ty[0] in ("num", "bool"):
            return fresh_value(ty, nm)
        return Opaque(v.what)

    def ety(self, v, lv=None):
        if isinstance(v, SVec):
            return v.ety
        if v.ety is not None and v.ety[0] != "tuple":
            return v.ety
        if v.e:
            return V.elem_type(v.e[0])
        return None

    def push(self, st, lv, v, x):
        idx = v.len
        V.Grid.st = st
        nv = V.push(v, x)
        if isinstance(x, StructV):
            g = dict(nv.g)
            for k in v.g:
                if k not in g:
                    g[k] = v.g[k]
            for k in [k[2:] for k in g if k.startswith("S:")]:
                suffix_add(g, k, x, +1)
            if "src" in g and self.cursors:
                # which parcel of the list being walked this one comes from
                k = self.read(st, self.cursors[0]).t
                g["src"], g["dst"] = V.aset(g["src"], (idx,), T.z(k)), V.aset(g["dst"], (k,), T.z(idx))
            nv = SVec(nv.len, nv.elem, nv.ety, g)
        self.write(st, lv, nv)
        st.touch("list:%s" % self.listkey(lv), (idx,))

    def concat(self, st, lv, v, w, wlv):
        """v.insert(v.end(), w.begin(), w.end())"""
        if isinstance(w, CVec) and isinstance(v, CVec) and v.ety != ("struct", "body_soil"):
            self.write(st, lv, CVec(v.e + w.e, v.ety or w.ety))
            return
        if isinstance(w, CVec):
            for x in w.e:
                self.push(st, lv, self.read(st, lv), x)
            return
        ety = w.ety
        if isinstance(v, CVec):
            v = V.to_svec(v, ety)
        nl = T.add(v.len, w.len)
        r = V.svec_fresh(ety, "cat", nl)
        r = SVec(nl, r.elem, ety, r.g)
        if "LT" in v.g:
            L = fresh("L", V.nested(z3.RealSort(), 3))
            C = fresh("C", V.nested(I, 3))
            r.g["LT"] = T.add(v.g["LT"], w.g["LT"])
            r.g["L"], r.g["C"] = L, C
            vg, wg = v.g, w.g
            for l in (0, 2):
                st.facts.append(Fact("cell", lambda i, j, l=l: T.land(
                    T.eq(V.aget(L, l, i, j), T.add(V.aget(vg["L"], l, i, j), V.aget(wg["L"], l, i, j))),
                    T.eq(V.aget(C, l, i, j), T.add(V.aget(vg["C"], l, i, j), V.aget(wg["C"], l, i, j)))), "concat"))
        key = "list:" + self.listkey(lv)
        wkey = "list:" + self.listkey(wlv)
        vl, ve, we, re_ = v.len, v.elem, w.elem, r.elem

        def fact(k):
            return T.land(T.limp(T.land(T.le(0, k), T.lt(k, vl)), self.eqv(V.lower(re_, k), V.lower(ve, k))),
                          T.limp(T.land(T.le(vl, k), T.lt(k, nl)), self.eqv(V.lower(re_, k), V.lower(we, T.sub(k, vl)))))
        st.facts.append(Fact(key, fact, "concat", link=(wkey, lambda p: (T.sub(p[0], vl),))))
        st.facts.append(Fact(wkey, lambda k: T.limp(T.land(T.le(0, k), T.lt(k, T.sub(nl, vl))),
                                                    self.eqv(V.lower(re_, T.add(k, vl)), V.lower(we, k))), "concat"))
        # transport ∀-entry facts of both parts
        self.write(st, lv, r)
        self.carry_list(st, key, r, [(v, lv), (w, wlv)])

    def carry_list(self, st, key, r, parts):
        pass

    def eqv(self, a, b):
        if isinstance(a, (Num,)) and isinstance(b, Num):
            return T.eq(a.t, b.t)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return T.eq(a.t, b.t)
        if isinstance(a, StructV):
            return T.land(*[self.eqv(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, SVec) and isinstance(b, SVec):
            return T.land(T.eq(a.len, b.len), *self.eql(a.elem, b.elem))
        if isinstance(a, CVec) and isinstance(b, CVec):
            return T.land(len(a.e) == len(b.e), *[self.eqv(x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, (CVec, SVec)) and isinstance(b, (CVec, SVec)):
            return self.eqv(V.to_svec(a, b.ety if isinstance(b, SVec) else None), V.to_svec(b, a.ety))
        return True

    def equal_numbers(self, st, a, b):
        """vectors of numbers of any length: decided by the elements up to three, left open beyond"""
        if not (isinstance(a, SVec) or isinstance(b, SVec)):
            return None
        a, b = [V.to_svec(x, (y.ety if isinstance(y, SVec) else None)) if isinstance(x, CVec) else x for x, y in ((a, b), (b, a))]
        if not (isinstance(a, SVec) and isinstance(b, SVec) and isinstance(a.elem, LNum) and isinstance(b.elem, LNum)):
            return None
        r = fresh("eqv", B)
        at = lambda v, k: V.lower(v.elem, k).t
        same = [T.limp(T.lt(k, a.len), T.eq(at(a, k), at(b, k))) for k in range(3)]
        st.assume(T.limp(r, T.land(T.eq(a.len, b.len), *same)))
        st.assume(T.limp(T.land(T.eq(a.len, b.len), T.le(a.len, 3), *same), r))
        return r

    def eql(self, a, b):
        if isinstance(a, LNum):
            return [a.a == b.a] if not a.a.eq(b.a) else []
        if isinstance(a, LStruct):
            return [x for k in a.f for x in self.eql(a.f[k], b.f[k])]
        return self.eql(a.elem, b.elem)

    # ---- operators on objects -------------------------------------------------------------------------------
    def e_CXXOperatorCallExpr(self, st, n):
        op = self.opname(n)
        if op == "()":
            t = self.user_target(st, n)
            if t is not None:
                return self.join(st, self.call_user(st, n, t))
            o = self.ev(st, n.inner[1])
            if isinstance(o, StructV) and o.name == "dist":
                r = fresh("rnd", I)
                st.assume(z3.And(T.z(T.le(o.f["lo"].t, r)), T.z(T.le(r, o.f["hi"].t))))
                return Num(r)
            if isinstance(o, Closure):
                return self.join(st, self.call_closure(st, o, n.inner[2:]))
            raise Unsupported("call of %s" % type(o).__name__)
        if op == "[]":
            b = n.inner[1]
            if self.is_lvalue(b):
                return self.read(st, self.lval(st, n))
            return self.read(st, self.lval(st, n))
        if op == "=":
            lhs, rhs = n.inner[1], n.inner[2]
            x = lhs
            while x.k in self.WRAP and x.inner:
                x = x.inner[0]
            v = self.ev(st, rhs)
            if x.k == "CallExpr" and self.calleename(x) == "tie":
                vals = v.e
                for tgt, w in zip(x.inner[1:], vals):
                    if self.calleename_safe(tgt) == "ignore":
                        continue
                    self.write(st, self.lval(st, tgt), self.coerce(w, parse_type(tgt.qt, V.Types.records)))
                return v
            ty = parse_type(lhs.qt, V.Types.records)
            if isinstance(v, Iter) or ty[0] == "str" or isinstance(v, Opaque):
                self.write(st, self.lval(st, lhs), v)
                return v
            v = self.coerce(v, ty)
            self.write(st, self.lval(st, lhs), v)
            return v
        if op in ("++", "--"):
            lv = self.lval(st, n.inner[1])
            a = self.read(st, lv)
            if isinstance(a, Iter):
                b = Iter(a.lv, T.add(a.idx, 1) if op == "++" else T.sub(a.idx, 1))
                self.write(st, lv, b)
                return a if len(n.inner) > 2 else b
        if op == "*":
            return self.read(st, self.lval(st, n))
        if op in ("<<", ">>"):
            return self.shift(st, n, op)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.ev(st, n.inner[1]), self.ev(st, n.inner[2])
            if isinstance(a, (Iter, Num, Bool)):
                return self.binop(op, a, b)
            if isinstance(a, (CVec, SVec)) and op in ("==", "!="):
                e = self.equal_numbers(st, a, b)
                if e is None:
                    e = self.eqv(a, b)
                return Bool(e if op == "==" else T.lnot(e))
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Bool(fresh("opq", B))
            raise Unsupported("compare %s" % type(a).__name__)
        if op in ("+", "-"):
            a, b = self.ev(st, n.inner[1]), self.ev(st, n.inner[2])
            if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, StrDigits) or isinstance(b, StrDigits):
                return Opaque("string")
            return self.binop(op, a, b)
        if op == "!":
            return Bool(fresh("opq", B))
        if op in ("+=", "-="):
            lv = self.lval(st, n.inner[1])
            a = self.read(st, lv)
            b = self.ev(st, n.inner[2])
            if isinstance(a, Opaque):
                return a
            r = self.binop(op[0], a, b)
            self.write(st, lv, r)
            return r
        raise Unsupported("operator %s" % op)

    def calleename_safe(self, n):
        x = n
        while x.k in self.WRAP and x.inner:
            x = x.inner[0]
        return (x.ref or {}).get("name") if x.k == "DeclRefExpr" else None

    def shift(self, st, n, op):
        if self.is_log(n):
            return Opaque("stream")
        # evaluate the operands for their bounds obligations
        a = n.inner[1]
        try:
            self.ev(st, a)
        except Unsupported:
            pass
        self.ev(st, n.inner[2])
        return Opaque("stream")

    # ---- standard library ---------------------------------------------------------------------------------------
    def real1(self, st, name, v):
        t = T.toreal(v.t)
        f = realfn(name)
        r = f(T.z(t))
        if name == "sqrt":
            if T.isc(t):
                from math import isqrt
                a, b = Fraction(t).numerator, Fraction(t).denominator
                if a >= 0 and isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
                    return Num(Fraction(isqrt(a), isqrt(b)), v.dim)
            if T.Mode.unit and T.isc(t) and t > 0:
                m = isqrt(int(t * 10**14))
                self.add_side(z3.And(r >= z3.Q(m, 10**7), r <= z3.Q(m + 1, 10**7)))
            self.add_side(z3.Implies(T.z(t) >= 0, z3.And(r >= 0, z3.Implies(T.z(t) > 0, r > 0))))
            if T.Mode.poly:
                self.add_side(z3.Implies(T.z(t) >= 0, r * r == T.z(t)))
            return Num(r, None if v.dim is None else Fraction(v.dim, 2))
        if name == "tan":
            self.add_side(z3.Implies(z3.And(T.z(t) >= 0, T.z(t) <= PI / 2), r >= 0))
            self.add_side(z3.And(PI > z3.Q(314, 100), PI < z3.Q(315, 100)))
        if name in ("sin", "cos"):
            self.add_side(z3.And(r >= -1, r <= 1))
            if T.Mode.poly:
                s, c = realfn("sin")(T.z(t)), realfn("cos")(T.z(t))
                self.add_side(s * s + c * c == 1)
        return Num(r, 0)

    def std_call(self, st, n):
        nm = self.calleename(n)
        args = n.inner[1:]
        if nm in ("swap", "iter_swap"):
            a, b = self.lval(st, args[0]), self.lval(st, args[1])
            if nm == "iter_swap":
                raise Unsupported(nm)
            if self.perm_swap(st, a, b):
                return Opaque("void")
            x, y = self.read(st, a), self.read(st, b)
            pre = None
            if a[0] == b[0] and a[1] and b[1] and a[1][:-1] == b[1][:-1] and a[1][-1][0] == "i" and b[1][-1][0] == "i":
                pre = self.read(st, (a[0], a[1][:-1]))
            self.write(st, a, y)
            self.write(st, b, x)
            if isinstance(pre, SVec) and "LT" in pre.g and not any(k.startswith("S:") for k in pre.g):
                # exchanging two entries does not change what the list adds up to
                lv = (a[0], a[1][:-1])
                v = self.read(st, lv)
                g = dict(v.g)
                for k in ("L", "C", "LT"):
                    g[k] = pre.g[k]
                self.write_raw(st, lv, SVec(v.len, v.elem, v.ety, g))
            return Opaque("void")
        if nm in ("sort", "stable_sort"):
            return self.std_sort(st, n, args)
        if nm == "fill":
            a, b = self.ev(st, args[0]), self.ev(st, args[1])
            v = self.ev(st, args[2])
            c = self.read(st, a.lv)
            if T.same(a.idx, 0) and T.same(b.idx, self.veclen(c)):
                ety = self.ety(c)
                self.write(st, a.lv, CVec([self.coerce(v, ety)] * len(c.e), ety) if isinstance(c, CVec) else self.mkvec(c.len, self.coerce(v, ety), ety))
                return Opaque("void")
            raise Unsupported("fill")
        if nm == "iota":
            a, b, x = self.ev(st, args[0]), self.ev(st, args[1]), self.ev(st, args[2])
            c = self.read(st, a.lv)
            ety = self.ety(c)
            if not (T.same(a.idx, 0) and T.same(b.idx, self.veclen(c)) and ety and ety[0] == "num"):
                raise Unsupported("iota")
            if isinstance(c, CVec):
                self.write(st, a.lv, CVec([self.coerce(Num(T.add(x.t, k), x.dim), ety) for k in range(len(c.e))], ety))
            else:
                r = V.svec_fresh(ety, "iota", c.len)
                st.facts.append(Fact("list:" + self.listkey(a.lv), lambda k, r=r, n=c.len, x0=x.t: T.limp(
                    T.land(T.le(0, k), T.lt(k, n)), T.eq(V.lower(r.elem, k).t, T.add(x0, k))), "iota"))
                self.write(st, a.lv, r)
            return Opaque("void")
        if nm in ("shuffle",):
            raise Unsupported(nm)
        if nm in ("begin", "cbegin", "end", "cend", "size", "empty"):
            lv = self.lval(st, args[0])
            return self.method(st, n, nm, lv, [])
        if nm in ("move", "forward", "as_const"):
            return self.ev(st, args[0])
        if nm == "get":
            return self.read(st, self.lval(st, n))
        if nm in ("make_tuple", "make_pair"):
            return CVec([self.ev(st, a) for a in args])
        if nm == "current" or nm in ("exists",):
            return Opaque("loc")
        v = [self.ev(st, a) for a in args]
        if nm == "to_string":
            x = v[0].t
            if T.isc(x) and 10 <= x <= 99:
                return StrDigits(x)
            return StrDigits(x)
        if nm in ("min", "max", "fmin", "fmax") and v:
            f = T.tmin if nm.endswith("min") else T.tmax
            if isinstance(v[0], CVec):
                r = v[0].e[0]
                for x in v[0].e[1:]:
                    a, b, d = self.align(r, x)
                    r = Num(f(a, b), d)
                return r
            a, b, d = self.align(v[0], v[1])
            return Num(f(a, b), d)
        if nm == "clamp":
            a, b, d = self.align(v[0], v[1])
            x = Num(T.tmax(a, b), d)
            a, b, d = self.align(x, v[2])
            return Num(T.tmin(a, b), d)
        x = v[0] if v else None
        if not v and nm in ("max", "infinity") and "float" in (n.qt or "float"):
            # the largest float: no distance reaches it
            self.fmax = z3.Real("largest float")
            self.add_side(self.fmax > 0)
            return Num(self.fmax, 1)
        if isinstance(x, Bool):
            x = Num(T.ite(x.t, 1, 0))
        if nm in ("floor", "floorf"):
            return Num(T.toreal(T.floor(T.toreal(x.t))), x.dim)
        if nm == "ceil":
            return Num(T.toreal(T.ceil(T.toreal(x.t))), x.dim)
        if nm in ("round", "nearbyint", "rint", "roundf"):
            return Num(T.toreal(T.cround(T.toreal(x.t))), x.dim)
        if nm in ("lround", "llround"):
            return Num(T.cround(T.toreal(x.t)), x.dim)
        if nm == "trunc":
            return Num(T.toreal(T.trunc(x.t)), x.dim)
        if nm in ("abs", "fabs", "fabsf"):
            r = T.tabs(x.t)
            if getattr(self, "fmax", None) is not None and T.isreal(r) and not T.isc(r):
                self.add_side(T.z(r) < self.fmax)
            return Num(r, x.dim)
        if nm in ("sqrt", "sqrtf"):
            return self.real1(st, "sqrt", x)
        if nm in ("tan", "sin", "cos", "atan", "asin", "acos", "exp", "log"):
            return self.real1(st, nm, x)
        if nm == "hypot":
            s = self.binop("*", x, x)
            for y in v[1:]:
                s = self.binop("+", s, self.binop("*", y, y))
            return self.real1(st, "sqrt", s)
        if nm == "pow":
            if T.isc(v[1].t) and v[1].t == 2:
                return self.binop("*", x, x)
            return Num(realfn("pow", 2)(T.z(T.toreal(x.t)), T.z(T.toreal(v[1].t))), 0)
        if nm in ("atan2", "fmod"):
            return Num(realfn(nm, 2)(T.z(T.toreal(x.t)), T.z(T.toreal(v[1].t))), 0)
        if nm == "copysign":
            y = v[1]
            a = T.tabs(T.toreal(x.t))
            # the sign of zero is unspecified here
            if T.isc(y.t) and y.t != 0:
                return Num(a if y.t > 0 else T.neg(a), x.dim)
            z = fresh("signzero", B)
            return Num(T.ite(T.lor(T.gt(y.t, 0), T.land(T.eq(y.t, 0), z)), a, T.neg(a)), x.dim)
        if nm == "signbit":
            return Bool(T.lt(x.t, 0))
        if nm in ("isnan",):
            return Bool(False)
        if nm in ("isfinite",):
            return Bool(True)
        raise Unsupported("call of %s" % nm)

    def perm_swap(self, st, a, b):
        """swap of two elements of a small vector of constant tuples, at least one index symbolic: any permutation"""
        if a[0] != b[0] or not a[1] or not b[1] or a[1][:-1] != b[1][:-1] or a[1][-1][0] != "i" or b[1][-1][0] != "i":
            return False
        if isinstance(a[1][-1][1], int) and isinstance(b[1][-1][1], int):
            return False
        lv = (a[0], a[1][:-1])
        v = self.read(st, lv)
        if not isinstance(v, CVec):
            return False
        base = self.permbase(v)
        if base is None:
            return False
        self.write(st, lv, self.fresh_perm(st, base, v.ety))
        return True

    def permbase(self, v):
        pb = self.perms.get(id(v))
        if pb is not None and pb[0] is v:
            return pb[1]
        if all(isinstance(x, CVec) and all(isinstance(y, Num) and isinstance(y.t, int) for y in x.e) for x in v.e):
            return tuple(tuple(y.t for y in x.e) for x in v.e)
        return None

    def fresh_perm(self, st, base, ety):
        n = len(base)
        sel = [fresh("perm", I) for _ in range(n)]
        for x in sel:
            st.assume(z3.And(x >= 0, x < n))
        st.assume(z3.Distinct(*sel))
        if self.opts.get("reach"):
            for k in range(n):
                st.assume(z3.Or(*[x == k for x in sel]))
        out = []
        for x in sel:
            comp = []
            for c in range(len(base[0])):
                t = base[n - 1][c]
                for k in range(n - 2, -1, -1):
                    t = T.ite(T.eq(x, k), base[k][c], t)
                comp.append(Num(t))
            out.append(CVec(comp, ("num", "i")))
        v = CVec(out, ety)
        self.perms[id(v)] = (v, base)
        return v

    def std_sort(self, st, n, args):
        a, b = self.ev(st, args[0]), self.ev(st, args[1])
        if len(args) > 2:
            raise Unsupported("sort with comparator")
        c = self.read(st, a.lv)
        if isinstance(c, CVec):
            raise Unsupported("sort of a small vector")
        if not (T.same(a.idx, 0) and T.same(b.idx, c.len)):
            raise Unsupported("partial sort")
        r = V.svec_fresh(c.ety, "sorted", c.len, uni=None)
        if isinstance(c.elem, LVec) and isinstance(c.elem.len, tuple):
            r = SVec(c.len, LVec(c.elem.len, r.elem.elem, r.elem.ety), c.ety, r.g)
        else:
            r = SVec(c.len, r.elem, c.ety, r.g)
        for k in ("LT", "L", "C", "sum"):
            if k in c.g:
                r.g[k] = c.g[k]
        key = "list:" + self.listkey(a.lv)
        p = z3.Function("perm!%d" % next(V._cnt), I, I)
        q = z3.Function("perminv!%d" % next(V._cnt), I, I)
        ln = c.len
        st.facts.append(Fact(key, lambda k: T.limp(T.land(T.le(0, k), T.lt(k, ln)), T.land(
            T.le(0, p(T.z(k))), T.lt(p(T.z(k)), ln), self.eqv(V.lower(r.elem, k), V.lower(c.elem, p(T.z(k)))))), "sorted-from"))
        st.facts.append(Fact(key, lambda k: T.limp(T.land(T.le(0, k), T.lt(k, ln)), T.land(
            T.le(0, q(T.z(k))), T.lt(q(T.z(k)), ln), self.eqv(V.lower(r.elem, q(T.z(k))), V.lower(c.elem, k)))), "sorted-all"))

        # lexicographic order between neighbours
        def ordered(k):
            x, y = V.lower(r.elem, T.sub(k, 1)), V.lower(r.elem, k)
            return T.limp(T.land(T.le(1, k), T.lt(k, ln)), lexle(x, y))

        def lexle(x, y):
            if isinstance(x, SVec) and isinstance(x.elem, LNum):
                m = x.len if isinstance(x.len, int) else 3
                t = True
                for d in range(m - 1, -1, -1):
                    p_, q_ = T.norm(V.sel(x.elem.a, d)), T.norm(V.sel(y.elem.a, d))
                    t = T.lor(T.lt(p_, q_), T.land(T.eq(p_, q_), t))
                return t
            return True
        st.facts.append(Fact(key, ordered, "sorted"))
        st.ghost = dict(st.ghost)
        self.write(st, a.lv, r)
        return Opaque("void")
