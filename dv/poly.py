"""Algebraic back end: equalities and signs of rational functions over the reals.

A goal is proved by exact computation in Q(atoms): the defining equations among the assumptions (linear in a new symbol)
are substituted, square roots and sines are reduced with s*s = t and s*s + c*c = 1, every denominator met is shown to be
different from zero, and the numerator of the goal has to vanish (equality) or to be a product of factors of known sign
(inequality). Nothing is decided numerically; a goal that is not shown is left to the other back ends."""
import time
from fractions import Fraction
import z3
from sympy.polys.rings import ring
from sympy.polys.domains import QQ


class Give(Exception):
    pass


def conj(t, out):
    if z3.is_and(t):
        for x in t.children():
            conj(x, out)
    else:
        out.append(t)
    return out


OPS = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL}


class Alg:
    def __init__(self, assume, side, goals, deadline):
        self.deadline = deadline
        self.raw = list(assume) + list(side)
        self.eqs, self.signs, self.impl = [], [], []
        for t in self.raw:
            for c in conj(t, []):
                self.sort(c)
        self.atoms, self.index, self.seen = [], {}, set()
        self.sqrts, self.cosines, self.trig = {}, {}, {}
        for t in self.eqs + [g for g in self.signs] + list(goals):
            self.collect(t)
        for i, a in self.impl:
            self.collect(i), self.collect(a)
        self.R = ring(["x%d" % k for k in range(max(1, len(self.atoms)))], QQ)
        self.gens = self.R[1:]
        self.R = self.R[0]
        self.one, self.zero = self.R.one, self.R.zero
        self.env = {}
        self.cache = {}
        self.pos = []          # polynomials known to be positive
        self.nn = []           # polynomials known not to be negative
        self.nz = {}           # polynomials known not to be zero
        self.started = False

    def sort(self, c):
        if z3.is_eq(c) and z3.is_real(c.arg(0)):
            self.eqs.append(c)
        elif z3.is_not(c) and z3.is_eq(c.arg(0)) and z3.is_real(c.arg(0).arg(0)):
            self.signs.append(c)
        elif z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) and z3.is_real(c.arg(0)):
            self.signs.append(c)
        elif z3.is_not(c) and z3.is_app(c.arg(0)) and c.arg(0).decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) and z3.is_real(c.arg(0).arg(0)):
            a, k = c.arg(0), c.arg(0).decl().kind()
            x, y = a.arg(0), a.arg(1)
            self.signs.append({z3.Z3_OP_LT: x >= y, z3.Z3_OP_LE: x > y, z3.Z3_OP_GT: x <= y, z3.Z3_OP_GE: x < y}[k])

    def collect(self, t):
        if t.get_id() in self.seen:
            return
        self.seen.add(t.get_id())
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return
        if z3.is_eq(t) or z3.is_not(t) or z3.is_and(t) or z3.is_or(t) or z3.is_implies(t) or z3.is_app(t) and t.decl().kind() in (
                OPS | {z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE}):
            for x in t.children():
                self.collect(x)
            return
        if z3.is_bool(t):
            return
        self.atom(t)
        if z3.is_app(t) and t.decl().name() in ("sqrt", "cos", "sin", "tan"):
            self.collect(t.arg(0))

    def atom(self, t):
        k = t.get_id()
        if k not in self.index:
            self.index[k] = len(self.atoms)
            self.atoms.append(t)
        return self.index[k]

    # ---- rational functions: (numerator, {denominator factor: exponent}) -----------------------------------------
    def tick(self):
        if time.time() > self.deadline:
            raise Give("time")

    def const(self, q):
        return (self.R.ground_new(QQ(q.numerator, q.denominator)), {})

    def rmul(self, a, b):
        self.tick()
        if not a[0] or not b[0]:
            return (self.zero, {})
        d = dict(a[1])
        for f, e in b[1].items():
            d[f] = d.get(f, 0) + e
        if len(a[0]) * len(b[0]) > 40000000:
            raise Give("size")
        return self.reduce((a[0] * b[0], d))

    def radd(self, a, b, q=1):
        self.tick()
        if not b[0]:
            return a
        if not a[0]:
            return (b[0] * q, b[1])
        d = dict(a[1])
        for f, e in b[1].items():
            d[f] = max(d.get(f, 0), e)
        x, y = a[0], b[0] * q
        for f, e in d.items():
            if e - a[1].get(f, 0):
                x = x * f ** (e - a[1].get(f, 0))
            if e - b[1].get(f, 0):
                y = y * f ** (e - b[1].get(f, 0))
        s = x + y
        if not s:
            return (self.zero, {})
        return self.reduce((s, d))

    def rdiv(self, a, b):
        if not b[0]:
            raise Give("division by zero")
        n, d = a[0], dict(a[1])
        for f, e in b[1].items():
            k = min(e, d.get(f, 0))
            if k:
                d[f] -= k
                if not d[f]:
                    del d[f]
            if e - k:
                n = n * f ** (e - k)
        c = b[0].LC
        p = b[0].monic()
        n = n.mul_ground(1 / c)
        if p != self.one:
            if len(p) == 1:
                m = p.leading_expv()
                for i, e in enumerate(m):
                    if e:
                        g = self.gens[i]
                        self.need(g)
                        d[g] = d.get(g, 0) + e
            else:
                # factors already met
                for f in list(self.nz):
                    while len(f) > 1 or f in self.gens:
                        qq, r = divmod(p, f) if p != self.one else (None, 1)
                        if r:
                            break
                        p = qq
                        d[f] = d.get(f, 0) + 1
                        if p.is_ground:
                            break
                    if p.is_ground:
                        break
                if not p.is_ground:
                    p = p.monic()
                    self.need(p)
                    d[p] = d.get(p, 0) + 1
        return self.reduce((n, d))

    def need(self, p):
        if p in self.nz:
            return
        if not self.nonzero(p):
            raise Give("denominator")
        self.nz[p] = True

    def reduce(self, a):
        n, d = a
        changed = True
        while changed:
            changed = False
            for i, t in list(self.sqrts.items()):
                g = self.gens[i]
                e = d.get(g, 0)
                if e >= 2:
                    # 1/s^2 = 1/t
                    d = dict(d)
                    d[g] = e % 2
                    if not d[g]:
                        del d[g]
                    for _ in range(e // 2):
                        n, d = self.rdiv((n, d), t)
                    changed = True
                if n and max((m[i] for m in n.itermonoms()), default=0) >= 2:
                    parts = {}
                    for m, c in n.iterterms():
                        h = m[i] // 2
                        m2 = m[:i] + (m[i] % 2,) + m[i + 1:]
                        parts.setdefault(h, []).append((m2, c))
                    tot = (self.zero, {})
                    pw = (self.one, {})
                    for h in range(max(parts) + 1):
                        if h:
                            pw = self.rmul(pw, t)
                        if h in parts:
                            p = self.R.from_dict(dict(parts[h]))
                            tot = self.radd(tot, (p * pw[0], dict(pw[1])))
                    dd = dict(d)
                    for f, e in tot[1].items():
                        dd[f] = dd.get(f, 0) + e
                    n, d = tot[0], dd
                    changed = True
            for i, j in self.cosines.items():
                if n and max((m[i] for m in n.itermonoms()), default=0) >= 2:
                    parts = {}
                    for m, c in n.iterterms():
                        parts.setdefault(m[i] // 2, []).append((m[:i] + (m[i] % 2,) + m[i + 1:], c))
                    r = self.one - self.gens[j] ** 2
                    n = sum((self.R.from_dict(dict(v)) * r ** h for h, v in parts.items()), self.zero)
                    changed = True
        if not n:
            return (self.zero, {})
        # cancel whole factors
        d = dict(d)
        for f in list(d):
            while d.get(f):
                if len(f) > len(n):
                    break
                if f.is_monomial if hasattr(f, "is_monomial") else len(f) == 1:
                    m = f.leading_expv()
                    if not all(all(x >= y for x, y in zip(mm, m)) for mm in n.itermonoms()):
                        break
                    n = n.quo(f)
                elif len(n) * len(f) > 3000000:
                    break
                else:
                    q, r = divmod(n, f)
                    if r:
                        break
                    n = q
                d[f] -= 1
                if not d[f]:
                    del d[f]
                    break
        return (n, d)

    def ev(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._ev(t)
        self.cache[k] = r
        return r

    def _ev(self, t):
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return self.const(Fraction(t.as_long()))
        if not z3.is_app(t):
            raise Give("term")
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_TO_REAL:
            return self.ev(ch[0])
        if kd == z3.Z3_OP_ADD:
            r = self.ev(ch[0])
            for x in ch[1:]:
                r = self.radd(r, self.ev(x))
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.ev(ch[0])
            for x in ch[1:]:
                r = self.radd(r, self.ev(x), -1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            r = self.ev(ch[0])
            return (-r[0], r[1])
        if kd == z3.Z3_OP_MUL:
            r = self.ev(ch[0])
            for x in ch[1:]:
                r = self.rmul(r, self.ev(x))
            return r
        if kd == z3.Z3_OP_DIV and z3.is_real(t):
            return self.rdiv(self.ev(ch[0]), self.ev(ch[1]))
        if t.get_id() not in self.index:
            raise Give("atom")
        i = self.index[t.get_id()]
        if t.decl().name() == "sqrt" and i not in self.sqrts:
            a = self.ev(t.arg(0))
            for j, b in self.sqrts.items():
                if not self.radd(a, b, -1)[0]:
                    return (self.gens[j], {})
            if not self.sign(a, strict=False):
                raise Give("square root")
            self.sqrts[i] = a
            self.nn.append(self.gens[i])
            if self.sign(a, strict=True):
                self.pos.append(self.gens[i])
        if t.decl().name() in ("sin", "cos", "tan") and t.num_args() == 1:
            a = self.ev(t.arg(0))
            same = None
            for j, (nm, b) in self.trig.items():
                if not self.radd(a, b, -1)[0]:
                    if nm == t.decl().name():
                        if j != i:
                            return (self.gens[j], {})
                    elif {nm, t.decl().name()} == {"sin", "cos"}:
                        same = j
            if i not in self.trig:
                self.trig[i] = (t.decl().name(), a)
                if same is not None:
                    c, s_ = (i, same) if t.decl().name() == "cos" else (same, i)
                    self.cosines[c] = s_
        if i in self.env:
            return self.env[i]
        return (self.gens[i], {})

    # ---- signs -------------------------------------------------------------------------------------------------------
    def psign(self, p, strict, depth=0):
        """the polynomial is positive (not negative)"""
        self.tick()
        if not p:
            return not strict
        if p.is_ground:
            return p.LC > 0
        if p.LC > 0 or True:
            # monomials
            if len(p) == 1:
                m, c = p.leading_expv(), p.LC
                if c < 0:
                    return False
                for i, e in enumerate(m):
                    if not e:
                        continue
                    g = self.gens[i]
                    if strict:
                        if not (g in self.pos or e % 2 == 0 and g in self.nz):
                            return False
                    elif e % 2 and not (g in self.pos or g in self.nn):
                        return False
                return True
        for k in self.pos:
            if depth < 8 and not k.is_ground and len(k) <= len(p):
                q, r = divmod(p, k) if len(k) > 1 or all(x >= y for mm in p.itermonoms() for x, y in zip(mm, k.leading_expv())) else (None, 1)
                if not r and self.psign(q, strict, depth + 1):
                    return True
        for k in self.nn if not strict else ():
            if depth < 8 and not k.is_ground and len(k) <= len(p):
                q, r = divmod(p, k)
                if not r and self.psign(q, strict, depth + 1):
                    return True
        if all(c > 0 and all(e % 2 == 0 for e in m) for m, c in p.iterterms()):
            if not strict:
                return True
            for m, c in p.iterterms():
                if all(not e or self.gens[i] in self.nz or self.gens[i] in self.pos for i, e in enumerate(m)):
                    return True
        return False

    def nonzero(self, p):
        if p.is_ground:
            return bool(p)
        if p in self.nz or p.monic() in self.nz:
            return True
        for s in (p, -p):
            if self.psign(s, True):
                return True
        if len(p) == 1:
            return all(not e or self.gens[i] in self.pos or self.gens[i] in self.nz for i, e in enumerate(p.leading_expv()))
        return False

    def sign(self, a, strict=True):
        """the rational function is positive (not negative)"""
        n, d = a
        if not n:
            return not strict
        flip = False
        for f, e in d.items():
            if e % 2 == 0:
                continue
            if self.psign(f, True):
                continue
            if self.psign(-f, True):
                flip = not flip
                continue
            n = n * f
        return self.psign(-n if flip else n, strict)

    def learn(self, a, strict):
        """the rational function is known to be positive (not negative)"""
        n, d = a
        if not n or n.is_ground:
            return
        for f, e in d.items():
            if e % 2 == 0 or self.psign(f, True):
                continue
            if self.psign(-f, True):
                n = -n
                continue
            n = n * f
        (self.pos if strict else self.nn).append(n)
        if strict:
            self.nz[n.monic()] = True
            if len(n) == 1:
                for i, e in enumerate(n.leading_expv()):
                    if e:
                        self.nz[self.gens[i]] = True

    def order(self, t):
        n = t.decl().name() if z3.is_app(t) else ""
        return int(n.rsplit("!", 1)[1]) if "!" in n and n.rsplit("!", 1)[1].isdigit() else -1

    def cmp(self, c):
        k = c.decl().kind()
        x, y = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            x, y = y, x
        return self.radd(self.ev(x), self.ev(y), -1), k in (z3.Z3_OP_LT, z3.Z3_OP_GT)

    def start(self):
        """take in the assumptions: signs of what is given, then the definitions in their order"""
        if self.started:
            return
        self.started = True
        pend = list(self.signs)
        eqs = list(self.eqs)
        for rnd in range(4):
            prog = False
            rest = []
            for c in pend:
                try:
                    if z3.is_not(c):
                        a = self.radd(self.ev(c.arg(0).arg(0)), self.ev(c.arg(0).arg(1)), -1)
                        if a[0] and not a[0].is_ground:
                            self.nz[a[0].monic()] = True
                    else:
                        a, strict = self.cmp(c)
                        self.learn(a, strict)
                    prog = True
                except Give:
                    rest.append(c)
            pend = rest
            rest = []
            for c in eqs:
                self.tick()
                try:
                    if not self.define(c):
                        rest.append(c)
                    else:
                        prog = True
                except Give:
                    rest.append(c)
            eqs = rest
            if not prog or not eqs and not pend:
                break

    def vars_of(self, t, acc, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if t.get_id() in self.index:
            acc.add(self.index[t.get_id()])
        if z3.is_app(t):
            for x in t.children():
                self.vars_of(x, acc, seen)

    def define(self, c):
        acc = set()
        self.vars_of(c, acc, set())
        free = [i for i in acc if i not in self.env and self.atoms[i].num_args() == 0 and self.order(self.atoms[i]) >= 0]
        if not free:
            return True
        a = self.radd(self.ev(c.arg(0)), self.ev(c.arg(1)), -1)
        n = a[0]
        if not n:
            return True
        for i in sorted(free, key=lambda i: -self.order(self.atoms[i])):
            deg = max((m[i] for m in n.itermonoms()), default=0)
            if deg != 1:
                continue
            if any(m[i] for f in a[1] for m in f.itermonoms()):
                continue
            co, rest = {}, {}
            for m, q in n.iterterms():
                if m[i]:
                    co[m[:i] + (0,) + m[i + 1:]] = q
                else:
                    rest[m] = q
            co, rest = self.R.from_dict(co), self.R.from_dict(rest)
            if any(m[i] for t in self.sqrts.values() for m in t[0].itermonoms()):
                continue
            try:
                v = self.rdiv((-rest, {}), (co, {}))
            except Give:
                continue
            self.subst(i, v)
            return True
        return False

    def subst(self, i, v):
        """atom i is v from here on"""
        def has(rf):
            return any(m[i] for m in rf[0].itermonoms()) or any(m[i] for f in rf[1] for m in f.itermonoms())
        for j, rf in list(self.env.items()):
            if has(rf):
                self.env[j] = self.comp(rf, i, v)
        self.env[i] = v
        for k, rf in list(self.cache.items()):
            if has(rf):
                del self.cache[k]

    def comp(self, rf, i, v):
        def pol(p):
            parts = {}
            for m, c in p.iterterms():
                parts.setdefault(m[i], []).append((m[:i] + (0,) + m[i + 1:], c))
            tot, pw = (self.zero, {}), (self.one, {})
            for e in range(max(parts) + 1):
                if e:
                    pw = self.rmul(pw, v)
                if e in parts:
                    tot = self.radd(tot, self.rmul((self.R.from_dict(dict(parts[e])), {}), pw))
            return tot
        r = pol(rf[0]) if rf[0] else rf
        for f, e in rf[1].items():
            p = pol(f)
            for _ in range(e):
                r = self.rdiv(r, p)
        return r

    def goal(self, g):
        if z3.is_true(g):
            return True
        if z3.is_and(g):
            return all(self.goal(x) for x in g.children())
        if z3.is_or(g):
            return any(self.goal(x) for x in g.children())
        if z3.is_implies(g):
            return self.goal(g.arg(1))
        if z3.is_eq(g) and z3.is_real(g.arg(0)):
            return not self.radd(self.ev(g.arg(0)), self.ev(g.arg(1)), -1)[0]
        if z3.is_not(g):
            h = g.arg(0)
            if z3.is_eq(h) and z3.is_real(h.arg(0)):
                return self.nonzero(self.radd(self.ev(h.arg(0)), self.ev(h.arg(1)), -1)[0])
            if z3.is_app(h) and h.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
                a, strict = self.cmp(h)
                return self.sign((-a[0], a[1]), not strict)
            return False
        if z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE) and z3.is_real(g.arg(0)):
            a, strict = self.cmp(g)
            return self.sign(a, strict)
        return False


def prove(assume, side, goal, seconds, log=None):
    try:
        al = Alg(assume, side, [goal], time.time() + seconds)
        al.start()
        return al.goal(goal)
    except Give as e:
        if log is not None:
            log.append(str(e))
        return False


def canon(assume, side, goal, seconds):
    """the same obligation with one symbol for all square roots of the same quantity"""
    apps, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        for x in t.children():
            walk(x)
        if z3.is_app(t) and t.decl().name() == "sqrt" and t.num_args() == 1:
            apps.append(t)
    for t in list(assume) + list(side) + [goal]:
        walk(t)
    if not apps:
        return assume, side, goal
    try:
        al = Alg(assume, side, [goal] + apps, time.time() + seconds)
        al.start()
    except Give:
        return assume, side, goal
    cls, sub = [], []
    for a in apps:
        try:
            v = al.ev(a.arg(0))
            c = next((c for c, w in cls if not al.radd(v, w, -1)[0]), None)
        except Give:
            continue
        if c is None:
            c = z3.Real("root!%d" % len(cls))
            cls.append((c, v))
        sub.append((a, c))
    f = lambda t: z3.substitute(t, *sub) if sub else t
    return [f(t) for t in assume], [f(t) for t in side], f(goal)
