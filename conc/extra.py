"""Histories of steps, constructors, noise and output files."""
import os, math, random, fcntl
from fractions import Fraction
import conc, scen
from conc import World, Case, parse, NS
from scen import f32, fl, F, quat, params, Retry
from contracts import c_utils, c_step
import contract as K
import wf


class Custom:
    """own text and own verdict"""
    tags = ()

    def __init__(self, text, check):
        self.full, self.check = text, check

    def run(self, drv):
        return self.check(drv.run(self.full), drv)


# ---- histories ----------------------------------------------------------------------------------------------------------

class Story:
    def __init__(self, c, poses):
        self.c, self.poses = c, poses
        self.full = "\n".join(c.lines) + "\ndump" + "".join("\ncall Step %s %s\ndump" % (
            " ".join(c.f(x) for x in p), " ".join(repr(float(x)) for x in q)) for p, q in poses)

    def run(self, drv, want=None):
        c = self.c
        rows = drv.run(self.full)
        res = parse(rows, c.cz)
        if res.throws:
            return [("never refuses", ("C14", "C08"), "a call was refused")]
        if len(res.worlds) != len(self.poses) + 1:
            return [("returns", ("C08",), "no result")]
        res.rets, res.warns = res.rets[-len(self.poses):], res.warns[-len(self.poses):]
        for k, (p, q) in enumerate(self.poses):
            old, new = res.worlds[k], res.worlds[k + 1]
            c.old = old
            P, Q = scen.scaled(c, p), F(q)
            c.args = dict(pos=P, ori=Q, **scen.std_args(c))
            first = not any(old.pose[1])
            c.moved_far = 0
            if not first:
                cx = K.Ctx(a=c.args, old=old)
                d = c_utils.max_move(cx, old.pose)
                if d > 2 * min(1.0, float(c.ratio)) - 0.01:
                    c.moved_far = 1
            c.conv = lambda t: t[0] == "1"
            r1 = conc.Result()
            r1.worlds, r1.rets, r1.warns, r1.throws = [old, new], [res.rets[k]], [res.warns[k]], []
            bad = conc.evaluate(c_step.STEP, c, r1, want)
            if bad:
                return [(n, t, "step %d %s" % (k, w)) for n, t, w in bad]
        return []


def g_story(r, n=None):
    cz = r.choice([1.0, 0.5, 0.25, 0.125, 2.0, 0.1, 0.05])
    q = r.choice([1, 1, 2, 1.5])
    hx, hy, hz = r.randint(8, 11), r.randint(7, 10), r.randint(12, 20)
    c = Case(cz, cz * q, hx, hy, hz)
    c.ratio, c.rng = q, r
    c.add("seed %d" % r.randint(1, 10 ** 6))
    w = World(2 * hx + 1, 2 * hy + 1)
    m = r.randint(0, 3)
    if m == 1:
        scen.terrain(r, w, -2, 2)
    elif m == 2:
        for i in range(w.nx):
            for j in range(w.ny):
                w.T[i][j] = r.randint(-1, 1)
    k = float(q)
    blade = r.random() < 0.4
    o = [0, 0, 0]
    L = r.uniform(1.2, 3.0) * k
    c.lines_body = None
    params(r, c)
    scen.whole_areas(r, w)
    p = [r.uniform(-2, 1) * k, r.uniform(-1, 1) * k, r.choice([6.0, 4.0, 8.0])]
    a = r.uniform(-0.4, 0.4)
    jpos = [0.1, 0, r.choice([0.25, 1.25, 3.25])]
    bpos = [0.1 + r.uniform(-0.3, 0.3), 0, -r.uniform(1.0, 4.0)]
    tpos = [L, 0, -r.uniform(0.2, 3.0)]
    width = f32(r.uniform(1.0, 4.0) * k)
    jpos, bpos, tpos = [[f32(x) for x in v] for v in (jpos, bpos, tpos)]
    ori0 = [0, 0, 0, 0] if r.random() < 0.5 else [1, 0, 0, 0]
    c.set_body(blade, o, jpos, bpos, tpos, width, [0, 0, 0], ori0)
    c.emit_world(w)
    if m == 3:
        c.add("call Init %r" % (cz * r.choice([50.0, 200.0, 500.0])))
    poses = []
    vz, vx, vy, va = r.choice([-0.7, -0.9, -0.4, -1.3]), r.uniform(-0.3, 0.3), r.uniform(-0.3, 0.3), r.uniform(-0.05, 0.05)
    phase = 0
    slow = r.random() < 0.3
    yaw, vyaw = 0.0, r.choice([0.0, 0.0, 0.03, -0.05])
    for s in range(n or r.randint(2, 12)):
        if r.random() < 0.25:
            phase = r.randint(0, 2)
            if phase == 0:
                vz, vx = r.choice([-0.7, -1.1]), r.uniform(-0.2, 0.4)
            elif phase == 1:
                vz, vx = r.uniform(-0.2, 0.2), r.choice([0.5, 0.8, -0.6])
            else:
                vz, vx, va = r.choice([0.8, 0.5, 1.2]), r.uniform(-0.2, 0.2), r.choice([0.0, 0.1, -0.1, 0.15])
        f = r.choice([0.1, 0.2, 0.3, 1.0]) if slow else 1.0
        p = [p[0] + vx * k * f, p[1] + vy * k * f, p[2] + vz * f]
        a += va * f
        yaw += vyaw * f
        q1 = [math.cos(a / 2), 0.0, math.sin(a / 2), 0.0]
        q2 = [math.cos(yaw / 2), 0.0, 0.0, math.sin(yaw / 2)]
        qq = [f32(float(x)) for x in c_utils.qmul([Fraction(x) for x in q1], [Fraction(x) for x in q2])]
        if r.random() < 0.1:
            qq = [f32(2 * x) for x in qq]
        P = [f32(x) for x in p]
        c.args = dict(pos=scen.scaled(c, P), ori=F(qq))
        if not scen.inside_ok(c, 3.6):
            break
        poses.append((P, qq))
    if not poses:
        raise Retry()
    return Story(c, poses)


# ---- constructors -------------------------------------------------------------------------------------------------------

def throws(rows, k=0):
    return any(t and t[0] == "throw" for t in rows)


def g_ctor(r):
    m = r.choice(["grid", "grid", "body", "body", "param", "simout"])
    if m == "grid":
        return ctor_grid(r)
    if m == "body":
        return ctor_body(r)
    if m == "param":
        a = r.choice([0.0, -0.001, 0.5, 1.0, 1.57, 1.572, -1.0, 3.0, 1.5])
        it = r.choice([0, 1, -1, 5, 10, -7])
        b = r.choice([2, 1, 3, 0, -2, 5])
        ok = 0 <= f32(a) <= math.pi / 2 and it >= 0 and b >= 2

        def check(rows, d):
            if throws(rows) == ok:
                return [("accepts exactly the valid parameters", ("C14",), "SimParam %r %d %d" % (a, it, b))]
            if ok:
                t = [t for t in rows if t and t[0] == "param"][0]
                if not (f32(float(t[1])) == f32(a) and int(t[2]) == it and int(t[3]) == b):
                    return [("stores the parameters", ("C14",), "SimParam %r %d %d" % (a, it, b))]
            return []
        return Custom("param %r %d %d" % (a, it, b), check)
    hx, hy, hz = r.randint(1, 6), r.randint(1, 6), r.randint(1, 6)

    def check(rows, d):
        res = parse(rows, 1.0)
        w = res.worlds[0]
        nb = [t for t in rows if t and t[0] == "nbody"][0]
        good = (w.nx, w.ny) == (2 * hx + 1, 2 * hy + 1) and w.shape_ok and nb[1:] == ["4", "4"]
        for t in rows:
            if t and t[0] in ("body", "bs"):
                good = good and t[2:5] == [str(2 * hx + 1), str(2 * hy + 1), "1"]
        good = good and not any(map(any, w.T)) and not any(any(map(any, g)) for g in w.B + w.S) and not w.lst
        for a in w.areas.values():
            good = good and a[0][0] >= 1 and a[1][0] >= 1 and a[0][1] <= 2 * hx and a[1][1] <= 2 * hy and a[0][0] <= a[0][1] and a[1][0] <= a[1][1]
        return [] if good else [("a fresh state is flat, empty and sized to the grid", ("C14",), "SimOut %d %d" % (hx, hy))]
    return Custom("grid %d %d %d 1 1\nsimout\ndump" % (hx, hy, hz), check)


def ctor_grid(r):
    cz = r.choice([1.0, 0.5, 0.1, 0.25, 2.0, 0.05])
    cxy = cz * r.choice([1, 1, 2, 3, 1.5])
    hx, hy, hz = [r.choice([1, 1, 2, 3, 5, 8, 13, 20]) for _ in range(3)]
    v = [hx * cxy, hy * cxy, hz * cz, cxy, cz]
    if r.random() < 0.15:
        v[r.randint(0, 2)] *= r.choice([1.3, 1.05, 2.2])
    if r.random() < 0.5:
        k = r.randint(0, 4)
        v[k] = r.choice([0.0, -v[k], v[k] * 0.5, v[k] * 0.99, v[k] * 1.01, -0.001])
    v = [f32(x) for x in v]
    gx, gy, gz, cx, ch = v
    ok = min(v) > 0 and ch <= cx and gx >= cx and gy >= cx and gz >= ch
    name = "Grid " + fl(v)

    def check(rows, d):
        if throws(rows) == ok:
            return [("accepts exactly the valid parameters", ("C14",), name)]
        if not ok:
            return []
        t = [t for t in rows if t and t[0] == "grid"][0]
        h = []
        for a, b in ((gx, cx), (gy, cx), (gz, ch)):
            y = Fraction(a) / Fraction(b)
            f = math.floor(y + Fraction(1, 2))
            amb = abs(y + Fraction(1, 2) - f) < Fraction(1, 10000) or abs(y + Fraction(1, 2) - f - 1) < Fraction(1, 10000)
            h.append((f, amb))
        for (e, amb), got in zip(h, t[1:4]):
            if int(got) != e and not (amb and abs(int(got) - e) <= 1):
                return [("sizes match the extents", ("C14",), name)]
        H = [int(x) for x in t[1:4]]
        n = lambda a, b: abs(float(a) - b) <= 1e-4 * max(1e-3, abs(b))
        if not (n(t[4], cx) and n(t[5], ch) and n(t[6], cx * cx) and n(t[7], cx * cx * ch)):
            return [("cell sizes", ("C14",), name)]
        vs = {t[0]: [float(x) for x in t[2:]] for t in rows if t and t[0] in ("vx", "vy", "vz")}
        for k, s, g, hh, off in (("vx", cx, gx, H[0], 0), ("vy", cx, gy, H[1], 0), ("vz", ch, gz, H[2], 1)):
            a = vs[k]
            if len(a) != 2 * hh + 1 or abs(a[0] + g - off * s) > 1e-3 * s:
                return [("coordinates match the extents", ("C14",), name)]
            if any(abs(y - x - s) > 1e-3 * s for x, y in zip(a, a[1:])):
                return [("evenly spaced coordinates", ("C14",), name)]
        return []
    return Custom("grid %s%s" % (fl(v), "\nvects" if ok else ""), check)


def ctor_body(r):
    L = [[f32(r.choice([r.uniform(-2, 2), r.randint(-1, 1)])) for _ in range(3)] for _ in range(4)]
    w = f32(r.choice([1.0, 0.5, 2.0]))
    m = r.randint(0, 9)
    if m == 0:
        w = r.choice([0.0, -0.5, -1.0])
    if m in (1, 2):
        k = r.randint(0, 3)
        L[k] = r.choice([[], L[k][:2], L[k] + [1.0]])
    if m in (3, 4, 5):
        a, b = r.sample([1, 2, 3], 2)
        L[a] = list(L[b])
    if m == 6:
        a, b = r.sample([1, 2, 3], 2)
        L[a] = list(L[b])
        L[a][r.randint(0, 2)] += 1.0
    if m == 7:
        L[r.randint(1, 3)] = list(L[0])
    ok = all(len(x) == 3 for x in L) and w > 0 and L[1] != L[2] and L[1] != L[3] and L[2] != L[3]
    kind = r.choice(["bucket", "blade"])
    name = "body %s %s %r" % (kind, " ".join("%d %s" % (len(x), fl(x)) for x in L), float(w))

    def check(rows, d):
        if throws(rows) == ok:
            return [("accepts exactly the valid parameters", ("C14",), name)]
        if ok:
            t = scen.nums([t for t in rows if t and t[0] == "body"][0][1:4 * 3 + 1])
            for k in range(3):
                if len(t[k]) != 3 or any(abs(x - (y - z)) > 1e-5 for x, y, z in zip(t[k], L[k + 1], L[0])):
                    return [("reference points relative to the origin", ("C14",), name)]
            row = [t for t in rows if t and t[0] == "body"][0]
            if abs(float(row[13]) - w) > 1e-6:
                return [("width", ("C14",), name)]
        return []
    return Custom(name, check)


# ---- noise --------------------------------------------------------------------------------------------------------------

def g_noise(r):
    p = list(range(256))
    r.shuffle(p)
    x, y = f32(r.uniform(0, r.choice([1, 8, 60]))), f32(r.uniform(0, r.choice([1, 8, 60])))
    if r.random() < 0.2:
        x, y = float(r.randint(0, 20)), float(r.randint(0, 20))

    def check(rows, d):
        v = float([t for t in rows if t and t[0] == "ret"][0][1])
        return [] if abs(v) <= 1 else [("noise is bounded", ("C15",), "simplex_noise %r %r" % (x, y))]
    return Custom("call simplex_noise %r %r %s" % (x, y, " ".join(map(str, p))), check)


# ---- files --------------------------------------------------------------------------------------------------------------

class Files:
    def __init__(self, r, c, blade, seed):
        self.r, self.c, self.blade = r, c, blade
        self.full = "\n".join(c.lines)

    def run(self, drv, want=None):
        root = os.path.dirname(drv.exe)
        with open(os.path.join(root, "files.lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            return self.locked(drv, os.path.join(root, "src", "results"))

    def locked(self, drv, res):
        r, c = self.r, self.c
        os.makedirs(res, exist_ok=True)
        for f in os.listdir(res):
            os.unlink(os.path.join(res, f))
        name = "blade" if self.blade else "bucket"
        have = {}
        for pre in ("terrain", name, "body_soil"):
            m = r.randint(0, 3)
            nums = set(range(r.choice([1, 2, 9, 10, 11, 100]))) if m == 1 else set(r.sample(range(14), r.randint(1, 8))) if m == 2 else set()
            if pre == "body_soil":
                nums = set(have and nums) & {int(k.split("_")[-1][:5]) for k in have if k.startswith("terrain")}
            for k in nums:
                f = "%s_%05d.csv" % (pre, k)
                have[f] = "kept %d\n" % r.randint(0, 9 ** 9) if r.random() < 0.7 else ""
                with open(os.path.join(res, f), "w") as h:
                    h.write(have[f])
        w = c.old
        bad = []
        text = "\n".join(c.lines)
        for rep in range(r.randint(1, 4)):
            call = r.choice(["WriteSoil", "WriteBody", "WriteOutputs"])
            self.full += "\ncall " + call
            drv.run(text + "\ncall " + call)
            exp = []
            if call != "WriteBody":
                n = min(k for k in range(10 ** 5) if "terrain_%05d.csv" % k not in have)
                exp += ["terrain_%05d.csv" % n, "body_soil_%05d.csv" % n]
            if call != "WriteSoil":
                n = min(k for k in range(10 ** 5) if "%s_%05d.csv" % (name, k) not in have)
                exp += ["%s_%05d.csv" % (name, n)]
            now = {}
            for f in os.listdir(res):
                with open(os.path.join(res, f)) as h:
                    now[f] = h.read()
            for f, s in have.items():
                if not f.startswith("body_soil") and now.get(f) != s:
                    return [("an earlier file is overwritten", ("C17",), f)]
            new = sorted(set(now) - set(have))
            if sorted(e for e in exp if e not in have) != new:
                return [("the first unused number is taken", ("C17",), "%s instead of %s" % (new, exp))]
            for f in exp:
                rows = now[f].split("\n")
                if rows[-1] != "" or rows[0] != "x,y,z":
                    return [("header and rows", ("C17",), f)]
                vals = []
                try:
                    vals = [[float(x) for x in l.split(",")] for l in rows[1:-1]]
                except ValueError:
                    return [("header and rows", ("C17",), f)]
                cx, cz = c.cxy, c.cz
                X, Y = lambda i: (i - c.hx) * cx, lambda j: (j - c.hy) * cx
                if f.startswith("terrain"):
                    want = [(X(i), Y(j), w.T[i][j] * cz) for i in range(w.nx) for j in range(w.ny)]
                elif f.startswith("body_soil"):
                    want = [(X(i), Y(j), w.S[l + 1][i][j] * cz) for i in range(w.nx) for j in range(w.ny) for l in (0, 2)
                            if w.S[l][i][j] or w.S[l + 1][i][j]]
                    if not w.lst:
                        want = None
                        if len(vals) != 1:
                            return [("one placeholder row", ("C17",), f)]
                else:
                    want = None
                    if len(vals) not in (14, 8):
                        return [("rows of the body", ("C17",), f)]
                if want is not None:
                    if len(vals) != len(want):
                        return [("one row per cell", ("C17",), f)]
                    for a, b in zip(vals, want):
                        if len(a) != 3 or any(abs(x - y) > 1e-3 * max(1, abs(y)) for x, y in zip(a, b)):
                            return [("the rows are the cells in order", ("C17",), f)]
            have = now
        return []


def g_files(r):
    c = scen.new_case(r, 1, 3)
    w = scen.walls_world(r, c, True, r.choice([0.0, 0.3, 1.0]))
    blade = r.random() < 0.5
    c.set_body(blade, [0, 0, 0], [0, 0, 0], [0, 0, -1], [1, 0, -1], 1, [0, 0, 0], [1, 0, 0, 0])
    c.emit_world(w)
    return Files(r, c, blade, 0)


def g_check(r):
    """the combined check changes nothing and warns exactly when one of the two fails"""
    c = r.choice([scen.g_check_volume, scen.g_check_soil])(r)
    v = c.args.get("init_volume", int(c.old.total()))
    base = "\n".join(c.lines)
    full = base + "\ndump\ncall CheckVolume %d\ncall CheckSoil\ncall Check %d\ndump" % (v, v)

    def check(rows, d):
        res = parse(rows, c.cz)
        a, b = res.worlds
        if conc.frame(NS(modifies=[]), a, b):
            return [("checks change nothing", ("C13",), "")]
        ok = [t[0] == "1" for t in res.rets[:2]]
        if (res.warns[2] == 0) != (res.warns[0] + res.warns[1] == 0) or (res.warns[0] == 0) != ok[0] or (res.warns[1] == 0) != ok[1]:
            return [("a failed check warns", ("C13",), "%s %s" % (ok, res.warns))]
        return []
    return Custom(full, check)


CUSTOM = {"Step": (g_story, None), "constructors": (g_ctor, ("C14",)), "noise": (g_noise, ("C15",)), "files": (g_files, ("C17",)), "Check": (g_check, ("C13",))}
