"""Contracts evaluated on runs of the compiled code: the driver, the state it reports, generators of states and the
evaluation of a contract's clauses on one call."""
import os, sys, subprocess, random, math, time, selectors, shutil
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "dv"))
import terms as T
import contract as K
import wf
from loops import TupleList

REPO = os.environ.get("DV_REPO", "/repo")
SRC = ["body_pos", "body_soil", "intersecting_cells", "relax", "types", "utils", "soil_dynamics"]


# ---- building -------------------------------------------------------------------------------------------------------

def build(work, repo=REPO, san=True, extra_src=None):
    """compile the sources of the repository with the driver; -> path of the program or (None, message)"""
    src = os.path.join(work, "src")
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(os.path.join(src, "results"))
    # a copy, because output files go next to the sources
    shutil.copytree(os.path.join(repo, "soil_simulator"), os.path.join(src, "soil_simulator"))
    repo = src
    fl = ["-std=c++20", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I", repo, "-I/usr/include"]
    if san:
        fl += ["-fsanitize=undefined,address", "-fno-sanitize-recover=all"]
    d = os.path.join(repo, "soil_simulator")
    files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp") and f != "main.cpp"] + [os.path.join(HERE, "driver.cpp")]
    objs, ps = [], []
    for f in files:
        o = os.path.join(work, os.path.basename(f)[:-4] + ".o")
        objs.append(o)
        ps.append((f, subprocess.Popen(["g++"] + fl + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for f, p in ps:
        out = p.communicate()[0]
        if p.returncode:
            return None, "%s does not compile:\n%s" % (f, out[-1500:])
    exe = os.path.join(work, "driver")
    r = subprocess.run(["g++"] + (["-fsanitize=undefined,address"] if san else []) + objs + ["-o", exe, "-lglog"], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-1500:]
    return exe, ""


class Crash(Exception):
    pass


class Hang(Exception):
    pass


class Driver:
    def __init__(self, exe, cwd=None, timeout=20):
        self.exe, self.cwd, self.timeout = exe, cwd, timeout
        self.p = None
        self.runs = 0

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
        self.errf = open(os.path.join(os.path.dirname(self.exe), "stderr.%d" % os.getpid()), "w+b")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, cwd=self.cwd or os.path.join(os.path.dirname(self.exe), "src"), env=env)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.p.stdout, selectors.EVENT_READ)

    def run(self, text):
        """-> list of token lists, one per line"""
        if self.p is None:
            self.start()
        self.runs += 1
        try:
            self.p.stdin.write((text + "\nend\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.fail()
        buf = b""
        end = time.time() + self.timeout
        while not buf.endswith(b"end\n"):
            if not self.sel.select(max(0.0, end - time.time())):
                self.kill()
                raise Hang("no answer within %d s" % self.timeout)
            d = self.p.stdout.read()
            if d == b"":
                self.fail()
            if d:
                buf += d
        if self.runs % 500 == 0:
            self.errf.truncate(0)
            self.errf.seek(0)
        return [l.split() for l in buf.decode().split("\n")[:-2]]

    def fail(self):
        self.p.wait()
        self.errf.flush()
        self.errf.seek(0, 2)
        n = self.errf.tell()
        self.errf.seek(max(0, n - 6000))
        msg = self.errf.read().decode(errors="replace")
        rc = self.p.returncode
        self.kill()
        key = [l for l in msg.split("\n") if "rror" in l or "Assertion" in l]
        raise Crash("the program ended with code %s: %s" % (rc, " | ".join(key[:2])[:400]))

    def kill(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.errf.close()
        self.p = None


# ---- the state of a run -----------------------------------------------------------------------------------------------

class Units:
    def __init__(self, cz):
        self.cz = cz
        self.q = Fraction(cz)

    def __call__(self, x):
        x = float(x)
        if not math.isfinite(x):
            return Fraction(10) ** 12
        h = x / self.cz
        r = round(h)
        return r if abs(h - r) < 2e-3 else Fraction(h)


class World:
    """same interface as the symbolic view"""
    sym = False

    def __init__(self, nx, ny):
        self.nx, self.ny = nx, ny
        self.T = [[0] * ny for _ in range(nx)]
        self.B = [[[0] * ny for _ in range(nx)] for _ in range(4)]
        self.S = [[[0] * ny for _ in range(nx)] for _ in range(4)]
        self.lst, self.xl = [], []
        self.areas = {"body": [[1, nx - 1], [1, ny - 1]], "relax": [[1, nx - 1], [1, ny - 1]], "impact": [[1, nx - 1], [1, ny - 1]]}
        self.eq = False
        self._led = None
        self.shape_ok = True

    def terrain(self, i, j):
        return self.T[i][j] if 0 <= i < self.nx and 0 <= j < self.ny else 0

    def body(self, l, i, j):
        return self.B[l][i][j] if 0 <= i < self.nx and 0 <= j < self.ny else 0

    def bs(self, l, i, j):
        return self.S[l][i][j] if 0 <= i < self.nx and 0 <= j < self.ny else 0

    def area(self, w, d, k):
        return self.areas[w][d][k]

    @property
    def n(self):
        return len(self.lst)

    def ent(self, k):
        return self.lst[k] if 0 <= k < len(self.lst) else K.Entry(-1, -1, -1, 0, 0, 0, 0)

    def led(self):
        if self._led is None:
            L, C = {}, {}
            for e in self.lst + self.xl:
                k = (e.ind, e.ii, e.jj)
                L[k] = L.get(k, 0) + e.h
                C[k] = C.get(k, 0) + 1
            self._led = (L, C)
        return self._led

    def L(self, l, i, j):
        return self.led()[0].get((l, i, j), 0)

    def C(self, l, i, j):
        return self.led()[1].get((l, i, j), 0)

    def ground(self):
        return sum(map(sum, self.T))

    def soil(self):
        return sum(map(sum, self.S[1])) + sum(map(sum, self.S[3])) - sum(map(sum, self.S[0])) - sum(map(sum, self.S[2]))

    def total(self):
        return self.ground() + self.soil()


class LView:
    def __init__(self, l):
        self.l = l

    @property
    def n(self):
        return len(self.l)

    def ent(self, k):
        return self.l[k] if 0 <= k < len(self.l) else K.Entry(-1, -1, -1, 0, 0, 0, 0)


class NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        d = self.__dict__
        if k + "_" in d:
            return d[k + "_"]
        raise AttributeError(k)


def num(x):
    return Fraction(float(x))


class Result:
    def __init__(self):
        self.worlds, self.rets, self.warns, self.throws, self.poses, self.lines = [], [], [], [], [], []


def parse(rows, cz):
    """the driver's answer -> the states dumped, in order, and the values returned"""
    u = Units(cz)
    r = Result()
    w = None
    r.lines = rows
    for t in rows:
        if not t:
            continue
        k = t[0]
        if k == "terrain":
            w = World(int(t[2]), int(t[3]))
            w.shape_ok = t[4] == "1"
            fill(w.T, t, u)
            r.worlds.append(w)
        elif k == "body" and len(t) > 4 and w is not None and "." not in t[1] and int(t[2]) == w.nx and int(t[3]) == w.ny:
            fill(w.B[int(t[1])], t, u)
        elif k == "bs":
            fill(w.S[int(t[1])], t, u)
        elif k in ("list", "extra"):
            n = int(t[1])
            l = []
            for a in range(n):
                q = t[2 + 7 * a:9 + 7 * a]
                l.append(K.Entry(int(q[0]), int(q[1]), int(q[2]), num(q[3]) / u.q, num(q[4]) / u.q, num(q[5]) / u.q, u(q[6])))
            if k == "list":
                w.lst = l
            else:
                w.xl = l
        elif k == "areas":
            v = [int(x) for x in t[1:13]]
            for a, nm in enumerate(("body", "relax", "impact")):
                w.areas[nm] = [[v[4 * a], v[4 * a + 1]], [v[4 * a + 2], v[4 * a + 3]]]
        elif k == "eq":
            w.eq = t[1] == "1"
        elif k == "pose":
            n = int(t[1])
            w.pose = ([num(x) / u.q for x in t[2:2 + n]], [num(x) for x in t[3 + n:]])
        elif k == "ret":
            r.rets.append(t[1:])
        elif k == "warn":
            r.warns.append(int(t[1]))
        elif k == "throw":
            r.throws.append(t[1])
    return r


def fill(a, t, u):
    for x in range(5, len(t), 3):
        a[int(t[x])][int(t[x + 1])] = u(t[x + 2])


def tuples(t):
    """a returned list of integer vectors"""
    n, p, out = int(t[0]), 1, []
    for _ in range(n):
        m = int(t[p])
        out.append(tuple(int(x) for x in t[p + 1:p + 1 + m]))
        p += 1 + m
    return out


# ---- a call -----------------------------------------------------------------------------------------------------------

class Case:
    """one call: the text for the driver and the values the contract sees"""

    def __init__(self, cz, cxy, hx, hy, hz):
        self.cz, self.cxy, self.hx, self.hy, self.hz = cz, cxy, hx, hy, hz
        self.lines = []
        self.tol = Fraction(1, 100000)
        self.grid = NS(half_length_x_=hx, half_length_y_=hy, half_length_z_=hz, cell_size_xy_=Fraction(cxy) / Fraction(cz), cell_size_z_=1,
                       vect_x_=[(i - hx) * Fraction(cxy) / Fraction(cz) for i in range(2 * hx + 1)],
                       vect_y_=[(i - hy) * Fraction(cxy) / Fraction(cz) for i in range(2 * hy + 1)])
        self.add("grid %r %r %r %r %r" % (hx * cxy, hy * cxy, hz * cz, cxy, cz))
        self.add("simout")
        self.blade = False
        self.args = {}
        self.call = None
        self.conv = None
        self.body = None

    def add(self, *l):
        self.lines += l

    def f(self, k):
        return repr(float(k) * self.cz)

    def set_body(self, blade, o, j, b, t, width, pos, ori):
        """coordinates in cell heights"""
        self.blade = blade
        f = lambda v: "3 " + " ".join(self.f(x) for x in v)
        self.add("body %s %s %s %s %s %s" % ("blade" if blade else "bucket", f(o), f(j), f(b), f(t), self.f(width)))
        self.add("pose %s %s" % (" ".join(self.f(x) for x in pos), " ".join(repr(float(x)) for x in ori)))
        q = lambda v: [Fraction(x) for x in v]
        self.body = NS(pos_=q(pos), ori_=q(ori), width_=Fraction(width), j_pos_init_=[Fraction(x) - Fraction(y) for x, y in zip(j, o)],
                       b_pos_init_=[Fraction(x) - Fraction(y) for x, y in zip(b, o)], t_pos_init_=[Fraction(x) - Fraction(y) for x, y in zip(t, o)])

    def set_param(self, repose, maxit, buf):
        self.add("param %r %d %d" % (float(repose), maxit, buf))
        self.param = NS(repose_angle_=Fraction(float(repose)), max_iterations_=maxit, cell_buffer_=buf)

    def emit_world(self, w):
        for i in range(w.nx):
            for j in range(w.ny):
                if w.T[i][j]:
                    self.add("t %d %d %s" % (i, j, self.f(w.T[i][j])))
                for l in range(4):
                    if w.B[l][i][j]:
                        self.add("b %d %d %d %s" % (l, i, j, self.f(w.B[l][i][j])))
                    if w.S[l][i][j]:
                        self.add("s %d %d %d %s" % (l, i, j, self.f(w.S[l][i][j])))
        for k, l in (("p", w.lst), ("x", w.xl)):
            for e in l:
                self.add("%s %d %d %d %s %s %s %s" % (k, e.ind, e.ii, e.jj, self.f(e.x), self.f(e.y), self.f(e.z), self.f(e.h)))
        for nm, a in w.areas.items():
            self.add("area %s %d %d %d %d" % (nm, a[0][0], a[0][1], a[1][0], a[1][1]))
        self.add("eq %d" % (1 if w.eq else 0))
        self.old = w

    def text(self):
        return "\n".join(self.lines)

    def run(self, drv):
        """state before, call, state after"""
        txt = self.text() + "\ndump\ncall " + self.call + "\ndump"
        self.full = txt
        return parse(drv.run(txt), self.cz)


def evaluate(c, case, res, want=None):
    """clauses of contract c that do not hold on this run -> [(name, tags, where)]"""
    bad = []
    if res.throws:
        return [("never refuses", ("C14",), "the call was refused")]
    if len(res.worlds) < 2 or not res.rets:
        return [("returns", ("C08",), "no result")]
    old, new = res.worlds[0], res.worlds[1]
    if (new.nx, new.ny) != (old.nx, old.ny) or not new.shape_ok:
        return [("grid sizes", ("C08", "frame"), "the size of the grid changed")]
    new.eq = new.eq
    ret = case.conv(res.rets[0]) if case.conv else None
    cx = K.Ctx(old=old, new=new, a=case.args, ret=ret, ex=None, st=None, old_list=LView(old.xl), new_list=LView(new.xl))
    cx.warned = res.warns[0] if res.warns else 0
    cx.case = case
    cx.old_pose, cx.new_pose = getattr(old, "pose", None), getattr(new, "pose", None)
    cells = [(i, j) for i in range(old.nx) for j in range(old.ny)]
    for cl in c.ensures:
        if not cl.concrete or cl.lemma or (want and not (set(cl.tags) & want)):
            continue
        if cl.kind == "plain":
            pts = [()]
        elif cl.kind == "cell":
            pts = cells
        else:
            n = cl.lst(cx) if cl.lst else new.n
            pts = [(k,) for k in range(n)]
        for p in pts:
            if cl.fn(cx, *p) is not True:
                bad.append((cl.name, cl.tags, p))
                break
    if not want or "frame" in want or True:
        for nm in frame(c, old, new):
            bad.append(("frame/%s unchanged" % nm, ("frame",), ()))
    return bad


def requires(c, case):
    """does the precondition hold on the state generated"""
    old = case.old
    cx = K.Ctx(old=old, new=old, a=case.args, ret=None, ex=None, st=None, old_list=LView(old.xl), new_list=LView(old.xl))
    cx.case = case
    cx.old_pose = cx.new_pose = (case.body.pos_, case.body.ori_) if case.body is not None else None
    for cl in c.requires:
        if cl.lemma or not cl.concrete:
            continue
        if cl.kind == "plain":
            pts = [()]
        elif cl.kind == "cell":
            pts = [(i, j) for i in range(old.nx) for j in range(old.ny)]
        else:
            pts = [(k,) for k in range(cl.lst(cx) if cl.lst else old.n)]
        for p in pts:
            if cl.fn(cx, *p) is not True:
                return cl.name, p
    return None


def frame(c, old, new):
    m = set(x.split(".", 1)[1].rstrip("_") for x in c.modifies if x.startswith("sim_out."))
    out = []
    if "terrain" not in m and old.T != new.T:
        out.append("sim_out.terrain_")
    if "body" not in m and old.B != new.B:
        out.append("sim_out.body_")
    if "body_soil" not in m and old.S != new.S:
        out.append("sim_out.body_soil_")
    if "body_soil_pos" not in m and [vars_(e) for e in old.lst] != [vars_(e) for e in new.lst]:
        out.append("sim_out.body_soil_pos_")
    for a in ("body", "relax", "impact"):
        if a + "_area" not in m and old.areas[a] != new.areas[a]:
            out.append("sim_out.%s_area_" % a)
    if "equilibrium" not in m and old.eq != new.eq:
        out.append("sim_out.equilibrium_")
    if getattr(old, "pose", None) is not None and not any(x.startswith("body") for x in c.modifies) and old.pose != new.pose:
        out.append("body pose")
    return out


def vars_(e):
    return tuple(getattr(e, k) for k in K.Entry.__slots__)
