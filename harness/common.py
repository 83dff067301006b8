"""Shared pieces of the harnesses: inputs, geometry and the kriging
equations as the properties state them."""

from fractions import Fraction

PX = [[0, 3, 1, 5, -3, 6, 8], [1, 4, 0, 3, 7, -2, 5], [-2, 3, 2, 0, 5, -4, 9], [0, 7, 3, -4, 6, 11, 2], [2, 0, 5, 1, -5, 8, 3]]
PY = [[0, 1, 4, 3, 5, -2, 7], [2, 0, 3, 5, -4, 7, 2], [1, -3, 2, 4, 6, 1, -7], [0, 2, 8, 1, -5, 4, 9], [0, 3, 1, 5, 6, -3, 8]]
PZ3 = [[0, 2, 1, -3, 4, -1, 6], [1, -2, 4, 0, 3, 5, -3], [0, 3, -1, 2, 1, 6, -4], [5, 0, 2, 1, -2, 3, 7], [0, 1, 3, -2, 5, -4, 2]]
PV = [[1, 4, 2, -1, 6, -3, 2], [3, 1, 5, 2, 4, 0, 9], [-2, 4, 1, 7, 5, -1, 3], [10, -6, 3, 2, -7, 1, 8], [2, 5, -4, 1, 0, 3, -6]]
PA = [[30], [-75], [120], [200], [10]]
PS = [[2], ["1/2"], [3], ["5/4"], ["3/10"]]


def coords(env, stem, n, prof, lo=-50, hi=50):
    return env.reals(stem, n, lo, hi, prof)


def points(env, n, dim):
    """n data points (list of coordinate tuples), pairwise apart."""
    cs = [coords(env, s, n, p) for s, p in zip("xyz"[:dim], (PX, PY, PZ3))]
    return [tuple(c[i] for c in cs) for i in range(n)]


def d2_plain(p, q):
    s = 0
    for a, b in zip(p, q):
        s = s + (a - b) * (a - b)
    return s


class Iso:
    """No anisotropy."""

    def __init__(self, env, dim=2):
        self.env = env
        self.kw = {}

    def map(self, v):
        return v

    def dist(self, p, q):
        return self.env.sqrt(self.dist2(p, q))

    def dist2(self, p, q):
        return d2_plain(p, q)


class Sphere:
    """Longitude / latitude in degrees; distances are angles in degrees."""

    def __init__(self, env):
        self.env = env
        self.kw = dict(coordinates_type="geographic")

    def dist(self, p, q):
        env = self.env
        r = env.pi / 180
        c1, s1, c2, s2 = env.cos(p[1] * r), env.sin(p[1] * r), env.cos(q[1] * r), env.sin(q[1] * r)
        dl = (p[0] - q[0]) * r
        cd, sd = env.cos(dl), env.sin(dl)
        u, v = c2 * sd, c1 * s2 - s1 * c2 * cd
        return env.arctan2(env.sqrt(u * u + v * v), s1 * s2 + c1 * c2 * cd) * (180 / env.pi)

    def dist2(self, p, q):
        """Squared chord, increasing with the angle."""
        env = self.env
        r = env.pi / 180
        c1, s1, c2, s2 = env.cos(p[1] * r), env.sin(p[1] * r), env.cos(q[1] * r), env.sin(q[1] * r)
        a, b = p[0] * r, q[0] * r
        return 2 - 2 * (s1 * s2 + c1 * c2 * (env.cos(a) * env.cos(b) + env.sin(a) * env.sin(b)))


def lonlat(env, stem, n, lonp=None, latp=None):
    lon = env.reals(stem + "lon", n, -180, 180, lonp or [[10, 20, 35], [-30, 45, 100], [170, -175, 3], [-90, 60, 12], [0, 5, 9]])
    lat = env.reals(stem + "lat", n, -90, 90, latp or [[5, -20, 40], [0, 10, 60], [70, 45, -33], [-80, -10, 85], [2, 4, -3]])
    return list(zip(lon, lat))


def gapart(env, geo, pts, more=(), dmin="1/8"):
    m = env.num(Fraction(dmin))
    for i in range(len(pts)):
        for q in list(pts[:i]) + list(more):
            env.assume(geo.dist(pts[i], q) >= m)


class Aniso2:
    """Rotation by an angle (ccw degrees), then stretching of y."""

    def __init__(self, env, scaling, angle):
        self.env = env
        a = angle * env.pi / 180
        self.c, self.s, self.k = env.cos(a), env.sin(a), scaling
        self.kw = dict(anisotropy_scaling=scaling, anisotropy_angle=angle)

    def map(self, v):
        x, y = v
        return (x * self.c + y * self.s, (y * self.c - x * self.s) * self.k)

    def dist(self, p, q):
        return self.env.sqrt(self.dist2(p, q))

    def dist2(self, p, q):
        u = self.map((p[0] - q[0], p[1] - q[1]))
        return u[0] * u[0] + u[1] * u[1]


class Aniso3:
    """Rotations about x, then y, then z (ccw degrees), then stretching of y
    and z."""

    def __init__(self, env, sy, sz, ax, ay, az):
        self.env = env
        self.t = [(env.cos(a * env.pi / 180), env.sin(a * env.pi / 180)) for a in (ax, ay, az)]
        self.k = (sy, sz)
        self.kw = dict(anisotropy_scaling_y=sy, anisotropy_scaling_z=sz, anisotropy_angle_x=ax,
                       anisotropy_angle_y=ay, anisotropy_angle_z=az)

    def map(self, v):
        x, y, z = v
        (cx, sx), (cy, sy), (cz, sz) = self.t
        # coordinates in the system rotated by a: rotate the vector by -a
        y, z = y * cx + z * sx, z * cx - y * sx
        x, z = x * cy - z * sy, z * cy + x * sy
        x, y = x * cz + y * sz, y * cz - x * sz
        return (x, y * self.k[0], z * self.k[1])

    def dist(self, p, q):
        return self.env.sqrt(self.dist2(p, q))

    def dist2(self, p, q):
        u = self.map(tuple(a - b for a, b in zip(p, q)))
        return u[0] * u[0] + u[1] * u[1] + u[2] * u[2]


def apart(env, geo, pts, dmin="1/8"):


    m = env.num(Fraction(dmin))
    for i in range(len(pts)):
        for j in range(i):
            env.assume(geo.dist(pts[i], pts[j]) >= m)
            env.assume(geo.dist2(pts[i], pts[j]) >= m * m)


def apart_from(env, geo, p, pts, dmin="1/8"):


    m = env.num(Fraction(dmin))
    for q in pts:
        env.assume(geo.dist(p, q) >= m)
        env.assume(geo.dist2(p, q) >= m * m)


def gamma_matrix(env, geo, g, pts):
    """Variogram matrix of the data: zero on the diagonal."""
    n = len(pts)
    return [[0 if i == j else g(geo.dist(pts[i], pts[j])) for j in range(n)] for i in range(n)]


def gamma_rhs(env, geo, g, pts, p0, exact, at=None):
    """Right-hand side at p0; at = index of the datum p0 coincides with."""
    out = []
    for i, p in enumerate(pts):
        if i == at:
            out.append(0 if exact else g(env.num(0)))
        else:
            out.append(g(geo.dist(p, p0)))
    return out


def kkt(env, name, A, b, lam, ss, drift_rows=(), drift_rhs=(), mus=None):
    """The ordinary-kriging equations for weights lam and variance ss."""
    n = len(b)
    s = 0
    for v in lam:
        s = s + v
    env.check(name + ": weights sum to one", env.same(s, 1))
    mu = ss
    for j in range(n):
        mu = mu - lam[j] * b[j]
    for i in range(n):
        t = mu
        for j in range(n):
            t = t + A[i][j] * lam[j]
        env.check(name + ": kriging equation %d" % i, env.same(t, b[i]))


def units(env, n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


# ------------------------------------------------------------------ problems
def mkgeo(env, aniso, dim=2):
    if not aniso:
        return Iso(env, dim)
    if dim == 2:
        sc = env.real("scal", "1/10", 10, [r[0] for r in PS])
        an = env.real("angle", -360, 360, [r[0] for r in PA])
        return Aniso2(env, sc, an)
    ss = env.reals("scal", 2, "1/10", 10, [[2, "1/2"], ["1/2", 3], [3, 2], ["5/4", 1], ["3/10", 4]])
    an = env.reals("angle", 3, -360, 360, [[30, 10, -50], [-75, 20, 15], [120, -10, 33], [200, 95, 5], [10, 0, 70]])
    return Aniso3(env, ss[0], ss[1], *an)


class Model:
    def __init__(self, kw, gam):
        self.kw, self.gam = kw, gam


def mkmodel(env, kind="custom", tag=""):
    if kind == "custom":
        p0 = env.real("p0" + tag, -5, 5, [1, 2, "1/2", 3, 2])
        g = env.vario("g" + tag, 1)
        return Model(dict(variogram_model="custom", variogram_parameters=[p0], variogram_function=g), lambda d: g([p0], d))
    if kind == "linear":
        sl = env.real("slope" + tag, "1/100", 10, [1, 2, "1/2", "3/2", 3])
        nug = env.real("nugget" + tag, 0, 5, ["1/2", 0, 1, "1/4", 0])
        return Model(dict(variogram_model="linear", variogram_parameters=[sl, nug]), lambda d: sl * d + nug)
    if kind == "linear0":
        sl = env.real("slope" + tag, "1/100", 10, [1, 2, "1/2", "3/2", 3])
        return Model(dict(variogram_model="linear", variogram_parameters=[sl, 0]), lambda d: sl * d)
    raise ValueError(kind)


CLS = {("ok", 2): ("pykrige.ok", "OrdinaryKriging"), ("uk", 2): ("pykrige.uk", "UniversalKriging"),
       ("ok", 3): ("pykrige.ok3d", "OrdinaryKriging3D"), ("uk", 3): ("pykrige.uk3d", "UniversalKriging3D")}


def kclass(env, kind, dim):
    m, c = CLS[kind, dim]
    return getattr(env.load(m), c)


def columns(env, pts):
    return [env.arr(list(c)) for c in zip(*pts)]


def make(env, kind, dim, pts, zv, model, geo, **kw):
    k = dict(model.kw)
    k.update(geo.kw)
    k.setdefault("nlags", 1)
    k.update(kw)
    if k.get("stats") and (kind, dim) == ("ok", 2):
        k["enable_statistics"] = True
    if env.sym and not k.pop("stats", False):
        env.no_statistics(CLS[kind, dim][0])
    k.pop("stats", None)
    return kclass(env, kind, dim)(*columns(env, pts), env.arr(list(zv)), **k)


def targets(env, geo, pts, where, tag="", dmin="1/8"):
    """[(point, index of the datum it coincides with or None)]"""
    dim = len(pts[0])

    def free(k):
        prof = [[2, "7/2", "5/2", 3, 6], [2, 2, "1/2", 4, -3], [1, 3, "-1/2", 0, 2]]
        q = []
        for c in range(dim):
            pr = [x if k == 0 else (Fraction(x) + Fraction(k * (c + 1), 3)) for x in prof[c]]
            q.append(env.real("q%s%d%s" % (tag, k, "xyz"[c]), -50, 50, pr))
        q = tuple(q)
        apart_from(env, geo, q, pts, dmin)
        return q

    def near():
        """Close to the first datum, without coinciding."""
        prof = [[Fraction(1, 4096), Fraction(1, 64), Fraction(1, 300), Fraction(1, 100000), Fraction(1, 16)],
                [0, Fraction(1, 50), Fraction(-1, 5000), 0, Fraction(-1, 30)], [0, 0, Fraction(1, 700), Fraction(-1, 3000), 0]]
        q = tuple(pts[0][c] + env.real("d%s%s" % (tag, "xyz"[c]), Fraction(1, 10**6) if c == 0 else Fraction(-1, 16), Fraction(1, 16), prof[c])
                  for c in range(dim))
        apart_from(env, geo, q, pts[:1], Fraction(1, 10**6))
        apart_from(env, geo, q, pts[1:], dmin)
        return q

    if where == "near":
        return [(near(), None)]
    if where == "free":
        return [(free(0), None)]
    if where == "datum":
        return [(pts[0], 0)]
    if where == "mix":
        return [(free(0), None), (pts[1], 1)]
    if where == "all":
        return [(free(0), None)] + [(p, i) for i, p in enumerate(pts)]
    if where == "xim":
        return [(pts[-1], len(pts) - 1), (free(0), None)]
    if where == "free2":
        a, b = free(0), free(1)
        apart_from(env, geo, b, [a], dmin)
        return [(a, None), (b, None)]
    raise ValueError(where)


def line_nodes(env, geo, pts, axis, where="free", m=2):
    """Targets that are the nodes of a grid of one row along an axis; the
    first or the last one may be a datum."""
    first = targets(env, geo, pts, "datum" if where == "datum" else "free")[0]
    qs = [first]
    for k in range(1, m):
        c = env.real("node%d" % k, -50, 50, [Fraction(9, 2) + 2 * k, Fraction(-13, 2) - k, 11 - k, Fraction(15, 2), -8 + k])
        q = tuple(c if i == axis else v for i, v in enumerate(first[0]))
        apart_from(env, geo, q, pts)
        apart_from(env, geo, q, [x for x, _ in qs])
        qs.append((q, None))
    return qs


def run_line(env, k, style, qs, axis, mask=None, backend="vectorized", **ekw):
    """Such a row of nodes requested as points, grid or masked grid: values
    and variances as lists, None where masked."""
    dim = len(qs[0][0])
    if style == "points":
        z, ss = execute(env, k, "points", qs, backend=backend, **ekw)
        return [z[i] for i in range(len(qs))], [ss[i] for i in range(len(qs))]
    cols = [env.arr([q[c] for q, _ in qs] if c == axis else [qs[0][0][c]]) for c in range(dim)]
    shape = tuple(len(c) for c in cols[::-1])
    if "specified_drift_arrays" in ekw:
        ekw["specified_drift_arrays"] = [a.reshape(shape) for a in ekw["specified_drift_arrays"]]
    if style == "masked":
        ekw["mask"] = env.np.array(mask, dtype=bool).reshape(shape)
    z, ss = k.execute(style, *cols, backend=backend, **ekw)
    env.check("shape of the result", z.shape == shape and ss.shape == shape)
    out = []
    for a in (z, ss):
        a = (a.data if env.is_masked_array(a) else a).reshape((-1,))
        out.append([None if mask is not None and style == "masked" and mask[i] else a[i] for i in range(len(qs))])
    return out


def execute(env, k, style, qs, **kw):
    cols = columns(env, [q for q, _ in qs])
    return k.execute(style, *cols, **kw)


def c_task(fn, cfg):
    return cfg.get("backend") == "C" or "C" in str(cfg.get("backends", ""))


def drift_2d(env, drifts, geo, pts, qs, center):
    """Universal-kriging drift terms: (constructor keywords, execute
    keywords, [values at the data], [values at the targets])."""
    kw, ekw, fd, fq = dict(drift_terms=[]), {}, [], []
    dim = len(pts[0])
    n = len(pts)

    def adj(p):
        u = geo.map(tuple(a - b for a, b in zip(p, center)))
        return tuple(a + b for a, b in zip(u, center))

    for d in drifts:
        if d.startswith("lin"):
            kw["drift_terms"].append("regional_linear")
            for c in range(dim):
                fd.append([adj(p)[c] for p in pts])
                fq.append([adj(q)[c] for q, _ in qs])
        elif d.startswith("well"):
            kw["drift_terms"].append("point_log")
            nw = 2 if d.startswith("well2") else 1
            wells, cols = [], []
            for k in range(nw):
                st = env.real("strength%d" % k, -5, 5, [1, "-1/2", 2, -3, "1/5"])
                if d.endswith("@q"):
                    w = qs[0][0]
                elif d.endswith("@d"):
                    w = pts[-1]
                else:
                    w = (env.real("wx%d" % k, -50, 50, [3 + k, 5, -3, 2 - k, 7]), env.real("wy%d" % k, -50, 50, [-2, 1 + 3 * k, 6, 9, -4 + k]))
                    apart_from(env, geo, w, pts + [q for q, _ in qs], "1/8")
                wells.append((w, st))
                cols.append([w[0], w[1], st])

            def term(w, st, p):
                if p is w:
                    return st * 100
                return -st * env.log(geo.dist(p, w))

            for w, st in wells:
                fd.append([term(w, st, p) for p in pts])
                fq.append([term(w, st, q) for q, _ in qs])
            kw["point_drift"] = env.arr(cols)
        elif d.startswith("extZ"):
            kw["drift_terms"].append("external_Z")
            z = env.reals("ez", 2, -20, 20, [[1, 3], [0, 4], [7, -1], [1, -6], [2, 9]])
            z = [z[0], z[0], z[1], z[1]] if d.endswith("y") else [z[0], z[1], z[0], z[1]]
            H = 64
            kw["external_drift"] = env.arr([z[:2], z[2:]])
            kw["external_drift_x"] = env.arr([-H, H])
            kw["external_drift_y"] = env.arr([-H, H])

            def bil(p):
                tx, ty = (p[0] + H) / (2 * H), (p[1] + H) / (2 * H)
                return (z[0] * (1 - tx) * (1 - ty) + z[1] * tx * (1 - ty) + z[2] * (1 - tx) * ty + z[3] * tx * ty)

            fd.append([bil(p) for p in pts])
            fq.append([bil(q) for q, _ in qs])
        elif d.startswith("spec"):
            kw["drift_terms"].append("specified")
            m = 2 if d == "spec2" else 1
            sd, sq = [], []
            for k in range(m):
                a = env.reals("sd%d_" % k, n, -20, 20, [[1 + k, 4, -2, 6, 3], [3, 1 - k, 5, -1, 8], [0, 2, 7 + k, -3, 4], [5, 5 + k, 1, 2, 3], [9, 0, 2 + k, 4, 1]])
                a2 = env.reals("sq%d_" % k, len(qs), -20, 20, [[2, 5 - k], [7, 1], [-3, 4 + k], [6, 0], [1, 8]])
                for i, (q, at) in enumerate(qs):
                    if at is not None:
                        a2[i] = a[at]
                fd.append(a)
                fq.append(a2)
                sd.append(env.arr(a))
                sq.append(env.arr(a2))
            kw["specified_drift"] = sd
            ekw["specified_drift_arrays"] = sq
        elif d.startswith("func"):
            kw["drift_terms"].append("functional")
            m = 2 if d == "func2" else 1
            fs = [env.scalar_fn("h%d" % k, dim) for k in range(m)]
            for f in fs:
                fd.append([f(*adj(p)) for p in pts])
                fq.append([f(*adj(q)) for q, _ in qs])
            kw["functional_drift"] = fs
        else:
            raise ValueError(d)
    return kw, ekw, fd, fq


def setup(env, kind, dim, n, aniso, where, model, drifts, targets_fn=None):
    """Geometry, data points, model, targets and drift of one problem."""
    geo = mkgeo(env, aniso, dim)
    pts = points(env, n, dim)
    apart(env, geo, pts)
    mod = mkmodel(env, model)
    qs = (targets_fn or targets)(env, geo, pts, where)
    if kind == "uk":
        need = aniso and ("func" in str(drifts) or "lin" in str(drifts))
        center = center_of(env, pts) if need else tuple([env.num(0)] * dim)
        dr = drift_2d(env, drifts, geo, pts, qs, center)
    else:
        env.nonsing = True
        dr = ({}, {}, [], [])
    return geo, pts, mod, qs, dr


def center_of(env, pts):
    out = []
    for c in zip(*pts):
        out.append((env.max(list(c)) + env.min(list(c))) / 2)
    return tuple(out)


def uk_equations(env, name, A, b, lam, ss, fd, fq, unb=True):
    """The universal-kriging system: the weights and the variance that solve
    its equations; unbiasedness for every drift term."""
    n = len(lam)
    rows = [[1] * n] + fd
    rhs = [1] + fq
    m = len(rows)
    assert n >= m
    M = [list(A[i]) + [r[i] for r in rows] for i in range(n)] + [list(r) + [0] * m for r in rows]
    G = env.inv(M)
    B = list(b) + list(rhs)
    var = 0
    for i in range(n + m):
        x = 0
        for j in range(n + m):
            x = x + G[i][j] * B[j]
        if i < n:
            env.check(name + ": weight %d" % i, env.same(lam[i], x))
        var = var + x * B[i]
    env.check(name + ": kriging variance", env.same(ss, var))
    for k, (r, t) in enumerate(zip(rows, rhs)):
        if not unb and k > 0:
            continue
        acc = 0
        for x, v in zip(r, lam):
            acc = acc + x * v
        env.check(name + (": weights sum to one" if k == 0 else ": drift %d reproduced" % k), env.same(acc, t))


def wellposed(env, geo, mod, pts, fd):
    """Replays only: skip systems that rounding decides."""
    if env.sym:
        return
    n = len(pts)
    rows = [[1] * n] + fd
    A = gamma_matrix(env, geo, mod.gam, pts)
    env.inv([list(A[i]) + [r[i] for r in rows] for i in range(n)] + [list(r) + [0] * len(rows) for r in rows])
