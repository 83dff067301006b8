"""K03: exact at the data, or nugget-filtered on request."""
from .common import *

ID = "K03"


def exact(env, kind, dim, n, backend, aniso, model, drifts=(), window=None, pinv=False):
    """Every datum as target (after a free point): its value and zero."""
    geo, pts, mod, qs, (kw, ekw, fd, fq) = setup(env, kind, dim, n, aniso, "all", model, drifts)
    if fd:
        wellposed(env, geo, mod, pts, fd)
    if pinv:
        kw = dict(kw, pseudo_inv=True, pseudo_inv_type=pinv)
    zv = env.reals("v", n, -100, 100, PV)
    k = make(env, kind, dim, pts, zv, mod, geo, **kw)
    if window:
        ekw = dict(ekw, n_closest_points=window)
    z, ss = execute(env, k, "points", qs, backend=backend, **ekw)
    for j, (q, at) in enumerate(qs):
        if at is not None:
            env.check("prediction at datum %d is its value" % at, env.same(z[j], zv[at]))
            env.check("variance at datum %d is zero" % at, env.same(ss[j], 0))


def filtered(env, kind, dim, n, backend, aniso, model, drifts=(), window=None):
    """exact_values=False keeps the nugget at coincident points."""
    geo, pts, mod, qs, (kw, ekw, fd, fq) = setup(env, kind, dim, n, aniso, "all", model, drifts)
    if window:
        ekw = dict(ekw, n_closest_points=window)

    def run(zv):
        k = make(env, kind, dim, pts, zv, mod, geo, exact_values=False, **kw)
        return execute(env, k, "points", qs, backend=backend, **ekw)

    lam, sss = zip(*[run(u) for u in units(env, n)])
    A = gamma_matrix(env, geo, mod.gam, pts)
    for j, (q, at) in enumerate(qs):
        b = gamma_rhs(env, geo, mod.gam, pts, q, False, at)
        uk_equations(env, "nugget kept", A, b, [lam[i][j] for i in range(n)], sss[0][j], fd, [f[j] for f in fq], False)


def nonugget(env, kind, dim, n, backend, aniso, drifts=(), window=None):
    """Without a nugget both settings give the same numbers."""
    geo, pts, mod, qs, (kw, ekw, fd, fq) = setup(env, kind, dim, n, aniso, "mix", "linear0", drifts)
    if window:
        ekw = dict(ekw, n_closest_points=window)
    if fd:
        wellposed(env, geo, mod, pts, fd)
    zv = env.reals("v", n, -100, 100, PV)
    r = []
    for e in (True, False):
        k = make(env, kind, dim, pts, zv, mod, geo, exact_values=e, **kw)
        r.append(execute(env, k, "points", qs, backend=backend, **ekw))
    env.eq("values", r[0][0], r[1][0])
    env.eq("variances", r[0][1], r[1][1])


BOUNDS = ("2-4 data points in [-50, 50], pairwise at least 1/8 apart, all of them targets together with a free point; 2D and 3D ordinary and "
          "universal kriging, every backend, windows of 2-3 points; every variogram function (linear with any slope and nugget for the "
          "compiled backend); anisotropy scaling in [1/10, 10], angles in [-360, 360]")
OUTSIDE = "points closer than the coincidence threshold of 1e-10 but not equal"
needs_c = c_task
DR = ([], ["lin"], ["well"], ["well@d"], ["extZx"], ["spec"], ["spec2"], ["func"], ["spec", "func"])


def tasks(thorough):
    out = []
    for dim in (2, 3):
        for backend in ("vectorized", "loop") + (("C",) if dim == 2 else ()):
            ms = ("linear",) if backend == "C" else ("custom",)
            for model in ms:
                for aniso in (False, True):
                    b = dict(kind="ok", dim=dim, backend=backend, aniso=aniso, model=model)
                    out.append(("exact", dict(n=3, **b)))
                    out.append(("filtered", dict(n=3, **b)))
                    b.pop("model")
                    out.append(("nonugget", dict(n=3, **b)))
                b = dict(kind="ok", dim=dim, backend=backend, aniso=False, model=model)
                if backend != "vectorized":
                    for w in (2, 3):
                        out.append(("exact", dict(n=3, window=w, **b)))
                    out.append(("filtered", dict(n=2, window=2, **b)))
                    out.append(("nonugget", dict(kind="ok", dim=dim, backend=backend, aniso=False, n=3, window=2)))
                if thorough:
                    for n in (4, 5):
                        out.append(("exact", dict(n=n, **b)))
                        out.append(("filtered", dict(n=n, **b)))
            if backend != "C":
                for drifts in DR:
                    if dim == 3 and drifts and ("well" in drifts[0] or "ext" in drifts[0]):
                        continue
                    n = 4 if drifts in (["lin"], ["spec2"], ["spec", "func"]) else 3
                    if dim == 3 and drifts == ["lin"]:
                        n = 4
                    b = dict(kind="uk", dim=dim, n=n, backend=backend, aniso=False, drifts=drifts)
                    out.append(("exact", dict(model="custom", **b)))
                    out.append(("filtered", dict(model="custom", **b)))
                    out.append(("nonugget", b))
    return out
