"""Deciding goals on a path: linear arithmetic over monomials, product
instances of the contract equations, non-linear real arithmetic; and the
search for concrete counterexample inputs."""
import math
import random
import time
from fractions import Fraction

import z3

from . import core
from .core import ONE, S, B, _norm


def _divides(h, m):
    """m / h as exponent dict if all exponents of h are contained in m."""
    dm = dict(m)
    for a, e in h:
        v = dm.get(a, 0)
        if v < e or e < 0:
            return None
        v -= e
        if v:
            dm[a] = v
        else:
            dm.pop(a, None)
    return tuple(sorted(dm.items()))


def contract_kinds(c):
    return ("ginv", "xsol", "den", "fresh")


def instances(c, polys, hyps, depth=3, cap=1500):
    """Products h*t whose monomials meet those of polys."""
    seen_m = set()
    todo = set()
    for p in polys:
        todo.update(p.t.keys())
    used = set()
    out = []
    # index hypothesis monomials by a distinguished atom
    index = {}
    for hi, (h, strong) in enumerate(hyps):
        for m in h.t:
            if m == ONE:
                continue
            keys = [a for a, e in m if c.atoms[a].kind in contract_kinds(c)]
            if not keys:
                if strong:
                    continue
                keys = [a for a, e in m]
            index.setdefault(keys[0], []).append((hi, m))
    for d in range(depth):
        new = set()
        for m in todo:
            if m in seen_m:
                continue
            seen_m.add(m)
            for a, e in m:
                for hi, hm in index.get(a, ()):
                    t = _divides(hm, m)
                    if t is None or (hi, t) in used:
                        continue
                    used.add((hi, t))
                    p = hyps[hi][0] * S({t: 1}) if t else hyps[hi][0]
                    if len(p.t) > 400:
                        continue
                    out.append(p)
                    new.update(p.t.keys())
                    if len(out) >= cap:
                        return out
        todo = new
        if not todo:
            break
    return out


def hypotheses(c):
    hy = [(p, True) for p in c.invs]
    for p in c.eqs:
        hy.append((p, False))
    for a in c.atoms:
        if a.kind == "den":
            p = S({((a.id, 1),): 1})
            # p*payload == 1 without the automatic reduction
            t = {}
            for m, k in a.payload.t.items():
                mm = c.mono_mul(m, ((a.id, 1),))
                if type(mm) is tuple:
                    t[mm] = _norm(t.get(mm, 0) + k)
                else:
                    for m2, k2 in mm.t.items():
                        t[m2] = _norm(t.get(m2, 0) + k * k2)
            t[ONE] = _norm(t.get(ONE, 0) - 1)
            hy.append((S({m: k for m, k in t.items() if k}), True))
    return hy


def clear_den(c, p, cap=4000):
    """p times (non-zero) denominators: a polynomial without den atoms that
    is zero exactly when p is, or None when it grows too large."""
    for _ in range(12):
        dens = {}
        for m in p.t:
            for a, e in m:
                if c.atoms[a].kind == "den":
                    dens[a] = max(dens.get(a, 0), e)
        if not dens:
            return p
        a = max(dens)
        e0 = dens[a]
        pay = c.atoms[a].payload
        powers = [S.const(1)]
        for _ in range(e0):
            powers.append(powers[-1] * pay)
            if len(powers[-1].t) > cap:
                return None
        q = S.const(0)
        groups = {}
        for m, k in p.t.items():
            e = 0
            rest = []
            for b, x in m:
                if b == a:
                    e = x
                else:
                    rest.append((b, x))
            if e < 0:
                return None
            groups.setdefault(e, {})[tuple(rest)] = k
        for e, t in groups.items():
            if len(t) * len(powers[e0 - e].t) > 40 * cap:
                return None
            q = q + S(t) * powers[e0 - e]
        if len(q.t) > cap:
            return None
        p = q
    return None


def prove(c, goal, nra_ms=4000, depth=3, cap=1500, lemma=False):
    """True if goal holds for all values on this path.  A lemma is only
    tried, and not counted among the goals."""
    if lemma:
        g, p = c.stats.goals, c.stats.proved
        try:
            return prove(c, goal, nra_ms, depth, cap)
        finally:
            c.stats.goals, c.stats.proved = g, p
    c.stats.goals += 1
    if goal.is_const() and goal.c:
        c.stats.proved += 1
        # recorded as a (trivial) query so that every verdict is the solver's
        c.stats.queries += 1
        c.stats.unsat += 1
        return True
    if not goal.is_const() and goal.c[0] == "==" and len(goal.c[1].t) <= 400:
        q = clear_den(c, goal.c[1])
        if q is not None and q.is_const() and q.cval() == 0:
            c.stats.proved += 1
            c.stats.queries += 1
            c.stats.unsat += 1
            return True
    ng = ~goal
    s = c.solver
    saved = dict(c.zmono)
    s.push()
    try:
        if not ng.is_const():
            s.add(ng.to_z3(c.enc))
        r = c.check()
        if r == z3.unsat:
            c.stats.proved += 1
            return True
        polys = goal.polys()
        ins = instances(c, polys + [], hypotheses(c), depth, cap)
        if ins:
            for p in ins:
                s.add(c.enc(p) == 0)
            s.set("timeout", 5000)
            r = c.check()
            s.set("timeout", 1500)
            if r == z3.unknown:
                r = fresh_check(c, s)
            if r == z3.unsat:
                c.stats.proved += 1
                return True
    finally:
        s.pop()
        # monomials introduced inside the push lost their facts
        c.zmono = saved
    if nra_ms and nra_check(c, ng, nra_ms)[0] == z3.unsat:
        c.stats.proved += 1
        return True
    return False


def fresh_check(c, s):
    """The same query on new solvers: the simplex search now and then runs
    away for one order of pivots."""
    cons = s.assertions()
    for k, ms in enumerate((5000, 10000, 15000)):
        if k == 1:
            n = z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
        else:
            n = z3.SolverFor("QF_LRA")
            n.set("random_seed", 17 * k + 3)
        n.set("timeout", ms)
        n.add(cons)
        t = time.time()
        r = n.check()
        c.stats.queries += 1
        c.stats.solver_s += time.time() - t
        if r == z3.unsat:
            c.stats.unsat += 1
            return r
        if r == z3.sat:
            c.stats.sat += 1
            return r
        c.stats.unknown += 1
    return z3.unknown


def full_enc(c, pins=None):
    """Encoder into real polynomials; returns (enc, side constraints list)."""
    zv = {}
    side = []

    def atomv(a):
        v = zv.get(a.id)
        if v is None:
            v = z3.Real("a%d_%s" % (a.id, a.kind.replace(":", "_")))
            zv[a.id] = v
            if a.pos:
                side.append(v > 0)
            elif a.nonneg:
                side.append(v >= 0)
            if a.kind in ("sqrt", "csqrt"):
                side.append(v * v == enc(a.payload))
            elif a.kind == "den":
                side.append(v * enc(a.payload) == 1)
            elif a.kind == "sin":
                cs = c.table.get(("cos", (a.args[0].key(),)))
                if cs is not None:
                    side.append(v * v + atomv(cs) * atomv(cs) == 1)
        return v

    def enc(p):
        ts = []
        for m, k in p.t.items():
            t = z3.RealVal(str(k))
            den = None
            for a, e in m:
                v = atomv(c.atoms[a])
                if e > 0:
                    for _ in range(e):
                        t = t * v
                else:
                    key = ("inv", a)
                    iv = zv.get(key)
                    if iv is None:
                        iv = z3.Real("i%d" % a)
                        zv[key] = iv
                        side.append(iv * v == 1)
                    for _ in range(-e):
                        t = t * iv
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    return enc, side, zv, atomv


def nra_check(c, ng, ms, extra=()):
    enc, side, zv, atomv = full_enc(c)
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", ms)
    cons = []
    for kind, b in c.pc:
        cons.append(b.to_z3(enc))
    if not ng.is_const():
        cons.append(ng.to_z3(enc))
    elif not ng.c:
        return z3.unsat, None, zv
    for b in extra:
        cons.append(b.to_z3(enc))
    s.add(*cons)
    s.add(*side)
    t = time.time()
    r = s.check()
    c.stats.queries += 1
    c.stats.solver_s += time.time() - t
    if r == z3.unsat:
        c.stats.unsat += 1
    elif r == z3.sat:
        c.stats.sat += 1
    else:
        c.stats.unknown += 1
    m = s.model() if r == z3.sat else None
    return r, m, zv


def z3num(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(12)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


# --------------------------------------------------------------------------
def profile(c, k, seed=1):
    """Concrete values for all inputs: profile number k."""
    rng = random.Random(1000 * seed + k)
    env = {}
    for name, (s, meta) in c.inputs.items():
        prof = meta.get("prof")
        if prof and k < len(prof):
            env[name] = Fraction(prof[k])
            continue
        lo, hi = meta.get("lo"), meta.get("hi")
        a = float(lo) if lo is not None else -8.0
        b = float(hi) if hi is not None else a + 16.0
        if lo is None and hi is not None:
            a = b - 16.0
        v = rng.uniform(a + 0.03 * (b - a), b - 0.03 * (b - a))
        env[name] = Fraction(round(v * 64), 64)
        if lo is not None and env[name] < lo:
            env[name] = Fraction(lo)
        if hi is not None and env[name] > hi:
            env[name] = Fraction(hi)
    if k >= 8 and k % 2:
        cluster(c, env, rng)
    return env


def cluster(c, env, rng):
    """Some inputs of equal range moved close to one of them."""
    groups = {}
    for name, (s, meta) in c.inputs.items():
        lo, hi = meta.get("lo"), meta.get("hi")
        if lo is not None and hi is not None:
            groups.setdefault((lo, hi), []).append(name)
    for (lo, hi), names in groups.items():
        if len(names) < 2 or rng.random() < 0.2:
            continue
        mid = env[rng.choice(names)]
        w = float(hi - lo) * 10 ** -rng.uniform(0.7, 3.2)
        p = rng.choice((0.4, 0.7, 1.0))
        for n in names:
            if rng.random() < p:
                v = mid + Fraction(round(rng.uniform(-w, w) * 1024), 1024)
                env[n] = min(max(v, Fraction(lo)), Fraction(hi))


def violated_numeric(c, goal, env, rel=1e-7):
    """goal numerically false with a margin, and the path condition true."""
    for kind, b in c.pc:
        if kind == "fact":
            continue
        if not b.ev(env, 1e-12):
            return False
    if goal is None:
        return True
    return not goal.ev(env, rel)


def input_constraints(c):
    out = []
    for name, (s, meta) in c.inputs.items():
        if meta.get("lo") is not None:
            out.append(s >= S.const(meta["lo"]))
        if meta.get("hi") is not None:
            out.append(s <= S.const(meta["hi"]))
    return out


def pinned_solve(c, goal, env, free, ms):
    """Fix all inputs but `free`; ask z3 for the rest (exact arithmetic; the
    transcendental atoms without free inputs are replaced by their values)."""
    names = {c.table[("var", (n,))].id: n for n in c.inputs}
    dep_cache = {}

    def deps(a):
        r = dep_cache.get(a.id)
        if r is not None:
            return r
        dep_cache[a.id] = set()
        r = set()
        if a.kind == "var":
            r = {a.name} & set(free)
        elif a.kind in ("ginv", "xsol"):
            r = set(free)
        else:
            ps = [x for x in a.args if isinstance(x, S)]
            if a.payload is not None:
                ps.append(a.payload)
            for p in ps:
                for m in p.t:
                    for b, _ in m:
                        r = r | deps(c.atoms[b])
            if not ps and a.kind not in ("pi", "csqrt"):
                r = {"?"}
        dep_cache[a.id] = r
        return r

    zv = {}
    side = []
    num = dict(env)
    num.pop("__cache__", None)
    base = {k: float(v) for k, v in num.items()}

    def atomv(a):
        v = zv.get(a.id)
        if v is not None:
            return v
        if a.kind == "var" and a.name not in free:
            v = z3.RealVal(str(Fraction(env[a.name])))
        elif a.kind != "var" and not deps(a):
            f = c.eval_atom(a, base)
            if f != f or math.isinf(f):
                v = z3.Real("a%d" % a.id)
            else:
                v = z3.RealVal(str(Fraction(f).limit_denominator(10**12)))
        else:
            v = z3.Real("a%d" % a.id)
            zv[a.id] = v
            if a.pos:
                side.append(v > 0)
            elif a.nonneg:
                side.append(v >= 0)
            if a.kind in ("sqrt", "csqrt"):
                side.append(v * v == enc(a.payload))
            elif a.kind == "den":
                side.append(v * enc(a.payload) == 1)
            elif a.kind == "sin":
                cs = c.table.get(("cos", (a.args[0].key(),)))
                if cs is not None:
                    side.append(v * v + atomv(cs) * atomv(cs) == 1)
            elif a.kind == "rnd":
                pass
        zv[a.id] = v
        return v

    def enc(p):
        ts = []
        for m, k in p.t.items():
            t = z3.RealVal(str(k))
            for a, e in m:
                v = atomv(c.atoms[a])
                if e > 0:
                    for _ in range(e):
                        t = t * v
                else:
                    for _ in range(-e):
                        t = t / v
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    s = z3.Solver()
    s.set("timeout", ms)
    for kind, b in c.pc:
        if kind == "fact" and not any(
            deps(c.atoms[a]) for p in b.polys() for m in p.t for a, _ in m
        ):
            continue
        s.add(z3.simplify(b.to_z3(enc)))
    for b in input_constraints(c):
        if not b.is_const():
            s.add(b.to_z3(enc))
    if goal is not None and not goal.is_const():
        s.add((~goal).to_z3(enc))
    s.add(*side)
    t = time.time()
    r = s.check()
    c.stats.queries += 1
    c.stats.solver_s += time.time() - t
    if r == z3.sat:
        c.stats.sat += 1
        m = s.model()
        out = {n: v for n, v in env.items() if n != "__cache__"}
        for n in free:
            a = c.table[("var", (n,))]
            v = zv.get(a.id)
            if v is not None:
                x = z3num(m.eval(v, model_completion=True))
                if x is not None:
                    out[n] = x
        return out
    if r == z3.unsat:
        c.stats.unsat += 1
    else:
        c.stats.unknown += 1
    return None


def candidates(c, goal, budget_s=20.0, limit=6, nprof=8):
    """Concrete inputs that should violate goal on this path (goal None: any
    inputs that follow the path)."""
    t0 = time.time()
    found = []
    seen = set()

    def add(env):
        env = {k: v for k, v in env.items() if k != "__cache__"}
        k = tuple(sorted((n, str(v)) for n, v in env.items()))
        if k in seen:
            return
        seen.add(k)
        found.append({n: str(Fraction(v)) for n, v in env.items()})

    names = list(c.inputs)
    profs = [profile(c, k) for k in range(nprof)]
    for p in profs:
        env = {k: float(v) for k, v in p.items()}
        try:
            if violated_numeric(c, goal, env):
                add(p)
        except (OverflowError, ZeroDivisionError):
            pass
        if len(found) >= limit:
            return found
    k = nprof
    while goal is not None and len(found) < 3 and k < 400 and time.time() - t0 < budget_s / 4:
        p = profile(c, k)  # all inputs anywhere in their ranges
        k += 1
        try:
            if violated_numeric(c, goal, {n: float(v) for n, v in p.items()}):
                add(p)
        except (OverflowError, ZeroDivisionError):
            pass
    if found and len(found) >= 3:
        return found
    # let the solver choose a few inputs, the others pinned
    rng = random.Random(7)
    # inputs that occur in violated path constraints first
    for p in profs[:4]:
        if time.time() - t0 > budget_s:
            break
        env = {k: float(v) for k, v in p.items()}
        need = []
        for kind, b in c.pc:
            if kind == "fact":
                continue
            try:
                ok = b.ev(env, 1e-12)
            except Exception:
                ok = False
            if not ok:
                vs = set()
                for pl in b.polys():
                    _vars(c, pl, vs)
                need.append(sorted(vs))
        sets = []
        if need:
            u = sorted({v for n in need for v in n})
            sets.append(u[:6])
            for n in need[:4]:
                sets.append(n[:4])
            sets.append(u)
        for _ in range(3):
            k = min(len(names), rng.choice([1, 2, 3]))
            sets.append(rng.sample(names, k) if names else [])
        for fr in sets:
            if not fr or time.time() - t0 > budget_s:
                continue
            try:
                r = pinned_solve(c, goal, p, fr, 2500)
            except (z3.Z3Exception, OverflowError, ZeroDivisionError):
                r = None
            if r is not None:
                add(r)
                if len(found) >= limit:
                    return found
    if len(found) < limit and time.time() - t0 < budget_s and goal is not None:
        try:
            r, m, zv = nra_check(c, ~goal, 5000, input_constraints(c))
        except (z3.Z3Exception, core.EngineStop):
            r = None
        if r == z3.sat:
            env = dict(profs[0])
            for n in names:
                v = zv.get(c.table[("var", (n,))].id)
                if v is not None:
                    x = z3num(m.eval(v, model_completion=True))
                    if x is not None:
                        env[n] = x
            add(env)
    return found


def _vars(c, p, out, seen=None):
    seen = seen if seen is not None else set()
    for m in p.t:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            at = c.atoms[a]
            if at.kind == "var":
                if at.name in c.inputs:
                    out.add(at.name)
            else:
                for x in at.args:
                    if isinstance(x, S):
                        _vars(c, x, out, seen)
                if at.payload is not None:
                    _vars(c, at.payload, out, seen)
