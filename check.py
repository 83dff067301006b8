#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--thorough] [--only SUBSTR] [-v]

Decides one property on /repo's current tree: symbolic execution of the
harness configurations, z3 for every goal, replay of counterexamples on the
real code."""
import argparse
import importlib
import glob
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

if os.environ.get("PYTHONHASHSEED") != "0":  # the same run every time
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def worker(conn, modname):
    from symx import engine

    mod = importlib.import_module("harness." + modname)
    while True:
        try:
            t = conn.recv()
        except (EOFError, OSError):
            return
        if t is None:
            return
        i, fn, cfg, opts = t
        try:
            r = engine.explore(getattr(mod, fn), cfg, opts)
        except BaseException as e:  # engine failure: no verdict for the task
            import traceback

            r = dict(stats={}, fails=[], inconc=[dict(goal="engine", detail=traceback.format_exc()[-1500:], cands=[], choices={})],
                     reached=None, goals=0, wall=0, funcs=[])
        conn.send((i, r))


def run_tasks(modname, tasks, nproc, limit_s, hard_s):
    """Runs tasks [(fn, cfg, opts)] in parallel; results by index.  One pipe
    per worker: a worker that is killed can block no other."""
    from multiprocessing import connection

    mpc = mp.get_context("fork")
    todo = list(range(len(tasks)))[::-1]
    workers = {}  # connection -> [process, task, since]

    def spawn():
        a, b = mpc.Pipe()
        p = mpc.Process(target=worker, args=(b, modname), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, time.time()]
        give(a)

    def give(conn):
        w = workers[conn]
        if not todo:
            w[1] = None
            return
        w[1], w[2] = todo.pop(), time.time()
        try:
            conn.send((w[1],) + tuple(tasks[w[1]]))
        except OSError:
            pass  # seen as a dead worker

    def drop(conn, why):
        p, i, _ = workers.pop(conn)
        p.kill()
        p.join()
        conn.close()
        if i is not None and i not in res:
            res[i] = lost(why)
        if todo:
            spawn()

    res = {}
    t0 = time.time()
    for _ in range(min(nproc, len(tasks))):
        spawn()
    while len(res) < len(tasks):
        for conn in connection.wait(list(workers), timeout=0.5):
            try:
                i, r = conn.recv()
            except (EOFError, OSError):
                drop(conn, "worker died")
                continue
            res[i] = r
            give(conn)
        now = time.time()
        for conn, (p, i, since) in list(workers.items()):
            if i is not None and now - since > hard_s:
                drop(conn, "killed: hard time limit")
        failed = now - t0 > 200 and any(r["fails"] for r in res.values())
        if now - t0 > limit_s or failed:
            for i in range(len(tasks)):
                res.setdefault(i, lost("stopped: other configurations failed" if failed else "time limit of the check"))
    for p, _, _ in workers.values():
        p.kill()
        p.join()
    return [res[i] for i in range(len(tasks))]


def lost(why):
    return dict(stats={}, fails=[], inconc=[dict(goal="time", detail=why, cands=[], choices={})], reached=None, goals=0,
                wall=0, funcs=[])


class Replayer:
    """Scratch copy of the package (with compiled extensions if needed)."""

    def __init__(self, checked=False):
        self.dir = None
        self.built = False
        self.checked = checked  # compile with bounds checks

    def src(self, need_c):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="pk_replay_")
            d = os.path.join(self.dir, "src", "pykrige")
            shutil.copytree(os.path.join(REPO, "src", "pykrige"), d,
                            ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.c"))
        if need_c and not self.built:
            self.built = True
            shutil.copy(os.path.join(REPO, "setup.py"), self.dir)
            if self.checked:
                for f in glob.glob(os.path.join(self.dir, "src", "pykrige", "lib", "*.pyx")):
                    t = open(f).read()
                    open(f, "w").write(t.replace("boundscheck=False", "boundscheck=True"))
            e = dict(os.environ, HOME=self.dir, PYTHONDONTWRITEBYTECODE="1")
            pyx = os.path.join(self.dir, "build.py")
            with open(pyx, "w") as f:
                f.write(BUILD)
            subprocess.run([VENV, "build.py", "build_ext", "--inplace", "-j", "2"], cwd=self.dir, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        return os.path.join(self.dir, "src")

    def run(self, cases, need_c):
        src = self.src(need_c)
        f = os.path.join(self.dir, "cases.json")
        with open(f, "w") as h:
            json.dump(cases, h)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")
        e.pop("PYTHONPATH", None)
        try:
            p = subprocess.run([VENV, "-I", os.path.join(HERE, "conc", "replay.py"), f, src], capture_output=True, text=True,
                               cwd=self.dir, env=e, timeout=300)
        except subprocess.TimeoutExpired:
            return []
        out = []
        for ln in p.stdout.splitlines():
            try:
                out.append(json.loads(ln))
            except ValueError:
                pass
        if len(out) < len(cases):
            crash = p.returncode < 0 and p.returncode != -14
            tail = p.stderr[-400:]
            if crash:
                out.append(dict(i=len(out), result="violated", detail="the process died with signal %d" % -p.returncode))
            elif p.returncode == -14:
                out.append(dict(i=len(out), result="violated", detail="no result within 60 s"))
            else:
                out.append(dict(i=len(out), result="error", detail=tail))
        return out

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


BUILD = """
import os, numpy as np
from Cython.Build import cythonize
from setuptools import Extension, setup
m = [Extension(name="pykrige." + e, sources=[os.path.join("src", "pykrige", *e.split(".")) + ".pyx"],
     include_dirs=[np.get_include()], define_macros=[("NPY_NO_DEPRECATED_API", "NPY_1_7_API_VERSION")],
     extra_compile_args=["-O1"])
     for e in ["lib.cok", "lib.variogram_models"]]
setup(name="x", package_dir={"": "src"}, ext_modules=cythonize(m, quiet=True))
"""


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.rstrip("\n")
            if ln.startswith("finding: property=%s " % pid):
                out.append(ln[len("finding: property=%s " % pid):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="run the harness concretely on the real code (development)")
    a = ap.parse_args()
    pid = a.prop.upper()
    modname = pid.lower()
    t0 = time.time()
    tier = "thorough" if a.thorough else "quick"
    mod = importlib.import_module("harness." + modname)
    tasks = []
    for t in mod.tasks(a.thorough):
        fn, cfg = t[0], t[1]
        opts = dict(t[2]) if len(t) > 2 else {}
        opts.setdefault("task_s", 500 if a.thorough else 150)
        name = "%s(%s)" % (fn, ", ".join("%s=%s" % kv for kv in cfg.items()))
        if a.only and a.only not in name:
            continue
        if a.list:
            print(name)
        tasks.append((fn, cfg, opts))
    if a.list:
        return 0
    if a.selftest:
        return selftest(modname, mod, tasks)
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    limit = 780 if not a.thorough else 820
    results = run_tasks(modname, tasks, nproc, limit - 120, (500 if a.thorough else 150) + 60)

    # ---- replay failed goals
    rep = Replayer(getattr(mod, "CHECKED", False))
    violations, unconf, findings = [], [], []
    known = known_findings(pid)
    kf_seen = set()
    try:
        # expected findings are looked for whatever the symbolic verdict says
        cases, meta = [], []
        for (fn, cfg, opts), r in zip(tasks, results):
            for kind, lst in (("fail", r["fails"]), ("inconc", r["inconc"])):
                for f in lst:
                    cands = list(f["cands"]) or [{}]
                    for rank, cd in enumerate(cands):
                        cases.append(dict(harness=modname, fn=fn, cfg=cfg, inputs=cd, choices=f["choices"]))
                        meta.append((fn, cfg, f, kind, rank if cd else 99))
        # no more than a bounded number of replays, of many configurations
        order = sorted(range(len(cases)), key=lambda i: (meta[i][3] != "fail", meta[i][4], i))[:200]
        need_c = any(getattr(mod, "needs_c", lambda fn, cfg: False)(meta[i][0], meta[i][1]) for i in order)
        confirmed = set()
        if order:
            for k in range(0, len(order), 10):
                batch = [i for i in order[k:k + 10] if id(meta[i][2]) not in confirmed]
                if not batch or time.time() - t0 > limit:
                    continue
                for o in rep.run([cases[i] for i in batch], need_c):
                    i = batch[o["i"]]
                    fn, cfg, f, kind, _ = meta[i]
                    f.setdefault("replays", []).append(o)
                    if o["result"] == "violated" and id(f) not in confirmed:
                        confirmed.add(id(f))
                        cases[i]["families"] = [o.get("family", 0)]
                        violations.append(dict(task=(fn, cfg), goal=f["goal"], detail=f["detail"], observed=o["detail"], case=cases[i]))
                if len(violations) >= 3:
                    break
        for (fn, cfg, opts), r in zip(tasks, results):
            for kind, lst in (("fail", r["fails"]), ("inconc", r["inconc"])):
                for f in lst:
                    if id(f) not in confirmed:
                        unconf.append(dict(task="%s %s" % (fn, cfg), kind=kind, goal=f["goal"], detail=f["detail"][:400],
                                           replays=f.get("replays", [])[:3]))
    finally:
        rep.close()

    # ---- known findings
    real = []
    for v in violations:
        sig = "%s %s" % (v["task"][0], json.dumps(v["task"][1], sort_keys=True))
        hit = None
        for k in known:
            ident = k.split(" :: ")[0]
            if sig.startswith(ident):
                hit = k
        if hit:
            kf_seen.add(hit)
        else:
            real.append(v)
    real = real[:3]
    for k in sorted(kf_seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))

    # ---- report
    st = {}
    funcs = set()
    vac = []
    for (fn, cfg, opts), r in zip(tasks, results):
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
        funcs.update(map(tuple, r["funcs"]))
        if r["reached"] is None and r["goals"]:
            vac.append("%s %s" % (fn, cfg))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    vio_ev = []
    for k, v in enumerate(real):
        p = os.path.join(rdir, "%s-%d.json" % (pid, k))
        with open(p, "w") as h:
            json.dump(v, h, indent=1)
        vio_ev.append(dict(replay=p, what="%s %s; %s" % (v["task"][0], v["goal"], v["observed"])))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("   %s %s: %s -- observed: %s" % (v["task"][0], v["task"][1], v["goal"], v["observed"]))
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        wall_s=round(wall, 2),
        coverage=dict(
            explanation="Bounded symbolic verification: every harness configuration runs the real functions on symbolic inputs, path by "
            "path; each goal is decided by z3 for all values within the bounds (unsat of the negation), and failed goals are replayed on "
            "the real package before they are reported.",
            samples=["%s %s" % (t[0], json.dumps(t[1])) for t in tasks[:5]],
            violations_found=vio_ev, known_findings=sorted(kf_seen),
            method="symbolic execution of the sources in %s/src/pykrige, goals decided by z3" % REPO,
            functions_encoded=["%s:%s" % f for f in sorted(funcs)],
            bounds=mod.BOUNDS, outside_bounds=getattr(mod, "OUTSIDE", ""),
            harness_configurations=len(tasks), paths=st.get("paths", 0), paths_cut_by_assumptions=st.get("cut", 0),
            goals=st.get("goals", 0), goals_proved=st.get("proved", 0), queries=st.get("queries", 0),
            unsat=st.get("unsat", 0), sat=st.get("sat", 0), unknown=st.get("unknown", 0),
            solver_s=round(st.get("solver_s", 0.0), 2),
            reachability_witnesses=sum(1 for r in results if r["reached"] is not None),
            configurations_without_witness=vac, inconclusive=unconf,
            slowest=[dict(task="%s %s" % (t[0], t[1]), s=round(r["wall"], 1)) for t, r in
                     sorted(zip(tasks, results), key=lambda x: -x[1]["wall"])[:3]],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        violations=len(real),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s %s: %d configurations, %d paths, %d/%d goals proved, %d queries, solver %.1f s, wall %.1f s, inconclusive %d, unwitnessed %d"
          % (pid, tier, len(tasks), st.get("paths", 0), st.get("proved", 0), st.get("goals", 0), st.get("queries", 0),
             st.get("solver_s", 0), wall, len(unconf), len(vac)))
    if a.v or unconf:
        for u in unconf[:6]:
            print("   inconclusive:", u["task"], u["kind"], u["goal"], u["detail"][:150], [x.get("result") + " " + x.get("detail", "")[:100] for x in u["replays"]][:2])
    if a.v:
        for x in vac[:5]:
            print("   no witness:", x)
        for x in ev["coverage"]["slowest"]:
            print("   ", x)
    return 1 if real else 0


def selftest(modname, mod, tasks):
    """Every configuration on the real code with the sample inputs: shows
    errors of the harness, decides nothing."""
    rep = Replayer(getattr(mod, "CHECKED", False))
    bad = 0
    try:
        need_c = any(getattr(mod, "needs_c", lambda fn, cfg: False)(fn, cfg) for fn, cfg, _ in tasks)
        res = []
        for i in range(0, len(tasks), 20):
            part = tasks[i:i + 20]
            cases = [dict(harness=modname, fn=fn, cfg=cfg, inputs={}, choices={}, profile=k) for fn, cfg, _ in part for k in range(5)]
            out = rep.run(cases, need_c)
            if len(out) < len(cases):
                print("SELFTEST incomplete:", out[-1:], part[len(out) // 5])
                out += [dict(result="error", detail="lost")] * (len(cases) - len(out))
            res += [out[5 * j:5 * j + 5] for j in range(len(part))]
        for (fn, cfg, _), out in zip(tasks, res):
            kinds = [o["result"] for o in out]
            if "violated" in kinds or "error" in kinds or "held" not in kinds:
                bad += 1
                o = [x for x in out if x["result"] != "held"][0]
                for x in out:
                    if x["result"] in ("violated", "error"):
                        o = x
                        break
                if bad <= 5:
                    print("SELFTEST", fn, cfg, kinds, o["detail"][-400:])
    finally:
        rep.close()
    print("selftest: %d configurations, %d suspicious" % (len(tasks), bad))
    return 0


COMMON_ASSUMPTIONS = [
    "real-number semantics: floating-point rounding is outside the encoding",
    "matrix inversion and linear solves are used through their contract (A G = G A = I) on systems assumed solvable",
]

if __name__ == "__main__":
    sys.exit(main())
