"""Path exploration of one harness configuration."""
import os
import sys
import time
import traceback
import warnings

from . import core, cyrt, files, loader, smt
from .core import Ctx, Stats
from .env import GoalFailed, SymEnv

# ---- functions of the code under test that were executed symbolically
_funcs = set()


def _start_monitor():
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    pk = loader.PKG

    def cb(code, off):
        if code.co_filename.startswith(pk):
            _funcs.add((os.path.relpath(code.co_filename, loader.REPO), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, cb)
    mon.set_events(tool, mon.events.PY_START)


def explore(fn, cfg, opts=None):
    """Run harness fn(env, **cfg) over all its paths."""
    opts = dict(opts or {})
    _start_monitor()
    st = Stats()
    t0 = time.time()
    deadline = t0 + opts.get("task_s", 240)
    opts["deadline"] = deadline
    stack = [[]]
    fails, inconc = [], []
    reached = None
    goals = 0
    while stack:
        if len(fails) >= opts.get("max_fails", 4) or len(inconc) >= 3:
            break
        if time.time() > deadline:
            inconc.append(dict(goal="time", detail="time budget of the task used up, %d paths left" % len(stack), cands=[], choices={}))
            break
        if st.paths >= opts.get("max_paths", 3000):
            inconc.append(dict(goal="paths", detail="path budget used up", cands=[], choices={}))
            break
        prefix = stack.pop()
        c = Ctx(prefix, st, opts)
        core.set_ctx(c)
        c.formatter = files.formatter
        env = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                env = SymEnv(c, loader.Loader(), opts)
                try:
                    fn(env, **cfg)
                except Exception:
                    if c.stopped is not None:
                        raise c.stopped
                    raise
                if c.stopped is not None:
                    raise c.stopped
            st.paths += 1
            if reached is None and env.goals:
                reached = witness(c)
        except core.PathCut:
            st.cut += 1
        except GoalFailed:
            st.paths += 1
        except cyrt.MemoryViolation as e:
            st.paths += 1
            if infeasible(c):
                st.infeasible += 1
            else:
                fails.append(dict(goal="memory safety", detail=str(e), cands=smt.candidates(c, None), choices=dict(c.choices)))
        except (core.Unsupported, core.Budget, core.EngineStop) as e:
            st.paths += 1
            inconc.append(dict(
                goal="encoding", detail="%s: %s %s" % (type(e).__name__, e, where(e)),
                cands=safe_cands(c), choices=dict(c.choices)))
        except Exception as e:
            st.paths += 1
            if infeasible(c):
                st.infeasible += 1
            else:
                fails.append(dict(
                    goal="no exception", detail="%s: %s %s" % (type(e).__name__, e, where(e)),
                    cands=safe_cands(c), choices=dict(c.choices), tb=traceback.format_exc()[-1500:]))
        if env is not None:
            fails.extend(env.fails)
            goals += env.goals
        stack.extend(c.pending)
    d = st.as_dict()
    return dict(stats=d, fails=fails, inconc=inconc, reached=reached, goals=goals, wall=time.time() - t0,
                funcs=sorted(_funcs))


def where(e):
    tb = e.__traceback__
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        if "/symx/" not in f.co_filename:
            last = "(%s:%d %s)" % (f.co_filename, tb.tb_lineno, f.co_name)
        tb = tb.tb_next
    return last


def safe_cands(c):
    try:
        c.deadline = None
        return smt.candidates(c, None, 10, 4)
    except core.EngineStop:
        return []
    except Exception:
        return []


def infeasible(c):
    """Non-linear check that the path cannot be taken at all."""
    try:
        import z3

        r, _, _ = smt.nra_check(c, core.B(True), 3000)
        return r == z3.unsat
    except Exception:
        return False


def witness(c):
    """Concrete inputs that follow this path: the goals are not vacuous."""
    for k in range(6):
        p = smt.profile(c, k)
        env = {n: float(v) for n, v in p.items()}
        try:
            if smt.violated_numeric(c, None, env):
                return {n: str(v) for n, v in p.items()}
        except Exception:
            pass
    try:
        cs = smt.candidates(c, None, 4, 1)
        if cs:
            return cs[0]
    except Exception:
        pass
    return None
