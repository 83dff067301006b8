"""Replays cases on the real package.

usage: replay.py CASES.json SRC   (SRC: directory holding the package)
Each case: {"harness","fn","cfg","inputs","choices"}.  Prints one JSON line
per case: {"i":..,"result":"violated|held|skip","detail":..}."""
import json
import os
import signal
import sys
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    cases = json.load(open(sys.argv[1]))
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, sys.argv[2])
    import importlib

    import numpy as np

    import pykrige

    assert os.path.abspath(pykrige.__file__).startswith(os.path.abspath(sys.argv[2])), pykrige.__file__
    from conc import fam
    from conc.cenv import ConcEnv, Skip, Violated

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    for i, cs in enumerate(cases):
        h = importlib.import_module("harness." + cs["harness"])
        fn = getattr(h, cs["fn"])
        out = None
        for family in cs.get("families", [0, 1, 2, 3]):
            fam.FAMILY = family
            with tempfile.TemporaryDirectory() as tmp:
                cwd = os.getcwd()
                os.chdir(tmp)
                env = ConcEnv(cs["inputs"], cs.get("choices", {}), tmp)
                env.profile = cs.get("profile", 0)
                signal.alarm(60)
                so = os.dup(1)
                dn = os.open(os.devnull, os.O_WRONLY)
                sys.stdout.flush()
                os.dup2(dn, 1)
                try:
                    fn(env, **cs["cfg"])
                    out = dict(result="held", detail="%d goals" % env.goals)
                except Skip as e:
                    out = dict(result="skip", detail=str(e))
                except Violated as e:
                    out = dict(result="violated", detail=str(e))
                except np.linalg.LinAlgError as e:
                    out = dict(result="violated" if env.nonsing else "skip", detail="singular system: %s" % e)
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    out = dict(
                        result="violated",
                        detail="%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno),
                    )
                finally:
                    signal.alarm(0)
                    sys.stdout.flush()
                    os.dup2(so, 1)
                    os.close(so)
                    os.close(dn)
                    os.chdir(cwd)
            out["family"] = family
            if out["result"] == "violated":
                break
        out["i"] = i
        print(json.dumps(out), flush=True)


main()
