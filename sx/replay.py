"""Concrete replay of harness inputs on the clean, uninstrumented code.

python -m sx.replay PROP SCENARIO TIER   < JSON list of inputs
python -m sx.replay --file REPLAY.json
"""

import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def one(fn, values, tier):
    from sx.ctx import ConcreteCtx, Skip, Violation

    ctx = ConcreteCtx(values, tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20)
    out = dict(kind="ok", msg="")
    try:
        fn(ctx)
    except Violation as v:
        out.update(kind="violation", msg=v.msg)
    except Skip:
        out["kind"] = "skip"
    except Timeout:
        out.update(kind="timeout", msg="does not terminate within 20 s")
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-6:])
        out.update(kind="violation", msg=f"unexpected {type(e).__name__}: {str(e)[:300]} [{where}]")
    finally:
        signal.alarm(0)
    out["obs"] = list(ctx.obs)
    return out


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if sys.argv[1] == "--file":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        prop, scenario, tier, vals = v["property"], v["scenario"], v["tier"], [v["values"]]
    else:
        prop, scenario, tier = sys.argv[1:4]
        vals = json.loads(sys.stdin.read())
    mod = importlib.import_module("hx." + prop.lower())
    sc = {s.name: s for s in mod.SCENARIOS}[scenario]
    for x in vals:
        pid = os.fork()  # every run starts in the same state
        if pid == 0:
            r = one(sc.fn, x, tier)
            print("@@R " + json.dumps(r), flush=True)
            os._exit(0)
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
