"""Symbolic worker: explores decision prefixes of a scenario for a time slice."""

import signal
import time
import traceback

from sx import core, state
from sx.core import E, Diverged, Infeasible, PathLimit
from sx.ctx import Skip, SymCtx, Violation


class Timeout(core.Steer):
    pass


def _alarm(*_):
    raise Timeout()


def run_path(fn, prefix, tier, timeout=20):
    """Run one path; returns a record."""
    state.restore()
    E.start(prefix)
    ctx = SymCtx(E, tier)
    rec = dict(kind="ok", msg="", checks=0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            fn(ctx)
        except Violation as v:
            rec.update(kind="violation", msg=v.msg)
        except Skip:
            rec["kind"] = "skip"
        except Infeasible:
            rec["kind"] = "infeasible"
        except (PathLimit, Timeout) as e:
            rec.update(kind="timeout", msg=f"does not terminate within the path limit ({type(e).__name__})")
        except Diverged as e:
            rec.update(kind="diverged", msg=str(e))
        except RecursionError as e:
            rec.update(kind="violation", msg="RecursionError")
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-6:])
            rec.update(kind="violation", msg=f"unexpected {type(e).__name__}: {str(e)[:200]} [{where}]")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rec["checks"] = ctx.nchecks
    rec["accepted"], rec["rejected"] = ctx.nacc, ctx.nrej
    rec["unknown"] = E.unknown
    rec["approx"] = sorted(E.approx)
    rec["pending"] = E.pending
    rec["decisions"] = len(E.trail)
    rec["obs"] = ctx.obs
    return rec


def finish(rec, want_model):
    """Solve for concrete inputs (when wanted) and close the path."""
    try:
        if want_model:
            E.active = True
            m = E.solve()
            if m is None:
                rec["kind"] = "infeasible" if rec["kind"] == "violation" else rec["kind"]
                rec["values"] = None
            else:
                rec["values"] = E.values(m)
                rec["obs"] = [E.subst(o, m) for o in rec["obs"]]
                rec["msg"] = E.subst(rec["msg"], m)
    finally:
        E.end()
    return rec


def explore(fn, prefixes, tier, budget, sample_rate, counter, stop=None):
    """DFS over the prefixes until the budget is used."""
    t0 = time.perf_counter()
    stack = list(prefixes)
    out = dict(paths=0, ok=0, skip=0, infeasible=0, timeout=0, diverged=0, checks=0, unknown=0, decisions=0,
               violations=[], samples=[], approx={}, maxdepth=0, accepted=0, rejected=0)
    q0, s0, f0 = E.stats["queries"], E.stats["solver_s"], E.stats["forks"]
    while stack and time.perf_counter() - t0 < budget:
        pre = stack.pop()
        rec = run_path(fn, pre, tier)
        out["paths"] += 1
        counter[0] += 1
        want = rec["kind"] in ("violation", "timeout") or (
            rec["kind"] == "ok" and (counter[0] in (1, 2, 5) or counter[0] % sample_rate == 0))
        rec = finish(rec, want)
        k = rec["kind"]
        out["checks"] += rec["checks"]
        out["unknown"] += rec["unknown"]
        out["accepted"] += rec["accepted"]
        out["rejected"] += rec["rejected"]
        out["decisions"] += rec["decisions"]
        out["maxdepth"] = max(out["maxdepth"], rec["decisions"])
        for a in rec["approx"]:
            out["approx"][a] = out["approx"].get(a, 0) + 1
        stack.extend(rec["pending"])
        if k == "violation" or k == "timeout":
            if k == "timeout":
                out["timeout"] += 1
            if rec.get("values") is not None and len(out["violations"]) < 6:
                out["violations"].append(dict(msg=rec["msg"], values=rec["values"], obs=rec["obs"]))
        else:
            out[k] += 1
            if want and rec.get("values") is not None and k == "ok":
                out["samples"].append(dict(values=rec["values"], obs=rec["obs"]))
        if out["violations"] and len(out["violations"]) >= 6:
            break
    out["left"] = stack
    out["queries"] = E.stats["queries"] - q0
    out["solver_s"] = E.stats["solver_s"] - s0
    out["forks"] = E.stats["forks"] - f0
    return out
