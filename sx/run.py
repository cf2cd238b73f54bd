"""Check driver: python -m sx.run PROPERTY [--tier quick|thorough] [--only SCENARIO] [-v]"""

import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
PY = sys.executable
NW = int(os.environ.get("SX_WORKERS", "0")) or min(8, os.cpu_count() or 2)


def load(prop):
    mod = importlib.import_module("hx." + prop.lower())
    return mod


def code_functions_started(on):
    """Record which functions of the code under test were executed (sys.monitoring)."""
    mon = sys.monitoring
    seen = set()
    if on:
        mon.use_tool_id(3, "sx")

        def start(code, off):
            f = code.co_filename
            if f.startswith(REPO + "/pddl"):
                seen.add(f[len(REPO) + 1:] + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    return seen


def worker_main(conn, prop, tier, seed):
    random.seed(seed)
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:  # noqa
        pass
    sys.setrecursionlimit(3000)
    seen = code_functions_started(True)
    from sx import worker

    mod = load(prop)
    scs = {s.name: s for s in mod.SCENARIOS}
    counters = {}
    while True:
        job = conn.recv()
        if job is None:
            break
        name, prefixes, budget, rate = job
        sc = scs[name]
        try:
            if sc.solver is not None:
                out = sc.solver(tier)
                out["left"] = []
            else:
                c = counters.setdefault(name, [0])
                out = worker.explore(sc.fn, prefixes, tier, budget, rate, c)
        except BaseException as e:  # noqa
            out = dict(crash=traceback.format_exc()[-1500:], left=[])
        out["functions"] = sorted(seen)
        conn.send((name, out))


def replay(prop, tier, scenario, values, seeds=(0,), timeout=60):
    """Run the harness on concrete values on the clean code; one process per hash seed."""
    res = []
    for hs in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1", SX_REPO=REPO,
                   PYTHONPATH=VERIF + os.pathsep + REPO)
        try:
            p = subprocess.run([PY, "-m", "sx.replay", prop, scenario, tier], input=json.dumps(values), text=True,
                               capture_output=True, env=env, timeout=timeout + 30 * len(values), cwd=VERIF)
            lines = [json.loads(x[4:]) for x in p.stdout.splitlines() if x.startswith("@@R ")]
            if len(lines) < len(values):
                lines += [dict(kind="error", msg="replay process ended: " + p.stderr[-500:], obs=[])] * (
                    len(values) - len(lines))
        except subprocess.TimeoutExpired:
            lines = [dict(kind="timeout", msg="replay timed out", obs=[])] * len(values)
        res.append(lines)
    return res


def confirm(prop, tier, sc, v):
    """(reproduced, message) of a candidate violation on the real code."""
    if sc.hashseeds:
        outs = replay(prop, tier, sc.name, [v["values"]], seeds=range(sc.hashseeds))
        obs = {}
        for hs, o in enumerate(outs):
            r = o[0]
            if r["kind"] == "violation":
                return True, r["msg"]
            if r["kind"] == "ok":
                obs.setdefault(json.dumps(r["obs"]), hs)
        if len(obs) > 1:
            (a, ha), (b, hb) = list(obs.items())[:2]
            return True, f"text differs between hash seeds {ha} and {hb}: {a[:600]} / {b[:600]}"
        return False, ""
    r = replay(prop, tier, sc.name, [v["values"]])[0][0]
    if r["kind"] == "violation" or r["kind"] == "timeout":
        return True, r["msg"]
    return False, r["kind"] + " " + r.get("msg", "")


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(PY, [PY, "-m", "sx.run"] + (argv or sys.argv[1:]))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier
    t0 = time.time()
    from sx import instr

    instr.setup(REPO)
    sys.path.insert(0, VERIF)
    mod = load(a.prop)
    scs = [s for s in mod.SCENARIOS if (tier == "thorough" or s.quick) and (not a.only or s.name in a.only.split(","))]
    budget = a.budget or (420 if tier == "quick" else 3000)
    known = load_known(a.prop)

    stats = {s.name: dict(bounds=s.bounds, paths=0, ok=0, skip=0, infeasible=0, timeout=0, diverged=0, checks=0,
                          unknown=0, decisions=0, queries=0, solver_s=0.0, forks=0, spurious=0, known=0, maxdepth=0, accepted=0, rejected=0,
                          approx={}, samples=[], crash=None, exhausted=False, extra={}) for s in scs}
    byname = {s.name: s for s in scs}
    queue = {s.name: [[]] for s in scs}
    busy = {}
    functions = set()
    instr.preload()
    conns = []
    ctxm = mp.get_context("fork")
    for i in range(NW):
        p, c = ctxm.Pipe()
        pr = ctxm.Process(target=worker_main, args=(c, a.prop, tier, seed), daemon=True)
        pr.start()
        c.close()
        conns.append((p, pr))
    idle = [c for c, _ in conns]
    inflight = {s.name: 0 for s in scs}
    order = [s.name for s in scs]
    violation = None
    knownhits = {}
    rr = 0
    first = True
    while True:
        # dispatch
        progress = True
        while idle and progress and violation is None and time.time() - t0 < budget:
            progress = False
            for k in range(len(order)):
                name = order[(rr + k) % len(order)]
                if queue[name] and idle:
                    q = queue[name]
                    n = max(1, len(q) // (2 * NW))
                    if byname[name].solver is not None:
                        n = 1
                    batch, queue[name] = q[-n:], q[:-n]
                    c = idle.pop()
                    done = stats[name]["paths"]
                    rate = 400 if done < 5000 else 4000
                    c.send((name, batch, 0.15 if done < 200 else 0.6, rate))
                    busy[c] = name
                    inflight[name] += 1
                    rr = (rr + k + 1) % len(order)
                    progress = True
                    break
        if not busy:
            break
        for c in multiprocessing.connection.wait(list(busy), timeout=5):
            name = busy.pop(c)
            inflight[name] -= 1
            try:
                n2, out = c.recv()
                idle.append(c)
            except EOFError:
                stats[name]["crash"] = "worker died"
                continue
            st = stats[name]
            functions.update(out.get("functions", ()))
            if out.get("crash"):
                st["crash"] = out["crash"]
                continue
            for k in ("paths", "ok", "skip", "infeasible", "timeout", "diverged", "checks", "unknown", "decisions",
                      "queries", "solver_s", "forks", "accepted", "rejected"):
                st[k] += out.get(k, 0)
            st["maxdepth"] = max(st["maxdepth"], out.get("maxdepth", 0))
            for k, v in out.get("approx", {}).items():
                st["approx"][k] = st["approx"].get(k, 0) + v
            if out.get("extra"):
                st["extra"].update(out["extra"])
            queue[name].extend(out["left"])
            if len(st["samples"]) < (12 if tier == "quick" else 60):
                st["samples"].extend(out.get("samples", ()))
            for v in out.get("violations", ()):
                if violation is not None or st["spurious"] >= 8:
                    st["spurious"] += 1
                    continue
                ok, msg = confirm(a.prop, tier, byname[name], v)
                if not ok:
                    st["spurious"] += 1
                    st.setdefault("spurious_msgs", []).append((v["msg"], v["values"], msg))
                    continue
                kf = match_known(known, name, msg)
                if kf is not None:
                    knownhits[kf["id"]] = kf
                    st["known"] += 1
                    continue
                violation = dict(property=a.prop, scenario=name, tier=tier, values=v["values"], message=msg,
                                 symbolic_message=v["msg"])
        if violation is not None and not busy:
            break
        if violation is not None:
            break
    for name in order:
        stats[name]["exhausted"] = not queue[name] and inflight[name] == 0 and stats[name]["crash"] is None
        stats[name]["left"] = len(queue[name])
    for c, pr in conns:
        pr.terminate()

    # validation of sampled paths against the uninstrumented code
    validated = mism = 0
    samples = []
    if violation is None:
        for s in scs:
            st = stats[s.name]
            sm = st["samples"][: (12 if tier == "quick" else 60)]
            if not sm or s.solver is not None and s.fn is None:
                continue
            res = replay(a.prop, tier, s.name, [x["values"] for x in sm])[0]
            for x, r in zip(sm, res):
                if r["kind"] in ("ok",) and r["obs"] == x["obs"]:
                    validated += 1
                elif r["kind"] in ("violation", "timeout") and violation is None:
                    kf = match_known(known, s.name, r["msg"])
                    if kf is not None:
                        knownhits[kf["id"]] = kf
                    else:
                        # the concrete run of an explored path breaks the property
                        violation = dict(property=a.prop, scenario=s.name, tier=tier, values=x["values"],
                                         message=r["msg"], symbolic_message="(found when validating a path)")
                else:
                    mism += 1
                    st.setdefault("mismatch", []).append(dict(values=x["values"], sym=x["obs"], real=r))
            if sm:
                samples.append(dict(scenario=s.name, inputs=sm[0]["values"], observed=[o[:500] for o in sm[0]["obs"]][:3]))
    wall = time.time() - t0
    vac = [n for n in order if stats[n]["checks"] == 0 and byname[n].solver is None]
    tot = lambda k: sum(stats[n][k] for n in order)  # noqa
    inconclusive = []
    for n in order:
        st = stats[n]
        if not st["exhausted"]:
            inconclusive.append(f"{n}: not exhausted ({st['left']} prefixes left; crash={st['crash']})")
        if st["spurious"]:
            inconclusive.append(f"{n}: {st['spurious']} candidate(s) did not reproduce on the real code")
        if st["unknown"]:
            inconclusive.append(f"{n}: {st['unknown']} solver unknown")
        if st["diverged"]:
            inconclusive.append(f"{n}: {st['diverged']} diverged")
        if st["approx"]:
            inconclusive.append(f"{n}: approximated operations {st['approx']}")
        if st.get("mismatch"):
            inconclusive.append(f"{n}: {len(st['mismatch'])} validation mismatch(es)")
    if vac:
        inconclusive.append(f"scenarios without any evaluated assertion: {vac}")
    for n in order:
        st = stats[n]
        print(f"  {n}: paths={st['paths']} (ok={st['ok']} skipped={st['skip']} infeasible={st['infeasible']}) "
              f"checks={st['checks']} accepted={st['accepted']} rejected={st['rejected']} queries={st['queries']} solver={st['solver_s']:.1f}s exhausted={st['exhausted']}")
        if a.v:
            for m in st.get("spurious_msgs", [])[:3]:
                print("    spurious:", m)
            for m in st.get("mismatch", [])[:2]:
                print("    mismatch:", json.dumps(m)[:1500])
            if st["crash"]:
                print(st["crash"])
    for x in inconclusive:
        print("  INCONCLUSIVE:", x)
    for kf in knownhits.values():
        print(f"KNOWN-FINDING: property={a.prop} {kf['what']}")
    print(f"{a.prop} {tier}: paths={tot('paths')} checks={tot('checks')} queries={tot('queries')} "
          f"solver={tot('solver_s'):.1f}s validated={validated} mismatches={mism} wall={wall:.1f}s")
    if violation is not None:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{a.prop}.json")
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("  scenario:", violation["scenario"])
        print("  inputs:", json.dumps(violation["values"])[:1500])
        print("  " + violation["message"][:1500])
        print(f"  reproduce: cd {VERIF} && {PY} -m sx.replay --file {path}")
        print(f"VIOLATION property={a.prop} replay={path}")
    if not a.no_evidence:
        write_evidence(a.prop, tier, seed, mod, scs, stats, order, functions, validated, samples, inconclusive, wall,
                       violation, tot)
    sys.stdout.flush()
    os._exit(1 if violation is not None else 0)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_known(known, scenario, msg):
    for k in known:
        if k.get("scenario") in (None, scenario) and all(x in msg for x in k["match"]):
            return k
    return None


def write_evidence(prop, tier, seed, mod, scs, stats, order, functions, validated, samples, inconclusive, wall,
                   violation, tot):
    cov = dict(
        states=tot("paths"),
        transitions=tot("decisions"),
        traces_validated_against_impl=validated,
        samples=samples[:10] or [dict(note="no sample")],
        exhaustive=all(stats[n]["exhausted"] for n in order),
        assertions_evaluated=tot("checks"),
        solver_queries=tot("queries"),
        solver_seconds=round(tot("solver_s"), 2),
        paths_outside_assumptions=tot("skip"),
        functions_encoded=sorted(functions),
        scenarios={n: dict(bounds=stats[n]["bounds"], paths=stats[n]["paths"], assertions=stats[n]["checks"],
                           accepted=stats[n]["accepted"], rejected=stats[n]["rejected"],
                           forks=stats[n]["forks"], max_decisions=stats[n]["maxdepth"],
                           queries=stats[n]["queries"], exhausted=stats[n]["exhausted"], **stats[n]["extra"])
                   for n in order},
        inconclusive=inconclusive,
        states_meaning="symbolic execution paths explored; transitions: branch decisions taken on them",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON, wall_s=round(wall, 2),
              violations=0 if violation is None else 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


COMMON = [
    "symbolic names range over all legal, non-reserved names of at most 12 characters",
    "structure sizes are bounded as stated per scenario; nothing is claimed outside these bounds",
    "the lexer treats every legal non-reserved name alike (decided separately by C25 on the real terminals)",
    "CPython and lark are executed natively and trusted; z3 is trusted",
]

if __name__ == "__main__":
    main()
