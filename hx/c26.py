"""C26: the command line agrees with the library."""

import os
import shutil
import subprocess
import sys
import tempfile

from hx.lib import Scenario, fixed, parse_domain_text, parse_plan_text, parse_problem_text

N, M = fixed(1), fixed(2)
QUIET = [[], ["-q"], ["--quiet"]]


def run(ctx, args, texts, cwd=None):
    """(exit status, standard output) of the tool; the texts are written to the files that the arguments name."""
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        for f, t in texts.items():
            with open(os.path.join(d, f), "w", encoding="utf-8") as h:
                h.write(str.__str__(t))
        os.mkdir(os.path.join(d, "folder"))
        args = [os.path.join(d, a[1:]) if a[:1] == "@" else a for a in args]
        if ctx.symbolic:
            from click.testing import CliRunner
            from pddl.__main__ import cli

            r = CliRunner().invoke(cli, args)
            out = getattr(r, "stdout", r.output)
            return r.exit_code, out
        from sx.replay import REPO

        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        env.pop("PYTHONHASHSEED", None)
        p = subprocess.run([sys.executable, "-m", "pddl"] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def words(text):
    return " ".join(str.__str__(text).split())


def library(ctx, texts):
    """(whether the library accepts the files, formatted objects)"""
    from pddl.formatter import domain_to_string, plan_to_string, problem_to_string

    out = []

    def go():
        d = parse_domain_text(texts["d"])
        out.append(domain_to_string(d))
        if "p" in texts:
            p = parse_problem_text(texts["p"])
            p.check(d)
            out.append(problem_to_string(p))
        if "l" in texts:
            q = parse_plan_text(texts["l"])
            q.check(d, p)
            out.append(plan_to_string(q))

    ok, e = ctx.attempt(go)
    return ok, out


def agree(ctx, texts, opt, where):
    ok, out = library(ctx, texts)
    files = ["@" + k for k in ("d", "p", "l") if k in texts]
    args = opt + files if where == 0 else files + opt if where == 1 else files[:1] + opt + files[1:]
    status, stdout = run(ctx, args, texts)
    what = f"{' '.join(args)} with {[texts[k[1:]] for k in files]}"
    if not ok:
        ctx.rejected(status == 0, f"{what}: status {status}, but the library rejects them")
        return
    ctx.accepted(status == 0, None, f"{what}: status {status}, but the library accepts them")
    if opt:
        ctx.check(stdout == "", f"{what}: prints {ctx.show(stdout)} in quiet mode")
    else:
        got, want = words(stdout), words(" ".join(str.__str__(x) for x in out))
        ctx.check(got == want, f"{what}: prints {got!r} instead of {want!r}")


def options(ctx):
    if not ctx.thorough:
        k = ctx.pick("opt", 3)
        return [([], 0), (["-q"], 0), (["--quiet"], 1)][k]
    o = ctx.choice("opt", QUIET)
    return o, ctx.pick("where", 3) if o else 0


def domain_text(a, t, p, act, c, extra=""):
    return (f"(define (domain {N}) (:requirements :strips :typing) (:types {a} - object) (:constants {c} - {a})"
            f" (:predicates ({p} ?x - {t})) (:action {act} :parameters (?x - {a}) :precondition ({p} ?x) :effect (and)){extra})")


def problem_text(dom, o, ty, p, extra=""):
    return f"(define (problem pp) (:domain {dom}) (:objects {o} - {ty}) (:init ({p} {o})) (:goal ({p} {o})){extra})"


def domains(ctx):
    """A domain file alone."""
    a, t, p, act, c = ctx.names("n", 5)
    extra = ctx.choice("extra", ["", ")", " (", " (:derived)", " (:action z :parameters ())", "  ; comment"])
    o, w = options(ctx)
    agree(ctx, {"d": domain_text(a, t, p, act, c, extra)}, o, w)


def with_problem(ctx):
    """A problem file whose objects have any type and whose domain name may differ."""
    a, p, o, ty = ctx.names("n", 4)
    dom = ctx.choice("domain", [N, M])
    extra = ctx.choice("extra", ["", ")", " (:metric minimize (total-cost))"])
    bad = ctx.choice("bad domain", ["", ")"]) if ctx.thorough else ""
    opt, w = options(ctx)
    agree(ctx, {"d": domain_text(a, a, p, fixed(3), fixed(4), bad), "p": problem_text(dom, o, ty, p, extra)}, opt, w)


def with_plan(ctx):
    """A plan file with any action and objects."""
    a, p, o, c = fixed(5), fixed(6), ctx.name("o"), ctx.name("c")
    act = ctx.name("act")
    n = ctx.pick("steps", 3 if ctx.thorough else 2) + 1
    plan = ""
    for i in range(n):
        k = ctx.pick(f"args{i}", 3)
        plan += f"({ctx.name(f'step{i}')}{''.join(' ' + ctx.name(f's{i}.{j}') for j in range(k))})\n"
    plan += ctx.choice("extra", ["", "(", "()"])
    ty = ctx.choice("type", [a, "undeclared"])
    opt, w = options(ctx)
    agree(ctx, {"d": domain_text(a, a, p, act, c), "p": problem_text(N, o, ty, p), "l": plan}, opt, w)


def empty(ctx):
    """Empty, blank and tiny files, an empty plan."""
    texts = {"d": domain_text("a", "a", "p", "act", "c"), "p": problem_text(N, "o", "a", "p"), "l": "(act o)"}
    k = ctx.choice("which", ["d", "p", "l"])
    texts[k] = ctx.choice("content", ["", "\n", "; only a comment\n", "()", "(", ")", "x", "-\n", ";"])
    for x in ("p", "l"):
        if ctx.flag("without " + x):
            texts.pop("l", None)
            if x == "p":
                texts.pop("p", None)
    opt, w = options(ctx)
    agree(ctx, texts, opt, w)


def arguments(ctx):
    """Missing and unreadable files and wrong arguments."""
    texts = {"d": domain_text("a", "a", "p", "act", "c"), "p": problem_text(N, "o", "a", "p"), "l": "(act o)"}
    files = ["@d", "@p", "@l"][: 1 + ctx.pick("files", 3)]
    at = ctx.pick("at", len(files))
    kind = ctx.choice("kind", ["missing", "folder", "none", "too many", "unknown option", "wrong order"])
    if kind == "missing":
        files[at] = "@nothing"
    elif kind == "folder":
        files[at] = "@folder"
    elif kind == "none":
        files = []
    elif kind == "too many":
        files = ["@d", "@p", "@l", "@l"]
    elif kind == "unknown option":
        files.insert(at, "--unknown")
    elif len(files) > 1:
        files[at], files[at - 1] = files[at - 1], files[at]
    else:
        files = ["@p"]
    opt = ctx.choice("opt", QUIET)
    status, out = run(ctx, opt + files, texts)
    ctx.check(status != 0, f"{' '.join(opt + files)}: status 0 with {kind}")


SCENARIOS = [
    Scenario("domains", domains, "a domain file with symbolic type, predicate, action and constant names, well-formed or with one of 4 errors; three option settings (thorough: all positions)"),
    Scenario("with-problem", with_problem, "the same with a problem file: symbolic object, type and predicate names, either domain name, one of 3 endings"),
    Scenario("with-plan", with_plan, "the same with a plan of at most 2 (thorough: 3) steps with symbolic action and at most 2 symbolic object names"),
    Scenario("empty", empty, "blank and tiny files in each position"),
    Scenario("arguments", arguments, "missing files, folders and wrong arguments, with and without quiet mode"),
]
