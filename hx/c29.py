"""C29: reading a file gives what its text gives, whatever was read before and however the file is named."""

import os
import pathlib
import shutil
import tempfile

from hx.lib import Scenario, domain_parser, fixed, plan_parser, problem_parser

N, M, K = fixed(1), fixed(2), fixed(3)
PARSERS = {"domain": domain_parser, "problem": problem_parser, "plan": plan_parser}


def reader(kind):
    import pddl

    return {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}[kind]


class Folder:
    """A scratch folder as the current one; removed at the end."""

    def __enter__(self):
        self.old = os.getcwd()
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="c29-"))
        os.chdir(self.path)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)

    def write(self, name, text, newline="", stamp=None):
        path = os.path.join(self.path, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(str.__str__(text).replace("\n", newline) if newline else str.__str__(text))
        if stamp is not None:
            os.utime(path, (stamp, stamp))
        return path

    def read(self, path):
        with open(path, "rb") as f:
            return f.read()


class Like:
    """A path-like object."""

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def text_of(ctx, lb, kind, n):
    """A text of a kind with the name n; some are wrong."""
    x = ctx.choice(lb, {"domain": ["plain", "wrong", "typed", "blank"], "problem": ["plain", "wrong", "other", "blank"], "plan": ["plain", "wrong", "two", "blank"]}[kind])
    if x == "blank":
        return "\n"
    if kind == "domain":
        if x == "plain":
            return f"(define (domain {N})\n (:predicates ({n} ?x) (a-predicate-of-c29))\n (:action {n} :parameters (?{n}) :precondition ({n} ?{n})\n  :effect (not ({n} ?{n}))))\n"
        if x == "typed":
            return f"; a comment\n(define (domain {n}) (:requirements :strips :typing)\n\n (:types {n} - object)\n (:constants {n} - {n})\n)\n"
        return f"(define (domain {N})\n (:types {n} {n}))\n"
    if kind == "problem":
        if x == "plain":
            return f"(define (problem {n}) (:domain {N})\n (:objects {n})\n (:init ({n} {n}) ; a comment\n (= ({n}) 10))\n (:goal ({n} {n})))\n"
        if x == "other":
            return f"(define (problem {K}) (:domain {n})\n (:init)\n (:goal (and)))\n"
        return f"(define (problem {n}) (:domain {N})\n (:init)\n (:goal ({n} {n})))\n"
    if x == "plain":
        return f"({n} {n} {N})\n"
    if x == "two":
        return f"({N})\n({n} {n})\n({N})\n"
    return f"({n}\n"


def compare(ctx, kind, path, want, what):
    """The file gives what a parser of this kind said of the text."""
    got = ctx.attempt(reader(kind), path)
    ctx.check(got[0] == want[0], f"{what} is {'accepted' if got[0] else 'rejected'}, its text is {'accepted' if want[0] else 'rejected'}: {ctx.show(got[1])} / {ctx.show(want[1])}")
    if not want[0]:
        ctx.nrej += 1
        ctx.check(type(got[1]).__name__ == type(want[1]).__name__, f"{what} is rejected with {type(got[1]).__name__}, its text with {type(want[1]).__name__}")
        return
    ctx.nacc += 1
    ctx.check(got[1] == want[1] and want[1] == got[1], f"{what} gives another object than its text: {ctx.show(str(got[1]))} / {ctx.show(str(want[1]))}")
    ctx.check(str(got[1]) == str(want[1]), f"{what} prints differently than its text: {ctx.show(str(got[1]))} / {ctx.show(str(want[1]))}")


def outcome(ctx, kind, text):
    return ctx.attempt(PARSERS[kind](), text)


NAMES = ["file.pddl", "file", "a folder/file with spaces.txt", "f\u00e9.PDDL", "sub/../file.pddl", "file.pddl.gz", "~file", "$HOME", "-q"]


def naming(ctx):
    """Every way to name a file."""
    kind = ctx.choice("kind", list(PARSERS))
    text = text_of(ctx, "text", kind, ctx.name("n"))
    want = outcome(ctx, kind, text)
    with Folder() as f:
        name = ctx.choice("file", NAMES)
        os.makedirs("sub", exist_ok=True)
        path = f.write(name, text)
        how = ctx.choice("how", ["absolute", "relative", "path", "relative path", "path-like", "link"])
        arg = {"absolute": path, "relative": name, "path": pathlib.Path(path), "relative path": pathlib.Path(name), "path-like": Like(path),
               "link": os.path.join(f.path, "link")}[how]
        if how == "link":
            os.symlink(path, arg)
        before = f.read(path)
        compare(ctx, kind, arg, want, f"the {kind} file {name!r} ({how})")
        ctx.check(f.read(path) == before and os.getcwd() == f.path, f"reading the {kind} file {name!r} changes it or the current folder")


def endings(ctx):
    """Line endings, a missing last line end, blank space around the text, characters in comments."""
    kind = ctx.choice("kind", list(PARSERS))
    text = text_of(ctx, "text", kind, ctx.name("n"))
    pre = ctx.choice("before", ["", "\n\n", " \t", "; a comment \u00e9\u4e2d(\n", ";\n"])
    post = ctx.choice("after", ["", "\n", "\n\n\n", "; the end )", ";", "\t "])
    if ctx.flag("no line end"):
        text = text[:-1]
    if ctx.flag("comment on each line"):
        text = text.replace("\n", " ; \u00fc ) (\n")
    text = pre + text + post
    want = outcome(ctx, kind, text)
    with Folder() as f:
        newline = ctx.choice("newline", ["\n", "\r\n", "\r"])
        path = f.write("file.pddl", text, newline)
        compare(ctx, kind, path, want, f"the {kind} file {ctx.show(text)} with {newline!r} at the line ends")


def again(ctx):
    """A file that changes between two readings, with the same length and time or not."""
    kind = ctx.choice("kind", list(PARSERS))
    ta = text_of(ctx, "text", kind, ctx.name("n"))
    tb = text_of(ctx, "other text", kind, ctx.name("m"))
    wa, wb = outcome(ctx, kind, ta), outcome(ctx, kind, tb)
    with Folder() as f:
        how = ctx.choice("how", ["rewritten", "same time", "renamed", "another folder", "link moved", "changed folder"])
        stamp = 1000000000 if how != "rewritten" else None
        path = f.write("a/file.pddl", ta, stamp=stamp)
        arg = path
        if how == "link moved":
            arg = os.path.join(f.path, "link")
            os.symlink(path, arg)
        if how == "changed folder":
            os.chdir("a")
            arg = "file.pddl"
        compare(ctx, kind, arg, wa, f"the {kind} file")
        if ctx.flag("twice"):
            compare(ctx, kind, arg, wa, f"the {kind} file read again")
        if how in ("rewritten", "same time"):
            f.write("a/file.pddl", tb, stamp=stamp)
        else:
            p = f.write("b/file.pddl", tb, stamp=stamp)
            if how == "renamed":
                os.replace(p, path)
            elif how == "another folder":
                arg = p
            elif how == "link moved":
                os.remove(arg)
                os.symlink(p, arg)
            else:
                os.chdir("../b")
        compare(ctx, kind, arg, wb, f"the {kind} file, {how} after a first reading,")
        if how in ("another folder", "link moved", "changed folder"):
            compare(ctx, kind, path, wa, f"the first {kind} file after a second one")


def mixed(ctx):
    """Several files of several kinds in a row, each read as any kind."""
    n = 3 if ctx.thorough else 2
    with Folder() as f:
        m = ctx.name("n")
        items = []
        for i in range(n):
            kind = ctx.choice(f"kind{i}", list(PARSERS))
            items.append((text_of(ctx, f"text{i}", kind, m), f"f{i}.pddl"))
            f.write(items[-1][1], items[-1][0])
        for i in range(n + 1):
            text, path = items[i % n]
            kind = ctx.choice(f"read as {i}", list(PARSERS))
            compare(ctx, kind, path, outcome(ctx, kind, text), f"reading {i}: file {path} as a {kind}")


def unreadable(ctx):
    """Files that are not there."""
    kind = ctx.choice("kind", list(PARSERS))
    text = text_of(ctx, "text", kind, ctx.name("n"))
    with Folder() as f:
        path = f.write("file.pddl", text)
        if ctx.flag("read before"):
            compare(ctx, kind, path, outcome(ctx, kind, text), f"the {kind} file")
        how = ctx.choice("how", ["missing", "removed", "folder", "broken link", "text"])
        arg = path
        if how == "missing":
            arg = os.path.join(f.path, "nothing.pddl")
        elif how == "removed":
            os.remove(path)
        elif how == "folder":
            arg = f.path
        elif how == "broken link":
            arg = os.path.join(f.path, "link")
            os.symlink(os.path.join(f.path, "nothing"), arg)
        else:
            arg = str.__str__(text)
        ok, e = ctx.attempt(reader(kind), arg)
        ctx.rejected(ok, f"reading a {kind} file that is not there ({how})")
        ctx.check(isinstance(e, (OSError, ValueError)), f"reading a {kind} file that is not there ({how}) raises {type(e).__name__}")


SCENARIOS = [
    Scenario("naming", naming, "4 texts of each kind with a symbolic name, 9 file names, 6 ways to name a file"),
    Scenario("endings", endings, "the same texts with 3 kinds of line ends, 5 beginnings and 6 ends, comments with other characters"),
    Scenario("again", again, "two texts of one kind with symbolic names: the file is rewritten, replaced or another one of the same name, length and time is read, 6 ways"),
    Scenario("mixed", mixed, "2 (thorough: 3) files of any kind, each read as any kind, then the first one again"),
    Scenario("unreadable", unreadable, "missing, removed and broken files, folders and texts instead of paths"),
]
