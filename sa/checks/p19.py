"""P19: the command line fails visibly and leaves files intact on errors."""
import re

from ..errflow import Flow, adt_last
from ..mir import norm, strip_generics
from .p09 import bare, locals_of, targs, testing

META = {
    "packages": ["styx-cli"],
    "crates": ["styx", "styx_gen_go"],
    "level": "other",
    "technique": "path-sensitive forward dataflow of every error result over the MIR of the command-line crates down to the process exit code; dominance of parsing over writing; constant analysis of spawned programs",
    "level_note": "Every call that yields a result or option of an error in the command line and the code generator it drives, on all control-flow paths.",
    "explanation": "Each result is assumed to be an error; every path must return the error (or end the process with a status that is not zero). Writing a file is dominated by successful parsing of what is written, and a failed parse never reaches a write. No shell is started with text that is not constant.",
    "assumptions": ["cleaning up scratch files may fail silently", "the argument parser's own `unwrap` prints its report and exits with status 1 (read in its source)"],
}

CLEAN = {"remove_dir_all", "remove_file", "flush", "remove_dir"}
SHELLS = re.compile(r"^(.*/)?(sh|bash|dash|zsh|ksh|fish|cmd|cmd\.exe|powershell|pwsh|env|xargs|eval)$")
WRITES = {"write", "create", "create_new", "rename", "copy", "set_len", "create_dir_all", "create_dir", "hard_link", "remove_file", "remove_dir_all"}


def is_write(c):
    p = strip_generics(c.path)
    return p.startswith("std::fs::") and c.name in WRITES or "fs::File" in p and c.name in ("create", "create_new", "options")


def run(prog, rep, tier):
    rep.rule("error", "an error met by a command is returned, on every path")
    rep.rule("exit", "an error that reaches main is printed and ends the process with a status that is not zero")
    rep.rule("invalid", "a document found invalid makes the command fail")
    rep.rule("order", "files are written only after what is written was parsed")
    rep.rule("status", "a program that ran and failed makes the command fail")
    rep.rule("shell", "no shell runs text that is not constant")
    fns = [f for f in sorted(prog.fns.values(), key=lambda f: f.path) if not testing(f)]
    errors(prog, rep, fns)
    exits(prog, rep, fns)
    invalid(prog, rep, fns)
    order(prog, rep, fns)
    shell(prog, rep, fns)
    status(prog, rep, fns)


class Cli(Flow):
    """Printing an error on standard error does not end its story; making it the output of a dump does."""

    def call(self, f, b, t, tr, consts, ret):
        c = f.callee(b)
        full = strip_generics(c.path)
        if full.endswith("_eprint"):
            t2 = t.get("to", -1)
            if t2 < 0:
                return None
            consts["printed"] = 1
            return self.edge(f, b, t2, tr, consts, ret)
        if full.endswith("_print"):
            if any(x["k"] != "const" and x["p"][0] in tr for x in t["args"]):
                return None
            return self.edge(f, b, t["to"], tr, consts, ret)
        if c.name == "exit" and "process" in c.path:
            x = t["args"][0]
            v = x.get("int") if x["k"] == "const" else consts.get(x["p"][0]) if len(x["p"]) == 1 else None
            self.exits.append((b, v, x["k"] != "const" and x["p"][0] in tr, consts.get("printed") == 1))
            return None
        return Flow.call(self, f, b, t, tr, consts, ret)

    exits = ()


def results(f):
    for b in sorted(f.reach):
        t = f.term(b)
        if t["k"] == "call" and len(t["d"]) == 1 and t.get("to", -1) >= 0:
            ty = f.locals[t["d"][0]]
            c = f.callee(b)
            if strip_generics(ty) == "core::result::Result" and c.name not in ("map_err", "map", "and_then", "from_residual", "into_result", "ok_or", "ok_or_else", "or_else", "branch", "clone", "as_ref", "transpose"):
                yield b, t, c


def errors(prog, rep, fns):
    n = 0
    for f in fns:
        if f.impl_trait and f.name == "fmt":
            continue
        for b, t, c in results(f):
            if c.name in CLEAN or c.name.startswith("write_fmt") and "String" in c.full or c.name in ("write_str", "write_fmt", "write_char") and "fmt" in c.path:
                continue
            ok = targs(f.locals[t["d"][0]])
            if ok[-1] == "core::convert::Infallible" or ok[0].startswith("!"):
                continue
            if f.name == "main" and f.crate == "styx" and not f.is_closure:
                continue  # rule exit
            n += 1
            G = Cli(prog)
            G.exits = []
            r = G.track(f, [(t["to"], t["d"][0])], {"Result": "Err"})
            bad = r is not None and not predicate(prog, f)
            for b2, v, tracked, printed in G.exits:
                if v == 0 or v is None and not tracked:
                    bad = True
            rep.check(not bad, "error", f"{f.path}:{bare(c)}", f"{f.path} goes on as if nothing had happened when {bare(c)} fails{' (line ' + str(r.line) + ')' if r else ''}", f.loc(t["n"]))
    rep.floor("error", "results", n, 60)


def predicate(prog, f):
    """a search closure or bool function: an error is simply not what is looked for"""
    return f.locals[0] == "bool" or f.is_closure and strip_generics(f.locals[0]) == "core::option::Option" and searching(prog, f)


def searching(prog, f):
    """a closure handed to an iterator that selects among candidates"""
    parent = prog.fns.get(f.id.rsplit("::{closure", 1)[0])
    if parent is None:
        return False
    for b, t, c in parent.calls():
        if c.name in ("filter_map", "find_map", "filter", "find", "any", "all", "position"):
            for x in t["args"]:
                if x["k"] != "const" and f.id.rsplit("::", 1)[-1] and any(d[1] != -1 and d[3]["k"] == "agg" and d[3].get("closure") == f.id for d in parent.defs().get(x["p"][0], [])):
                    return True
    return False


def exits(prog, rep, fns):
    main = [f for f in fns if f.crate == "styx" and f.name == "main" and not f.is_closure and f.path.count("::") == 1]
    if not main:
        rep.bad("exit", "model", "no main function in the command line")
        return
    f = main[0]
    n = 0
    rets_result = strip_generics(f.locals[0]) == "core::result::Result"
    for b, t, c in results(f):
        n += 1
        G = Cli(prog)
        G.exits, G.default = [], {}
        r = G.track(f, [(t["to"], t["d"][0])], {"Result": "Err"})
        key = f"main:{bare(c)}"
        if rets_result and r is None and not G.exits:
            rep.good("exit", key)
            continue
        ok = r is None and G.exits
        for b2, v, tracked, printed in G.exits:
            if v == 0 or v is None and not tracked:
                ok = False
            if not printed and not reported(prog, f, b2, t["to"]):
                ok = False
        rep.check(bool(ok), "exit", key, f"an error from {bare(c)} can leave main with status 0 or without a message", f.loc(t["n"]))
    # status functions: values given to exit that are computed from the error
    for b, t, c in f.calls():
        if c.name == "exit" and "process" in c.path and t["args"][0]["k"] != "const":
            for d in f.defs().get(t["args"][0]["p"][0], []):
                if d[1] == -1:
                    g = prog.target(f.callee(d[0]))
                    if g is None:
                        continue
                    n += 1
                    vals = answers(g)
                    rep.check(vals is not None and 0 not in vals, "exit", g.path, f"{g.path} gives an error the exit status {'0' if vals is not None else 'of unknown value'}", g.loc())
    rep.floor("exit", "results in main and status functions", n, 3)


def reported(prog, f, b, start):
    """something is printed, or handed the error together with standard error, on every path to the exit"""
    pr = [x for x, t, c in f.calls() if strip_generics(c.path).endswith("_eprint") or any("Stderr" in f.locals[y["p"][0]] for y in t["args"] if y["k"] != "const")]
    seen, work = set(), [start]
    while work:
        x = work.pop()
        if x in seen or x in pr:
            continue
        seen.add(x)
        if x == b:
            return False
        work += list(f.succ(x))
    return True


def answers(g):
    """the constants a function can return, or None"""
    out = set()
    for d in g.defs().get(0, []):
        if d[1] == -1 or d[3]["k"] != "use" or d[3]["x"]["k"] != "const" or "int" not in d[3]["x"]:
            return None
        out.add(d[3]["x"]["int"])
    return out or None


def invalid(prog, rep, fns):
    """validation results with errors"""
    n = 0
    for f in fns:
        for b, t, c in f.calls():
            if len(t["d"]) != 1 or t.get("to", -1) < 0 or not f.locals[t["d"][0]].endswith("::ValidationResult"):
                continue
            n += 1

            def keep(g, b2, t2, c2, hit):
                if c2.name == "is_valid":
                    return {}, 0
                return {}

            def seed(g, p):
                for e in p[1:]:
                    if e[0] == "f" and e[2] == "errors" and norm(e[3]).endswith("::ValidationResult"):
                        return {"coll": "full"}
                return None

            G = Cli(prog, keep=None, seed=seed)
            G.keep = lambda g, b2, t2, c2, hit: keep(g, b2, t2, c2, hit) if "coll" not in hit[0][1] else None
            G.exits = []
            G.want = lambda g, ret, tr: ret == "fail"
            r = G.track(f, [(t["to"], t["d"][0])], {"ValidationResult": "invalid"})
            rep.check(r is None, "invalid", f"{f.path}:{bare(c)}", f"{f.path} can succeed although {bare(c)} found the document invalid", f.loc(t["n"]))
    rep.floor("invalid", "validations", n, 1)


PARSE = re.compile(r"BuildError|DeserializeError|facet_format|ParseError")


def order(prog, rep, fns):
    # functions that write files, directly or through others
    writes = {f.id for f in fns if any(is_write(c) for b, t, c in f.calls())}
    direct = set(writes)
    while True:
        more = {f.id for f in fns if f.id not in writes and f.crate in ("styx", "styx_gen_go") and any((g := prog.target(c)) is not None and g.id in writes for b, t, c in f.calls())}
        if not more:
            break
        writes |= more
    reads = {f.id for f in fns if any(c.name in ("read_to_string", "read") and ("fs::" in c.path or "io::" in c.path or "Stdin" in c.full) for b, t, c in f.calls())}
    n = 0
    for f in fns:
        src = [(b, t) for b, t, c in f.calls() if c.name in ("read_to_string", "read") and "fs::" in c.path or (g := prog.target(c)) is not None and g.id in reads and g.id not in direct and "String" in g.locals[0]]
        if not src:
            continue
        parses = [(b, t, c) for b, t, c in results(f) if PARSE.search(targs(f.locals[t["d"][0]])[-1]) and not c.name == "branch"]
        sinks = [(b, t, c) for b, t, c in f.calls() if is_write(c) and c.name in ("write", "create", "create_new", "copy", "rename") or (g := prog.target(c)) is not None and g.id in writes and not (g.id in reads and not g.locals[0])]
        for b, t, c in sinks:
            g = prog.target(c)
            if g is not None and g.id in reads and g.id in writes:
                continue  # judged on its own
            if c.name in CLEAN:
                continue
            from_read = reads_from(f, t, {x for x, _ in src})
            if not from_read:
                continue
            n += 1
            ok = any(f.dominates(p, b) for p, _, _ in parses)
            rep.check(ok, "order", f"{f.path}:{bare(c)}", f"{f.path} writes a file from input it has not parsed yet", f.loc(t["n"]))
        for p, t, c in parses:
            n += 1
            bad = []

            class Stop(Cli):
                def call(self, f2, b2, t2, tr, consts, ret):
                    if b2 in {x for x, _, _ in sinks}:
                        bad.append(b2)
                    return Cli.call(self, f2, b2, t2, tr, consts, ret)

            G = Stop(prog)
            G.exits = []
            G.default = {}
            G.track(f, [(t["to"], t["d"][0])], {"Result": "Err"})
            rep.check(not bad, "order", f"{f.path}:{bare(c)}:failed", f"{f.path} can write a file after {bare(c)} failed", f.loc(t["n"]))
    rep.floor("order", "writes and parses", n, 4)


def reads_from(f, t, src):
    """does an argument of the call derive from what one of the source calls returned?"""
    seen = set()
    work = [x["p"][0] for x in t["args"] if x["k"] != "const"]
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for d in f.defs().get(l, []):
            if d[1] == -1:
                if d[0] in src:
                    return True
                work += [x["p"][0] for x in f.term(d[0])["args"] if x["k"] != "const"]
            else:
                work += locals_of(d[3])
    return False


def const_str(prog, f, x, depth=0):
    """the text of a constant string operand, or None"""
    if depth > 8:
        return None
    if x["k"] == "const":
        if "str" in x:
            return x["str"]
        if "promoted" in x:
            g = prog.promoted(f, x["promoted"])
            for b in g.reach:
                for s in g.stmts(b):
                    if s["k"] == "=" and s["r"]["k"] == "use" and s["r"]["x"]["k"] == "const" and "str" in s["r"]["x"]:
                        return s["r"]["x"]["str"]
        return None
    ds = [d for d in f.defs().get(x["p"][0], []) if not d[2]]
    if len(ds) != 1:
        return None
    if ds[0][1] == -1:
        t = f.term(ds[0][0])
        if f.callee(ds[0][0]).name in ("as_ref", "into", "deref", "to_string", "from", "to_owned", "as_str", "clone") and t["args"]:
            return const_str(prog, f, t["args"][0], depth + 1)
        return None
    r = ds[0][3]
    if r["k"] in ("use", "cast"):
        return const_str(prog, f, r.get("x") or r.get("a"), depth + 1)
    if r["k"] == "ref":
        return const_str(prog, f, {"k": "copy", "p": r["p"][:1]}, depth + 1)
    return None


def shell(prog, rep, fns):
    n = 0
    for f in fns:
        for b, t, c in f.calls():
            if c.name != "new" or not re.search(r"process::Command\b", c.path):
                continue
            n += 1
            name = const_str(prog, f, t["args"][0])
            key = f"{f.path}:{name}"
            if name is None:
                rep.bad("shell", key, f"{f.path} starts a program whose name is not constant", f.loc(t["n"]))
                continue
            if not SHELLS.match(name):
                rep.good("shell", key)
                continue
            free = [t2 for b2, t2, c2 in f.calls() if c2.name in ("arg", "args", "arg0", "env", "raw_arg") and "process::Command" in c2.path and const_str(prog, f, t2["args"][-1]) is None]
            rep.check(not free, "shell", key, f"{f.path} hands text that is not constant to {name}", f.loc(t["n"]))
    rep.floor("shell", "programs started", n, 3)


def status(prog, rep, fns):
    """exit statuses of programs that were waited for"""
    n = 0
    for f in fns:
        for b, t, c in results(f):
            ok = targs(f.locals[t["d"][0]])[0]
            if not re.search(r"process::(ExitStatus|Output)$", ok):
                continue
            n += 1

            def keep(g, b2, t2, c2, hit):
                m = dict(hit[0][1])
                if "run" in m:
                    if c2.name == "success":
                        return {}, 0
                    if c2.name == "code":
                        return {"code": "failed"}
                    if c2.name == "exit_ok":
                        return {"Result": "Err"}
                    if c2.name in ("branch", "map_err", "expect", "unwrap", "from_residual") or "Result" in c2.path:
                        return None
                    return {}
                if "code" in m and c2.name in ("eq", "ne"):
                    return {}, int(c2.name == "ne")  # a failure other than the one asked about
                return None

            G = Cli(prog, keep=keep)
            G.exits, G.default = [], {}
            G.want = lambda g, ret, tr: ret == "fail" or 0 in tr and strip_generics(g.locals[0]) == "core::result::Result" and "process::" in g.locals[0]
            r = G.track(f, [(t["to"], t["d"][0])], {"Result": "Ok", "run": "failed"})
            rep.check(r is None, "status", f"{f.path}:{bare(c)}", f"{f.path} can succeed although the program it ran failed", f.loc(t["n"]))
    rep.floor("status", "programs waited for", n, 2)
