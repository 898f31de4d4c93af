"""P10: formatting keeps every token and comment."""
import re

from .. import cstgrammar
from ..absint import C, NONE, UNIT, Interp, State, some
from ..cstwalk import SK, Walk
from ..iset import ISet
from . import p05
from .p09 import testing

META = {
    "packages": ["styx-format", "styx-cst"],
    "crates": ["styx_format", "styx_cst", "styx_tokenizer"],
    "level": "other",
    "technique": "abstract interpretation of every formatting routine per node kind, with an effect obligation per kind of child the parser can put there",
    "level_note": "Every routine of the formatter for every kind of node, every kind of child, every path and every option.",
    "explanation": "Which children a node can have is not written down here: it is derived from the CST parser, by following every builder call of every parsing routine in every calling context, restricted to runs that report no error; a shape is a kind of node together with the routine that starts it. From the formatter's entry points every routine is then interpreted once per shape it can be called with, over an abstract node whose children are unknown elements of the derived kinds, in unknown number and order. Each child kind is an obligation on each path: it must be emitted through a formatting routine, or its text pushed, inside an iteration that leaves none out; or be looked for and surely absent; or be the only one there. Iterations are cut after one round from an arbitrary state: a round that comes back without having written its element leaves its kind uncovered. Punctuation may be written as a constant; whitespace, newlines and commas are the formatter's own. Then: a public entry point formats only on paths where the parser's error list is empty, otherwise returns the very source text; and no string the formatter owns is truncated, cleared or cut.",
    "assumptions": ["rowan's iterators yield all children in order", "a newline written after a comment is not checked: text following a comment on the same line would be swallowed without this check noticing"],
}
DROP = {"WHITESPACE", "NEWLINE", "COMMA", "EOF", "__LAST_TOKEN"}
FIXED = {"L_BRACE": "{", "R_BRACE": "}", "L_PAREN": "(", "R_PAREN": ")", "AT": "@", "GT": ">", "SLASH": "/"}


def run(prog, rep, tier):
    g, once, exact, tops = cstgrammar.derive(prog, p05.roots)
    rep.floor("kept", "shapes of nodes", len(g), 10)
    rep.rule("kept", "every routine writes every child its node can have")
    tree = lambda t: re.search(r"SyntaxNode<", t) is not None
    def is_emit(f):
        return f.crate == "styx_format" and not f.is_closure and not testing(f) and f.argc >= 2 and f.locals[1].startswith("&mut styx_format") and any(tree(f.locals[i]) for i in range(2, f.argc + 1))
    ems = sorted((f for f in prog.fns.values() if is_emit(f)), key=lambda f: f.path)
    rep.floor("kept", "formatting routines", len(ems), 5)
    called = {prog.target(c).id for f in ems for b, t, c in f.calls() if prog.target(c) is not None}
    # a routine something outside the formatter starts with
    todo = []
    for f in prog.fns.values():
        if f.crate == "styx_format" and not testing(f) and not is_emit(f) and not f.is_closure:
            for b, t, c in f.calls():
                t2 = prog.target(c)
                if t2 is not None and is_emit(t2):
                    todo += [(t2, x) for x in sorted(tops) if x in g]
    rep.floor("kept", "entry routines", len(todo), 1)
    done = set()
    n = 0
    while todo:
        f, K = todo.pop()
        if (f.id, K) in done:
            continue
        done.add((f.id, K))
        I, N, paths = walk(prog, f, K, is_emit, (g, once, exact))
        for p in paths:
            for ev in p.st.trace():
                if ev[0] == "emit":
                    for k in I.kinds(p.st, ev[1]):
                        todo.append((ev[2], k))
        for at, st, e in I.rounds:
            for ev in st.trace():
                if ev[0] == "emit":
                    for k in I.kinds(st, ev[1]):
                        todo.append((ev[2], k))
        for p in paths:
            if p.kind != "ret":
                continue
            n += 1
            I.relaxed = True
            first = I.missing(p.st, N)
            I.relaxed = False
            for m in sorted(I.missing(p.st, N)):
                m, more = re.sub(r"@\w+", "", m), "" if m in first else " after the first"
                rep.bad("kept", f"{f.path} {m}{more}", f"{f.path} may leave out {m}{more}", f.loc())
            rep.good("kept", f"{f.path} {K}")
    reach, grow = {f.id for f in ems}, True
    while grow:
        grow = False
        for h in prog.fns.values():
            if h.id not in reach and h.crate == "styx_format" and any(prog.target(c) is not None and prog.target(c).id in reach for b, t, c in h.calls()):
                reach.add(h.id)
                grow = True
    tops_rule(prog, rep, is_emit, reach)
    only_grows(prog, rep, is_emit)
    rep.counts["routine and kind pairs"] = len(done)
    rep.counts["paths"] = n


def walk(prog, g, K, is_emit, gram):
    ast = lambda t: t.crate == "styx_cst" and not t.loops() and re.search(r"Syntax|styx_cst::ast|Filter|impl |bool", t.locals[0])
    I = Walk(prog, gram[0], DROP, FIXED, gram[1], gram[2], is_emit, inline=lambda t, c: t.crate == "styx_format" and not rec(prog, t) or ast(t))
    I.cur_fn = g
    st = State()
    N = ("el", "main", (K,), None)
    I.tyof[("kind", N)] = SK
    I.refine(st, ("disc", ("kind", N)), ISet.of(I.num(K)))
    args = []
    for i in range(1, g.argc + 1):
        if "SyntaxNode<" in g.locals[i]:
            args.append(N)
        else:
            a = ("sym", "arg", i)
            I.tyof[a] = g.locals[i]
            args.append(a)
    ps = list(I.run(g, args, st))
    I.settle()
    return I, N, ps


def rec(prog, f):
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        for b, t, c in x.calls():
            y = prog.target(c)
            if y is not None and y.crate == f.crate:
                if y.id == f.id:
                    return True
                if y.id not in seen:
                    seen.add(y.id)
                    todo.append(y)
        for y in prog.children.get(x.id, ()):
            y = prog.fns.get(y, y) if isinstance(y, str) else y
            if y.id not in seen:
                seen.add(y.id)
                todo.append(y)
    return False


PARSE = "styx_cst::parser::Parse"
SAME = {"to_string", "to_owned", "clone", "into", "from", "as_str", "deref", "as_ref", "borrow", "trim", "trim_end", "trim_start", "into_owned"}
SRC, OUT, PARSED = ("sym", "source"), ("sym", "written"), ("sym", "parsed")
ERRS = ("len", "errors")


class Top(Interp):
    """A function that parses a text and hands the tree to the formatter."""

    def __init__(self, prog, is_emit, ptype, **k):
        self.is_emit, self.ptype = is_emit, ptype
        k.setdefault("merging", False)
        super().__init__(prog, on_call=self.hook, **k)
        self.tyof[ERRS] = "usize"

    def base(self, st, v):
        n = 0
        while n < 12:
            n += 1
            if v[0] == "ref":
                v = self.content(st, v[1])
            elif v[0] == "mem" and isinstance(v[1], tuple):
                v = v[1]
            else:
                break
        return v

    def of(self, st, v, what):
        v = self.base(st, v)
        n = 0
        while isinstance(v, tuple) and v and v != what and n < 12:
            n += 1
            if v[0] in ("fld", "mem", "dc", "cast") and isinstance(v[1], tuple):
                v = self.base(st, v[1])
            elif v[0] == "call" and len(v[2]) == 1:
                v = self.base(st, v[2][0])
            else:
                return False
        return v == what

    def hook(self, I, st, c, args, site):
        tgt = self.prog.target(c)
        n = c.name
        if tgt is not None and self.is_emit(tgt):
            d = self.dom(st, ERRS)
            st.note(("fmt", d.iv == ((0, 0),)))
            if args[0][0] == "ref":
                self.store(st, args[0][1], OUT)
            else:
                self.store(st, ("S", args[0], ()), OUT)
            return [(st, UNIT if tgt.locals[0] == "()" else st.fresh("r"))]
        if tgt is not None and tgt.crate == "styx_cst" and tgt.locals[0] == self.ptype and tgt.argc == 1:
            st.note(("parse", self.base(st, args[0]) == SRC))
            return [(st, PARSED)]
        if not args:
            return None
        v = self.base(st, args[0])
        if n in SAME and len(args) == 1 and (v == SRC or self.of(st, v, OUT)):
            return [(st, SRC if v == SRC and "trim" not in n else OUT if v != SRC else st.fresh("trimmed"))]
        if n in ("push", "push_str", "reserve", "shrink_to_fit") and self.of(st, v, OUT):
            return [(st, UNIT)]
        if tgt is None and self.of(st, v, PARSED) and v != PARSED:
            if n == "is_empty":
                return [(st, self.binop(st, "Eq", ERRS, C(0, "usize")))]
            if n == "len" or n == "count":
                return [(st, ERRS)]
            if n in ("first", "last", "get", "next", "get_first"):
                out = []
                for s, w in ((st.copy(), ISet.rng(1, 1 << 60)), (st, ISet.of(0))):
                    if self.refine(s, ERRS, w):
                        out.append((s, some(s.fresh("error")) if 0 not in w else NONE))
                return out
            if n in ("iter", "deref", "as_slice", "into_iter", "as_ref", "borrow", "as_ptr"):
                return [(st, ("call", n, (v,)))]
        return None


def tops_rule(prog, rep, is_emit, reach):
    rep.rule("unchanged", "a document the parser reports an error for is returned as it is, any other as the formatter wrote it")
    ptype = next((f.locals[0] for f in prog.fns.values() if f.crate == "styx_cst" and f.argc == 1 and f.locals[1] in ("&str", "&'a str") and any("ParseError>" in x[1] for v in prog.adts.get(f.locals[0].split("<")[0], {}).get("variants", ()) for x in v["fields"])), None)
    rep.floor("unchanged", "parser entry points", 1 if ptype else 0, 1)
    roots = [f for f in prog.fns.values() if f.crate == "styx_format" and f.pub and not is_emit(f) and not testing(f) and not f.is_closure and f.locals[0].endswith("string::String") and f.id in reach]
    rep.floor("unchanged", "entry points of the formatter", len(roots), 2)
    for f in sorted(roots, key=lambda f: f.path):
        I = Top(prog, is_emit, ptype, inline=lambda t, c: t.crate == "styx_format" or t.crate == "styx_cst" and not t.loops())
        st = State()
        args, text = [], False
        for i in range(1, f.argc + 1):
            if f.locals[i] in ("&str", "&'a str") and not text:
                a, text = SRC, True
            else:
                a = ("sym", "arg", i)
            I.tyof[a] = f.locals[i]
            args.append(a)
        I.tyof[PARSED] = ptype
        wrote = 0
        for p in I.run(f, args, st):
            if p.kind != "ret":
                continue
            ev = p.st.trace()
            fm = [e for e in ev if e[0] == "fmt"]
            v = I.base(p.st, p.ret)
            if fm:
                wrote += 1
                rep.check(I.of(p.st, v, OUT), "unchanged", f"{f.path} result", f"{f.path} does not return what the formatter wrote", f.loc())
                if text:
                    pa = [e for e in ev if e[0] == "parse"]
                    rep.check(bool(pa) and all(e[1] for e in pa), "unchanged", f"{f.path} parse", f"{f.path} formats something other than the parsed source", f.loc())
                    rep.check(all(e[1] for e in fm), "unchanged", f"{f.path} errors", f"{f.path} formats a document the parser may have reported errors for", f.loc())
            else:
                rep.check(v == SRC, "unchanged", f"{f.path} source", f"{f.path} returns neither the source nor what the formatter wrote", f.loc())
        rep.check(wrote > 0, "unchanged", f"{f.path} reached", f"{f.path} never formats", f.loc())


CUT = {"truncate", "clear", "drain", "remove", "replace_range", "retain", "split_off", "set_len", "remove_matches", "extract_if", "clone_from"}


def only_grows(prog, rep, is_emit):
    rep.rule("grows", "what the formatter has written is never cut")
    own_types = {f.locals[1].removeprefix("&mut ") for f in prog.fns.values() if is_emit(f)}
    n = 0
    for f in sorted((f for f in prog.fns.values() if f.crate == "styx_format" and not testing(f)), key=lambda f: f.path):
        own = f.locals[1] if f.argc else ""
        if f.is_closure:
            r = prog.fns.get(f.root)
            own = r.locals[1] if r is not None and r.argc else ""
        if not any(t in own for t in own_types):
            continue
        for b, t, c in f.calls():
            if "string::String" not in c.full:
                continue
            n += 1
            rep.check(c.name not in CUT, "grows", f"{f.path} {c.name}", f"{f.path} calls {c.name} on a string, which may drop text already written", f.loc())
    rep.floor("grows", "string operations of the formatter", n, 2)
