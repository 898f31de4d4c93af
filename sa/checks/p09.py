"""P09: a parse error is never silently dropped."""
import re

from .. import pevents
from ..absint import C, State
from ..errflow import Flow, adt_last
from ..mir import norm, strip_generics

META = {
    "packages": ["styx-cli", "styx-ffi", "styx-wasm", "styx-lsp", "serde_styx"],
    "crates": ["styx_tokenizer", "styx_parse", "styx_cst", "styx_tree", "facet_styx", "serde_styx", "styx_wasm", "styx_ffi", "styx", "styx_lsp"],
    "level": "other",
    "technique": "path-sensitive forward dataflow of error values over the MIR of every consumer; abstract interpretation of the event emitter for every error mark an atom can carry",
    "level_note": "Every call that can yield an error token, lexeme, atom, event or error result in the readers and their callers, on all control-flow paths.",
    "explanation": "The result of each such call is assumed to be an error; on every path it must be returned, recorded in something that is returned, or handed on. Collections in which errors are recorded must be consulted before success is reported. "
    "Each mark by which the parser notes an error in an atom must produce an error event.",
    "assumptions": ["a function that is handed an error by value reports it (each such function in the workspace is checked the same way)"],
}

ERRS = re.compile(r"\b(BuildError|PathError|ParseErrorKind|StyxError|DeserializeError|ParseError|FormatError)\b|serde_styx::error::Error|facet_format::\S*Error")
EVENT = re.compile(r"\bstyx_parse::events::Event\b(?!Kind)")
LEX = "styx_parse::lexer::Lexeme"
TOKEN = "styx_tokenizer::token::Token"
EVMODE = {"Result": "Ok", "ControlFlow": "Continue", "Option": "Some", "Poll": "Ready", "EventKind": "Error"}
PROJ = {"branch", "from_residual", "clone", "unwrap", "expect", "map", "map_err", "ok_or", "ok_or_else", "and_then", "take", "as_ref", "as_mut", "cloned", "or_else", "unwrap_or_else", "into", "from", "ok", "err", "push_back"}


def testing(f):
    return "::tests::" in f.path or re.search(r"(^|/)tests?(_\w+)?\.rs$|/tests/", f.file) is not None


def targs(ty):
    d, cur, out = 0, "", []
    body = ty[ty.index("<") + 1 : ty.rindex(">")] if "<" in ty else ""
    for ch in body:
        d += ch in "<(["
        d -= ch in ">)]"
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def core(ty):
    """the type inside references, Option and Result, if any"""
    ty = ty.strip()
    while True:
        m = re.match(r"^&(mut )?", ty)
        if m:
            ty = ty[m.end() :].strip()
            continue
        if strip_generics(ty) in ("core::option::Option", "core::result::Result", "alloc::boxed::Box") and "<" in ty:
            ty = targs(ty)[0]
            continue
        return strip_generics(ty)


def kind_of(ty):
    """(mode, what) of a value of type ty when it is an error, or None"""
    h = strip_generics(ty)
    c = core(ty)
    if c == "styx_parse::events::Event":
        return EVMODE, "an error event"
    if c == LEX:
        return {"Lexeme": "Error", "Option": "Some"}, "an error lexeme"
    if c == "styx_parse::parser::Atom" or c.endswith("::Atom") and "styx_parse" in c:
        return {"AtomContent": "Error", "Option": "Some"}, "an erroneous atom"
    if h == "core::result::Result" and ERRS.search(targs(ty)[-1]):
        return {"Result": "Err"}, "an error result"
    return None


def sources(prog, f, filters):
    """(block, callee, mode, what) for every call in f whose result may be an error"""
    for b in f.reach:
        t = f.term(b)
        if t["k"] != "call" or len(t["d"]) != 1 or t.get("to", -1) < 0:
            continue
        ty = f.locals[t["d"][0]]
        c = f.callee(b)
        if c.name in PROJ:
            continue
        k = kind_of(ty)
        if k is None or ty.startswith("&"):
            continue
        g = prog.target(c)
        if k[1] == "an error event" and g is not None and g.id in filters:
            if strip_generics(ty) == "core::result::Result":
                k = ({"Result": "Err"}, "an error result")
            else:
                continue
        yield b, t, c, k[0], k[1]


def params(prog, f):
    if f.is_closure or f.impl_trait and (f.name in ("clone", "eq", "drop", "fmt", "hash") or f.name.startswith("assert_")):
        return
    for i in range(1, f.argc + 1):
        k = kind_of(f.locals[i])
        if k is None or f.locals[i].startswith("&mut"):
            continue
        if k[1] == "an error result" or f.locals[i].startswith("&") and k[1] != "an error event":
            continue
        yield i, k[0], k[1]


def reads_only(f):
    """a function that only answers a question about a borrowed or owned value"""
    r = strip_generics(f.locals[0])
    return r in ("bool", "usize", "u32", "styx_parse::span::Span", "styx_tokenizer::span::Span") or r.endswith("::Span") or r.startswith("&")


def lsp_scope(prog, f):
    """functions of the language server on the way from parsing a document to publishing what was found"""
    for b, t, c in f.calls():
        g = prog.target(c)
        if g is not None and g.crate == "styx_lsp" and any("BuildError" in l for l in g.locals[1 : g.argc + 1]):
            return True
    return any("BuildError" in l for l in f.locals[1 : f.argc + 1])


def run(prog, rep, tier):
    rep.rule("lost", "an error that a call yields is, on every path, returned, recorded or handed on")
    rep.rule("consulted", "a collection in which errors are recorded is consulted before success is reported")
    rep.rule("mark", "every mark by which the parser notes an error in an atom produces an error event")
    rep.rule("token", "every error token becomes an error lexeme")
    rep.rule("reader", "the serde reader refuses documents with error tokens and unclosed brackets")
    rep.rule("publish", "the language server publishes the errors of the parser")
    made = lambda f, r: adt_last(r["adt"]) == "EventKind" and r["variant"] == "Error"
    F = Flow(prog, made=made)
    fns = [f for f in sorted(prog.fns.values(), key=lambda f: f.path) if not testing(f)]
    # functions that never pass an error event on as an event
    filters = set()
    for f in fns:
        if EVENT.search(f.locals[0]):
            src = [s for s in sources(prog, f, ()) if s[3].get("EventKind")]
            if src and strip_generics(f.locals[0]) == "core::result::Result" and f.crate != "styx_parse":
                G = Flow(prog, want=lambda g, ret, tr: ret == "fail")
                if all(G.track(f, [(t["to"], t["d"][0])], m) is None for b, t, c, m, w in src):
                    # an error that is handed to another function first still has to come back as a failure
                    filters.add(f.id)
    n = {}
    for f in fns:
        if f.impl_trait and f.name == "fmt" or f.crate == "styx_lsp" and not lsp_scope(prog, f):
            continue
        srcs = [(t["n"], [(t["to"], t["d"][0])], m, w, bare(c)) for b, t, c, m, w in sources(prog, f, filters)]
        if not reads_only(f) and f.crate != "styx_lsp":
            srcs += [(f.line, [(0, i)], m, w, f"parameter {f.lnames.get(i, i)}") for i, m, w in params(prog, f)]
        for line, start, m, w, name in srcs:
            n[w] = n.get(w, 0) + 1
            r = F.track(f, start, m)
            rep.check(r is None, "lost", f"{f.path}:{name}:{w}", f"{f.path} loses {w} from {name}{': it ' + r.why + ' at line ' + str(r.line) if r is not None and r.why else ''}", f.loc(line))
    for w, k in (("an error event", 15), ("an error lexeme", 12), ("an error result", 60), ("an erroneous atom", 5)):
        rep.floor("lost", w, n.get(w, 0), k)
    lexer(prog, rep, fns)
    consulted(prog, rep, fns)
    marks(prog, rep)
    reader(prog, rep, fns)
    publish(prog, rep, fns)


def bare(c):
    return "::".join(strip_generics(c.path).rsplit("::", 2)[-2:])


def tokens(fns, crate):
    take = [f for f in fns if f.crate == crate and not f.is_closure and strip_generics(f.locals[0]) == TOKEN and f.argc == 1]
    look = [f for f in fns if f.crate == crate and not f.is_closure and f.locals[0].startswith(("&", "core::option::Option<&")) and core(f.locals[0]) == TOKEN and f.argc == 1]
    return {f.id for f in take}, {f.id for f in look}


def token_starts(prog, f, take, look):
    for b in f.reach:
        t = f.term(b)
        if t["k"] == "call" and len(t["d"]) == 1 and t.get("to", -1) >= 0:
            g = prog.target(f.callee(b))
            if g is None:
                continue
            if g.id in look:
                yield b, t, True
            elif g.id in take:
                # a token that is dropped unread was looked at before: that look is the obligation
                d = t["d"][0]
                used = d == 0 or any(uses(s, d) for b2 in f.reach for s in f.stmts(b2)) or any(uses(f.term(b2), d) for b2 in f.reach if f.term(b2)["k"] != "drop")
                if used:
                    yield b, t, False


def uses(x, l):
    if isinstance(x, dict):
        if x.get("k") == "dead":
            return False
        if x.get("k") in ("copy", "move", "ref", "discr") and isinstance(x.get("p"), list) and x["p"][0] == l:
            return True
        return any(uses(v, l) for k, v in x.items() if isinstance(v, (dict, list)) and k not in ("p", "d"))
    if isinstance(x, list):
        return any(uses(v, l) for v in x if isinstance(v, (dict, list)))
    return False


def lexer(prog, rep, fns):
    take, look = tokens(fns, "styx_parse")
    mode = {"TokenKind": "Error", "Option": "Some"}
    made = lambda f, r: adt_last(r["adt"]) == "Lexeme" and r["variant"] == "Error"
    F = Flow(prog, made=made, want=lambda f, ret, tr: False, consume=lambda c: (g := prog.target(c)) is not None and g.id in take, look=lambda c: (g := prog.target(c)) is not None and g.id in look, taken=mode)
    F.keep = pure_only
    n = 0
    for f in fns:
        if f.crate != "styx_parse" or f.id in take | look:
            continue
        for b, t, peek in token_starts(prog, f, take, look):
            n += 1
            r = F.track(f, [(t["to"], t["d"][0])], mode, flags=[("looking", 1)] if peek else ())
            rep.check(r is None, "token", f"{f.path}:{bare(f.callee(b))}", f"{f.path} turns an error token into something other than an error lexeme", f.loc(t["n"]))
    rep.floor("token", "tokens taken or looked at", n, 4)


def pure_only(f, b, t, c, hit):
    """handing a token to another function does not report it"""
    if c.name in ("branch", "from_residual", "eq", "ne") or "Option" in c.path or "Result" in c.path:
        return None
    return {}


def consulted(prog, rep, fns):
    """fields that collect errors"""
    cells = []
    for path, a in sorted(prog.adts.items()):
        if not path.startswith(("styx_tree", "facet_styx", "styx_ffi", "serde_styx", "styx_parse")):
            continue
        for v in a["variants"]:
            for i, (name, ty) in enumerate(v["fields"]):
                ty = norm(ty)
                if re.search(r"\b(Vec|VecDeque|Option)<", ty) and re.search(r"\b(ParseErrorKind|BuildError|StyxError|ParseError)\b", ty) and len(a["variants"]) == 1:
                    cells.append((path, name, ty))
    n = 0
    for path, name, ty in cells:
        def seed(f, p, path=path, name=name, ty=ty):
            for j, e in enumerate(p[1:], 1):
                if e[0] == "f" and e[2] == name and strip_generics(norm(e[3])) == path:
                    return {"coll": "full"} if not strip_generics(ty).endswith("Option") else {"Option": "Some"}
            return None

        for f in fns:
            if strip_generics(f.locals[0]) != "core::result::Result" or not any(strip_generics(re.sub(r"^&(mut )?", "", l)) == path for l in f.locals[1 : f.argc + 1]) or f.is_closure:
                continue
            if f.locals[1].startswith("&mut"):
                continue  # not the end of the use
            n += 1
            G = Flow(prog, seed=seed)
            r = G.track(f, [(0, None)], {})
            rep.check(r is None, "consulted", f"{f.path}:{name}", f"{f.path} can report success although errors were recorded in {path.rsplit('::', 1)[-1]}.{name}", f.loc())
    rep.floor("consulted", "results that depend on recorded errors", n, 1)


ATOM = "styx_parse::parser::Atom"


def marks(prog, rep):
    """each flag, list of spans, optional span and nested atom by which an atom notes an error"""
    content = next((p for p in prog.adts if p.startswith("styx_parse") and p.endswith("::AtomContent")), None)
    if content is None:
        rep.bad("mark", "model", "the parser's atom type was not found")
        return
    own = {p: a for p, a in prog.adts.items() if p.rsplit("::", 1)[0] == content.rsplit("::", 1)[0]}
    atom = content.rsplit("::", 1)[0] + "::Atom"
    push = set(pevents.pushers(prog))
    emit = [f for f in prog.fns.values() if f.id in push and not f.is_closure and any(re.sub(r"^&", "", l) and strip_generics(re.sub(r"^&(mut )?", "", l)) == atom for l in f.locals[1 : f.argc + 1])]
    ids = {f.id for f in emit}

    def keep(f, b, t, c, hit):
        g = prog.target(c)
        if g is not None and g.id in ids:
            return "handled" if any("nest" in m for i, m in hit) else {}
        if g is not None and g.id in push and any("nest" in m for i, m in hit):
            return "handled"
        return None

    made = lambda f, r: adt_last(r["adt"]) == "EventKind" and r["variant"] == "Error" or adt_last(r["adt"]) == "ParseErrorKind"

    def holders(ty, seen=()):
        """carriers inside a type of the parser: (adt, variant, field, mode, note)"""
        a = own.get(ty)
        if a is None or ty in seen or ty.endswith("ParserState"):
            return
        for v in a["variants"]:
            flags = any(norm(t) == "bool" for n, t in v["fields"])
            for n, t in v["fields"]:
                t = norm(t)
                h = core(t)
                if t == "bool":
                    yield ty, v["name"], n, {"flag": "1"}
                elif re.search(r"Vec<(\(?[\w:]*Span\b[^<]*)>$", t):
                    yield ty, v["name"], n, {"coll": "full"}
                elif re.search(r"Option<[\w:]*Span>$", t) and not flags:
                    yield ty, v["name"], n, {"Option": "Some"}
                elif h == atom and ty != atom:
                    yield ty, v["name"], n, {"Option": "Some", "AtomContent": "Error", "nest": "1"}
                elif strip_generics(t).endswith("Vec"):
                    e = strip_generics(targs(t)[0])
                    if e == atom:
                        yield ty, v["name"], n, {"coll": "full", "AtomContent": "Error", "nest": "1"}
                    elif e in own and e != atom:
                        for ty2, v2, n2, m2 in holders(e, seen + (ty,)):
                            if ty2 == e:
                                yield ty, v["name"], (n, ty2, n2), m2

    n = 0
    for f in emit:
        par = next(i for i in range(1, f.argc + 1) if strip_generics(re.sub(r"^&(mut )?", "", f.locals[i])) == atom)
        for ty, var, field, mode in holders(content):
            outer = field if isinstance(field, str) else field[0]

            def seed(g, p, ty=ty, var=var, field=field, outer=outer, mode=mode):
                for j, e in enumerate(p[1:], 1):
                    if e[0] == "f" and strip_generics(norm(e[3])) == ty and e[2] == outer and any(d[0] == "dc" and d[2] == var for d in p[1:j]):
                        if isinstance(field, str):
                            return dict(mode)
                        return {"coll": "full"}
                if not isinstance(field, str):
                    for e in p[1:]:
                        if e[0] == "f" and strip_generics(norm(e[3])) == field[1] and e[2] == field[2]:
                            return dict(mode)
                return None

            n += 1
            G = Flow(prog, seed=seed, keep=keep, made=made)
            G.default, G.stores, G.over = {}, False, True
            G.want = lambda g, ret, tr: False
            r = G.track(f, [(0, par)], {"AtomContent": var})
            name = field if isinstance(field, str) else f"{field[0]}[].{field[2]}"
            rep.check(r is None, "mark", f"{f.path}:{var}.{name}", f"{f.path} can emit an atom whose {var}.{name} notes an error without emitting an error event", f.loc())
    rep.floor("mark", "marks", n, 12)


def reader(prog, rep, fns):
    """functions that read text with a reader of their own tokens must have had the text checked by the parser"""
    tok = "styx_tokenizer::tokenizer::Tokenizer"
    own = {p for p, a in prog.adts.items() if not p.startswith(("styx_parse", "styx_tokenizer", "styx_cst", "styx_lsp")) and any(core(norm(t)) == tok for v in a["variants"] for n, t in v["fields"])}
    n = 0
    for f in fns:
        if f.is_closure or strip_generics(f.locals[0]) != "core::result::Result":
            continue
        made = [(b, t) for b, t, c in f.calls() if len(t["d"]) == 1 and strip_generics(f.locals[t["d"][0]]) in own]
        if not made:
            continue
        n += 1
        good = []
        for b, t, c in f.calls():
            g = prog.target(c)
            if g is not None and whole(prog, g) and any(x["k"] != "const" and origin(f, x["p"][0]) == origin(f, y["p"][0]) for x in t["args"] for t2 in [m[1] for m in made] for y in t2["args"] if y["k"] != "const"):
                good.append(b)
        ok = all(any(f.dominates(g, b) for g in good) for b, t in made)
        rep.check(ok, "reader", f.path, f"{f.path} reads text token by token without having the parser look for errors in all of it", f.loc())
    rep.floor("reader", "readers with their own tokens", n, 1)


def origin(f, l, depth=0):
    """the parameter a local is copied from, or the local itself"""
    ds = [d for d in f.defs().get(l, []) if not d[2]]
    if len(ds) != 1 or ds[0][1] == -1 or depth > 8:
        return l
    r = ds[0][3]
    if r["k"] == "use" and r["x"]["k"] != "const":
        return origin(f, r["x"]["p"][0], depth + 1)
    if r["k"] == "ref":
        return origin(f, r["p"][0], depth + 1)
    return l


def whole(prog, g):
    """a check that succeeds only when the parser has no event left (that an error event makes it fail is the rule `lost`)"""
    if g.is_closure or strip_generics(g.locals[0]) != "core::result::Result":
        return False
    for b, t, c, m, w in sources(prog, g, ()):
        if w == "an error event" and "styx_parse" in c.full and "Option" in g.locals[t["d"][0]]:
            F = Flow(prog, want=lambda f, ret, tr: ret == "fail")
            F.default = {}
            F.stop = (b,)
            if F.track(g, [(t["to"], t["d"][0])], {"Option": "Some"}) is None:
                return True
    return False


def publish(prog, rep, fns):
    """the language server: what the parsers found reaches the editor"""
    lsp = [f for f in fns if f.crate == "styx_lsp"]
    err = re.compile(r"Option<&?(mut )?styx_tree::\S*BuildError>$|^&?styx_tree::\S*BuildError$")
    takes = {}
    for f in lsp:
        if not f.is_closure:
            for i in range(1, f.argc + 1):
                if err.search(f.locals[i]):
                    takes[f.id] = i
    client = lambda c: c.name == "publish_diagnostics" and "tower_lsp" in c.path

    def keep(f, b, t, c, hit):
        g = prog.target(c)
        if g is not None and g.id in takes or client(c):
            return "handled"
        return None

    def flow(seed=None):
        G = Flow(prog, keep=keep, seed=seed)
        G.default, G.stores = {}, False
        return G

    n = 0
    for fid, i in sorted(takes.items()):
        f = prog.fns[fid]
        body, start, mode, seed = f, [(0, i)], {"Option": "Some"}, None
        kids = [g for g in prog.children[fid] if g.coroutine]
        if kids:
            body = kids[0]
            place = next((pl for nm, pl in body.upvars if nm == f.lnames.get(i)), None)
            if place is None:
                rep.bad("publish", f"{f.path}:upvar", f"{f.path}: the parse error handed in is not used", f.loc())
                continue
            start, seed = [(0, None)], (lambda g, p, place=place: {"Option": "Some"} if len(p) >= len(place) and [list(e) if e != "*" else e for e in p[1:]][: len(place) - 1] == [list(e) for e in place[1:]] and p[0] == place[0] else None)
        n += 1
        r = flow(seed).track(body, start, mode)
        rep.check(r is None, "publish", f"{f.path}:parameter", f"{f.path} can drop the parse error it is given", f.loc())
    for f in lsp:
        inside = any((g := prog.target(c)) is not None and g.id in takes for b, t, c in f.calls()) or f.id in takes
        if not inside:
            continue
        for b, t, c in f.calls():
            g = prog.target(c)
            if g is not None and g.id in takes:
                n += 1
                x = t["args"][takes[g.id] - 1]
                ok = x["k"] != "const" and (parsed(prog, f, x["p"][0]) or f.id in takes or f.id.rsplit("::{closure", 1)[0] in takes)
                rep.check(ok, "publish", f"{f.path}:argument", f"{f.path} publishes diagnostics without the error of the tree parser", f.loc(t["n"]))
            if len(t["d"]) != 1 or t.get("to", -1) < 0:
                continue
            ty = f.locals[t["d"][0]]
            mode = None
            if re.search(r"styx_cst::\S*(ParseError|Diagnostic|Error)\b", ty) and ("Vec<" in ty or "[" in ty):
                mode = {"coll": "full"}
            elif ty == "styx_cst::parser::Parse" and c.name == "parse":
                mode = {}
            elif re.search(r"Vec<lsp_types::\S*Diagnostic>$", ty) and g is not None and g.crate == "styx_lsp":
                mode = {}
            if mode is None:
                continue
            n += 1
            r = flow().track(f, [(t["to"], t["d"][0])], mode)
            rep.check(r is None, "publish", f"{f.path}:{bare(c)}", f"{f.path} can drop what {bare(c)} found instead of publishing it", f.loc(t["n"]))
    rep.floor("publish", "steps to the editor", n, 8)


def parsed(prog, f, l):
    """does a local derive from the result of a tree parser?"""
    seen, work = set(), [l]
    while work:
        l = work.pop()
        if l in seen:
            continue
        seen.add(l)
        for d in f.defs().get(l, []):
            if d[1] == -1:
                t = f.term(d[0])
                ty = f.locals[t["d"][0]]
                if "styx_tree" in ty and "BuildError" in ty and strip_generics(ty) == "core::result::Result":
                    return True
                work += [x["p"][0] for x in t["args"] if x["k"] != "const"]
            else:
                work += locals_of(d[3])
    return False


def locals_of(r):
    out = []
    if isinstance(r, dict):
        if isinstance(r.get("p"), list) and r["p"] and isinstance(r["p"][0], int):
            out.append(r["p"][0])
        for v in r.values():
            if isinstance(v, (dict, list)):
                out += locals_of(v)
    elif isinstance(r, list):
        for v in r:
            if isinstance(v, dict):
                out += locals_of(v)
    return out
