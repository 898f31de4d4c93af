"""P12: what a writer opens it closes, with the matching bracket; doc comment lines carry their marker."""
import re

from ..absint import C, FALSE, NONE, TooBig, some, show
from ..iset import ISet
from ..mir import norm, strip_generics
from ..outtext import OutText
from .p02 import root

META = {
    "packages": ["styx-format", "facet-styx", "serde_styx"],
    "crates": ["styx_format", "facet_styx", "serde_styx"],
    "level": "other",
    "technique": "abstract interpretation of the writer's output and container stack; interprocedural bracket typestate over its callers",
    "level_note": "Every abstract path of every writer routine: what it appends and how it changes the container stack. Every control-flow path of every caller: the net effect on the stack. Loops must leave it unchanged.",
    "explanation": "Each path of a writer routine that pushes a container is matched with each path that pops one of that kind (kind and the fields that never change after the push must be compatible): the closing bracket must be the partner of "
    "the opening one, written exactly once. No other routine touches the stack or writes a bracket. In the formatter and the serializers every path from entry to a successful return closes what it opened, except the begin and end methods of the "
    "serializer interfaces, which open and close exactly one container of the kind their partner expects. Text of a doc comment is appended line by line, each behind the marker and followed by a line break. Positions recorded in the stack are moved with the output.",
    "assumptions": ["the serializing framework and user types call begin and end methods in pairs, as the interfaces require", "the indent string of the options is white space"],
}
PAIR = {"{": "}", "(": ")", "": ""}
POSITIONAL = {"insert", "splice", "drain", "remove", "swap_remove", "insert_str", "replace_range", "retain", "dedup", "rotate_left", "rotate_right", "swap", "reverse", "clear", "truncate", "copy_within", "retain_mut", "insert_many", "split_off", "extend_from_within"}
STACKOPS = {"push", "pop", "clear", "truncate", "insert", "remove", "drain", "swap_remove", "split_off", "extend", "retain", "append", "splice", "pop_if", "resize"}
LINESAFE = {"trim", "trim_end", "trim_start", "trim_end_matches", "trim_start_matches", "as_bytes", "as_str", "as_ref", "to_string", "to_owned", "deref", "into", "clone", "borrow", "strip_suffix", "strip_prefix", "unwrap_or", "into_bytes", "from"}
LINES = {"lines", "split", "split_terminator", "split_inclusive"}


class Writer:
    """The struct with a stack of containers and an output buffer."""

    def __init__(self, prog):
        self.adt = self.ctx = None
        for path, a in prog.adts.items():
            if a["kind"] != "struct" or not path.startswith("styx_format::"):
                continue
            fs = a["variants"][0]["fields"]
            st = [(i, n, t) for i, (n, t) in enumerate(fs) if re.match(r"(alloc|std)::vec::Vec<styx_format::", t) and (prog.adts.get(re.sub(r"^.*?Vec<(.*?)(, .*)?>$", r"\1", t)) or {}).get("kind") == "enum"]
            out = [(i, n, t) for i, (n, t) in enumerate(fs) if re.match(r"alloc::(vec::Vec<u8|string::String)", t)]
            if st and out:
                self.adt, self.stack, self.out = path, st[0], out[0]
                self.ctx = re.sub(r"^.*?Vec<(.*?)(, .*)?>$", r"\1", st[0][2])
        if self.adt:
            self.variants = prog.adts[self.ctx]["variants"]


def texty(t):
    """a question about, or a transformation of, a text"""
    return t.argc and not any(x.startswith("&mut") for x in t.locals[1 : t.argc + 1]) and any(x in ("&str", "char", "u8", "&[u8]") for x in t.locals[1 : t.argc + 1]) and not t.is_closure


class W(OutText):
    """Output and container stack of one routine."""

    def __init__(self, prog, wr, ws, opaque, **k):
        super().__init__(prog, inline=lambda t, c: t.id not in opaque and not texty(t), **k)
        self.wr = wr
        self.ws = ws

    def do_call(self, st, callee, args, site, depth, rty=None):
        t = self.prog.target(callee)
        if t is not None and t.id in self.ws:
            st.note(("out", (("lit", self.ws[t.id]),), site))
            return [(st, ("agg", "tuple", None, ()))]
        return super().do_call(st, callee, args, site, depth, rty)

    def std(self, st, c, args, site, depth):
        n = c.name
        if args and n in STACKOPS and self.wr.ctx in c.full.replace("&mut ", "") or args and n in STACKOPS and self.wr.ctx.rsplit("::", 1)[-1] in c.full and "Vec" in c.path:
            if n == "push":
                st.note(("push", self.deref(st, args[1]), site))
                return [(st, ("agg", "tuple", None, ()))]
            if n == "pop":
                s = st.copy()
                v = ("sym", "popped", site[1])
                self.tyof[v] = self.wr.ctx
                s.note(("pop", v, site))
                st.note(("popnone", site))
                return [(s, some(v)), (st, NONE)]
            st.note(("stackop", n, site))
        # ---- the lines of a text
        if args:
            v = self.deref(st, args[0])
            if n in LINES and self.isstr(c):
                if n == "lines" or self.newline(st, args[1] if len(args) > 1 else None):
                    return [(st, ("lineiter", self.as_text(st, v), n))]
            if v[0] in ("lineiter", "enumlines", "linemap"):
                if n in ("into_iter", "by_ref", "iter", "peekable", "fuse"):
                    return [(st, v if args[0][0] != "ref" or n != "by_ref" else args[0])]
                if n == "enumerate" and v[0] != "enumlines":
                    return [(st, ("enumlines", v))]
                if n == "next":
                    it = v if v[0] != "enumlines" else v[1]
                    fs = []
                    while it[0] == "linemap":
                        fs.insert(0, it[2])
                        it = it[1]
                    k = st.ext.get(("lines", it), 0)
                    s = st.copy()
                    s.ext[("lines", it)] = min(k + 1, 2)
                    line = ("line", it[1], it[2])
                    self.tyof[line] = "&str"
                    for g in fs:
                        res = [(z, r) for z, r in self.call_closure(s, g, [line], site, depth) if r is not None]
                        if len(res) != 1:
                            return super().std(st, c, args, site, depth)
                        s, line = res[0]
                        line = self.deref(s, line)
                    if v[0] == "enumlines":
                        if k == 0:
                            i = C(0, "usize")
                        else:
                            i = ("lineno", it, min(k, 2))
                            self.tyof[i] = "usize"
                            s.facts[i] = ISet.rng(1, 1 << 60)
                        line = ("agg", "tuple", None, (i, line))
                    return [(s, some(line)), (st, NONE)]
                if n == "map" and v[0] != "enumlines" and len(args) > 1:
                    return [(st, ("linemap", v, self.deref(st, args[1])))]
            if v[0] == "line" and (n in LINESAFE):
                if n in ("strip_suffix", "strip_prefix"):
                    return [(st.copy(), some(v)), (st, NONE)]
                return [(st, v)]
        return super().std(st, c, args, site, depth)

    def newline(self, st, p):
        p = self.deref(st, p) if p else ("?",)
        return p[0] == "c" and p[2] in (10, "\n")

    def cat(self, v):
        if v[0] == "line":
            return (("val", v),)
        return super().cat(v)

    def widen(self, st, fn, fr, body):
        keep = {k: v for k, v in st.env.items() if v[0] in ("lineiter", "enumlines", "linemap")}
        least = {}
        for (g, l), v in list(st.env.items()):
            if g != fr or v[0] != "c" or not isinstance(v[2], int):
                continue
            how = self.steady(fn, l, body)
            if how == v[2]:
                keep[(g, l)] = v  # only ever set to the value it has
            elif how == "grows":
                least[(g, l)] = v[2]
        super().widen(st, fn, fr, body)
        st.env.update(keep)
        for k, n in least.items():
            t = st.env.get(k)
            if t and t[0] == "sym":
                st.facts[t] = ISet.rng(n, 1 << 60)

    @staticmethod
    def steady(fn, l, body):
        """the one constant a local is set to inside the loop, 'grows' if it is only counted up, else None"""
        vals = set()
        for b in body:
            t = fn.term(b)
            if t["k"] == "call" and t["d"][0] == l:
                return None
            for s in fn.stmts(b):
                if s["k"] != "=":
                    continue
                r = s["r"]
                if r["k"] in ("ref", "rawptr") and r["p"][0] == l and r.get("mut"):
                    return None
                if s["p"][0] != l:
                    continue
                if len(s["p"]) > 1:
                    return None
                if r["k"] == "use" and r["x"]["k"] == "const" and isinstance(r["x"].get("int"), int):
                    vals.add(r["x"]["int"])
                    continue
                # x = (x + n).0
                src = r
                if r["k"] == "use" and r["x"]["k"] in ("copy", "move"):
                    ds = [d for d in fn.defs().get(r["x"]["p"][0], []) if d[1] >= 0]
                    if len(ds) == 1:
                        src = ds[0][3]
                if src["k"] == "bin" and src["op"].startswith("Add") and any(x["k"] in ("copy", "move") and x["p"] == [l] for x in (src["a"], src["b"])) and any(x["k"] == "const" and x.get("int", -1) >= 0 for x in (src["a"], src["b"])):
                    vals.add("grows")
                    continue
                return None
        return next(iter(vals)) if len(vals) == 1 else None


def buffers(f):
    """calls that change an output buffer at a position"""
    for b, t, c in f.calls():
        if c.name in POSITIONAL and t["args"] and ("vec::Vec" in c.path or "string::String" in c.path) and (re.search(r"Vec::?<u8", c.full) or "string::String" in c.path):
            yield b, t, c


def selffields(f, wr, i):
    """locals that refer to the writer's field i"""
    out = set()
    for _ in range(4):
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] != "=":
                    continue
                r = s["r"]
                p = r.get("p") if r["k"] == "ref" else r["x"].get("p") if r["k"] == "use" and r["x"]["k"] in ("copy", "move") else None
                if not p:
                    continue
                if any(e[0] == "f" and e[1] == i and len(e) > 3 and norm(e[3] or "") == wr.adt for e in p[1:]) or p[0] in out and len(s["p"]) == 1:
                    out.add(s["p"][0])
    return out


def run(prog, rep, tier):
    rep.rule("pair", "the bracket written when a container is popped is the partner of the one written when it was pushed, for every compatible pair of paths")
    rep.rule("once", "a path that pushes a container writes exactly one opening bracket (none for the braceless root), one that pops writes one closing bracket; closing without a matching container is an error")
    rep.rule("plain", "no other writer routine changes the stack or writes a bracket of its own")
    rep.rule("balance", "every path of the formatter and serializers to a successful return has the net effect its interface promises; loops have none")
    rep.rule("raw", "callers of the writer never write bracket characters themselves")
    rep.rule("doc", "the text of a doc comment is appended line by line, each line behind the marker, on a line of its own")
    rep.rule("shift", "changing the output at a position moves the positions recorded in the stack")
    wr = Writer(prog)
    rep.check(wr.adt is not None, "once", "writer", "no writer with a container stack and an output buffer was found")
    if wr.adt is None:
        return
    methods = [f for f in prog.fns.values() if f.crate == "styx_format" and not f.is_closure and "::test" not in f.path and f.argc and wr.adt in f.locals[1]]
    methods.sort(key=lambda f: f.path)
    # routines that change the output at a position, directly or through another
    opaque = set()
    for f in methods:
        if list(buffers(f)):
            opaque.add(f.id)
    for _ in range(4):
        for f in methods:
            if f.id not in opaque and not f.pub and any((t := prog.target(c)) is not None and t.id in opaque for _, _, c in f.calls()):
                opaque.add(f.id)
    ws = spacers(prog, methods, wr, opaque)
    rep.counts["routines that only write white space"] = len(ws)
    opens, closes, effect, docs = [], [], {}, {}
    called = {t.id for g in methods for _, _, c in g.calls() for t in [prog.target(c)] if t is not None and t.id != g.id}
    npaths = 0
    for f in methods:
        if f.id in opaque:
            for b, t, c in f.calls():
                if c.name in ("push", "pop", "clear", "truncate", "drain") and wr.ctx.rsplit("::", 1)[-1] in c.full and "Vec" in c.path:
                    rep.bad("plain", f"{f.path}:{c.name}", f"{f.path} rewrites the output and changes the container stack", f.loc(t["n"]))
            continue
        if not f.pub and f.id in called:
            continue  # a private part of an operation is judged inside the routines that use it
        I = W(prog, wr, {k: v for k, v in ws.items() if k != f.id}, opaque - {f.id}, unroll=1, depth=5, max_paths=60000)
        try:
            paths = I.run(f)
        except TooBig as e:
            rep.bad("plain", f"{f.path}:size", f"{f.path} has too many paths to analyse: {e}", f.loc())
            continue
        npaths += len(paths)
        eff = set()
        for p in paths:
            if p.kind == "back":
                doclines(f, events(I, f, p), docs)
            if p.kind != "ret":
                continue
            judge(prog, rep, I, f, p, opens, closes, eff, docs)
        effect[f.id] = eff
    rep.counts["writer routines"] = len(methods)
    rep.counts["abstract paths of writer routines"] = npaths
    pairs(prog, rep, wr, opens, closes)
    rep.floor("pair", "paths that open a container", len(opens), 4)
    rep.floor("pair", "paths that close a container", len(closes), 3)
    rep.floor("doc", "routines that write a doc comment", len(docs), 2)
    for name, (why, where) in sorted(docs.items()):
        rep.check(not why, "doc", name, f"{name}: {why}", where)
    shift(prog, rep, methods, wr)
    callers(prog, rep, wr, effect, methods)


def spacers(prog, methods, wr, opaque):
    """routines without further arguments that append nothing but white space and change nothing else"""
    out = {}
    for _ in range(2):
        for f in methods:
            if f.argc != 1 or f.id in opaque or f.id in out or f.locals[0] != "()":
                continue
            if any(s["k"] == "=" and len(s["p"]) > 2 and s["p"][0] == 1 for b in f.reach for s in f.stmts(b)):
                continue
            if any((t := prog.target(c)) is not None and t.argc and t.locals[1].startswith("&mut") and t.id not in out for _, _, c in f.calls()):
                continue
            I = W(prog, wr, {}, opaque, unroll=1, depth=4, max_paths=5000)
            try:
                ps = I.run(f)
            except TooBig:
                continue
            kinds = set()
            for p in ps:
                if p.kind != "ret":
                    continue
                t = ""
                for e in p.st.trace():
                    if e[0] in ("push", "pop", "popnone", "stackop"):
                        t = None
                        break
                    if e[0] == "out":
                        for x in e[1]:
                            if x[0] == "lit" and not x[1].strip():
                                t += x[1]
                            elif x[0] == "val" and "indent" in str(x[1]):
                                t += "\t"
                            else:
                                t = None
                                break
                    if t is None:
                        break
                kinds.add(t)
            if None in kinds or not kinds or kinds == {""}:
                continue
            out[f.id] = "\n" if all(k.startswith("\n") for k in kinds) else "\t"
    return out


def events(I, f, p):
    """the path's appends and stack operations in order; adjacent literals are joined"""
    out = []
    for e in p.st.trace():
        if e[0] == "out":
            for x in e[1]:
                if x[0] == "lit" and out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + x[1], e[2])
                elif x[0] == "val" and "indent" in show(x[1]) and root(x[1]) in ("self", None) and "repeat" not in str(x[1])[:0]:
                    if out and out[-1][0] == "lit":
                        out[-1] = ("lit", out[-1][1] + "\t", e[2])
                    else:
                        out.append(("lit", "\t", e[2]))
                else:
                    out.append((x[0], x[1], e[2]))
        elif e[0] in ("push", "pop", "popnone", "stackop"):
            out.append(e)
    return out


def brackets(ev):
    return "".join(ch for e in ev if e[0] == "lit" for ch in e[1] if ch in "{}()")


def is_err(p):
    v = p.ret
    return v is not None and v[0] == "agg" and v[2] == "Err"


def judge(prog, rep, I, f, p, opens, closes, eff, docs):
    ev = events(I, f, p)
    push = [e for e in ev if e[0] == "push"]
    pop = [e for e in ev if e[0] == "pop"]
    popn = [e for e in ev if e[0] == "popnone"]
    br = brackets(ev)
    where = f.loc()
    for e in ev:
        if e[0] == "stackop":
            rep.bad("plain", f"{f.path}:{e[1]}", f"{f.path} changes the container stack with `{e[1]}`", e[2][0].loc(e[2][2]))
    doclines(f, ev, docs)
    if not push and not pop and not popn:
        rep.check(not br, "plain", f"{f.path}", f"{f.path} writes the bracket '{br}' although it neither opens nor closes a container", where)
        eff.add(("none",))
        return
    if len(push) == 1 and not pop and not popn:
        v = push[0][1]
        if v[0] != "agg":
            rep.bad("once", f"{f.path}:push", f"{f.path} pushes a container whose kind cannot be determined: {show(v)[:60]}", where)
            return
        flds = {}
        for i, x in enumerate(v[3]):
            x = I.deref(p.st, x)
            d = I.dom(p.st, x)
            if x[0] == "c" and x[1] == "bool":
                flds[i] = x[2]
            elif I.is_bool(p.st, x) and d.size() == 1:
                flds[i] = 1 if 1 in d else 0
        # text written behind the bracket belongs into the container
        lits = [e for e in ev if e[0] == "lit"]
        tail = br and lits and lits[-1][1].rstrip()[-1:] not in ("{", "(")
        rep.check(not tail, "once", f"{f.path}:tail", f"{f.path} writes something behind the opening bracket", where)
        opens.append((f, v[2], flds, br, where))
        eff.add(("open", v[2]))
        return
    if len(pop) == 1 and not push:
        v = pop[0][1]
        d = p.st.facts.get(("disc", v))
        vs = [x["name"] for i, x in enumerate(I.wr.variants) if d is None or i in d]
        if is_err(p):
            rep.check(not br, "once", f"{f.path}:err", f"{f.path} writes '{br}' although it reports that there is no matching container", where)
            eff.add(("err",))
            for x in vs:
                closes.append((f, x, fieldfacts(I, p, v, x), None, where))
            return
        for x in vs:
            closes.append((f, x, fieldfacts(I, p, v, x), br, where))
            eff.add(("close", x))
        return
    if popn and not push and not pop:
        rep.check(is_err(p) and not br, "once", f"{f.path}:empty", f"{f.path} does not report that no container is open" if not is_err(p) else f"{f.path} writes '{br}' although no container is open", where)
        eff.add(("err",))
        return
    if push and pop and len(push) == len(pop):
        rep.check(br == "" or len(br) == 2 and PAIR.get(br[1]) == br[0], "once", f"{f.path}:both", f"{f.path} opens and closes containers with brackets '{br}'", where)
        eff.add(("none",))
        return
    rep.bad("once", f"{f.path}:stack", f"{f.path} pushes {len(push)} and pops {len(pop)} containers on one path", where)


def fieldfacts(I, p, v, variant):
    """bool fields of the popped container that the path has tested"""
    out = {}
    vs = next(x for x in I.wr.variants if x["name"] == variant)
    for t, s in p.st.facts.items():
        if t[0] == "fld" and t[1][0] == "dc" and t[1][1] == v and s.size() == 1 and len(t) > 2:
            i = next((j for j, x in enumerate(vs["fields"]) if x[0] == str(t[2])), None)
            if i is not None and i < len(vs["fields"]) and vs["fields"][i][1] == "bool":
                out[i] = 1 if 1 in s else 0
    return out


def frozen(prog, wr, variant):
    """bool fields of a container variant that nothing assigns after it is pushed"""
    vs = next(x for x in wr.variants if x["name"] == variant)
    out = {i for i, (n, t) in enumerate(vs["fields"]) if t == "bool"}
    for f in prog.fns.values():
        if f.crate != "styx_format" or "::test" in f.path:
            continue
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] != "=":
                    continue
                r = s["r"]
                if len(s["p"]) > 1:
                    for e in s["p"][1:]:
                        if e[0] == "f" and len(e) > 3 and norm(e[3] or "") == wr.ctx:
                            out.discard(e[1])
                if r["k"] == "ref" and f.locals[s["p"][0]].startswith("&mut") and len(s["p"]) == 1:
                    p = r["p"]
                    if len(p) > 1 and p[-1][0] == "f" and len(p[-1]) > 3 and norm(p[-1][3] or "") == wr.ctx and p[-1][1] in out:
                        if written(f, s["p"][0]):
                            out.discard(p[-1][1])
    return out


def written(f, l, depth=0):
    """something is assigned through the reference held by local l (or it escapes into a call)"""
    alias = {l}
    for _ in range(4):
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] != "=":
                    continue
                r = s["r"]
                p = r.get("p") if r["k"] in ("ref",) else r["x"].get("p") if r["k"] == "use" and r["x"]["k"] in ("copy", "move") else None
                if p and p[0] in alias and len(s["p"]) == 1 and (len(p) == 1 or p[1:] == ["*"] or list(p[1:]) == ["*"]) and f.locals[s["p"][0]].startswith("&mut"):
                    alias.add(s["p"][0])
    for b in f.reach:
        for s in f.stmts(b):
            if s["k"] == "=" and s["p"][0] in alias and len(s["p"]) > 1:
                return True
        t = f.term(b)
        if t["k"] == "call":
            for x in t["args"]:
                if x["k"] in ("copy", "move") and x["p"][0] in alias and len(x["p"]) == 1:
                    return True
            if t["d"][0] in alias and len(t["d"]) > 1:
                return True
    return False


def pairs(prog, rep, wr, opens, closes):
    fz = {v["name"]: frozen(prog, wr, v["name"]) for v in wr.variants}
    rep.counts["container fields that tell the bracket"] = sum(len(x) for x in fz.values())
    for v in wr.variants:
        n = v["name"]
        mine = [o for o in opens if o[1] == n]
        if not mine:
            continue
        good = [c for c in closes if c[1] == n and c[3] is not None]
        rep.check(bool(good), "pair", f"{n}:close", f"no routine closes a container of kind {n}")
        enders = {c[0].id for c in good}
        seen = set()
        for f, _, fl, br, where in mine:
            key = (f.id, br, tuple(sorted((i, x) for i, x in fl.items() if i in fz[n])))
            if key in seen:
                continue
            seen.add(key)
            named = {v["fields"][i][0]: bool(x) for i, x in fl.items() if i in fz[n]}
            rep.check(br in PAIR, "once", f"{f.path}:bracket", f"{f.path} opens a container of kind {n} by writing '{br}'", where)
            if br not in PAIR:
                continue
            for c in closes:
                if c[1] != n or c[0].id not in enders:
                    continue
                if any(i in fz[n] and fl.get(i, x) != x for i, x in c[2].items()):
                    continue
                inst = f"{f.path} {named} / {c[0].path}"
                if c[3] is None:
                    rep.bad("pair", inst, f"{c[0].path} refuses to close the {n} opened by {f.path}", c[4])
                else:
                    rep.check(c[3] == PAIR[br], "pair", inst, f"a container {f.path} opens with '{br}' {named} is closed by {c[0].path} with '{c[3]}'", c[4])


# ---------------------------------------------------------------- doc comments
def doclines(f, ev, docs):
    D = set()
    text = ""
    prev = None
    for e in ev:
        if e[0] == "val":
            r = origin(e[1])
            if r is not None and re.search(r"///[ ]?$", text):
                D.add(r)
            text = ""
        elif e[0] == "lit":
            text += e[1]
    if not D and not any(e[0] == "lit" and "///" in e[1] for e in ev):
        return
    docs.setdefault(f.path, ["", None])
    text = ""
    pend = None
    for e in ev:
        if e[0] == "lit":
            if pend is not None:
                if not e[1].startswith("\n"):
                    docs[f.path] = [f"a line of the comment is followed by {e[1]!r} instead of a line break", f.loc(pend[2])]
                pend = None
            text += e[1]
        elif e[0] == "val":
            r = origin(e[1])
            if pend is not None:
                docs[f.path] = ["a line of the comment is followed by other text on the same line", f.loc(pend[2])]
                pend = None
            marked = re.search(r"///[ ]?$", text)
            if marked and e[1][0] != "line":
                docs[f.path] = ["what follows the marker is not one line of the comment", f.loc(e[2][2])]
            if r in D:
                if not re.search(r"///[ ]?$", text):
                    docs[f.path] = ["a line of the comment is written without the marker before it", f.loc(e[2][2])]
                elif re.search(r"[^\n\t ][ \t]*///[ ]?$", text.rsplit("\n", 1)[-1]):
                    docs[f.path] = ["the marker does not start the line", f.loc(e[2][2])]
                elif e[1][0] != "line" or e[1][2] == "split_inclusive":
                    docs[f.path] = ["the comment is written as a whole, so that only its first line carries the marker", f.loc(e[2][2])]
                pend = e[2]
            text = ""
        else:
            text = ""


def origin(t):
    if t[0] == "line":
        t = t[1]
        if t[0] == "sfx":
            t = t[1]
        if t[0] == "txt":
            t = t[1]
        return ("arg", root(t) or show(t))
    r = root(t)
    return ("arg", r) if r else None


# ---------------------------------------------------------------- recorded positions
def shift(prog, rep, methods, wr):
    pos = {}
    for v in wr.variants:
        for i, (n, t) in enumerate(v["fields"]):
            if re.fullmatch(r"(core::option::Option<usize>|usize|alloc::vec::Vec<usize(, .*)?>)", t):
                pos[(v["name"], i)] = n
    rep.counts["recorded positions"] = len(pos)
    n = 0
    for f in methods:
        outs = selffields(f, wr, wr.out[0])
        for b, t, c in buffers(f):
            x = t["args"][0]
            if x["k"] == "const" or x["p"][0] not in outs:
                continue
            if c.name in ("truncate", "clear", "split_off"):
                continue
            n += 1
            missing = moved(f, b, wr, pos)
            rep.check(not missing, "shift", f"{f.path}:{c.name}", f"{f.path} changes the output with `{c.name}` but leaves the recorded {', '.join(sorted(missing))} where they were", f.loc(t["n"]))
    rep.counts["changes of the output at a position"] = n


def moved(f, b0, wr, pos):
    """recorded positions that some path from block b0 to the exit does not update"""
    missing = set()
    loops = f.loops()
    for (v, i), n in pos.items():
        heads = set()
        for h, body in loops.items():
            refs = set()
            for b in body:
                for s in f.stmts(b):
                    if s["k"] == "=" and s["r"]["k"] == "ref":
                        p = s["r"]["p"]
                        if any(e[0] == "f" and e[1] == i and len(e) > 3 and norm(e[3] or "") == wr.ctx for e in p[1:]):
                            refs.add(s["p"][0])
                    if s["k"] == "=" and any(e[0] == "f" and e[1] == i and len(e) > 3 and norm(e[3] or "") == wr.ctx for e in s["p"][1:]):
                        heads.add(h)
            # the field is borrowed mutably and something behind it is assigned or iterated over
            if any(f.locals[l].startswith("&mut") and touched(f, l) for l in refs):
                heads.add(h)
        # paths from b0 that reach the exit, or the call again, without such a loop
        seen, work = set(), list(f.succ(b0))
        lost = False
        while work:
            b = work.pop()
            if b in seen or b in heads and b0 not in loops.get(b, ()):
                continue
            seen.add(b)
            t = f.term(b)
            if t["k"] == "ret":
                lost = True
                break
            work += [s for s in f.succ(b) if s in f.reach]
        if lost:
            missing.add(n)
    return missing


def touched(f, l):
    alias = {l}
    for _ in range(8):
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and len(s["p"]) == 1:
                    r = s["r"]
                    p = r.get("p") if r["k"] in ("ref",) else r["x"].get("p") if r["k"] in ("use", "cast") and r.get("x", r.get("a", {})).get("k") in ("copy", "move") else None
                    if p and p[0] in alias:
                        alias.add(s["p"][0])
            t = f.term(b)
            if t["k"] == "call" and any(x["k"] in ("copy", "move") and x["p"][0] in alias for x in t["args"]) and len(t["d"]) == 1:
                alias.add(t["d"][0])
    return any(s["k"] == "=" and s["p"][0] in alias and "*" in [e if isinstance(e, str) else e[0] for e in s["p"][1:]] for b in f.reach for s in f.stmts(b))


# ---------------------------------------------------------------- callers
def callers(prog, rep, wr, effect, methods):
    mine = {f.id for f in methods}
    prim = {}
    for i, e in effect.items():
        k = {x for x in e if x[0] in ("open", "close")}
        if len(k) == 1:
            prim[i] = next(iter(k))
    fns = [f for f in prog.fns.values() if f.id not in mine and "::test" not in f.path and "_test::" not in f.path and "test_utils" not in f.path and not f.path.endswith("::fmt")]
    # functions from which a bracket operation is reached
    rel = set()
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.id in rel:
                continue
            for _, _, c in f.calls():
                t = prog.target(c)
                if t is not None and (t.id in prim or t.id in rel):
                    rel.add(f.id)
                    ch = True
                    break
    rel = [f for f in fns if f.id in rel]
    summ = {f.id: {()} for f in rel}
    if not rel:
        rep.bad("balance", "callers", "nothing uses the writer's containers")
        return
    errs = {}
    for rnd in range(6):
        new = {}
        for f in rel:
            new[f.id], e = net(prog, f, prim, summ)
            errs[f.id] = e
        if new == summ:
            break
        summ = new
    # who must have which effect
    called = {t.id for g in fns for _, _, c in g.calls() for t in [prog.target(c)] if t is not None}
    n = 0
    kinds = {}
    for f in sorted(rel, key=lambda f: f.path):
        for why, line in errs[f.id]:
            rep.bad("balance", f"{f.path}:{why}", f"{f.path}: {why}", f.loc(line))
        s = summ[f.id]
        want = role(prog, f)
        if want is None:
            if not f.pub and f.id in called and not f.is_closure:
                continue  # a private part of an operation is judged with its callers
            n += 1
            rep.check(s <= {()}, "balance", f.path, f"{f.path} returns with containers {describe(s)}", f.loc())
            continue
        n += 1
        good = len(s) == 1 and all(len(x) == 1 and x[0][0] == want[0] for x in s)
        rep.check(good, "balance", f.path, f"{f.path} must {want[0]} exactly one container, but its net effect is {describe(s)}", f.loc())
        if good:
            kinds.setdefault(want[1], {}).setdefault(want[0], set()).add((next(iter(s))[0][1], f))
    for k, d in sorted(kinds.items(), key=str):
        o = {x for x, _ in d.get("open", ())}
        c = {x for x, _ in d.get("close", ())}
        rep.check(o == c and len(o) == 1, "balance", f"pair {k}", f"{k}: opens {sorted(o)} but closes {sorted(c)}", next(iter(d.get("close", d.get("open"))))[1].loc())
    # methods of the interfaces that promise a bracket but do not reach one
    for f in fns:
        w = role(prog, f)
        if w is not None and f.id not in {g.id for g in rel}:
            rep.bad("balance", f.path, f"{f.path} must {w[0]} a container but does not", f.loc())
    rep.floor("balance", "functions with a checked effect on the container stack", n, 30)
    # bracket characters written past the stack
    m = 0
    for f in fns:
        for b, t, c in f.calls():
            g = prog.target(c)
            if g is None or g.id not in mine or g.id in prim:
                continue
            m += 1
            for x in t["args"][1:]:
                k = constant(f, x)
                s, i = k.get("str"), k.get("int")
                bad = isinstance(s, str) and g.name in RAWS and re.search(r"[{}()]", s) or isinstance(i, int) and g.locals[2] == "u8" and chr(i & 255) in "{}()"
                if bad:
                    rep.bad("raw", f"{f.path}:{c.name}", f"{f.path} writes the bracket {s or chr(i or 32)!r} itself, past the container stack", f.loc(t["n"]))
    rep.counts["calls of other writer routines"] = m
    rep.good("raw", f"{m} calls of writer routines")


def constant(f, x, d=0):
    """the constant an operand stands for, if it is one"""
    if x["k"] == "const":
        return x
    p = x["p"]
    if d > 6 or [e for e in p[1:] if e != "*" and e[0] != "*"]:
        return {}
    ds = f.defs().get(p[0], [])
    if len(ds) != 1 or ds[0][1] < 0:
        return {}
    r = ds[0][3]
    if r["k"] == "use":
        return constant(f, r["x"], d + 1)
    if r["k"] == "ref":
        return constant(f, {"k": "copy", "p": r["p"]}, d + 1)
    return {}


RAWS = {"write_raw", "write_str", "write_byte", "field_key_raw", "write_doc_comment_and_key_raw", "write_plain", "write_tag", "write_variant_tag", "write_tag_chain_segment"}


def describe(s):
    return " or ".join(", ".join(f"{'opened' if a == 'open' else 'closed'} ({k})" for a, k in x) or "balanced" for x in sorted(s)) or "no successful return"


def role(prog, f):
    """(open|close, partner group) an interface promises for a method, or None"""
    tr = strip_generics(getattr(f, "trait", None) or "")
    m = re.match(r".*<(.+) as ([^<>]+(?:<.*>)?)>::(\w+)$", f.path) or None
    name = f.path.rsplit("::", 1)[-1]
    if not tr and m:
        tr = m.group(2)
    selfty = (m.group(1) if m else "")
    if tr.endswith("FormatSerializer"):
        g = re.fullmatch(r"(begin|end)_(\w+?)(_after_tag)?", name)
        if g:
            return ("open" if g.group(1) == "begin" else "close", f"{bare(selfty)} {g.group(2)}")
        return None
    if re.search(r"(^|::)ser::", tr) or "::ser::Serialize" in tr:
        last = tr.rsplit("::", 1)[-1]
        if name == "end" and f.argc == 1:
            t = bare(f.locals[1])
            return ("close", f"{t} {last}")
        if last == "Serializer" and name.startswith("serialize_"):
            r = re.match(r"core::result::Result<([\w:]+)", f.locals[0])
            t = r.group(1) if r else ""
            if t in prog.adts and t.split("::")[0] == f.crate:
                part = {"serialize_seq": "SerializeSeq", "serialize_tuple": "SerializeTuple", "serialize_tuple_struct": "SerializeTupleStruct", "serialize_tuple_variant": "SerializeTupleVariant", "serialize_map": "SerializeMap", "serialize_struct": "SerializeStruct", "serialize_struct_variant": "SerializeStructVariant"}[name]
                return ("open", f"{bare(t)} {part}")
    return None


def bare(t):
    return strip_generics(t.replace("&mut ", "").replace("&", "")).strip()


def net(prog, f, prim, summ):
    """net effects on the container stack of all successful returns; problems"""
    errs = []
    states = {0: {((), False)}}
    work = [0]
    out = set()
    while work:
        b = work.pop()
        for st in list(states[b]):
            for nb, ns in step(prog, f, b, st, prim, summ, errs):
                if nb == "ret":
                    if not ns[1]:
                        out.add(ns[0])
                    continue
                s = states.setdefault(nb, set())
                if ns not in s:
                    if len(s) > 12 or len(ns[0]) > 6:
                        if ("a loop leaves containers open or closes too many", f.term(b).get("n")) not in errs:
                            errs.append(("a loop leaves containers open or closes too many", f.term(b).get("n")))
                        return out, errs[:1]
                    s.add(ns)
                    work.append(nb)
    # a loop must not change the stack
    for h in f.loops():
        if len({s[0] for s in states.get(h, ())}) > 1:
            # different depths at a loop head: entered with them, or grown by the body
            entry = {s[0] for p in f.preds.get(h, ()) if p not in f.loops()[h] for st in states.get(p, ()) for nb, s in step(prog, f, p, st, prim, summ, []) if nb == h} if isinstance(f.preds, dict) else set()
            if {s[0] for s in states[h]} != entry:
                errs.append(("a loop leaves containers open or closes too many", f.term(h).get("n")))
    return out, errs


def step(prog, f, b, st, prim, summ, errs):
    stack, err = st
    for s in f.stmts(b):
        if s["k"] == "=" and s["p"] == [0]:
            r = s["r"]
            if r["k"] == "agg" and r["ak"] == "adt" and norm(r["adt"]).endswith("result::Result"):
                err = r["variant"] == "Err"
    t = f.term(b)
    nexts = [n for n in f.succ(b) if n in f.reach]
    if t["k"] == "ret":
        return [("ret", (stack, err))]
    if t["k"] == "call":
        c = f.callee(b)
        if t["to"] < 0:
            return []
        nexts = [t["to"]]
        if t["d"] == [0]:
            err = c.name == "from_residual"
        tgt = prog.target(c)
        if tgt is not None and tgt.id in prim:
            k = prim[tgt.id]
            return [(n, (apply(stack, (k,), f, t, errs), err)) for n in nexts]
        if tgt is not None and tgt.id in summ:
            return [(n, (apply(stack, e, f, t, errs), err)) for n in nexts for e in summ[tgt.id]]
    return [(n, (stack, err)) for n in nexts]


def apply(stack, eff, f, t, errs):
    for a, k in eff:
        if a == "open":
            stack = stack + ((a, k),)
        elif stack and stack[-1][0] == "open":
            if stack[-1][1] != k:
                w = (f"closes a {k} where a {stack[-1][1]} is open", t.get("n"))
                if w not in errs:
                    errs.append(w)
            stack = stack[:-1]
        else:
            stack = stack + ((a, k),)
    return stack
