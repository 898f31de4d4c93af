"""P07: event and syntax parsing terminate on every input."""
from .. import cstream, progress
from ..absint import C, NONE, State
from ..cstream import LexModel, LexRun, NetModel, NetRun, TOKEN
from ..mir import strip_generics
from . import p05, p08

META = {
    "packages": ["styx-parse", "styx-cst", "styx-tree"],
    "crates": ["styx_tokenizer", "styx_parse", "styx_cst", "styx_tree"],
    "level": "other",
    "technique": "progress analysis: every loop round and every recursion cycle uses up input (abstract interpretation of token consumption with put-back; structural progress of the remaining loops)",
    "level_note": "All loops of styx-parse, styx-cst and styx-tree (the tokenizer's are P01's). Rounds and recursion over tokens or lexemes are analysed on all paths for any input; "
    "the other loops must step a std iterator, shrink a collection, pull an event or move a counter on every way round.",
    "explanation": "For every loop whose way round uses nothing up structurally, the parser is interpreted over an arbitrary stream: on every path from the loop head back to it a token "
    "other than the end of input is read and not put back. Recursive functions must have read something before they come round to the same situation. Each state of the event "
    "parser that hands out an event without reading must move to a state from which it cannot return without reading.",
    "assumptions": ["std iterators over in-memory data are finite", "the tokenizer ends with an end-of-input token (P01)"],
}
LEXEME = "styx_parse::lexer::Lexeme"


def run(prog, rep, tier):
    rep.rule("round", "every way round a loop uses something up: a token or lexeme read and kept, an iterator step, an event pulled, a counter moved")
    rep.rule("recursion", "recursive parser functions read input before they recur in the same situation, or pass on a strictly shorter slice")
    rep.rule("stream", "each state of the event parser hands out finitely many events without reading")
    covered = {}
    # syntax tree
    m, rs, sums, res = p05.analyse(prog, False)
    rep.floor("round", "tree-building functions analysed", len({k[0] for k in res}), 9)
    take(rep, prog, covered, res, "syntax tree")
    cycles(rep, prog, m, res, "syntax tree")
    # lexemes from tokens
    lm = LexModel(prog, "styx_parse", "Token", TOKEN)
    n = 0
    called = {j for i in lm.active for j in lm.calls[i]}
    for i in sorted(lm.active):
        f = lm.fns[i]
        if f.argc != 1 or not f.locals[1].startswith("&mut") or f.is_closure or accessor(lm, f):
            continue
        if strip_generics(f.locals[0]) != LEXEME:
            continue
        n += 1
        I = LexRun(lm, (i, ()), {})
        s = ("sym", "arg", "self")
        I.tyof[s] = f.locals[1]
        st = State()
        st.ext["cur"] = I.newtok(st)
        ps = I.run(f, [s], st)
        take(rep, prog, covered, {(i, ()): (f, I, ps)}, "lexer")
    rep.floor("round", "lexeme readers analysed", n, 1)
    accessors(prog, rep, lm)
    # events from lexemes
    nm = NetModel(prog, "styx_parse", LEXEME)
    rep.floor("round", "lexeme sources", len(nm.takes), 2)
    roots = pulls(nm)
    rep.floor("stream", "event sources", len(roots), 1)
    nsums, nres = cstream.solve_net(nm, roots)
    take(rep, prog, covered, nres, "event parser")
    cycles(rep, prog, nm, nres, "event parser")
    slots(prog, rep, nm)
    states(prog, rep, nm, roots, nsums)
    # everything else
    total = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.id):
        if f.crate not in ("styx_parse", "styx_cst", "styx_tree") or "::tests" in f.id or "::_" in f.id:
            continue
        for h, body in f.loops().items():
            total += 1
            if (f.id, h) in covered:
                continue
            if progress.stuck(prog, f, h, body) is None:
                rep.good("round", f"{f.path} bb{h}")
            elif f.id in seen_fns(covered):
                # analysed over the stream: no path goes round this loop
                rep.good("round", f"{f.path} bb{h}")
            else:
                rep.bad("round", f"{f.path}:structural", f"a way round a loop of {f.path} uses nothing up", f.loc())
    rep.floor("round", "loops", total, 40)


def seen_fns(covered):
    return covered.get("fns", set())


def accessor(lm, f):
    return strip_generics(f.locals[0]).lstrip("&") == lm.ty


def take(rep, prog, covered, res, what):
    for key, (f, I, ps) in sorted(res.items(), key=lambda x: repr(x[0])):
        covered.setdefault("fns", set()).update(I.inlined)
        for (k, at), text in sorted(I.faults.items(), key=repr):
            if k == "round":
                g = prog.fns.get(at[0])
                rep.bad("round", f"{what}:{g.path}", f"{text} (loop in {g.path}, analysing {f.path})", g.loc())
        for (k, at), n in I.seen.items():
            if k == "round":
                covered[at] = True
                if ("round", at) not in I.faults:
                    rep.good("round", f"{what}: {p05.blockname(prog, at)} in {f.path}")
        rep.count("abstract paths", len(ps))


def cycles(rep, prog, m, res, what):
    g = {}
    for key, (f, I, ps) in res.items():
        for callee, es in I.edges.items():
            for took, shrinks, at in es:
                if took or shrinks:
                    rep.good("recursion", f"{what}: {f.path} -> {m.fns[callee[0]].path} after reading")
                else:
                    g.setdefault(key, {})[callee] = at
    seen = {}

    def visit(k, path):
        seen[k] = 1
        for c, at in g.get(k, {}).items():
            if seen.get(c) == 1:
                i = path.index(c) if c in path else 0
                names = [m.fns[x[0]].name for x in path[i:]] + [m.fns[c[0]].name]
                rep.bad("recursion", f"{what}:{'>'.join(sorted(set(names)))}", f"{' -> '.join(names)} comes round without reading anything", prog.fns[at[0]].loc())
            elif c not in seen:
                visit(c, path + [c])
        seen[k] = 2

    for k in sorted(res, key=repr):
        if k not in seen:
            visit(k, [k])
        rep.good("recursion", f"{what}: {m.fns[k[0]].path}")


def accessors(prog, rep, lm):
    """The token accessors behave as one-token look-ahead: proved for both contents of the slot."""
    for i in sorted(lm.fns):
        f = lm.fns[i]
        if not (f.argc == 1 and f.locals[1].startswith("&mut") and not f.is_closure and accessor(lm, f)):
            continue
        peek = f.locals[0].startswith("&")
        slotted(prog, rep, f, "next_token", TOKEN, "peek" if peek else "take")


def slots(prog, rep, nm):
    for i in sorted(nm.takes):
        f = nm.fns[i]
        if any(prog.target(c) is not None and prog.target(c).id in nm.takes for b, t, c in f.calls()) or any(g.is_closure and g.id.startswith(f.id + "::") for g in nm.fns.values()):
            slotted(prog, rep, f, None, nm.ty, "take", nm)
    for i in sorted(nm.puts):
        slotted(prog, rep, nm.fns[i], None, nm.ty, "put", nm)


def slotted(prog, rep, f, source, ty, mode, nm=None):
    """f works on a struct with an optional slot of type ty in front of a source."""
    adt = prog.adts.get(strip_generics(f.locals[1]).replace("&mut ", "").lstrip("&"))
    if adt is None:
        return
    fields = adt["variants"][0]["fields"]
    k = [j for j, fl in enumerate(fields) if strip_generics(fl[1]).startswith("core::option::Option") and ty in fl[1]]
    if len(k) != 1:
        return
    k = k[0]
    for full in (False, True):
        I = cstream.Vecs(prog, depth=6)

        def hook(J, st, c, args, site):
            t = prog.target(c)
            if source and c.name == source and "Tokenizer" in c.full or nm is not None and t is not None and t.id in nm.takes and t.id != f.id:
                st.ext["n"] = st.ext.get("n", 0) + 1
                return [(st, ("sym", "read", st.ext["n"]))]
            return None

        I.on_call = hook
        st = State()
        SELF = ("top", 0, 0)
        held = ("sym", "held", 0)
        fs = tuple((("agg", "core::option::Option", "Some", (held,)) if full else NONE) if j == k else ("sym", "self", fl[0]) for j, fl in enumerate(fields))
        st.env[(SELF, 0)] = ("agg", adt["path"], None, fs)
        args = [("ref", ("L", SELF, 0, ()))] + ([("sym", "given", 0)] if mode == "put" else [])
        for p in I.run(f, args, st):
            if p.kind != "ret":
                continue
            n = p.st.ext.get("n", 0)
            r = I.deref(p.st, p.ret)
            slot = I.deref(p.st, I.deref(p.st, p.st.env[(SELF, 0)])[3][k])
            inside = I.deref(p.st, slot[3][0]) if slot[0] == "agg" and slot[2] == "Some" else None
            key = f"{f.path}:{'full' if full else 'empty'}"
            want = held if full else ("sym", "read", 1)
            if mode == "put":
                rep.check(n == 0 and not full and inside == ("sym", "given", 0), "stream", key, f"{f.path} does not keep exactly the element handed back", f.loc())
            else:
                ok = n == (0 if full else 1) and r == want and (inside == want if mode == "peek" else slot == NONE)
                rep.check(ok, "stream", key, f"{f.path} does not give the next element exactly once", f.loc())


def pulls(nm):
    """Functions &mut self -> Option<Event>, called by none of their kind."""
    ev = {i for i, f in nm.fns.items() if f.argc == 1 and f.locals[1].startswith("&mut") and not f.is_closure and "Option<" in f.locals[0] and "Event" in f.locals[0]}
    ev = {i for i in ev if i in nm.active}
    # an Iterator::next that forwards is the same source
    inner = {j for i in ev for j in nm.calls[i] if j in ev}
    out = sorted(i for i in ev if i not in inner)
    real = []
    for i in out:
        fw = [j for j in nm.calls[i] if j in ev]
        real += fw if len(nm.calls[i]) == 1 and fw else [i]
    return sorted(set(real))


def states(prog, rep, nm, roots, sums):
    """The event parser hands out finitely many events without reading: cycles of states that read nothing."""
    for i in roots:
        f = nm.fns[i]
        owner = strip_generics(f.locals[1]).replace("&mut ", "").lstrip("&")
        adt = prog.adts.get(owner)
        fields = adt["variants"][0]["fields"]
        sidx = [k for k, fl in enumerate(fields) if (x := prog.adts.get(strip_generics(fl[1]))) and x["kind"] == "enum" and x["path"].startswith("styx_parse::parser")]
        if len(sidx) != 1:
            rep.bad("stream", f"{f.path}:state", f"{owner} has {len(sidx)} state fields", f.loc())
            continue
        sidx = sidx[0]
        sty = strip_generics(fields[sidx][1])
        edges = {}
        todo = starts(prog, owner, sidx, fields)
        rep.floor("stream", "parser constructors", len(todo), 2)
        done = set()
        while todo:
            a = todo.pop()
            if a in done or a is None:
                continue
            done.add(a)
            I = NetRun(nm, (i, ()), sums)
            base = I.on_call

            def hook(J, st, c, args, site, base=base):
                # the queue is empty when the machine advances: a queued event is used up by handing it out
                if "VecDeque" in c.full and "Event" in c.full and c.name == "pop_front" and not st.ext.get("first"):
                    st.ext["first"] = True
                    return [(st, NONE)]
                return base(J, st, c, args, site)

            I.on_call = hook
            st = State()
            SELF = ("top", 0, 0)
            fs = tuple(p08.concrete(prog, I, sty, a) if k == sidx else ("sym", "self", fl[0]) for k, fl in enumerate(fields))
            st.env[(SELF, 0)] = ("agg", owner, None, fs)
            st.frames = (SELF,)
            for p in I.run(f, [("ref", ("L", SELF, 0, ()))], st):
                if p.kind != "ret":
                    continue
                r = I.deref(p.st, p.ret)
                v = I.deref(p.st, p.st.env[(SELF, 0)])
                s1 = p08.abstract(prog, I, p.st, I.fld(v, sidx, fields[sidx][0]))
                todo.append(s1)
                if r[0] == "agg" and r[2] == "None":
                    rep.good("stream", f"{p08.name(a)}: ends")
                elif p.st.ext.get("net", 0) > 0:
                    rep.good("stream", f"{p08.name(a)}: reads")
                else:
                    edges.setdefault(a, set()).add(s1)
        for a in edges:
            seen, walk = set(), list(edges[a])
            while walk:
                b = walk.pop()
                if b not in seen:
                    seen.add(b)
                    walk += edges.get(b, ())
            bad = a in seen or None in edges[a]
            rep.check(not bad, "stream", f"state {p08.name(a)}", f"in state {p08.name(a)} the event parser may hand out events for ever without reading ({', '.join(p08.name(x) for x in edges[a])})", f.loc())
        rep.floor("stream", "parser states", len(done), 5)
        rep.floor("stream", "states that hand out an event without reading", len(edges), 1)


def starts(prog, owner, sidx, fields):
    out = []
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.pub and not f.is_closure and strip_generics(f.locals[0]) == owner and strip_generics(f.path).startswith(owner + "::") and f.argc >= 1 and p08.isstr(f.locals[1]):
            I = cstream.Vecs(prog, depth=6)
            for p in I.run(f):
                v = I.deref(p.st, p.ret)
                out.append(p08.abstract(prog, I, p.st, I.deref(p.st, I.fld(v, sidx, fields[sidx][0]))))
    return out
