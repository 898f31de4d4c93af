"""P08: parse events are well bracketed."""
import itertools

from ..absint import C, NONE, State, TooBig, show
from ..iset import CHAR, ISet
from ..mir import strip_generics
from .. import pevents
from ..escapes import isstr, shape
from ..pevents import Events, last

META = {
    "packages": ["styx-parse"],
    "crates": ["styx_tokenizer", "styx_parse"],
    "level": "other",
    "technique": "typestate inference: abstract interpretation of the event parser's state machine and of every function that queues events",
    "level_note": "All paths of every function that queues events, for any lexeme sequence; loops are followed for two rounds and after widening; dotted keys up to four segments; "
    "recursive functions by induction.",
    "explanation": "Every function that queues events is interpreted with arbitrary arguments; recursive ones must queue a well-bracketed sequence (assumed of the recursive calls). "
    "The state machine is explored from its constructors over abstract states (variant, flags, parent); each abstract state must always be reached with the same open "
    "brackets, and where the stream ends no bracket is open and the document was started and ended exactly once.",
    "assumptions": ["the event queue is a FIFO that is drained before the state machine advances"],
}
OPEN = {"ObjectStart": "Object", "SequenceStart": "Sequence", "EntryStart": "Entry", "TagStart": "Tag", "DocumentStart": "Document"}
CLOSE = {"ObjectEnd": "Object", "SequenceEnd": "Sequence", "EntryEnd": "Entry", "TagEnd": "Tag", "DocumentEnd": "Document"}
BRACKETS = set(OPEN) | set(CLOSE)
SHAPES = [[x] for x in ("a", "ab", "a.b", "a.b.c", "a.b.c.d", ".a", "a.", "a..b", ".")] + [[]]


def apply(stack, kinds):
    """Resulting stack, or a message."""
    stack = list(stack)
    for k in kinds:
        if k in OPEN:
            stack.append(OPEN[k])
        elif k in CLOSE:
            if not stack:
                return f"{k} without an open bracket"
            if stack[-1] != CLOSE[k]:
                return f"{k} while {stack[-1]} is open"
            stack.pop()
        elif k == "?":
            return "an event of unknown kind"
    return tuple(stack)


class M:
    """Shared facts about the functions that queue events."""

    def __init__(self, prog):
        self.prog = prog
        self.P = pevents.pushers(prog)
        self.rec = self.recursive()
        self.shaped = {i for i in self.P if i not in self.rec and self.prog.fns[i].loops() and self.strarg(self.prog.fns[i]) is not None and self.loop_pushes(self.prog.fns[i])}
        self.neutral = self.neutrals()
        self.least = {i: 1 for i in (self.rec | self.shaped) - self.neutral}

    def neutrals(self):
        """Functions that, with everything they call, build no bracket event and are handed none."""
        built, calls = {}, {}
        for i, f in self.prog.fns.items():
            if f.crate != "styx_parse":
                continue
            built[i] = any(l.endswith("EventKind") or "EventKind<" in l for l in f.locals[1 : f.argc + 1])
            for b in f.reach:
                for s in f.stmts(b):
                    r = s.get("r") or {}
                    if r.get("k") == "agg" and r.get("variant") in BRACKETS:
                        built[i] = True
            calls[i] = {t.id for _, _, c in f.calls() for t in [self.prog.target(c)] if t is not None}
        bad = {i for i, x in built.items() if x}
        while True:
            n = {i for i, cs in calls.items() if i not in bad and cs & bad}
            if not n:
                break
            bad |= n
        return {i for i in self.P if i not in bad}

    def strarg(self, f):
        for k in range(1, f.argc + 1):
            if isstr(f.locals[k]):
                return k
        return None

    def loop_pushes(self, f):
        for h, body in f.loops().items():
            for b in body:
                if f.term(b)["k"] == "call":
                    c = f.callee(b)
                    t = self.prog.target(c)
                    if "VecDeque" in c.full and c.name == "push_back" or t is not None and t.id in self.P:
                        return True
        return False

    def recursive(self):
        out = set()
        g = {}
        for i in self.P:
            g[i] = {t.id for _, _, c in self.prog.fns[i].calls() for t in [self.prog.target(c)] if t is not None and t.id in self.P}
        for i in self.P:
            seen, todo = set(), list(g[i])
            while todo:
                j = todo.pop()
                if j in seen:
                    continue
                seen.add(j)
                todo += g[j]
            if i in seen:
                out.add(i)
        return out

    def interp(self, top, **k):
        m = self

        class I(Events):
            def stop(self, t, st):
                return t.id in m.rec or t.id in m.shaped or t.id in m.neutral

            def factkey(self, st):
                return ()

        k.setdefault("unroll", 1)
        k.setdefault("max_paths", 60000)
        i = I(self.prog, emitters=self.P, depth=7, **k)
        i.inline = lambda t, c: t.id in m.P or "Option<" in t.locals[0] and "Event" in t.locals[0] and t.crate == "styx_parse" or t.id != top and (not t.loops() and len(t.reach) <= (30 if t.argc and t.locals[1].startswith("&mut styx_parse::parser") else 10) and not may_panic(t))
        base = i.hook

        def hook(J, st, c, args, site):
            r = base(J, st, c, args, site)
            t = self.prog.target(c)
            if r is not None and t is not None and (t.id in m.rec or t.id in m.neutral) and nonempty_vec(self.prog, t):
                s, _ = r[0]
                out = []
                for n in (1, 2, 3):
                    z = s.copy()
                    items = []
                    for q in range(n):
                        z.nid += 1
                        items.append(("sym", z.nid, "item"))
                    out.append((z, ("chs", tuple(items))))
                return out
            return r

        i.on_call = hook
        return i


def may_panic(f):
    return any(f.term(b)["k"] == "assert" or f.term(b)["k"] == "call" and f.term(b).get("to", -1) < 0 for b in f.reach)


def nonempty_vec(prog, f):
    """The returned vector was pushed to on every path and nothing is ever taken out of it."""
    if not strip_generics(f.locals[0]).endswith("Vec"):
        return False
    names = {"_0"}
    srcs = {0}
    for _ in range(3):
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and s["p"][0] in srcs and len(s["p"]) == 1 and s["r"]["k"] == "use":
                    x = s["r"]["x"]
                    for key in ("mv", "cp", "m", "c"):
                        if isinstance(x.get(key), list):
                            srcs.add(x[key][0])
    pushes = []
    for b, t, c in f.calls():
        if c.name in ("pop", "clear", "remove", "truncate", "drain", "retain", "swap_remove", "split_off") and "Vec" in c.full:
            return False
        if c.name == "push" and strip_generics(f.locals[0]).rsplit("::", 1)[-1] in c.full:
            pushes.append(b)
    rets = [b for b in f.reach if f.term(b)["k"] == "ret"]
    return any(all(f.dominates(p, r) for r in rets) for p in pushes)


def kinds_of(I, p, m):
    """(event kinds in stream order, certain number of queued events)."""
    out, n = [], 0
    for e in p.st.trace():
        if e[0] == "ev":
            out.append(e[1])
            n += 1
        elif e[0] == "rec":
            n += m.least.get(e[1].id, 0)
    return out, n


def run(prog, rep, tier):
    rep.rule("balanced", "a recursive function that queues events queues a well-bracketed sequence on every path")
    rep.rule("states", "every abstract state of the parser is always reached with the same open brackets, and the stream ends with none open")
    rep.rule("document", "document start is the first event of a document and document end is emitted exactly once, last but for errors and comments")
    m = M(prog)
    rep.floor("balanced", "functions that queue events", len(m.P), 8)
    # smallest number of events the summarised functions queue
    for rnd in range(4):
        ch = False
        for i in sorted((m.rec | m.shaped) - m.neutral):
            n = min((kinds_of(I, p, m)[1] for I, p in own(prog, m, prog.fns[i])), default=0)
            if n < m.least[i]:
                m.least[i] = n if n > 0 else 0
                ch = True
        if not ch:
            break
    npath = 0
    for i in sorted((m.rec | m.shaped) - m.neutral):
        f = prog.fns[i]
        for I, p in own(prog, m, f):
            npath += 1
            ks, _ = kinds_of(I, p, m)
            r = apply((), ks)
            rep.check(r == (), "balanced", f.path, f"{f.path} may queue {' '.join(ks)}: {r if isinstance(r, str) else 'left open: ' + ', '.join(r)}", f.loc())
    rep.count("paths of event-queueing functions", npath)
    machine(prog, rep, m)


_own = {}


def own(prog, m, f):
    if f.id in _own:
        return _own[f.id]
    out = []
    k = m.strarg(f) if f.id in m.shaped else None
    if k is None:
        I = m.interp(f.id)
        out = [(I, p) for p in I.run(f) if p.kind == "ret"]
    else:
        for sh in SHAPES:
            I = m.interp(f.id, unroll=24)
            st = State()
            v = ("chs", shape(I, st, *sh, tag="s"))
            args = [v if q == k else ("sym", "arg", f.lnames.get(q, q)) for q in range(1, f.argc + 1)]
            out += [(I, p) for p in I.run(f, args, st) if p.kind == "ret"]
    _own[f.id] = out
    return out


def machine(prog, rep, m):
    """Explore the state machine of the struct that owns the queue."""
    owner = None
    for p, a in prog.adts.items():
        if a["kind"] == "struct" and p.startswith("styx_parse::parser") and any("VecDeque" in fl[1] for fl in a["variants"][0]["fields"]):
            owner, fields = p, a["variants"][0]["fields"]
    if owner is None:
        rep.bad("states", "owner", "no parser struct with an event queue")
        return
    sidx = [k for k, fl in enumerate(fields) if (x := prog.adts.get(strip_generics(fl[1]))) and x["kind"] == "enum" and x["path"].startswith("styx_parse::parser")]
    if len(sidx) != 1:
        rep.bad("states", "owner", f"{owner} has {len(sidx)} state fields")
        return
    sidx = sidx[0]
    sty = strip_generics(fields[sidx][1])
    # the driver: public method returning Option<Event>
    drv = [f for f in prog.fns.values() if f.pub and not f.is_closure and strip_generics(f.path).startswith(owner + "::") and f.argc == 1 and "Option<" in f.locals[0] and "Event" in f.locals[0] and f.locals[1].startswith("&mut")]
    rep.floor("states", "event pull functions", len(drv), 1)
    starts = []
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.pub and not f.is_closure and strip_generics(f.locals[0]) == owner and strip_generics(f.path).startswith(owner + "::") and f.argc >= 1 and isstr(f.locals[1]):
            I = m.interp(f.id)
            for p in I.run(f):
                v = I.deref(p.st, p.ret)
                s0 = I.deref(p.st, I.fld(v, sidx, fields[sidx][0]))
                starts.append((f, abstract(prog, I, p.st, s0)))
    rep.floor("states", "parser constructors", len(starts), 2)
    variants = {}
    seen = {}
    todo = []
    docs = {}
    for f, a in starts:
        if a not in seen:
            seen[a] = ((), False, False)
            todo.append(a)
        rep.good("states", f"{f.path} -> {name(a)}")
    ends = 0
    trans = 0
    for f in drv:
        work = list(todo)
        done = set()
        while work:
            a = work.pop()
            if a in done:
                continue
            done.add(a)
            stack, begun, ended = seen[a]
            for I, p, ks, certain, post, direct in steps(prog, m, f, owner, fields, sidx, a):
                trans += 1
                r = apply(stack, ks)
                if isinstance(r, str):
                    rep.bad("states", f"{name(a)}:{post and name(post)}:{r}", f"in state {name(a)} the parser may emit {' '.join(ks)}: {r}", f.loc())
                    continue
                b2, e2 = begun or "DocumentStart" in ks, ended or "DocumentEnd" in ks
                if ks.count("DocumentStart") + begun > 1 or ks.count("DocumentEnd") + ended > 1:
                    rep.bad("document", f"{name(a)}:twice", f"in state {name(a)} the parser starts or ends the document twice", f.loc())
                if any(k in OPEN or k in CLOSE for k in ks) and ended:
                    rep.bad("document", f"{name(a)}:after", f"in state {name(a)} the parser emits {' '.join(ks)} after document end", f.loc())
                if not certain:
                    # nothing certainly queued: the stream may end here
                    ends += 1
                    ok = r == () and b2 == e2
                    rep.check(ok, "states", f"{name(a)}:end", f"in state {name(a)} the event stream may end with {', '.join(r) or 'the document'} open", f.loc())
                    if not ks:
                        continue
                if post is None:
                    rep.bad("states", f"{name(a)}:lost", f"the state after {name(a)} is not known", f.loc())
                    continue
                if post in seen:
                    rep.check(seen[post][0] == r and seen[post][1:] == (b2, e2), "states", f"{name(post)}", f"state {name(post)} is entered from {name(a)} with {show_stack(r)} open, elsewhere with {show_stack(seen[post][0])}", f.loc())
                else:
                    seen[post] = (r, b2, e2)
                    rep.good("states", name(post))
                work.append(post)
    rep.floor("states", "abstract parser states", len(seen), 5)
    rep.floor("states", "places where the stream ends", ends, 2)
    rep.count("state transitions", trans)
    rep.counts["states"] = {name(a): show_stack(v[0]) for a, v in seen.items()}
    full = [a for a, v in seen.items() if v[1]]
    rep.check(bool(full) and any(v[1] and v[2] for v in seen.values()), "document", "both", "no state has the document started and ended")


def show_stack(s):
    return " > ".join(s) or "nothing"


def name(a):
    if a is None:
        return "?"
    v, fs = a
    return v + ("{" + ", ".join(f"{k}={name(x) if isinstance(x, tuple) else x}" for k, x in fs) + "}" if fs else "")


def abstract(prog, I, st, v, d=0):
    """(variant, ((flag field, value) | (state field, abstraction), ...)) or None."""
    v = I.deref(st, v)
    while v[0] == "agg" and "Box" in v[1] and v[3]:
        v = I.deref(st, v[3][0])
    if v[0] != "agg" or v[2] is None:
        return None
    adt = strip_generics(v[1])
    var = next((x for x in prog.adts[adt]["variants"] if x["name"] == v[2]), None)
    out = []
    for fl, x in zip(var["fields"], v[3]):
        x = I.deref(st, x)
        if fl[1] == "bool":
            dm = I.dom(st, x).single()
            out.append((fl[0], dm if dm is not None else "?"))
        elif adt in fl[1]:
            out.append((fl[0], abstract(prog, I, st, x, d + 1)))
    return v[2], tuple(out)


def concrete(prog, I, adt, a, tag="s"):
    var = next(x for x in prog.adts[adt]["variants"] if x["name"] == a[0])
    fs = dict(a[1])
    out = []
    for fl in var["fields"]:
        if fl[0] in fs:
            x = fs[fl[0]]
            if isinstance(x, tuple):
                v = concrete(prog, I, adt, x, tag + "p")
                out.append(("agg", "alloc::boxed::Box", None, (v,)) if "Box" in fl[1] else v)
            else:
                out.append(C(x, "bool") if x != "?" else ("sym", tag, fl[0]))
        else:
            t = ("sym", tag, fl[0])
            I.tyof.setdefault(t, fl[1])
            out.append(t)
    return ("agg", adt, a[0], tuple(out))


def steps(prog, m, f, owner, fields, sidx, a):
    sty = strip_generics(fields[sidx][1])
    I = m.interp(f.id)
    base = I.on_call

    def hook(J, st, c, args, site):
        # the queue is empty when the machine advances
        if "VecDeque" in c.full and "Event" in c.full and c.name == "pop_front" and not st.ext.get("first"):
            st.ext["first"] = True
            return [(st, NONE)]
        return base(J, st, c, args, site)

    I.on_call = hook
    st = State()
    out = []
    for k, fl in enumerate(fields):
        t = ("sym", "self", fl[0])
        I.tyof.setdefault(t, fl[1])
        out.append(concrete(prog, I, sty, a) if k == sidx else t)
    SELF = ("top", 0, 0)
    st.env[(SELF, 0)] = ("agg", owner, None, tuple(out))
    for p in I.run(f, [("ref", ("L", SELF, 0, ()))], st):
        if p.kind != "ret":
            continue
        ks, n = kinds_of(I, p, m)
        r = I.deref(p.st, p.ret)
        direct = None
        popped = any(e[0] == "pop" for e in p.st.trace())
        if r[0] == "agg" and r[2] == "Some":
            e = I.deref(p.st, r[3][0])
            k = next((I.deref(p.st, x) for x in e[3] if I.deref(p.st, x)[0] == "agg" and last(I.deref(p.st, x)[1]) == "EventKind"), None) if e[0] == "agg" else None
            ks = [k[2] if k else "?"] + ks
            n += 1
        elif r[0] == "agg" and r[2] == "None":
            n = 0
        elif not popped:
            ks, n = ["?"] + ks, 0
        v = I.deref(p.st, p.st.env[(SELF, 0)])
        s1 = I.deref(p.st, I.fld(v, sidx, fields[sidx][0]))
        yield I, p, ks, n, abstract(prog, I, p.st, s1), direct
