"""P11: structural parse errors are reported at every nesting depth, each under its own condition."""
import itertools

from ..absint import C, NONE, State, TooBig, UNIT, ok, err, show, some
from ..absstr import lit
from ..escapes import isstr
from ..mir import strip_generics
from .. import pevents
from ..pevents import Events, last
from . import p08

META = {
    "packages": ["styx-parse"],
    "crates": ["styx_tokenizer", "styx_parse"],
    "level": "other",
    "technique": "abstract interpretation of the event parser over lexeme-kind sequences with opaque nested values (induction on nesting), compared with the error conditions of the format",
    "level_note": "Each container kind, entry kind and parser state is interpreted on all lexeme-kind sequences up to a stated length with arbitrary texts; nested values are opaque, so the argument covers every "
    "depth; longer sequences repeat the same loop bodies.",
    "explanation": "The functions that turn lexemes into values and values into events are composed abstractly: the error events queued for every sequence of lexeme kinds must be exactly those the format demands "
    "(unclosed object or sequence, comma in sequence, duplicate key, extra value, dangling doc comment, invalid tag name, invalid key, missing whitespace, trailing content, path errors).",
    "assumptions": ["HashMap lookups answer by equality of keys"],
}
SPAN = "styx_tokenizer::span::Span"
LEX = "styx_parse::lexer::Lexeme"
ATOM = "styx_parse::parser::Atom"


class Lx(Events):
    """Events with a scripted lexeme source (state.ext['lex']) and noted map lookups."""

    def __init__(self, m, top, collect=None, **k):
        self.m = m
        self.top = top
        self.collect = collect
        k.setdefault("unroll", 6)
        k.setdefault("max_paths", 60000)
        super().__init__(m.prog, emitters=m.P, depth=8, **k)
        self.inline = lambda t, c: t.id in m.P or t.crate == "styx_parse" and len(t.reach) <= 60

    def factkey(self, st):
        return ()

    def stop(self, t, st):
        n = sum(1 for f in st.frames if f[0] == t.id)
        if t.id == self.top:
            return n >= 1
        return t.id in self.m.emit or n >= 1

    def hook(self, I, st, c, args, site):
        m = self.m
        t = self.prog.target(c)
        if t is not None and t.argc == 2 and t.locals[0] == SPAN and t.locals[1] == t.locals[2] == "u32":
            return [(st, ("agg", SPAN, None, tuple(self.deref(st, x) for x in args)))]
        if c.name == "then_some" and len(args) == 2:
            return [(s, some(args[1]) if b else NONE) for s, b in self.bools(st, args[0])]
        if t is not None and t.crate == "styx_parse":
            r0 = strip_generics(t.locals[0])
            if r0 == LEX and t.argc == 1 and t.locals[1].startswith("&mut"):
                seq = st.ext.get("lex", ())
                if not seq:
                    st.note(("lex", "Eof"))
                    return [(st, ("agg", LEX, "Eof", ()))]
                st.ext["lex"] = seq[1:]
                st.note(("lex", seq[0][2]))
                return [(st, seq[0])]
            if t.argc == 2 and strip_generics(t.locals[2]) == LEX and t.locals[0] == "()":
                st.ext["lex"] = (self.deref(st, args[1]),) + st.ext.get("lex", ())
                st.note(("stash", st.ext["lex"][0][2]))
                return [(st, UNIT)]
            if t.id not in m.P and t.loops() and any("str" in t.locals[q + 1].split("::")[-1] and self.deref(st, x)[0] not in ("chs", "c") for q, x in enumerate(args)):
                # a loop over unknown text: any result
                return [(st, self.fresh(st, "text", t.locals[0]))]
            if t.id in m.atomfn and t.id != self.top or t.id in m.atomfn and st.frames[1:] and any(f[0] == t.id for f in st.frames):
                lx = self.deref(st, args[-1])
                st.note(("atom", lx[2] if lx[0] == "agg" else "?"))
                return [(st, self.atom(st, lx))]
            if t.id in m.collfn and t.id != self.top:
                lx = self.deref(st, args[-1])
                out = []
                for shape in self.collect(lx):
                    z = st.copy()
                    z.note(("entry", len(shape)))
                    out.append((z, ("chs", tuple(self.mk(z, k) for k in shape))))
                return out
            if t.argc >= 2 and t.locals[0].startswith("core::result::Result<(), styx_parse") and t.locals[1].startswith("&mut") and not t.id in m.P:
                # the tracker of paths: any verdict
                e = strip_generics(t.locals[0].split("<(), ", 1)[1].rsplit(">", 1)[0])
                out = []
                kind = self.deref(st, args[-1])
                kind = kind[2] if kind[0] == "agg" else "?"
                z = st.copy()
                z.note(("path", "Ok", kind))
                out.append((z, ok(UNIT)))
                for v in self.prog.adts[e]["variants"]:
                    z = st.copy()
                    z.note(("path", v["name"], kind))
                    out.append((z, err(("agg", e, v["name"], tuple(self.fresh(z, fl[0], fl[1]) for fl in v["fields"])))))
                return out
        if "alloc::vec::Vec" in c.full and c.name in ("new", "with_capacity", "default") and "Vec::<u8>" not in c.full:
            return [(st, ("chs", ()))]
        if c.name == "clone" and len(args) == 1 and ("Atom" in c.full or "Lexeme" in c.full):
            return [(st, self.deref(st, args[0]))]
        if c.name == "len" and len(args) == 1 and "str" not in c.full:
            v = self.deref(st, args[0])
            if v[0] == "chs" and all(x[0] == "agg" for x in v[1]):
                return [(st, C(len(v[1]), "usize"))]
        if t is not None and t.id in m.keyfn and t.id != self.top:
            return [(st, self.fresh(st, "keyvalue", "?"))]
        if "hash::map::HashMap" in c.full or "btree::map::BTreeMap" in c.full or "hash_map::Entry" in c.full or "hash::map::" in c.full:
            n = c.name
            if n in ("get", "get_mut", "contains_key", "get_key_value"):
                a, b = st, st.copy()
                self.looked(a, True)
                self.looked(b, False)
                if n == "contains_key":
                    return [(a, C(1, "bool")), (b, C(0, "bool"))]
                return [(a, some(self.ref(a, self.fresh(a, "orig", SPAN)))), (b, NONE)]
            if n == "insert" and len(args) == 3:
                if any(x[0] == "look" and x[1] is False and not used(st, x) for x in st.trace()[-40:]):
                    st.note(("ins",))
                    return [(st, NONE)]
                a, b = st, st.copy()
                self.looked(a, True)
                self.looked(b, False)
                b.note(("ins",))
                return [(a, some(self.fresh(a, "orig", SPAN))), (b, NONE)]
            if n == "entry":
                a, b = st, st.copy()
                self.looked(a, True)
                self.looked(b, False)
                E = "std::collections::hash::map::Entry"
                return [(a, ("agg", E, "Occupied", (self.fresh(a, "occ", "?"),))), (b, ("agg", E, "Vacant", (self.fresh(b, "vac", "?"),)))]
            if n in ("or_insert", "or_insert_with", "or_default"):
                # an entry that is ignored when present reports nothing
                st.note(("ins",))
                return [(st, self.fresh(st, "slot", "?"))]
            if n in ("new", "with_capacity", "default"):
                return [(st, self.fresh(st, "map", "?"))]
        return super().hook(I, st, c, args, site)

    def looked(self, st, hit):
        st.nid += 1
        st.note(("look", hit, st.nid))

    def bools(self, st, b):
        b = self.deref(st, b)
        if b[0] == "c":
            return [(st, bool(b[2]))]
        z = st.copy()
        return [(y, v) for s, v in ((st, True), (z, False)) for y in self.assume(s, b, v)]

    def fresh(self, st, name, ty):
        st.nid += 1
        t = ("sym", st.nid, name)
        self.tyof[t] = ty
        return t

    def span(self, st, a, b):
        adt = next(a for p, a in self.prog.adts.items() if p.endswith("span::Span")) if False else None
        return ("agg", SPAN, None, (C(a, "u32"), C(b, "u32")))

    def lexeme(self, st, lexkind, at=0, width=1, **over):
        """A lexeme of the kind at a constant position; its texts are arbitrary."""
        v = next(v for v in self.prog.adts[LEX]["variants"] if v["name"] == lexkind)
        fs = []
        for nm, ty in v["fields"]:
            if nm in over:
                fs.append(over[nm])
            elif strip_generics(ty) == SPAN:
                fs.append(self.span(st, at, at + width))
            else:
                fs.append(self.fresh(st, nm, ty))
        return ("agg", LEX, lexkind, tuple(fs))

    def atom(self, st, lx, content=None):
        return ("agg", ATOM, None, (self.fresh(st, "span", SPAN), content or self.fresh(st, "content", ATOM + "Content")))

    def mk(self, st, spec):
        """Atom of a content variant, fields arbitrary but for the given ones; '?' for an opaque one."""
        if spec == "?":
            return self.atom(st, None)
        kind, over = spec
        cadt = ATOM + "Content"
        v = next((v for v in self.prog.adts[cadt]["variants"] if v["name"] == kind), None)
        fs = tuple(over[nm] if nm in over else self.fresh(st, nm, ty) for nm, ty in v["fields"])
        return self.atom(st, None, ("agg", cadt, kind, fs))


def used(st, look):
    seen = False
    for x in st.trace():
        if x is look:
            seen = True
        elif seen and x[0] in ("ins", "look"):
            return True
    return False


class Model(p08.M):
    def __init__(self, prog):
        super().__init__(prog)
        lx = lambda f, i: strip_generics(f.locals[i]) == LEX
        fs = [f for f in prog.fns.values() if f.crate == "styx_parse" and not f.is_closure and "::tests" not in f.id and "Clone" not in f.path]
        self.atomfn = {f.id for f in fs if strip_generics(f.locals[0]) == ATOM and f.argc >= 1 and lx(f, f.argc)}
        self.collfn = {f.id for f in fs if f.locals[0].startswith("alloc::vec::Vec<" + ATOM) and f.argc >= 1 and lx(f, f.argc)}
        one = [f for f in fs if f.id in self.P and f.argc == 2 and f.locals[2].startswith("&") and strip_generics(f.locals[2].lstrip("&").split(" ")[-1]) == ATOM]
        self.value = {f.id for f in one if f.id in self.rec}
        self.key = {f.id for f in one if f.id not in self.rec}
        self.emit = self.value | self.key
        self.keyfn = {f.id for f in keyfns(prog)}
        self.entry = [f for f in fs if f.id in self.P and any(l.startswith("&[" + ATOM) for l in f.locals[1 : f.argc + 1])]


def scalar_kind(prog, v):
    return ("agg", next(p for p in prog.adts if p.endswith("events::ScalarKind")), v, ())


def keyfns(prog):
    out = []
    for f in prog.fns.values():
        if f.crate == "styx_parse" and not f.is_closure and f.argc == 1 and strip_generics(f.locals[1].lstrip("&").split(" ")[-1]) == ATOM:
            r = strip_generics(f.locals[0])
            if r.startswith("styx_parse::parser::") and r not in (ATOM, ATOM + "Content") and prog.adts.get(r, {}).get("kind") == "enum":
                out.append(f)
    return out


def errors(I, p, since=0):
    return [e[2] for e in p.st.trace()[since:] if e[0] == "ev" and e[1] == "Error"]


def seqs(alpha, n):
    for k in range(n + 1):
        yield from itertools.product(alpha, repeat=k)


def run(prog, rep, tier):
    rep.rule("containers", "the error events of an object, sequence or attribute list are exactly those its lexemes call for")
    rep.rule("atoms", "lexemes that are no value, and tags with an invalid name, become errors; others do not")
    rep.rule("keys", "what cannot be a key is reported as an invalid key, anything else becomes one key event")
    rep.rule("entries", "an entry with more than two atoms, a repeated key, a key that is a heredoc, and a bad path are reported, and nothing else")
    rep.rule("collect", "missing whitespace before a block is reported exactly when the block touches a bare first atom")
    rep.rule("states", "what follows the document, and what is unfinished at its end, is reported")
    rep.rule("paths", "a path segment that is left is remembered and one that is entered was looked up among those left")
    rep.rule("identity", "keys are compared by everything that makes them different")
    m = Model(prog)
    rep.floor("atoms", "functions from lexeme to value", len(m.atomfn), 1)
    rep.floor("entries", "functions that gather the atoms of an entry", len(m.collfn), 1)
    rep.floor("keys", "functions that emit a key", len(m.key), 1)
    rep.floor("containers", "functions that emit a value", len(m.value), 1)
    n = 2 if tier == "quick" else 3
    for a in sorted(m.atomfn):
        for e in sorted(m.value):
            containers(prog, rep, m, prog.fns[a], prog.fns[e], n)
        for e in sorted(m.value | m.key):
            atoms(prog, rep, m, prog.fns[a], prog.fns[e])
    for k in sorted(m.key):
        keys(prog, rep, m, prog.fns[k])
    for c in sorted(m.collfn):
        collect(prog, rep, m, prog.fns[c])
    machine(prog, rep, m, n)
    exact = tracker(prog, rep, m, tier)
    paths(prog, rep, m, exact)
    identity(prog, rep, m)


def parse_then_emit(m, a, e, lexs, collect, st=None):
    """Abstract runs of emitting what the lexemes parse to: (interp, path, trace index where emission starts)."""
    I = Lx(m, a.id, collect)
    st = State()
    L = tuple(mk(I, st) for mk in lexs)
    st.ext["lex"] = L[1:]
    args = [("sym", "arg", a.lnames.get(q, q)) for q in range(1, a.argc)] + [L[0]]
    for p in I.run(a, args, st):
        if p.kind != "ret":
            continue
        s = p.st
        cut = len(s.trace())
        left = s.ext.get("lex", ())
        J = Lx(m, e.id, collect)
        J.tyof = I.tyof
        v = J.ref(s, I.deref(s, p.ret))
        for q in J.run(e, [("sym", "arg", "self"), v], s):
            if q.kind == "ret":
                yield J, q, cut, left


def lx(lexkind, at=0, width=1, **over):
    return lambda I, st: I.lexeme(st, lexkind, at, width, **{k: (f(I, st) if callable(f) else f) for k, f in over.items()})


def count(tr, pred):
    return sum(1 for e in tr if pred(e))


def describe(ks):
    return " ".join(ks)


def containers(prog, rep, m, a, e, n):
    nseq = 0
    # ---- objects
    for body in seqs(("Newline", "Comma", "Comment", "DocComment", "e1", "e2", "e3", "e9"), n):
        for end in ("ObjectEnd", "Eof"):
            ls = [lx("ObjectStart", 0)]
            for i, k in enumerate(body):
                if k[0] == "e":
                    ls.append(lx("Scalar", 10 * i + 10, int(k[1])))
                else:
                    ls.append(lx(k, 10 * i + 10))
            if end != "Eof":
                ls.append(lx(end, 1000))
            sizes = [int(k[1]) for k in body if k[0] == "e"]

            def coll(l):
                sp = l[3][0]
                k = sp[3][1][2] - sp[3][0][2]
                if k == 9:
                    return [[("Scalar", {"kind": scalar_kind(prog, "Heredoc")}), ("Unit", {})]]
                return [[("Unit", {})] * k]

            pend = False
            for k in body:
                if k == "DocComment":
                    pend = True
                elif k[0] == "e":
                    pend = False
            word = "{ " + " ".join(body) + (" }" if end != "Eof" else " <end>")
            got = 0
            for I, p, cut, left in parse_then_emit(m, a, e, ls, coll):
                got += 1
                tr = p.st.trace()
                er = errors(I, p)
                hits = count(tr, lambda x: x[0] == "look" and x[1] is True)
                looks = count(tr, lambda x: x[0] == "look")
                ins = count(tr, lambda x: x[0] == "ins")
                want = {"UnclosedObject": int(end == "Eof"), "TooManyAtoms": sum(1 for s in sizes if s == 3), "DuplicateKey": hits}
                have = {k: er.count(k) for k in set(er) | set(want)}
                dang = have.pop("DanglingDocComment", 0)
                inv = have.pop("InvalidKey", 0)
                nv = count(tr[cut:], lambda x: x[0] == "rec" and x[1].id in m.value)
                nk = count(tr[cut:], lambda x: x[0] == "rec" and x[1].id in m.key)
                ne = count(tr[cut:], lambda x: x[0] == "ev" and x[1] == "EntryStart")
                okk = have == want and (dang > 0) == pend and inv == sizes.count(9) and looks == len(sizes) and ins == looks - hits and nk == len(sizes) == ne and nv == len(sizes) and not left
                rep.check(
                    okk,
                    "containers",
                    f"object:{'Eof' if end == 'Eof' else 'closed'}:{','.join(sorted(set(er))) or 'none'}:{looks - len(sizes)}:{nk - len(sizes)}:{nv - len(sizes)}",
                    f"for {word} the parser reports [{' '.join(er)}], looks up {looks} key(s) ({hits} seen before, {ins} remembered), emits {ne} entries, {nk} keys and {nv} values",
                    e.loc(),
                )
            rep.check(got > 0, "containers", f"object:{word}", f"no outcome for {word}", a.loc())
            nseq += 1
    # ---- sequences
    for body in seqs(("Newline", "Comma", "Comment", "Scalar", "ObjectStart", "ObjectEnd"), n):
        for end in ("SeqEnd", "Eof"):
            ls = [lx("SeqStart", 0)] + [lx(k, 10 * i + 10) for i, k in enumerate(body)] + ([lx(end, 1000)] if end != "Eof" else [])
            elems = sum(1 for k in body if k in ("Scalar", "ObjectStart", "ObjectEnd"))
            word = "( " + " ".join(body) + (" )" if end != "Eof" else " <end>")
            got = 0
            for I, p, cut, left in parse_then_emit(m, a, e, ls, None):
                got += 1
                er = errors(I, p)
                tr = p.st.trace()
                nv = count(tr[cut:], lambda x: x[0] == "rec" and x[1].id in m.value)
                want = {"UnclosedSequence": int(end == "Eof"), "CommaInSequence": body.count("Comma")}
                have = {k: er.count(k) for k in set(er) | set(want)}
                rep.check(
                    have == want and nv == elems and not left,
                    "containers",
                    f"sequence:{'Eof' if end == 'Eof' else 'closed'}:{','.join(sorted(set(er))) or 'none'}:{nv - elems}",
                    f"for {word} the parser reports [{' '.join(er)}] and emits {nv} values",
                    e.loc(),
                )
            rep.check(got > 0, "containers", f"sequence:{word}", f"no outcome for {word}", a.loc())
            nseq += 1
    # ---- attributes
    for k in range(1, n + 2):
        for end in ("Newline", "Eof", "ObjectEnd", "Scalar"):
            ls = []
            for i in range(k):
                ls += [lx("AttrKey", 20 * i), lx("Scalar", 20 * i + 5)]
            ls += [lx(end, 1000)] if end != "Eof" else []
            got = 0
            for I, p, cut, left in parse_then_emit(m, a, e, ls, None):
                got += 1
                er = errors(I, p)
                tr = p.st.trace()
                hits = count(tr, lambda x: x[0] == "look" and x[1] is True)
                looks = count(tr, lambda x: x[0] == "look")
                ins = count(tr, lambda x: x[0] == "ins")
                nv = count(tr[cut:], lambda x: x[0] == "rec" and x[1].id in m.value)
                okk = sorted(er) == ["DuplicateKey"] * hits and looks == k and ins == looks - hits and nv == k and len(left) == 1 and left[0][2] == end
                rep.check(
                    okk,
                    "containers",
                    f"attributes:{','.join(sorted(set(er))) or 'none'}:{looks - k}:{nv - k}:{len(left)}",
                    f"for {k} attribute(s) followed by {end} the parser reports [{' '.join(er)}], looks up {looks} key(s) ({hits} seen before, {ins} remembered), emits {nv} values and leaves {len(left)} lexeme(s)",
                    e.loc(),
                )
            rep.check(got > 0, "containers", f"attributes:{k}:{end}", f"no outcome for {k} attributes before {end}", a.loc())
            nseq += 1
    rep.count("lexeme sequences", nseq)


def strv(s):
    return lit(s)


def kindv(I, v):
    adt = next(p for p in I.prog.adts if p.endswith("events::ScalarKind"))
    return ("agg", adt, v, ())


def atoms(prog, rep, m, a, e):
    iskey = e.id in m.key
    bare = lambda I, st: kindv(I, "Bare")
    cases = []
    for k in ("ObjectEnd", "SeqEnd", "Comma", "Newline", "Comment", "DocComment", "Eof", "Error"):
        cases.append((k, [lx(k)], "error"))
    for k in ("Bare", "Quoted", "Raw", "Heredoc"):
        cases.append((f"{k} scalar", [lx("Scalar", kind=lambda I, st, k=k: kindv(I, k))], "none"))
    cases.append(("unit", [lx("Unit", 0), lx("Newline", 1)], "none"))
    cases.append(("unit, space, bare scalar", [lx("Unit", 0), lx("Scalar", 2, kind=bare)], "none"))
    cases.append(("unit touching a bare scalar", [lx("Unit", 0), lx("Scalar", 1, kind=bare)], ["InvalidTagName"]))
    nm = lambda s: (lambda I, st: strv(s))
    cases.append(("tag", [lx("Tag", 0, 2, name=nm("t"), has_payload=C(0, "bool")), lx("Newline", 2)], "none"))
    cases.append(("tag, space, bare scalar", [lx("Tag", 0, 2, name=nm("t"), has_payload=C(0, "bool")), lx("Scalar", 3, kind=bare, value=nm(".x"))], "none"))
    cases.append(("tag touching a dot", [lx("Tag", 0, 2, name=nm("t"), has_payload=C(0, "bool")), lx("Scalar", 2, kind=bare, value=nm(".x"))], ["InvalidTagName"]))
    cases.append(("tag with payload", [lx("Tag", 0, 2, name=nm("t"), has_payload=C(1, "bool")), lx("Scalar", 2)], "payload"))
    cases.append(("tag chain", [lx("Tag", 0, 5, name=nm("a/@b"), has_payload=C(0, "bool")), lx("Newline", 5)], "none"))
    cases.append(("tag chain with payload", [lx("Tag", 0, 5, name=nm("a/@b"), has_payload=C(0, "bool")), lx("ObjectStart", 5)], "payload"))
    cases.append(("tag chain, space, object", [lx("Tag", 0, 5, name=nm("a/@b"), has_payload=C(0, "bool")), lx("ObjectStart", 6)], "left"))
    for name, ls, want in cases:
        got = 0
        for I, p, cut, left in parse_then_emit(m, a, e, ls, None):
            got += 1
            if want in ("none", "left"):
                rep.check(len(left) == len(ls) - 1, "atoms", f"{e.name}:{name}:left", f"for {name} {a.path} leaves {len(left)} lexeme(s) of {len(ls)}", a.loc())
            er = errors(I, p)
            tr = p.st.trace()[cut:]
            nv = count(tr, lambda x: x[0] == "rec" and x[1].id in m.emit)
            if want == "error":
                esc = any(show(t).find("escape") >= 0 and d.single() == 1 for t, d in p.st.facts.items())
                okk = bool(er) or esc
            elif want in ("none", "left"):
                okk = not er or iskey and name == "Heredoc scalar" and er == ["InvalidKey"] or iskey and "chain" in name
            elif want == "payload":
                okk = not er and nv >= 1 or iskey
            else:
                okk = er == want
            rep.check(okk, "atoms", f"{e.name}:{name}", f"for {name} {e.path} reports [{' '.join(er)}]" + (f" and emits {nv} values" if want == "payload" else ""), e.loc())
        rep.check(got > 0, "atoms", f"{e.name}:{name}:none", f"no outcome for {name}", a.loc())


def keys(prog, rep, m, f):
    cadt = prog.adts[ATOM + "Content"]
    for v in cadt["variants"]:
        I = Lx(m, f.id)
        st = State()
        x = I.mk(st, (v["name"], {}))
        for p in I.run(f, [("sym", "arg", "self"), I.ref(st, x)], st):
            if p.kind != "ret":
                continue
            er = errors(I, p)
            ks = count(p.st.trace(), lambda y: y[0] == "ev" and y[1] == "Key")
            if v["name"] in ("Object", "Sequence", "Attributes"):
                okk = "InvalidKey" in er and ks == 0
            elif v["name"] == "Error":
                okk = bool(er) and ks == 0
            elif v["name"] == "InvalidEscapeScalar":
                okk = ks == 1
            elif v["name"] == "Tag":
                okk = ks == 1 and "InvalidKey" not in er or ks == 0 and "InvalidKey" in er
                inv = next((d.single() for t, d in p.st.facts.items() if I.tyof.get(t) == "bool"), None)
                if inv is not None:
                    okk = okk and ("InvalidTagName" in er) == bool(inv)
            else:
                okk = ks == 1 and set(er) <= {"InvalidKey"}
            rep.check(okk, "keys", f"{f.path}:{v['name']}", f"{f.path} turns a key of kind {v['name']} into {ks} key event(s) and reports [{' '.join(er)}]", f.loc())


def collect(prog, rep, m, f):
    seen = 0
    for first in ("Bare", "Quoted", "Raw", "Heredoc", "ObjectStart", "Unit"):
        for second in ("ObjectStart", "SeqStart", "Scalar", "Newline", "Comma", "ObjectEnd", "SeqEnd", "Eof", "Comment", "Tag"):
            for gap in (0, 1):
                for third in ("ObjectStart", "Newline"):
                    I = Lx(m, f.id)
                    st = State()
                    base = I.atomf = None
                    content = ("agg", ATOM + "Content", "Scalar", (I.fresh(st, "value", "?"), kindv(I, first))) if first not in ("ObjectStart", "Unit") else ("agg", ATOM + "Content", "Unit", ()) if first == "Unit" else I.mk(st, ("Object", {}))[3][1]
                    L1 = I.lexeme(st, "Scalar" if first not in ("ObjectStart", "Unit") else first, 0, 3)
                    fa = ("agg", ATOM, None, (I.span(st, 0, 3), content))
                    sec = [I.lexeme(st, second, 3 + gap, 1)] if second != "Eof" else []
                    st.ext["lex"] = tuple(sec + ([I.lexeme(st, third, 4 + gap, 1)] if sec and third != "Newline" else []) + ([I.lexeme(st, "Newline", 30)] if sec else []))
                    o = I.atom

                    def atom(s, lxm, content=None, o=o, fa=fa):
                        if lxm is not None and lxm[0] == "agg" and lxm[3] and lxm[3][0] == ("agg", SPAN, None, (C(0, "u32"), C(3, "u32"))):
                            return fa
                        return o(s, lxm, content)

                    I.atom = atom
                    args = [("sym", "arg", "self"), L1]
                    blocky = second in ("ObjectStart", "SeqStart")
                    ends = second in ("Newline", "Comma", "ObjectEnd", "SeqEnd", "Eof")
                    nat = 1 + (0 if ends or second == "Comment" else 1 + (third == "ObjectStart"))
                    for p in I.run(f, args, st):
                        if p.kind != "ret":
                            continue
                        seen += 1
                        er = errors(I, p)
                        want = ["MissingWhitespaceBeforeBlock"] if blocky and gap == 0 and first == "Bare" else []
                        r = I.deref(p.st, p.ret)
                        num = len(r[1]) if r[0] == "chs" else None
                        left = p.st.ext.get("lex", ())
                        kept = not ends or second == "Eof" or bool(left) and left[0][2] == second
                        rep.check(
                            er == want and num == nat and kept,
                            "collect",
                            f"{first}:{second}:{gap}:{third}",
                            f"for {first} {'followed by' if gap else 'touching'} {second} the parser reports [{' '.join(er)}], gathers {num} atom(s) (expected {nat})" + ("" if kept else f" and swallows {second}"),
                            f.loc(),
                        )
    rep.floor("collect", "outcomes of gathering an entry", seen, 50)


def machine(prog, rep, m, n):
    owner = "styx_parse::parser::Parser"
    fields = prog.adts[owner]["variants"][0]["fields"]
    sidx = [k for k, fl in enumerate(fields) if (x := prog.adts.get(strip_generics(fl[1]))) and x["kind"] == "enum"]
    sidx = sidx[0]
    sty = strip_generics(fields[sidx][1])
    drv = [f for f in prog.fns.values() if f.pub and not f.is_closure and strip_generics(f.path).startswith(owner + "::") and f.argc == 1 and "Option<" in f.locals[0] and "Event" in f.locals[0] and f.locals[1].startswith("&mut")]
    variants = {v["name"]: v["fields"] for v in prog.adts[sty]["variants"]}
    for f in drv:
        for sname, sf in variants.items():
            docs = [nm for nm, ty in sf if strip_generics(ty) == "core::option::Option" and SPAN in ty]
            flags = [nm for nm, ty in sf if ty == "bool"]
            for pend in (False, True) if docs else (False,):
                for fl in (0, 1) if flags else (0,):
                    state_cases(prog, rep, m, f, owner, fields, sidx, sty, sname, sf, pend, fl)


def drive(prog, m, f, owner, fields, sidx, sty, sname, sf, pend, fl, lexs, coll):
    I = Lx(m, f.id, coll)
    base = I.on_call

    def hook(J, st, c, args, site):
        if "VecDeque" in c.full and "Event" in c.full and c.name == "pop_front" and not st.ext.get("first"):
            st.ext["first"] = True
            return [(st, NONE)]
        return base(J, st, c, args, site)

    I.on_call = hook
    st = State()
    vals = []
    for nm, ty in sf:
        if strip_generics(ty) == "core::option::Option" and SPAN in ty:
            vals.append(some(I.fresh(st, nm, SPAN)) if pend else NONE)
        elif ty == "bool":
            vals.append(C(fl, "bool"))
        elif sty in ty:
            vals.append(("agg", "alloc::boxed::Box", None, (("agg", sty, "AfterDocument", ()),)) if "Box" in ty else ("agg", sty, "AfterDocument", ()))
        else:
            vals.append(I.fresh(st, nm, ty))
    SELF = ("top", 0, 0)
    out = []
    for k, fd in enumerate(fields):
        out.append(("agg", sty, sname, tuple(vals)) if k == sidx else I.fresh(st, fd[0], fd[1]))
    st.env[(SELF, 0)] = ("agg", owner, None, tuple(out))
    st.ext["lex"] = tuple(mk(I, st) for mk in lexs)
    for p in I.run(f, [("ref", ("L", SELF, 0, ()))], st):
        if p.kind != "ret":
            continue
        r = I.deref(p.st, p.ret)
        er = errors(I, p)
        if r[0] == "agg" and r[2] == "Some":
            ev = I.deref(p.st, r[3][0])
            k = next((I.deref(p.st, x) for x in ev[3] if I.deref(p.st, x)[0] == "agg" and last(I.deref(p.st, x)[1]) == "EventKind"), None) if ev[0] == "agg" else None
            if k and k[2] == "Error":
                er = [pevents.errkind(I, p.st, k[3])] + er
        v = I.deref(p.st, p.st.env[(SELF, 0)])
        s1 = I.deref(p.st, I.fld(v, sidx, fields[sidx][0]))
        yield I, p, er, s1


KEYS = ("bare", "quoted", "heredoc", "unit", "dotted", "empty segment", "object")


def key_atom(kind):
    def one(I, z):
        pass

    return kind


def state_cases(prog, rep, m, f, owner, fields, sidx, sty, sname, sf, pend, fl):
    def go(lexs, coll=None):
        return drive(prog, m, f, owner, fields, sidx, sty, sname, sf, pend, fl, lexs, coll)

    where = f"state {sname}" + (" with a pending doc comment" if pend else "")
    if sname.startswith("Before"):
        return
    if sname.startswith("After"):
        for k in ("Scalar", "ObjectStart", "ObjectEnd", "Comma", "DocComment", "Error", "Unit", "SeqEnd", "Tag", "AttrKey"):
            for pre in ([], ["Newline"], ["Comment"]):
                for I, p, er, s1 in go([lx(q, 0) for q in pre] + [lx(k, 5), lx("Scalar", 9)]):
                    rep.check(er == ["TrailingContent"], "states", f"{sname}:{k}", f"in {where} the lexeme {k} reports [{' '.join(er)}]", f.loc())
        for pre in ([], ["Newline"], ["Comment"], ["Newline", "Comment"]):
            for I, p, er, s1 in go([lx(q, 0) for q in pre]):
                rep.check(er == [], "states", f"{sname}:end", f"in {where} the end of input reports [{' '.join(er)}]", f.loc())
        return
    inobj = any("Box" in ty for _, ty in sf)
    for pre in ([], ["Newline"], ["Comma"]):
        # ---- ends
        for end in ("Eof", "ObjectEnd") if inobj else ("Eof",):
            for I, p, er, s1 in go([lx(q, 0) for q in pre] + ([lx(end, 9)] if end != "Eof" else [])):
                want = ["DanglingDocComment"] * pend + ["UnclosedObject"] * (end == "Eof" and inobj)
                rep.check(sorted(er) == sorted(want), "states", f"{sname}:{end}:{pend}", f"in {where} {end} reports [{' '.join(er)}], expected [{' '.join(want)}]", f.loc())
        # ---- doc comments are remembered, entries clear them
        for I, p, er, s1 in go([lx(q, 0) for q in pre] + [lx("DocComment", 9)]):
            d = pending(I, p, s1, sf)
            rep.check(er == [] and d == "Some", "states", f"{sname}:doc", f"in {where} a doc comment is {'not remembered' if d != 'Some' else 'reported as ' + ' '.join(er)}", f.loc())
        for k in ("Scalar", "Unit", "Tag", "Error", "SeqEnd", "AttrKey", "SeqStart"):
            for I, p, er, s1 in go([lx(q, 0) for q in pre] + [lx(k, 9)], lambda l: [[("Unit", {})]]):
                d = pending(I, p, s1, sf)
                took = count(p.st.trace(), lambda x: x[0] == "entry") == 1
                rep.check(took and d != "Some", "states", f"{sname}:entry:{k}", f"in {where} the lexeme {k} " + ("starts no entry" if not took else "leaves the doc comment pending"), f.loc())
    # ---- entries
    kinds_of_value(prog, rep, m, f, go, where, sname)
    for f2, key, size in entry_shapes(prog):
        coll_specs = {}
        I0 = None

        def coll(l):
            return [f2 + [("Unit", {})] * (size - 1)]

        class Spec:
            pass

        for I, p, er, s1 in go([lx("Scalar", 5)], coll):
            tr = p.st.trace()
            looks = count(tr, lambda x: x[0] == "look")
            hits = count(tr, lambda x: x[0] == "look" and x[1])
            path = [x[1] for x in tr if x[0] == "path"]
            nk = count(tr, lambda x: x[0] == "rec" and x[1].id in m.key) + count(tr, lambda x: x[0] == "ev" and x[1] == "Key")
            nv = count(tr, lambda x: x[0] == "rec" and x[1].id in m.value)
            want = ["TooManyAtoms"] * (size > 2) + ["InvalidKey"] * (key == "heredoc")
            if key == "empty segment":
                rep.check(set(er) == {"InvalidKey"} and nk == 0, "entries", f"{sname}:{key}", f"in {where} a key with an empty path segment reports [{' '.join(er)}]", f.loc())
                continue
            have = [x for x in er if x not in ("DuplicateKey", "ReopenedPath", "NestIntoTerminal")]
            rep.check(sorted(have) == sorted(want), "entries", f"{sname}:{key}:{size}", f"in {where} an entry of {size} atom(s) with a {key} key reports [{' '.join(er)}]", f.loc())
            rep.check(nv == (size >= 2) and nk == (2 if key == "dotted" else 1), "entries", f"{sname}:{key}:{size}:emitted", f"in {where} an entry of {size} atom(s) with a {key} key emits {nk} key(s) and {nv} value(s)", f.loc())
            perr = [x for x in er if x in ("DuplicateKey", "ReopenedPath", "NestIntoTerminal")]
            if inobj:
                tracked = looks == 1 or len(path) == 1
                rep.check(tracked, "entries", f"{sname}:{key}:tracked", f"in {where} a {key} key is not compared with earlier keys", f.loc())
                if looks == 1:
                    rep.check(perr == ["DuplicateKey"] * hits, "entries", f"{sname}:{key}:dup", f"in {where} a {key} key that was {'seen' if hits else 'not seen'} before reports [{' '.join(perr)}]", f.loc())
            else:
                rep.check(len(path) == 1, "entries", f"{sname}:{key}:tracked", f"in {where} a {key} key is compared with earlier paths {len(path)} times", f.loc())
                if len(path) == 1:
                    okk = perr == [] if path[0] == "Ok" else len(perr) == 1 and similar(path[0], perr[0])
                    rep.check(okk, "entries", f"{sname}:{key}:{path[0]}", f"in {where} the verdict {path[0]} on a {key} key is reported as [{' '.join(perr)}]", f.loc())


def kinds_of_value(prog, rep, m, f, go, where, sname):
    """The tracker is told 'object' exactly for values that can be entered by a longer path."""
    sc = lambda s: ("Scalar", {"kind": scalar_kind(prog, "Bare"), "value": lit(s)})
    shapes = {"none": [], "scalar": [sc("v")], "unit": [("Unit", {})], "sequence": [("Sequence", {})], "object": [("Object", {})], "attributes": [("Attributes", {})], "object and more": [("Object", {}), sc("v")]}
    for key in ("ab", "a.b"):
        got = {}
        for nm, rest in shapes.items():
            for I, p, er, s1 in go([lx("Scalar", 5)], lambda l: [[sc(key)] + rest]):
                for x in p.st.trace():
                    if x[0] == "path":
                        got.setdefault(nm, set()).add(x[2])
        for nm in shapes:
            obj = nm.startswith("object") or nm == "attributes"
            rep.check(len(got.get(nm, ())) <= 1 and ("?" in got.get(nm, ()) or got.get(nm) == got.get("object" if obj else "scalar")), "entries", f"{sname}:kind:{nm}", f"in {where} the value of the key {key} is treated as {got.get(nm)} when it is {nm}", f.loc())
        if got:
            rep.check("?" in got.get("object", ()) or got.get("object") != got.get("scalar"), "entries", f"{sname}:kind", f"in {where} objects and scalars are treated alike as values of {key}", f.loc())


def similar(a, b):
    return a.lower() in b.lower() or b.lower() in a.lower()


def pending(I, p, s1, sf):
    if s1[0] != "agg":
        return "?"
    for (nm, ty), x in zip(sf, s1[3]):
        if strip_generics(ty) == "core::option::Option" and SPAN in ty:
            x = I.deref(p.st, x)
            return x[2] if x[0] == "agg" else "?"
    return "?"


def entry_shapes(prog):
    adt = next(p for p in prog.adts if p.endswith("events::ScalarKind"))
    k = lambda v: ("agg", adt, v, ())
    sc = lambda v, s: ("Scalar", {"kind": k(v), "value": lit(s)})
    for size in (1, 2, 3):
        yield [sc("Bare", "ab")], "bare", size
        yield [sc("Bare", "a.b")], "dotted", size
        yield [sc("Quoted", "a.b")], "quoted", size
        yield [sc("Raw", "a.b")], "raw", size
        yield [sc("Heredoc", "a")], "heredoc", size
        yield [("Unit", {})], "unit", size
        for s in ("a..b", ".a", "a.", "."):
            yield [sc("Bare", s)], "empty segment", size


# ------------------------------------------------------------ the path tracker
def paths(prog, rep, m, exact):
    """In the tracker: what is popped from the open segments goes into a map of closed ones; what is pushed was looked up."""
    trackers = [f for f in prog.fns.values() if f.crate == "styx_parse" and not f.is_closure and f.id not in m.P and f.argc >= 2 and f.locals[0].startswith("core::result::Result<(), styx_parse") and f.locals[1].startswith("&mut")]
    rep.floor("paths", "path trackers", len(trackers), 1)
    for f in trackers:
        if f.id in exact:
            continue
        from ..absstr import AbsStr

        class T(AbsStr):
            def __init__(self, prog):
                super().__init__(prog, depth=3, unroll=1, max_paths=60000)
                self.on_call = self.hook

            def factkey(self, st):
                return ()

            def hook(self, I, st, c, args, site):
                n = c.name
                if "Vec" in c.full and "Segment" in c.full and n == "push":
                    st.note(("push", site))
                    return [(st, UNIT)]
                if "Vec" in c.full and "Segment" in c.full and n == "pop":
                    st.nid += 1
                    seg = ("sym", st.nid, "segment")
                    st.note(("pop", seg))
                    return [(st, some(seg))]
                if "Vec" in c.full and "Segment" in c.full and n in ("truncate", "clear", "drain", "split_off"):
                    st.note(("lost", n))
                    return [(st, st.fresh("drained"))]
                if "Map" in c.full and n in ("get", "contains_key", "get_key_value"):
                    a, b = st, st.copy()
                    a.note(("look", True))
                    b.note(("look", False))
                    if n == "contains_key":
                        return [(a, C(1, "bool")), (b, C(0, "bool"))]
                    a.nid += 1
                    return [(a, some(("sym", a.nid, "orig"))), (b, NONE)]
                if "Map" in c.full and n == "insert":
                    k = self.deref(st, args[1])
                    st.note(("ins", k))
                    return [(st, NONE)]
                if "Map" in c.full and n in ("remove", "clear", "retain", "drain"):
                    st.note(("lost", n))
                    return [(st, st.fresh("removed"))]
                return None

        I = T(prog)
        ps = I.run(f)
        seen = set()
        for p in ps:
            tr = [e for e in p.st.trace() if e[0] in ("push", "pop", "look", "ins", "lost")]
            open_ = []
            looked = None
            err_ = I.deref(p.st, p.ret) if p.kind == "ret" and p.ret is not None else None
            for e in tr:
                if e[0] == "look":
                    looked = e[1]
                elif e[0] == "pop":
                    open_.append(e[1])
                elif e[0] == "ins":
                    open_ = [s for s in open_ if not within(e[1], s)]
                elif e[0] == "push":
                    seen.add("push")
                    rep.check(looked is False, "paths", f"{f.path}:push", f"{f.path} enters a path segment that was not found to be new", p08.loc_of(f, e[1]) if hasattr(p08, "loc_of") else f.loc())
                    looked = None
                elif e[0] == "lost":
                    rep.bad("paths", f"{f.path}:{e[1]}", f"{f.path} forgets path segments ({e[1]})", f.loc())
            if any(e[0] == "pop" for e in tr):
                seen.add("pop")
                if p.kind in ("ret", "back"):
                    rep.check(not open_, "paths", f"{f.path}:pop", f"{f.path} leaves a path segment without remembering it as closed", f.loc())
            if tr and tr[-1][0] == "look" and tr[-1][1] and p.kind == "ret":
                seen.add("found")
                rep.check(err_ is not None and err_[0] == "agg" and err_[2] == "Err", "paths", f"{f.path}:found", f"{f.path} accepts a path segment that was closed before", f.loc())
        for k in ("push", "pop", "found"):
            rep.check(k in seen, "paths", f"{f.path}:{k}:none", f"{f.path} has no path where a segment is {k}", f.loc())


def tracker(prog, rep, m, tier):
    """Every state of the tracker with up to two open segments and every path of up to three keys: verdict and next state."""
    from ..absvec import Vecs

    done = set()
    for f in prog.fns.values():
        if not (f.crate == "styx_parse" and not f.is_closure and f.id not in m.P and f.argc == 4 and f.locals[0].startswith("core::result::Result<(), styx_parse") and f.locals[1].startswith("&mut")):
            continue
        own = strip_generics(f.locals[1][5:])
        adt = prog.adts.get(own)
        if not adt:
            continue
        flds = adt["variants"][0]["fields"]
        vi = next((k for k, fl in enumerate(flds) if fl[1].startswith("alloc::vec::Vec<styx_parse")), None)
        mi = next((k for k, fl in enumerate(flds) if "Map<alloc::string::String" in fl[1]), None)
        if vi is None or mi is None or len(flds) != 2:
            continue
        seg = strip_generics(flds[vi][1][len("alloc::vec::Vec<") : -1])
        sf = prog.adts[seg]["variants"][0]["fields"]
        kinds = strip_generics(f.locals[4])
        role = {}
        for k, (nm, ty) in enumerate(sf):
            role["key" if ty == "alloc::string::String" else "span" if strip_generics(ty) == SPAN else "kind" if strip_generics(ty) == kinds else "closed" if "Map<" in ty else nm] = k
        if set(role) != {"key", "span", "kind", "closed"} or not f.locals[2].startswith("&[alloc::string::String"):
            rep.note(f"the path tracker {f.path} has an unfamiliar state; only the general rule is applied to it")
            continue
        kv = {v["name"]: ("agg", kinds, v["name"], ()) for v in prog.adts[kinds]["variants"]}
        OBJ, TERM = kv.get("Object"), kv.get("Terminal")
        if OBJ is None or TERM is None:
            continue
        done.add(f.id)
        opens = [()]
        for k1 in (OBJ, TERM):
            opens.append((("a", k1),))
        for x in ("a", "b"):
            for k2 in (OBJ, TERM):
                opens.append((("a", OBJ), (x, k2)))
        plist = [p for n in (1, 2, 3) for p in itertools.product("abc", repeat=n)]
        for op in opens:
            for rootc in ((), ("b",), ("c",), ("b", "c")):
                for lastc in ((), ("b",), ("c",)) if op and op[-1][1] == OBJ else ((),):
                    for firstc in ((), ("c",)) if len(op) == 2 else ((),):
                        clos = [firstc, lastc] if len(op) == 2 else [lastc] if op else []
                        for path in plist:
                            for kind in (OBJ, TERM):
                                one_track(prog, rep, f, Vecs, own, flds, vi, mi, seg, sf, role, op, rootc, clos, path, kind, TERM, OBJ)
    rep.count("path trackers examined state by state", len(done))
    return done


def one_track(prog, rep, f, Vecs, own, flds, vi, mi, seg, sf, role, op, rootc, clos, path, kind, TERM, OBJ):
    I = Vecs(prog, depth=3, unroll=12, max_paths=500)
    st = State()
    sp = ("agg", SPAN, None, (C(1, "u32"), C(2, "u32")))

    def mkmap(keys):
        return ("map", tuple((lit(k), sp) for k in keys))

    def mkseg(k, kd, cl):
        r = [None] * 4
        r[role["key"]], r[role["span"]], r[role["kind"]], r[role["closed"]] = lit(k), sp, kd, mkmap(cl)
        return ("agg", seg, None, tuple(r))

    segs = ("vec", tuple(mkseg(k, kd, cl) for (k, kd), cl in zip(op, clos)))
    fl = [None, None]
    fl[vi], fl[mi] = segs, mkmap(rootc)
    SELF = ("top", 0, 0)
    st.env[(SELF, 0)] = ("agg", own, None, tuple(fl))
    pv = I.ref(st, ("vec", tuple(lit(x) for x in path)))
    # ---- what the format says
    c = 0
    while c < min(len(op), len(path)) and op[c][0] == path[c]:
        c += 1
    closed = [set(rootc)] + [set(x) for x in clos]
    for i in range(c, len(op)):
        closed[i].add(op[i][0])
    if c == len(path):
        want = "Duplicate"
    elif c and op[c - 1][1] == TERM:
        want = "NestIntoTerminal"
    elif path[c] in closed[c]:
        want = "Duplicate" if c == len(path) - 1 else "Reopened"
    else:
        want = "Ok"
    word = f"path {'.'.join(path)} after open path '{'.'.join(k + ('' if x == OBJ else '=') for k, x in op)}'" + "".join(f", closed under '{'.'.join(k for k, _ in op[:i])}': {' '.join(sorted(x))}" for i, x in enumerate([rootc] + clos) if x)
    got = 0
    for p in I.run(f, [("ref", ("L", SELF, 0, ())), pv, sp, kind], st):
        if p.kind != "ret":
            rep.bad("paths", f"{f.path}:stuck", f"{f.path} does not return for {word}", f.loc())
            continue
        got += 1
        r = I.deref(p.st, p.ret)
        v = "?"
        if r[0] == "agg":
            v = "Ok" if r[2] == "Ok" else I.deref(p.st, r[3][0])
            v = v if isinstance(v, str) else v[2] if v[0] == "agg" else "?"
        if v == "?":
            rep.note(f"the verdict of {f.path} is not tracked exactly")
            continue
        same = v == want or {v, want} <= {"Duplicate", "Reopened"} and c < len(path)
        rep.check(same, "paths", f"{f.path}:{want}:{v}", f"{f.path} answers {v} instead of {want} for {word}", f.loc())
        if v == "Ok" == want:
            s = I.deref(p.st, p.st.env[(SELF, 0)])
            vs, ms = I.deref(p.st, s[3][vi]), I.deref(p.st, s[3][mi])
            if vs[0] != "vec" or ms[0] != "map":
                rep.note(f"the state of {f.path} is not tracked exactly")
                continue
            have = []
            for x in vs[1]:
                x = I.deref(p.st, x)
                have.append((txt(I, p, x[3][role["key"]]), I.deref(p.st, x[3][role["kind"]])[2], keyset(I, p, x[3][role["closed"]])))
            exp = []
            for i, k in enumerate(path):
                kd = kind if i == len(path) - 1 else op[i][1] if i < c else OBJ
                exp.append((k, kd[2], frozenset(closed[i + 1]) if i < c else frozenset()))
            rep.check(have == exp and keyset(I, p, ms) == frozenset(closed[0]), "paths", f"{f.path}:state", f"{f.path} remembers the wrong open and closed keys after {word}", f.loc())
    rep.check(got > 0, "paths", f"{f.path}:none", f"{f.path} has no outcome for {word}", f.loc())


def txt(I, p, v):
    from ..absstr import text_of

    s = I.chs(p.st, I.deref(p.st, v))
    return text_of(s) if s is not None else None


def keyset(I, p, v):
    v = I.deref(p.st, v)
    return frozenset(txt(I, p, k) for k, _ in v[1]) if v[0] == "map" else None


def within(x, s):
    if x == s:
        return True
    return isinstance(x, tuple) and any(within(y, s) for y in x if isinstance(y, tuple))


# ------------------------------------------------------------ identity of keys
def identity(prog, rep, m):
    """The key value made from an atom keeps the text, the tag name and the payload."""
    mk = keyfns(prog)
    rep.floor("identity", "functions from atom to key", len(mk), 1)
    for f in mk:
        for var, need in (("Scalar", ("value",)), ("Tag", ("name", "payload")), ("Unit", ())):
            I = Lx(m, f.id)
            st = State()
            x = I.mk(st, (var, {}))
            outs = set()
            for p in I.run(f, [I.ref(st, x)], st):
                if p.kind != "ret":
                    continue
                r = I.deref(p.st, p.ret)
                txt = repr(r) + "".join(repr(t) for t in p.st.facts)
                miss = [n for n in need if f"'{n}')" not in txt]
                rep.check(not miss, "identity", f"{f.path}:{var}:{','.join(miss)}", f"{f.path} ignores the {' and '.join(miss)} of a {var.lower()} key", f.loc())
                kind = [n for n in ("kind",) if f"'{n}')" in txt]
                rep.check(var != "Scalar" or not kind, "identity", f"{f.path}:{var}:kind", f"{f.path} tells scalar keys apart by how they are quoted", f.loc())
