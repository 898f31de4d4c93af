"""P03: escaped strings decode to the characters that were escaped."""
from ..absint import C, State, TooBig, show
from ..absstr import AbsStr, text_of
from .. import escapes
from ..escapes import HEX, example, shape, show_items
from ..iset import CHAR, ISet
from ..mir import strip_generics
from ..outtext import OutText
from . import p02

META = {
    "packages": ["styx-format", "facet-styx", "serde_styx"],
    "crates": ["styx_tokenizer", "styx_parse", "styx_tree", "styx_cst", "styx_format", "facet_styx", "serde_styx"],
    "level": "other",
    "technique": "abstract interpretation of every escape encoder and decoder on string shapes with character classes",
    "level_note": "Characters are symbolic with exact class partitions, so every character of Unicode is covered at each position; strings are shapes of bounded length "
    "(one escape with an arbitrary character before and after it). Encoders and decoders are found by what they do.",
    "explanation": "Each routine that turns a line break into backslash-n (encoder) or the reverse (decoder) is found by abstract interpretation. The encoder is "
    "interpreted on two arbitrary characters; each output shape is then interpreted by every decoder, which must return the two characters. Each decoder is also "
    "interpreted on every defined escape form. Writers' paths are reconstructed to show that text between quotes went through an encoder, and readers' paths to show "
    "that the text of a quoted token goes through a decoder.",
    "assumptions": ["escape handling keeps no state from one escape to the next beyond its position (each routine reads characters in order)"],
}
CRATES = ("styx_parse", "styx_cst", "styx_format", "serde_styx", "facet_styx", "styx_tree")
SPEC = {"n": 10, "r": 13, "t": 9, "\\": 92, '"': 34}


def new(prog):
    return AbsStr(prog, depth=7, max_paths=200000)


def same_char(I, st, got, want):
    if got == want:
        return True
    if got[0] == "c":
        return want[0] == "c" and want[2] == got[2] or I.dom(st, want).single() == got[2]
    if want[0] == "c":
        return I.dom(st, got).single() == want[2]
    return False


def same_text(I, st, got, want):
    return len(got) == len(want) and all(same_char(I, st, g, w) for g, w in zip(got, want))


def run(prog, rep, tier):
    rep.rule("encode", "what an encoder puts between quotes contains no raw quote, backslash-less line break, and decodes to the encoded characters with every decoder")
    rep.rule("decode", "every decoder maps each defined escape form to its character, and every other character to itself")
    rep.rule("quoted", "caller text between quotes went through an encoder")
    rep.rule("applied", "a reader that uses the text of a quoted token passes it through a decoder")
    enc, dec = escapes.find(prog, CRATES)
    rep.floor("encode", "escape encoders found", len(enc), 1)
    rep.floor("decode", "crates with an escape decoder", len({d.f.crate for d in dec if not d.f.is_closure}), 4)
    rep.counts["decoders"] = [d.f.path for d in dec]
    rep.counts["encoders"] = [d.f.path for d in enc]
    for e in enc:
        encoder(prog, rep, e, dec)
    for d in dec:
        decoder(prog, rep, d)
    quoted(prog, rep, {d.f.id for d in enc})
    applied(prog, rep, {d.f.id for d in dec})


def encoder(prog, rep, e, dec):
    I = new(prog)
    st = State()
    src = shape(I, st, CHAR, CHAR, tag="c")
    n = 0
    for s, k, out in e.run(I, st, src):
        if k != "text":
            rep.bad("encode", f"{e.f.path}:undecided", f"{e.f.path} may {k} on {example(I, s, src)!r}", e.f.loc())
            continue
        for z, items in I.expand(s, out):
            n += 1
            # nothing that ends the quoted token or its line
            esc = False
            for x in items:
                d = ISet.of(x[2]) if x[0] == "c" else I.dom(z, x)
                if esc:
                    esc = False
                    continue
                if d.single() == 92:
                    esc = True
                    continue
                if d & ISet.of(34, 92, 10, 13):
                    rep.bad("encode", f"{e.f.path}:raw", f"{e.f.path} leaves {(d & ISet.of(34, 92, 10, 13)).show()} unescaped (for {example(I, z, src)!r})", e.f.loc())
                    break
            for d in dec:
                J = I
                for y, kk, back in d.run(J, z, items):
                    if kk != "text" or not same_text(J, y, back, src):
                        cls = [J.dom(y, x).show() for x in src]
                        which = ", ".join(cls)
                        bad = "an error" if kk != "text" else repr(show_items(back))
                        rep.bad("encode", f"{e.f.path}:{d.f.path}:{len(items)}", f"{e.f.path} writes characters of {which} as {example(J, y, items)!r}, which {d.f.path} reads as {bad}", d.f.loc())
                    else:
                        rep.good("encode", f"{e.f.path} -> {d.f.path}")
    rep.count("encoder output shapes", n)


def decoder(prog, rep, d):
    I = new(prog)
    plain = CHAR - ISet.of(34, 92)
    hexv = lambda k: [HEX] * k
    forms = [("plain", [plain], None)]
    for x, c in SPEC.items():
        forms.append((f"\\{x}", ["\\" + x], c))
    forms.append(("\\uXXXX", ["\\u"] + hexv(4), "radix"))
    for k in range(1, 7):
        forms.append((f"\\u{{{'X' * k}}}", ["\\u{"] + hexv(k) + ["}"], "radix"))
    for name, body, want in forms:
        for pre in ([], [plain], ["\\n"]):
            for post in ([], [plain]):
                st = State()
                a = shape(I, st, *pre, tag="p")
                b = shape(I, st, *body, tag="b")
                z = shape(I, st, *post, tag="q")
                if name == "\\uXXXX" and post:
                    pass
                exp_a = (C(10, "char"),) if pre == ["\\n"] else a
                for s, k, out in d.run(I, st, a + b + z):
                    if want == "radix":
                        digs = tuple(x for x in b if x[0] != "c")
                        v = ("radix", 16, ("chs", digs))
                        dom = I.dom(s, v) if v in s.facts else None
                        if dom is not None and not dom & CHAR:
                            rep.good("decode", f"{d.f.path} {name}")  # not a character: P04's subject
                            continue
                        mid = (("fromu32", v),)
                    elif want is None:
                        mid = b
                    else:
                        mid = (C(want, "char"),)
                    okk = k == "text" and same_text(I, s, out, exp_a + mid + z)
                    if not okk and want == "radix" and k != "text":
                        # an error is right only where no character is meant; the value's class decides
                        okk = dom is not None and not dom & CHAR
                    rep.check(
                        okk,
                        "decode",
                        f"{d.f.path}:{name}",
                        f"{d.f.path} reads {example(I, s, a + b + z)!r} as {'an error' if k != 'text' else repr(show_items(out))}",
                        d.f.loc(),
                    )


class Quotes(OutText):
    pass


def quoted(prog, rep, encids):
    called = {t.id for g in prog.fns.values() for _, _, c in g.calls() for t in [prog.target(c)] if t is not None and p02.inline(prog, t) and t.id != g.id}
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if not any(m in f.id for m in p02.MODULES) or f.is_closure or "::tests::" in f.id or "Debug>::fmt" in f.path or not p02.relevant(prog, f):
            continue
        if not f.pub and f.id in called and f.argc > 0:
            continue
        I = OutText(prog, unroll=1, depth=5, inline=lambda t, c: p02.inline(prog, t), max_paths=60000)
        try:
            paths = I.run(f)
        except TooBig as e:
            rep.bad("quoted", f"{f.path}:size", str(e), f.loc())
            continue
        for p in paths:
            if p.kind != "ret":
                continue
            outs = [I.flat(p.st.trace())]
            if p.ret is not None and p.ret[0] == "cat":
                outs.append([(x[0], x[1], (f, 0, 0)) for x in p.ret[1]])
            for flat in outs:
                q = raw = False
                for k, v, site in flat:
                    if k == "lit":
                        if "<<" in v:
                            break
                        for i, ch in enumerate(v):
                            if ch == '"' and (i == 0 or v[i - 1] != "\\"):
                                q = not q
                                raw = q and i > 0 and v[i - 1] in "#r"
                        if not q and v.endswith(("r", "#")):
                            raw = True
                        elif not q:
                            raw = False
                        continue
                    if not q:
                        if v[0] == "repeat":
                            raw = True
                        continue
                    if raw or v[0] == "repeat":
                        continue
                    r = p02.root(v)
                    ty = (I.tyof.get(v) or "").replace("&", "").strip()
                    if r is None or ty in p02.NUM or r == "self" and v[0] != "call" and not p02.strish(ty or "x"):
                        continue
                    n += 1
                    okk = v[0] == "call" and is_enc(prog, v[1], encids)
                    rep.check(okk, "quoted", f"{f.path}", f"{f.path} writes {show(v)[:100]} between quotes without escaping it", p02.loc(site))
    rep.floor("quoted", "writer paths with text between quotes", n, 5)


def is_enc(prog, full, encids):
    n = strip_generics(full)
    for i in encids:
        f = prog.fns[i]
        if strip_generics(f.path) == n:
            return True
    return False


class Reader(AbsStr):
    pass


def mentions(t, pred, d=0):
    if not isinstance(t, tuple) or d > 14:
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(mentions(x, pred, d + 1) for x in t if isinstance(x, tuple))


def applied(prog, rep, decids):
    """Paths on which a token is known to be a quoted scalar."""
    kinds = {}
    for p, a in prog.adts.items():
        if a["kind"] == "enum" and ("TokenKind" in p or "SyntaxKind" in p):
            for v in a["variants"]:
                if v["name"].replace("_", "").lower() == "quotedscalar":
                    kinds[p] = v["discr"]
    rep.floor("applied", "token kind enumerations with a quoted scalar", len(kinds), 2)
    decpaths = {strip_generics(prog.fns[i].path) for i in decids}
    nsite = set()
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in ("styx_parse", "styx_cst", "serde_styx") or f.is_closure or "::tests" in f.id or "::parser::" in f.id and f.crate == "styx_cst":
            continue
        if not compares(prog, f, kinds):
            continue
        I = OutText(prog, unroll=1, depth=2, inline=lambda t, c: t.id not in decids and len(t.reach) <= 8 and not t.loops(), max_paths=20000, max_steps=60000)
        try:
            paths = I.run(f)
        except TooBig as e:
            rep.note(f"{f.path} is too large to follow: {e}")
            continue
        for p in paths:
            if p.kind not in ("ret",):
                continue
            toks = set()
            for t, d in p.st.facts.items():
                if t[0] == "disc" and hasattr(d, "single") and d.single() is not None:
                    ty = strip_generics((I.tyof.get(t[1]) or "").lstrip("&"))
                    for a, dv in kinds.items():
                        if (ty.endswith(a.rsplit("::", 1)[-1]) or ty == a) and d.single() == dv:
                            toks.add(t[1])
            if not toks:
                continue
            ret = p.ret
            uses = dec = False
            bases = {base_of(k) for k in toks}

            kinded = {base_of(t[1]) for t, d in p.st.facts.items() if t[0] == "disc" and t[1][0] == "fld" and t[1][2] == "kind" and all(not d & ISet.of(q) for q in kinds.values())}

            def istext(t):
                # a token of the same stream whose own kind was not looked at is the one that was peeked at
                return t[0] == "fld" and t[2] == "text" and (base_of(t) in bases or base_of(t) not in kinded and base_of(t)[0] == "call" and base_of(t)[1].rsplit("::", 1)[-1] == "next_token") or t[0] == "call" and t[1].rsplit("::", 1)[-1] == "text" and any(base_of(x) in bases or x in bases for x in t[2])

            for e in p.st.trace():
                if e[0] == "call":
                    c, args = e[1], e[2]
                    if any(mentions(a, istext) for a in args):
                        if c.rid in decids:
                            dec = True
                        elif (c.trait or "").endswith(("Visitor", "IntoDeserializer", "DeserializeSeed")) and "bytes" not in c.name and "byte_buf" not in c.name:
                            uses = True
            if ret is not None and mentions(ret, istext):
                uses = True
            if uses or dec:
                nsite.add(f.path)
                rep.check(dec, "applied", f.path, f"{f.path} uses the text of a quoted token without decoding its escapes", f.loc())
    rep.floor("applied", "reader routines that take the text of quoted tokens", len(nsite), 4)
    rep.counts["reader routines"] = sorted(nsite)


def base_of(t):
    if t[0] == "fld":
        return t[1]
    if t[0] == "call" and t[2]:
        return t[2][0]
    return t


def compares(prog, f, kinds):
    names = {k.rsplit("::", 1)[-1] for k in kinds}
    for b in f.reach:
        for s in f.stmts(b):
            if s["k"] == "=" and s["r"]["k"] == "discr" and any(n in s["r"]["ty"] for n in names):
                return True
        t = f.term(b)
        if t["k"] == "call":
            c = f.callee(b)
            if c.name in ("eq", "ne") and any(n in c.full for n in names):
                return True
    return False
