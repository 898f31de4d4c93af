"""P04: malformed escape sequences are always reported."""
from ..absint import C, State, TooBig, UNIT, show, tup
from ..absstr import AbsStr, lit, text_of
from ..cursor import linear
from ..iset import CHAR, ISet
from ..mir import strip_generics
from .. import escapes, pevents
from ..escapes import HEX, Routine, example, isstr, shape
from ..pevents import Events, last

META = {
    "packages": ["styx-parse"],
    "crates": ["styx_tokenizer", "styx_parse"],
    "level": "other",
    "technique": "abstract interpretation of escape decoding and validation on string shapes; path analysis of the parser's event emission",
    "level_note": "Every defined and malformed escape form with symbolic characters and digits (exact class partitions), preceded and followed by an arbitrary character; "
    "the routing from the decoder's error to error events is analysed on all paths.",
    "explanation": "The decoder that returns a Result and the validator that lists malformed escapes are found by what they do and interpreted on every escape form. "
    "The lexer's, parser's and emitters' paths are followed from the decoder's error to an error event whose span is computed from the validator's offset.",
    "assumptions": ["the serde reader, which has no error events, is outside this property"],
}
CRATES = ("styx_parse",)
PLAIN = CHAR - ISet.of(34, 92)


def forms():
    yield "plain", [PLAIN], "good"
    for x in 'nrt\\"':
        yield "\\" + x, ["\\" + x], "good"
    yield "\\+undefined", ["\\", CHAR - ISet.of(*[ord(c) for c in 'nrtu\\"'])], "bad"
    for k in range(0, 4):
        yield f"\\u+{k} digits", ["\\u"] + [HEX] * k + [PLAIN - HEX - ISet.of(123)], "bad"
        yield f"\\u+{k} digits+end", ["\\u"] + [HEX] * k, "bad end"
    yield "\\uXXXX", ["\\u"] + [HEX] * 4, "value"
    yield "\\u{}", ["\\u{}"], "bad"
    yield "\\ at the end", ["\\"], "bad end"
    for k in range(1, 8):
        yield f"\\u{{{k} digits}}", ["\\u{"] + [HEX] * k + ["}"], "value"
    for k in range(0, 3):
        yield f"\\u{{{k} digits+other}}", ["\\u{"] + [HEX] * k + [PLAIN - HEX - ISet.of(125), "}"], "bad"
        yield f"\\u{{{k} digits unclosed", ["\\u{"] + [HEX] * k, "bad end"


def cases():
    for name, body, want in forms():
        for pre in ([], [PLAIN], ["\\n"]):
            for post in ([], [PLAIN]):
                if want.endswith("end") and post:
                    continue
                yield name, pre, body, post, want.split()[0]


def verdict(I, s, body, want):
    if want != "value":
        return want
    digs = tuple(x for x in body if x[0] != "c")
    v = ("radix", 16, ("chs", digs))
    d = s.facts.get(v)
    if d is None:
        d = ISet.rng(0, 16 ** len(digs) - 1)
    if not d & CHAR:
        return "bad"
    if d <= CHAR:
        return "good"
    return "both"


def run(prog, rep, tier):
    rep.rule("decoder", "the decoder returns an error for every malformed escape and a value for every well-formed one")
    rep.rule("validator", "the validator lists at least one error for every malformed escape, none for a well-formed one, each at its place in the string")
    rep.rule("lexer", "a decoder error becomes an error lexeme")
    rep.rule("parser", "an error lexeme becomes an atom that is reported")
    rep.rule("emit", "an atom that stands for a lexer error pushes an error event wherever it is emitted; malformed escapes carry the validator's offset")
    enc, dec = escapes.find(prog, CRATES)
    dec = [d for d in dec if "Result" in d.f.locals[0]]
    rep.floor("decoder", "decoders that report errors", len(dec), 1)
    msgs = set()
    for d in dec:
        msgs |= decoder(prog, rep, d)
    val = validators(prog)
    rep.floor("validator", "escape validators", len(val), 1)
    for v in val:
        validator(prog, rep, v)
    lexer(prog, rep, dec)
    emit(prog, rep, val, msgs)
    rep.counts["decoders"] = [d.f.path for d in dec]
    rep.counts["validators"] = [v.f.path for v in val]


def decoder(prog, rep, d):
    I = AbsStr(prog, depth=7, max_paths=200000)
    msgs = set()
    for name, pre, body, post, want in cases():
        st = State()
        a, b, z = shape(I, st, *pre, tag="p"), shape(I, st, *body, tag="b"), shape(I, st, *post, tag="q")
        for s, k, out in d.run(I, st, a + b + z):
            w = verdict(I, s, b, want)
            if k == "err":
                o = I.deref(s, out)
                t = text_of(o) if o[0] == "chs" else o[2] if o[0] == "c" else None
                msgs.add(t)
            ok = w == "bad" and k == "err" or w == "good" and k == "text"
            rep.check(ok, "decoder", f"{d.f.path}:{name}", f"{d.f.path} {'accepts' if k == 'text' else 'panics on' if k == 'panic' else 'rejects'} {example(I, s, a + b + z)!r}", d.f.loc())
    return msgs


def validators(prog):
    out = []
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in CRATES or f.is_closure or "::tests" in f.id or "Vec<" not in f.locals[0]:
            continue
        ss = [i for i in range(1, f.argc + 1) if isstr(f.locals[i])]
        if len(ss) != 1 or f.argc > 2:
            continue
        r = Routine(prog, f, ss[0])
        if count_of(prog, r, "\\q") == 1 and count_of(prog, r, "a\\n") == 0 and count_of(prog, r, "\\q\\x") == 2:
            out.append(r)
    return out


def count_of(prog, r, text):
    I = AbsStr(prog, depth=6, max_paths=500, max_steps=30000)
    ns = set()
    try:
        for s, k, v in r.run(I, State(), lit(text)[1]):
            ns.add(len(v) if k == "text" else None)
    except Exception:
        return None
    return ns.pop() if len(ns) == 1 else None


def width(I, s, x):
    d = ISet.of(x[2]) if x[0] == "c" else I.dom(s, x) & CHAR
    w = {n for n, (a, b) in {1: (0, 0x7F), 2: (0x80, 0x7FF), 3: (0x800, 0xFFFF), 4: (0x10000, 0x10FFFF)}.items() if d & ISet.rng(a, b)}
    return w.pop() if len(w) == 1 else None


def validator(prog, rep, v):
    I = AbsStr(prog, depth=7, max_paths=200000)
    for name, pre, body, post, want in cases():
        st = State()
        a, b, z = shape(I, st, *pre, tag="p"), shape(I, st, *body, tag="b"), shape(I, st, *post, tag="q")
        src = a + b + z
        for s, k, out in v.run(I, st, src):
            w = verdict(I, s, b, want)
            ok = k == "text" and (w == "bad" and len(out) >= 1 or w == "good" and len(out) == 0)
            ex = example(I, s, src)
            rep.check(ok, "validator", f"{v.f.path}:{name}", f"{v.f.path} {'panics on' if k != 'text' else 'reports nothing for' if not out else 'reports an error for'} {ex!r}", v.f.loc())
            if any(e[0] == "slicepanic" for e in s.trace()):
                rep.bad("validator", f"{v.f.path}:slice", f"{v.f.path} slices {ex!r} inside a character", v.f.loc())
            if k != "text":
                continue
            for e in out:
                e = I.deref(s, e)
                where(rep, I, s, v, name, src, e, ex)


def where(rep, I, s, v, name, src, e, ex):
    """The reported piece must be found at the reported offset."""
    off = piece = None
    if e[0] == "agg":
        for x in e[3]:
            x = I.deref(s, x)
            if x[0] == "c" and isinstance(x[2], int):
                off = x[2]
            t = I.chs(s, x)
            if t is not None:
                piece = t[1]
    if off is None or piece is None:
        rep.bad("validator", f"{v.f.path}:place", f"{v.f.path} reports an error without a place for {ex!r}", v.f.loc())
        return
    at = 0
    for i in range(len(src) + 1):
        if at == off:
            got = src[i : i + len(piece)]
            ok = len(got) == len(piece) and len(piece) > 0 and all(g == p or I.dom(s, g).single() is not None and I.dom(s, g).single() == I.dom(s, p).single() for g, p in zip(got, piece))
            rep.check(ok and got[0][0] == "c" and got[0][2] == 92, "validator", f"{v.f.path}:place", f"{v.f.path} reports a place outside the malformed escape of {ex!r}", v.f.loc())
            return
        if i == len(src):
            break
        w = width(I, s, src[i])
        if w is None:
            break
        at += w
    rep.bad("validator", f"{v.f.path}:place", f"{v.f.path} reports offset {off} in {ex!r}, which is not the start of a character", v.f.loc())


def lexer(prog, rep, dec):
    ids = {d.f.id for d in dec}
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in CRATES or f.is_closure or "::tests" in f.id or not any((t := prog.target(c)) is not None and t.id in ids for _, _, c in f.calls()):
            continue
        if last(f.locals[0]) != "Lexeme":
            continue

        def hook(I, st, c, args, site):
            t = prog.target(c)
            if t is not None and t.id in ids:
                st.ext["decoded"] = True
                return [(st, ("agg", "core::result::Result", "Err", (I.sym("message"),)))]
            return None

        I = AbsStr(prog, depth=2, unroll=1, max_paths=50000, on_call=hook, inline=lambda t, c: not t.loops() and len(t.reach) <= 8)
        for p in I.run(f):
            if p.st.ext.get("decoded") and p.kind == "ret":
                n += 1
                r = I.deref(p.st, p.ret)
                rep.check(r[0] == "agg" and r[2] == "Error", "lexer", f.path, f"{f.path} turns a decoding error into {show(r)[:80]}", f.loc())
    rep.floor("lexer", "lexer paths with a decoding error", n, 1)


def atomlike(prog):
    """Enum of parsed contents: the one with a variant made from the lexer's error."""
    for p, a in prog.adts.items():
        if a["kind"] == "enum" and p.startswith("styx_parse::parser::") and any(v["name"] == "Error" for v in a["variants"]) and len(a["variants"]) >= 5:
            return p, a
    return None, None


def emit(prog, rep, val, msgs):
    vids = {v.f.id for v in val}
    P = pevents.pushers(prog)
    cp, content = atomlike(prog)
    if cp is None:
        rep.bad("parser", "content", "the parser's content type with an error variant was not found")
        return
    holder = next((p for p, a in prog.adts.items() if a["kind"] == "struct" and any(strip_generics(fl[1]) == cp for fl in a["variants"][0]["fields"])), None)
    # emitters: functions over a content holder that push an event for a plain scalar
    emitters = []
    for i in sorted(P):
        f = prog.fns[i]
        idx = [k for k in range(1, f.argc + 1) if strip_generics(f.locals[k].replace("&", "").strip()) in (holder, cp)]
        if idx and not f.is_closure:
            emitters.append((f, idx[0]))

    R = ("sym", "arg", "raw")
    OFF, SEQ, START = ("sym", "offset"), ("sym", "piece"), ("sym", "start")

    def hook_val(I, st, c, args, site):
        t = prog.target(c)
        if t is not None and t.id in vids:
            a = I.as_text(st, args[0]) if hasattr(I, "as_text") else I.deref(st, args[0])
            st.note(("validated", I.deref(st, args[0]), site))
            return [(st, ("chs", (tup(OFF, SEQ),)))]
        return None

    def mk(variant):
        I = Events(prog, emitters=P, unroll=1, depth=4, max_paths=20000)
        I.stop = lambda t, s: any(f[0] == t.id for f in s.frames)
        I.inline = lambda t, c: t.id in P or not t.loops() and len(t.reach) <= 8
        base = I.hook
        I.on_call = lambda J, st, c, args, site: hook_val(J, st, c, args, site) or base(J, st, c, args, site)

        def detail(st, e, k):
            if k[0] == "agg" and k[2] == "Error" and e[0] == "agg":
                sp = next((I.deref(st, x) for x in e[3] if I.deref(st, x)[0] == "agg" and last(I.deref(st, x)[1]) == "Span"), None)
                return tuple(I.deref(st, x) for x in sp[3]) if sp else None
            return None

        I.detail = detail
        v = next(x for x in content["variants"] if x["name"] == variant)
        fs = tuple(R if isstr(fl[1]) else ("sym", "fld", fl[0]) for fl in v["fields"])
        con = ("agg", cp, variant, fs)
        for t, ty in (((R), "&str"), (OFF, "usize"), (SEQ, "alloc::string::String")):
            I.tyof.setdefault(t, ty)
        return I, con

    def hold(con):
        a = prog.adts[holder]["variants"][0]["fields"]
        out = []
        for fl in a:
            if strip_generics(fl[1]) == cp:
                out.append(con)
            elif last(fl[1]) == "Span":
                sp = prog.adts[strip_generics(fl[1])]["variants"][0]["fields"]
                out.append(("agg", strip_generics(fl[1]), None, tuple(("sym", "span", x[0]) for x in sp)))
            else:
                out.append(("sym", "fld", fl[0]))
        return ("agg", holder, None, tuple(out))

    def runon(f, k, variant):
        I, con = mk(variant)
        st = State()
        v = hold(con) if strip_generics(f.locals[k].replace("&", "").strip()) == holder else con
        st.env[(("top", 0, 0), 0)] = v
        args = [("ref", ("L", ("top", 0, 0), 0, ())) if i == k else ("sym", "arg", f.lnames.get(i, i)) for i in range(1, f.argc + 1)]
        return I, [p for p in I.run(f, args, st) if p.kind == "ret"]

    # variants made from an error lexeme
    makers = set()
    nm = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in CRATES or f.is_closure or "::tests" in f.id:
            continue
        idx = [k for k in range(1, f.argc + 1) if last(f.locals[k]) == "Lexeme" and not f.locals[k].startswith("&")]
        if not idx or strip_generics(f.locals[0]) != holder:
            continue
        lex = strip_generics(f.locals[idx[0]])
        v = next(x for x in prog.adts[lex]["variants"] if x["name"] == "Error")
        MSG = ("sym", "arg", "message")
        for m in sorted(msgs, key=str):
            nm += 1
            J = AbsStr(prog, depth=3, unroll=1, max_paths=20000, inline=lambda t, c: not t.loops() and len(t.reach) <= 12)
            fs = tuple(C(m, "str") if isstr(fl[1]) and m is not None else ("sym", "fld", fl[0]) for fl in v["fields"])
            args = [("agg", lex, "Error", fs) if k == idx[0] else ("sym", "arg", f.lnames.get(k, k)) for k in range(1, f.argc + 1)]
            for p in J.run(f, args):
                if p.kind != "ret":
                    continue
                r = J.deref(p.st, p.ret)
                con = next((J.deref(p.st, x) for x in r[3] if J.deref(p.st, x)[0] == "agg" and strip_generics(J.deref(p.st, x)[1]) == cp), None) if r[0] == "agg" else None
                if con is None:
                    rep.bad("parser", f"{f.path}", f"{f.path} turns an error lexeme into {show(r)[:80]}", f.loc())
                else:
                    makers.add(con[2])
                    rep.good("parser", f"{f.path}: {m!r} -> {con[2]}")
    rep.floor("parser", "error messages followed into the parser", nm, 2)
    rep.counts["contents made from lexer errors"] = sorted(makers)
    n = 0
    for f, k in emitters:
        _, ps = runon(f, k, "Scalar") if any(v["name"] == "Scalar" for v in content["variants"]) else (None, [])
        if not ps or not all(any(e[0] == "ev" and e[1] in ("Scalar", "Key") for e in p.st.trace()) for p in ps):
            continue
        for var in sorted(makers):
            I, ps = runon(f, k, var)
            for p in ps:
                n += 1
                errs = [e for e in p.st.trace() if e[0] == "ev" and e[1] == "Error"]
                seq = pevents.seq(I, p)
                rep.check(bool(errs), "emit", f"{f.path}:{var}", f"{f.path} emits {', '.join(seq) or 'nothing'} for a lexer error ({var}) and no error event", f.loc())
                vs = [e for e in p.st.trace() if e[0] == "validated"]
                if not vs:
                    continue
                a = vs[0][1]
                rep.check(a == R or a == ("sfx", ("txt", R)) or a[0] == "chs", "emit", f"{f.path}:{var}:text", f"{f.path} validates {show(a)} instead of the string's text", f.loc())
                for e in errs:
                    if e[3] is None:
                        rep.bad("emit", f"{f.path}:{var}:span", f"{f.path} reports a malformed escape without a span", f.loc())
                        continue
                    lo, hi = [x for x in e[3]][:2]
                    dl, dh = diff(I, p.st, lo, ("sym", "span", "start")), diff(I, p.st, hi, lo)
                    ok = dl == ({OFF: 1}, 1) and dh is not None and dh[1] == 0 and len(dh[0]) == 1 and list(dh[0].values()) == [1]
                    rep.check(ok, "emit", f"{f.path}:{var}:span", f"{f.path} reports a malformed escape at {show(lo)}..{show(hi)} instead of behind the quote plus the validator's offset", f.loc())
    rep.floor("emit", "emitter paths for lexer errors", n, 2)


def lin(I, st, t, k=1, acc=None):
    """Linear form over atoms, looking through casts."""
    acc = acc if acc is not None else [{}, 0]
    t = I.deref(st, t)
    if t[0] == "c" and isinstance(t[2], int):
        acc[1] += k * t[2]
    elif t[0] == "cast":
        lin(I, st, t[2], k, acc)
    elif t[0] == "op" and t[1].startswith("Add"):
        lin(I, st, t[2], k, acc)
        lin(I, st, t[3], k, acc)
    elif t[0] == "op" and t[1].startswith("Sub"):
        lin(I, st, t[2], k, acc)
        lin(I, st, t[3], -k, acc)
    elif t[0] == "fld" and t[1][0] == "op" and t[2] == "0":
        lin(I, st, t[1], k, acc)
    else:
        acc[0][t] = acc[0].get(t, 0) + k
    return acc


def diff(I, st, a, b):
    acc = [{}, 0]
    lin(I, st, a, 1, acc)
    lin(I, st, b, -1, acc)
    return {t: k for t, k in acc[0].items() if k}, acc[1]
