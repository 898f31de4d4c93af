"""P02: text written without quotes is read back as one bare scalar with exactly that text."""
from ..absint import C, State, TooBig, show
from ..cursor import canon
from ..iset import CHAR, ISet
from ..mir import strip_generics
from ..outtext import OutText
from .p01 import Tok, pure_query

META = {
    "packages": ["styx-format", "facet-styx", "serde_styx"],
    "crates": ["styx_tokenizer", "styx_parse", "styx_tree", "styx_cst", "styx_format", "facet_styx", "serde_styx"],
    "level": "other",
    "technique": "abstract interpretation of writers and tokenizer over character-class boxes",
    "level_note": "Every abstract path of every writer routine that appends caller-supplied text outside quotes is matched against every abstract path "
    "of the tokenizer on that class of strings. The first three characters are distinguished, later ones share one class (sound by widening).",
    "explanation": "For each routine of the writers the output of every abstract path is reconstructed. Where caller text is appended outside quotes, "
    "the path's facts give a class of strings (sets for the first three characters and for all later ones); the tokenizer's entry point is then "
    "interpreted abstractly on that class and must return one bare scalar that ends where the string ends, on every path.",
    "assumptions": ["routines whose documented contract is to write text as it is (names below) are judged at their callers", "enum variant and tag names given to the writers are valid tag names"],
}

MODULES = ("styx_format::writer", "styx_format::value_format", "facet_styx::serializer", "serde_styx::ser")
# documented as writing their argument as it is; the obligation lies with their callers
RAW = {"write_raw", "write_str", "write_byte", "field_key_raw", "write_doc_comment_and_key_raw", "raw_scalar"}
TAGS = {"write_variant_tag", "write_tag", "write_tag_chain_segment"}
DELIMS = " \n\r\t)},({\""


class Words(Tok):
    """The tokenizer on one class of strings."""

    def factkey(self, st):
        return frozenset((t, v) for t, v in st.facts.items() if t[0] == "disc" and t[1][0] == "opt")

    def dom(self, st, t):
        d = super().dom(st, t)
        if t[0] == "fld" and t[1][0] == "dc" and t[1][1][0] == "opt" and st.ext.get("known") is not None:
            P = t[1][1][1]
            if P not in st.ext["known"]:
                d = d & self.rest
        return d


def root(v):
    """The argument a term is built from, if any."""
    n = 0
    while isinstance(v, tuple) and v and n < 60:
        n += 1
        if v[0] == "sym":
            return v[2] if len(v) > 2 and v[1] == "arg" else None
        if v[0] in ("fld", "dc", "mem", "with", "elem", "txt", "sfx", "disc"):
            v = v[1]
        elif v[0] == "cast":
            v = v[2]
        elif v[0] == "call":
            for x in v[2]:
                r = root(x)
                if r:
                    return r
            return None
        elif v[0] in ("agg", "chars", "iter", "opt"):
            xs = v[3] if v[0] == "agg" else v[1:]
            for x in xs:
                if isinstance(x, tuple):
                    r = root(x)
                    if r:
                        return r
            return None
        else:
            return None
    return None


NUM = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool"}


def run(prog, rep, tier):
    rep.rule("class", "text appended outside quotes: the tokenizer returns one bare scalar ending where the text ends, for every string the path admits")
    rep.rule("exact", "what is appended outside quotes is the caller's text itself, not something derived from it")
    rep.rule("glue", "caller text is never appended directly behind a tag name or other text without a separator")
    rep.rule("delim", "every character a writer puts behind a bare scalar ends it")
    rep.rule("key", "text written as an unquoted key contains no character at which the parser splits a bare key into a path")
    rep.rule("tagflag", "after writing a tag, a flag is set that keeps the next scalar from being written bare")
    tz = acceptor(prog)
    for d in DELIMS:
        ok, why = tz((False, (ISet.of(ord("a")), ISet.of(ord(d)), CHAR), None, CHAR), stop=1)
        rep.check(ok, "delim", f"delimiter {d!r}", f"a bare scalar followed by {d!r} does not end before it: {why}")
    called = {t.id for g in prog.fns.values() for _, _, c in g.calls() for t in [prog.target(c)] if t is not None and inline(prog, t) and t.id != g.id}
    localfns = {strip_generics(g.path) for g in prog.fns.values()}
    seen = {}
    flags = {"split": ISet.of(*split_chars(prog))}
    rep.floor("key", "characters at which the parser splits bare keys", flags["split"].size(), 1)
    nfn = 0
    fns = [f for f in prog.fns.values() if any(m in f.id for m in MODULES) and not f.is_closure]
    for f in sorted(fns, key=lambda f: f.path):
        if "::tests::" in f.id or "::test" in f.id or "Debug>::fmt" in f.path:
            continue
        if not relevant(prog, f):
            continue
        if not f.pub and f.id in called and f.argc > 0:
            continue  # a private helper is judged at its callers, with what they pass
        nfn += 1
        wf = prog.adt("writer::StyxWriter")["variants"][0]["fields"]
        I = OutText(prog, unroll=1, depth=5, inline=lambda t, c: inline(prog, t), max_paths=60000)
        I.localfns = localfns
        I.wfields = {x[0] for x in wf if x[1] == "bool"}
        try:
            paths = I.run(f)
        except TooBig as e:
            rep.bad("class", f"{f.path}:size", f"{f.path} has too many paths to analyse: {e}", f.loc())
            continue
        for p in paths:
            if p.kind != "ret":
                continue
            flat = I.flat(p.st.trace())
            if p.ret is not None and p.ret[0] == "cat":
                out = []
                for x in p.ret[1]:
                    out.append((x[0], x[1], (f, 0, 0)))
                judge(prog, rep, I, f, p, out, tz, seen, flags)
            judge(prog, rep, I, f, p, flat, tz, seen, flags)
    n = 0
    for (site, name), ok in sorted(seen.items()):
        n += 1
        rep.check(not ok, "class", f"{site}:{name}", f"{site} writes '{name}' without quotes although {ok[0] if ok else ''}", ok[1] if ok else None)
    rep.floor("class", "places that write caller text without quotes", n, 4)
    rep.counts["routines interpreted"] = nfn
    rep.counts["string classes tried on the tokenizer"] = tz.n()
    # tags and the flag that protects the next scalar
    need = flags.get("need") or set()
    tagfn = flags.get("tag", {})
    for name, fl in sorted(flags.get("value", {}).items()):
        rep.check(bool(fl & set.union(set(), *tagfn.values())), "tagflag", f"{name}:unquoted", f"{name} appends an unquoted value without testing the flag set by a preceding tag (flags tested: {sorted(fl)})", flags["valueloc"][name])
        need = need | fl
    rep.floor("tagflag", "routines that append unquoted values", len(flags.get("value", {})), 6)
    for name, sets in sorted(tagfn.items()):
        rep.check(bool(sets & need), "tagflag", name, f"{name} writes a tag but leaves the next scalar free to be written bare (flags set: {sorted(sets)}, tested: {sorted(need)})")
    rep.floor("tagflag", "routines that write a tag", len(tagfn), 2)


def split_chars(prog):
    out = set()
    for f in prog.fns.values():
        if f.crate == "styx_parse" and "::parser::" in f.id and "::tests" not in f.id:
            for _, t, c in f.calls():
                if c.name in ("split", "split_once", "splitn", "split_terminator") and "str" in c.path:
                    for x in t["args"][1:]:
                        if x["k"] == "const" and x.get("ty") == "char":
                            out.add(x["int"])
    return out


def strish(t):
    t = t.replace("&", "").replace("mut ", "").strip()
    return t.endswith("str") or "String" in t or "Cow" in t or "ScalarValue" in t or t == "char"


def relevant(prog, f):
    return any(strish(t) or t in NUM or "Value" in t or "Entry" in t or "FieldKey" in t or "T" == t or "Scalar" in t for t in f.locals[1 : f.argc + 1])


def inline(prog, t):
    if any(strish(x) for x in t.locals[1 : t.argc + 1]):
        # escaping and text-to-text helpers stay calls: their result is not the caller's text
        return not strish(t.locals[0])
    return any(m in t.id for m in MODULES) and len(t.reach) <= 12 and not t.loops() and not strish(t.locals[0])


def judge(prog, rep, I, f, p, flat, tz, seen, flags):
    localfns = I.localfns
    st = p.st
    prev = None
    heredoc = False
    quoted = False
    bare = tagged = False
    for i, (k, x, site) in enumerate(flat):
        if k == "lit":
            if "<<" in x:
                heredoc = True
            if x.count('"') % 2:
                quoted = not quoted
            prev = ("lit", x)
            continue
        v = x
        r = root(v)
        ty = (I.tyof.get(v) or "").replace("&", "").strip()
        if prev is not None and prev[0] == "lit" and prev[1].endswith("@") and not quoted:
            tagged = f.name
            prev = ("tag", v)
            continue
        if r is None or r == "self" or ty in NUM or v[0] == "repeat" or heredoc or quoted:
            prev = ("val", v) if r and r != "self" else ("other", v)
            continue
        if prev is not None and prev[0] == "lit" and prev[1].endswith("/// "):
            prev = ("val", v)
            continue
        t = v[1][1] if v[0] == "sfx" and v[1][0] == "txt" else v
        local = v[0] == "call" and strip_generics(v[1]) in localfns
        if local:
            # result of a routine of this code base: judged where it is built
            prev = ("val", v)
            continue
        here = f"{f.path}"
        if f.name in RAW and (t[0] in ("sym", "mem", "call")):
            prev = ("val", v)
            continue
        nxt = flat[i + 1] if i + 1 < len(flat) else None
        iskey = nxt is not None and nxt[0] == "lit" and nxt[1].startswith(" ") or f.name == "format_key" or p.ret is not None and p.ret[0] == "cat"
        if not iskey and "styx_format::writer" in f.id and f.name not in RAW:
            fl = set()
            for tm, d in st.facts.items():
                if tm[0] == "fld" and isinstance(tm[2], str) and d == ISet.of(0) and tm[2] in I.wfields:
                    fl.add(tm[2])
            cur = flags.setdefault("value", {})
            cur[f.path] = fl & cur[f.path] if f.path in cur else fl
            flags.setdefault("valueloc", {})[f.path] = f.loc()
        if num_text(I, t) or t[0] == "call" and t[1].rsplit("::", 1)[-1] == "encode_utf8":
            prev = ("val", v)
            bare = True
            continue
        if t[0] == "call":
            rep.bad("exact", f"{f.path}:{t[1].rsplit('::', 1)[-1]}", f"{f.path} appends {show(t)[:120]} outside quotes: not the caller's text itself", loc(site))
            prev = ("val", v)
            continue
        if prev is not None and (prev[0] in ("val", "tag") or prev[0] == "lit" and prev[1][-1:] not in " \n({,"):
            what = show(prev[1])[:80] if prev[0] != "lit" else repr(prev[1])
            rep.bad("glue", f"{f.path}", f"{f.path} appends caller text directly behind {what}, so both are read as one token", loc(site))
        else:
            rep.good("glue", f.path)
        key = (site[0].path if site[0] is not f else f.path, show(t)[:60])
        B = ("txt", t)
        box = I.box(st, B)
        ok, why = tz(box)
        if iskey:
            sp = flags["split"]
            hit = (box[1][0] | box[1][1] | box[1][2] | box[3]) & sp
            rep.check(not hit, "key", f"{key[0]}:{key[1]}", f"{key[0]} writes {key[1]} as an unquoted key although it may contain {hit.show()}, where the parser splits a key into a path", loc(site))
        rep.ob.append(("class", f"{f.path} path", ok))
        if not ok:
            seen[key] = (why, loc(site))
        else:
            seen.setdefault(key, None)
        bare = True
        prev = ("val", v)
    if tagged and f.name in TAGS and "styx_format::writer" in f.id:
        sets = set()
        v = st.heap.get(("sym", "arg", "self"))
        while v is not None and v[0] == "with":
            for a, b in v[2]:
                if b == C(1, "bool"):
                    sets.add(a)
            v = v[1]
        t = flags.setdefault("tag", {})
        t[f.path] = sets if f.path not in t else t[f.path] & sets


def num_text(I, t):
    return t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("to_string",) and len(t[2]) == 1 and (I.tyof.get(t[2][0]) or "").replace("&", "").strip() in NUM


def loc(site):
    fn, b, n = site
    return f"{fn.file}:{n}" if n else fn.loc()


def acceptor(prog):
    adt = prog.adt("tokenizer::Tokenizer")
    nt = prog.method("Tokenizer", "next_token", crate="styx_tokenizer")
    written = set()
    for f in prog.fns.values():
        if f.crate != "styx_tokenizer":
            continue
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=":
                    for pl in [s["p"]] + ([s["r"]["p"]] if s["r"]["k"] in ("ref", "rawptr") and s["r"]["mut"] else []):
                        for e in pl[1:]:
                            if e[0] == "f" and strip_generics(e[3] or "").endswith("Tokenizer"):
                                written.add(e[2])
    memo = {}
    names = [f[0] for f in prog.adt("token::Token")["variants"][0]["fields"]]
    A, NA = ISet.rng(0, 127), CHAR - ISet.rng(0, 127)

    def one(S0, S1, S2, rest, stop, ends):
        I = Words(prog, unroll=3, depth=8, max_paths=200000, on_call=pure_query)
        I.queries = set()
        I.setup(adt)
        I.written = written
        rem = [i for i in I.strs if I.fields[i] in written]
        I.irem = rem[0] if rem else None
        I.rest = rest
        st = State()
        arg = ("sym", "arg", "self")
        I.selfarg = arg
        P0 = C(0, "int")
        vals = {}
        for i, fl in enumerate(I.fields):
            vals[i] = ("agg", "core::option::Option", "None", ()) if "Option" in adt["variants"][0]["fields"][i][1] else ("sym", "state0", fl)
            I.tyof[vals[i]] = adt["variants"][0]["fields"][i][1]
        st.heap[arg] = I.value(P0, None, vals)
        P = P0
        known = []
        I.present(P0)
        I.refine(st, ("disc", ("opt", P0)), ISet.of(1))
        for i, S in enumerate((S0, S1, S2)):
            known.append(P)
            if ends and i and not ends[i][1]:
                I.present(P)
                I.refine(st, ("disc", ("opt", P)), ISet.of(0))
            ch = I.char_at(P)
            st.facts[ch] = S
            P = I.next_pos(st, P)
        st.ext["known"] = tuple(known)
        if stop is not None:
            for Q in known[: stop + 1]:
                I.present(Q)
                I.refine(st, ("disc", ("opt", Q)), ISet.of(1))
        for p in I.run(nt, [arg], st):
            if p.kind != "ret":
                continue
            v = p.ret
            kind = v[3][names.index("kind")]
            kn = kind[2] if kind[0] == "agg" else show(kind)
            if kn != "BareScalar":
                return False, f"it is read as {kn} ({ex(I, p.st, known, rest)})"
            pos = canon(I.pos(p.st))
            d = I.dom(p.st, ("disc", ("opt", pos)))
            if stop is not None:
                if pos != canon(known[stop]):
                    return False, f"the scalar ends at {show(pos)}"
                continue
            if p.st.facts.get(("disc", ("opt", pos))) != ISet.of(0):
                cls = I.dom(p.st, I.char_at(pos)) & CHAR
                return False, f"the bare scalar ends before the end of the string, at a character in {cls.show()} ({ex(I, p.st, known, rest)})"
        return True, ""

    def ex(I, st, known, rest):
        cs = []
        for P in known:
            if I.dom(st, ("disc", ("opt", P))) == ISet.of(0) if ("disc", ("opt", P)) in st.facts else False:
                break
            d = I.dom(st, I.char_at(P)) & CHAR
            if not d:
                break
            cs.append(chr(d.pick()))
        return "for example a string starting with " + repr("".join(cs))

    def accept(box, stop=None):
        mayempty, sets, ends, rest = box
        key = (mayempty, sets, ends, rest, stop)
        if key in memo:
            return memo[key]
        if mayempty and stop is None:
            memo[key] = (False, "it may be empty")
            return memo[key]
        res = (True, "")
        for a in (A, NA):
            for b in (A, NA):
                S0, S1 = sets[0] & a, sets[1] & b
                if not S0 or stop is not None and not S1:
                    continue
                # an empty class for a later character means the string ends there
                r = one(S0, S1, sets[2], rest, stop, ends)
                if not r[0]:
                    res = r
                    break
            if not res[0]:
                break
        memo[key] = res
        return res

    accept.n = lambda: len(memo)
    return accept
