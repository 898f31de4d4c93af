"""P13: numbers are never silently truncated between text and typed values."""
import re
from ..absint import C, State, TooBig, is_const, show
from ..cursor import canon
from ..mir import strip_generics
from ..outtext import OutText
from .p17 import callers, has, testing

META = {
    "packages": ["styx-format", "facet-styx", "serde_styx", "styx-gen-go", "styx-wasm"],
    "crates": ["styx_format", "facet_styx", "serde_styx", "styx_gen_go", "styx_wasm"],
    "level": "other",
    "technique": "cast audit over the type-checked program and provenance of numbers by abstract interpretation of readers and writers",
    "level_note": "Every numeric cast of the crates that convert numbers is checked for value preservation; on every abstract path of every reader and writer the "
    "number handed over is traced to the parse of the whole text, or to the caller's number.",
    "explanation": "narrow: a numeric cast keeps the value, by its types or by a bound on its operand. write: what a writer appends or returns for a number is the "
    "plain rendering of exactly that number, on every successful path. read: a number handed to a visitor, a scalar value or JSON is the result of parsing the whole "
    "text at a sufficient width. order: text of unknown type becomes a float only after it failed to parse as a signed and as an unsigned integer. "
    "pairs: hex digits are consumed two at a time and an odd digit is an error.",
    "assumptions": ["str::parse and Display of the standard library are exact for integers and nearest / shortest round-trip for floats", "facet and serde convert between widths with a check"],
}

WIDTH = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "u128": (0, 128), "usize": (0, 64), "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "i128": (1, 128), "isize": (1, 64)}
FLOAT = {"f32": 24, "f64": 53}
NUMT = set(WIDTH) | set(FLOAT)


def fits(a, b):
    """every value of numeric type a is a value of b"""
    if a == b:
        return True
    if b in FLOAT:
        if a in FLOAT:
            return FLOAT[a] <= FLOAT[b]
        return a in WIDTH and WIDTH[a][1] - WIDTH[a][0] <= FLOAT[b]
    if b not in WIDTH:
        return False
    sb, wb = WIDTH[b]
    if a == "bool":
        return True
    if a == "char":
        return wb - sb >= 21
    if a not in WIDTH:
        return False
    sa, wa = WIDTH[a]
    if sa and not sb:
        return False
    return wa + (1 if sb and not sa else 0) <= wb


def limits(t):
    s, w = WIDTH[t]
    return (-(1 << (w - 1)) if s else 0, (1 << (w - s)) - 1)


# ------------------------------------------------------------------------------------------ R1
def bound(f, x, d=0):
    """(lo, hi) an operand stays within by how it is computed; None at an open end"""
    if x["k"] == "const":
        v = x.get("int")
        if isinstance(v, str):
            v = int(v) if re.fullmatch(r"-?\d+", v) else None
        return (v, v)
    p = x["p"]
    if d > 8 or len(p) > 1:
        return (None, None)
    ds = f.defs().get(p[0], [])
    if len(ds) != 1:
        return (None, None)
    b, i, proj, r = ds[0]
    if i >= 0:
        if r["k"] == "use":
            return bound(f, r["x"], d + 1)
        if r["k"] == "cast" and fits(r["from"], r["to"]):
            lo, hi = bound(f, r["a"], d + 1)
            if r["from"] in WIDTH:
                l, h = limits(r["from"])
                lo = l if lo is None else lo
                hi = h if hi is None else hi
            return (lo, hi)
        if r["k"] == "bin" and r["op"] in ("BitAnd", "Rem"):
            m = bound(f, r["b"], d + 1)[1]
            t = f.locals[p[0]]
            if m is not None and m >= 0 and t in WIDTH and not WIDTH[t][0]:
                return (0, m if r["op"] == "BitAnd" else m - 1)
        return (None, None)
    t = f.term(b)
    c = f.callee(b) if hasattr(f, "callee") else None
    name = next((c.name for bb, tt, c in f.calls() if bb == b), "")
    a = [bound(f, z, d + 1) for z in t["args"]]
    if name == "clamp" and len(a) == 3:
        return (a[1][0], a[2][1])
    if name == "min" and len(a) == 2:
        return (None if a[0][0] is None or a[1][0] is None else min(a[0][0], a[1][0]), min([z for z in (a[0][1], a[1][1]) if z is not None], default=None))
    if name == "max" and len(a) == 2:
        return (max([z for z in (a[0][0], a[1][0]) if z is not None], default=None), None if a[0][1] is None or a[1][1] is None else max(a[0][1], a[1][1]))
    if name in ("len", "len_utf8", "len_utf16"):
        return (0, None)
    return (None, None)


def narrow(prog, rep):
    n = 0
    for f in prog.fns.values():
        if testing(f):
            continue
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] != "=" or s["r"]["k"] != "cast":
                    continue
                r = s["r"]
                a, t = r["from"], r["to"]
                if a not in NUMT | {"char", "bool"} or t not in NUMT:
                    continue
                n += 1
                good = fits(a, t)
                if not good and a in WIDTH and t in WIDTH:
                    lo, hi = bound(f, r["a"])
                    l, h = limits(a)
                    lo, hi = l if lo is None else lo, h if hi is None else hi
                    tl, th = limits(t)
                    good = tl <= lo and hi <= th
                rep.check(good, "narrow", f"{f.path} {a}->{t}", f"a cast from {a} to {t} can change the number and nothing bounds its operand", f.loc(s["n"]))
    return n


# ------------------------------------------------------------------------------------------ values
class Nums(OutText):
    """parse::<T>(text) is a term of its own: the same text and type give the same outcome."""

    def __init__(self, prog, inline, **k):
        super().__init__(prog, inline=lambda f, c: f.id in inline, **k)
        self.hints = {}
        self.sites = {}

    def parsed(self, st):
        return frozenset((t[1], v) for t, v in st.facts.items() if t[0] == "disc" and t[1][0] == "call" and str(t[1][1]).startswith("parse::"))

    def sink(self, st, ty, v, site):
        st.note(("sink", ty, self.deref(st, v), site, self.parsed(st)))

    def rvalue(self, st, fn, fr, r):
        v = super().rvalue(st, fn, fr, r)
        if r["k"] == "discr" and r["adt"].endswith("Hint") and v[0] == "disc":
            self.hints[v] = r["vars"]
        if r["k"] == "agg" and r["ak"] == "adt" and r["enum"] and r["adt"].rsplit("::", 1)[-1] == "ScalarValue" and r["variant"].lower() in NUMT:
            self.sink(st, r["variant"].lower(), v[3][0], (fn, None, r))
        return v

    def std(self, st, c, args, site, depth):
        n = c.name
        if n == "parse" and c.path.startswith("core::str"):
            g = re.search(r"parse::<([^>]*)>", c.full)
            t = g.group(1) if g else "?"
            v = ("call", f"parse::{t}", (self.deref(st, args[0]),), 0)
            self.tyof[v] = f"core::result::Result<{t}, core::num::Error>"
            st.note(("parse", t, v, site))
            return [(st, v)]
        if re.fullmatch(r"visit_[iuf]\d+", n) and len(args) > 1:
            self.sink(st, n[6:], args[1], site)
        elif args and (c.path.startswith("serde_json") or "serde_json" in c.full):
            g = re.search(r"::<&?(\w+)>$", c.full) or re.search(r"From<(\w+)>", c.full)
            if g and g.group(1) in NUMT:
                self.sink(st, g.group(1), args[0], site)
        return super().std(st, c, args, site, depth)


WHOLE = {"trim", "to_string", "to_owned", "into_owned", "clone", "into", "from", "as_str", "deref", "borrow", "as_ref", "to_ascii_lowercase"}


def whole(v):
    """None if the text term is a caller's text as it is, else what was done to it"""
    for _ in range(60):
        if not isinstance(v, tuple) or not v:
            return None
        k = v[0]
        if k in ("sym", "next"):
            return None
        if k in ("fld", "dc", "mem", "with", "txt"):
            v = v[1]
        elif k == "ref":
            return None
        elif k == "cat" and len(v[1]) == 1 and v[1][0][0] == "val":
            v = v[1][0][1]
        elif k == "call":
            n = re.sub(r"::?<.*", "", str(v[1])).rsplit("::", 1)[-1]
            if n in WHOLE or "unescape" in n or not v[2]:
                v = v[2][0] if v[2] else None
            elif n.startswith(("next", "peek", "text", "span_text", "current", "slice_text")) or "::" in str(v[1]) and not str(v[1]).startswith(("core::", "alloc::", "<str", "<core", "<alloc", "std::")):
                return None
            else:
                return n
        elif k == "sfx":
            return "a part of the text"
        else:
            return k
    return None


def base(v):
    """strips value-preserving casts"""
    while isinstance(v, tuple) and v and v[0] in ("cast", "with"):
        v = v[2] if v[0] == "cast" else v[1]
    return v


def parse_of(v):
    """(type, text) when the term is the Ok payload of a parse"""
    if v[0] == "fld" and v[1][0] == "dc" and v[1][2] in ("Ok", "Some", "Continue"):
        c = v[1][1]
        if c[0] == "call" and str(c[1]).startswith("parse::"):
            return c[1][7:], c[2][0]
    return None


def through(v):
    """a number taken as it is from an argument or an existing value"""
    for _ in range(60):
        if v[0] in ("fld", "dc", "mem", "with", "elem"):
            v = v[1]
        elif v[0] == "sym":
            return True
        elif v[0] == "call":
            return True
        else:
            return False
    return False


def arith(v):
    """a computation inside a term, if any"""
    v = base(v)
    for _ in range(60):
        if not isinstance(v, tuple) or not v:
            return None
        if v[0] in ("fld", "dc", "mem", "with", "elem"):
            v = v[1]
        elif v[0] in ("sym",):
            return None
        elif v[0] == "call":
            n = re.sub(r"::<.*", "", str(v[1])).rsplit("::", 1)[-1]
            p = str(v[1])
            if p.startswith(("core::num", "core::f", "core::cmp", "<i", "<u", "<f", "core::result", "core::option", "std::f")) or n in ("unwrap_or", "unwrap_or_default", "abs", "round", "trunc"):
                return n
            return None
        elif v[0] == "c":
            return "a constant"
        else:
            return v[0]
    return None


def context(it, f, path):
    """what the target is known to be: ('int', signed, width), ('float', {types}), ('text',), None"""
    names = set()
    for t, vs in it.hints.items():
        s = path.st.facts.get(t)
        if s is not None:
            names |= {n.lower() for d, n in vs.items() if int(d) in s}
    m = re.match(r"deserialize_(\w+)$", f.path.rsplit("::", 1)[-1])
    serde = False
    if m and not names:
        names = {m.group(1)}
        serde = True
    if not names:
        return None
    if names <= set(WIDTH):
        return ("int", {WIDTH[n][0] for n in names}, names, serde)
    if names <= set(FLOAT):
        return ("float", None, names, serde)
    if names <= {"string", "str", "bytes", "byte_buf", "char", "bool", "identifier"}:
        return ("text", None, names, serde)
    return None


def judge_read(f, it, path, e, rep):
    _, ty, v, site, facts = e
    where = site[0].loc(site[0].term(site[1])["n"]) if site[1] is not None and "n" in site[0].term(site[1]) else site[0].loc()
    b = base(v)
    po = parse_of(b)
    key = f"{f.path}: {ty}"
    if po is None:
        a = arith(v)
        rep.check(a is None, "read", key, f"the number handed over as {ty} is not what the text parses to ({a}: {show(v)[:100]})", where)
        return
    T, text = po
    w = whole(text)
    rep.check(w is None, "read", key + " text", f"only a changed form of the text is parsed as {T} ({w})", where)
    rep.check(fits(T, ty), "read", key + " width", f"the text is parsed as {T} but handed over as {ty}", where)
    cx = context(it, f, path)
    isf = T in FLOAT
    done = {c[1][7:]: v for c, v in facts if c[2][0] == text}
    failed = {t for t, v in done.items() if 0 not in v}
    if cx and cx[0] == "text":
        rep.bad("order", key + " text target", f"a target of text ({', '.join(sorted(cx[2]))}) is given the number the text parses to: digits such as leading zeros are lost", where)
        return
    if cx and cx[0] == "int":
        if isf and not cx[3]:
            rep.bad("order", key, f"an integer target is given the text parsed as {T}", where)
            return
        if not isf:
            need = [n for n in cx[2] if not fits(n if WIDTH[n][1] <= 64 else ("i64" if WIDTH[n][0] else "u64"), T)]
            rep.check(not need, "read", key + " range", f"a target of type {', '.join(sorted(need))} is read through {T}, which cannot hold its values", where)
            return
    if cx and cx[0] == "float" and isf:
        for n in cx[2]:
            rep.check(T == n, "read", key + " rounding", f"a target of type {n} is read through {T}: " + ("the text is rounded twice" if FLOAT[T] > FLOAT[n] else "digits are lost"), where)
        return
    if cx and cx[0] == "float":
        return
    if isf:
        s, u = failed & {"i64", "i128"}, failed & {"u64", "u128"} | failed & {"i128"}
        rep.check(T == "f64", "order", key + " precision", f"text of unknown type is read as {T}", where)
        rep.check(s and u, "order", key, f"text becomes a float before it failed to parse as {'a signed' if not s else 'an unsigned'} integer: large integers lose digits", where)
    else:
        rep.check(not (failed & set(FLOAT)), "order", key, f"text is parsed as {T} only after it failed to parse as a float", where)


def helper(prog, f, calls):
    return not f.pub and not f.impl_trait and "{closure" not in f.path and calls.get(f.id)


def readers(prog):
    """functions that hand numbers parsed from text over, and which of them are only helpers"""
    S = set()
    for f in prog.fns.values():
        if testing(f) or "schema_validate" in f.path or f.crate not in ("facet_styx", "serde_styx", "styx_wasm"):
            continue
        if re.search(r"Deserializer>::deserialize_[iuf]\d+$", f.path):
            S.add(f.id)
        for b, t, c in f.calls():
            if c.name == "parse" and c.path.startswith("core::str") and any(f"parse::<{n}>" in c.full for n in NUMT) or re.fullmatch(r"visit_([iuf]\d+|bytes|byte_buf|borrowed_bytes)", c.name):
                S.add(f.id)
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("ak") == "adt" and s["r"]["enum"] and s["r"]["adt"].rsplit("::", 1)[-1] == "ScalarValue" and s["r"]["variant"].lower() in NUMT:
                    S.add(f.id)
    return S


def hinted(f):
    return any(s["k"] == "=" and s["r"]["k"] == "discr" and s["r"]["adt"].endswith("Hint") for b in f.reach for s in f.stmts(b))


def read(prog, rep):
    up = callers(prog)
    S = readers(prog)
    roots, todo, inline = set(), sorted(S), set()
    while todo:
        i = todo.pop()
        f = prog.fns[i]
        top = prog.fns.get(f.root, f) if f.is_closure else f
        if top.id != f.id:
            if top.id not in roots and top.id not in inline:
                todo.append(top.id)
            continue
        if f.id in roots or f.id in inline:
            continue
        cs = {prog.fns[c].root if prog.fns[c].is_closure else c for c in up.get(f.id, ())} - {f.id}
        cs = {c for c in cs if not testing(prog.fns[c])}
        if cs and not f.pub and not f.impl_trait and not hinted(f) and all(prog.fns[c].crate == f.crate for c in cs):
            inline.add(f.id)
            todo += sorted(cs)
        else:
            roots.add(f.id)
    n = m = 0
    for i in sorted(roots, key=lambda i: prog.fns[i].path):
        f = prog.fns[i]
        # a delegation between readers (deserialize_i8 to deserialize_i64) is followed
        it = Nums(prog, inline | S, max_paths=6000)
        sinks = 0
        for path in it.run(f):
            hexes = None
            for e in path.st.trace():
                if e[0] == "sink":
                    sinks += 1
                    judge_read(f, it, path, e, rep)
                elif e[0] == "call" and e[1].name in ("visit_bytes", "visit_byte_buf", "visit_borrowed_bytes"):
                    evs = [x for x in path.st.trace() if x[0] == "call" and x[1].name in ("from_str_radix", "to_digit")]
                    if not evs:
                        continue
                    m += 1
                    for t, vs in path.st.facts.items():
                        if t[0] == "disc" and t[1][0] == "opt" and 1 in vs and 0 not in vs:
                            ch = ("dc", t[1], "Some")
                            used = any(has(x[2], lambda y: y == ch) for x in evs)
                            rep.check(used, "pairs", f"{f.path}", "a hex digit was taken from the text and is in none of the bytes handed over", e[3][0].loc(e[3][0].term(e[3][1])["n"]))
        n += sinks
        rep.good("read", f"{f.path}: {sinks} hand-overs")
    return len(roots), n, m


# ------------------------------------------------------------------------------------------ R2
RENDER = {"to_string", "fmt"}


class Out(OutText):
    """records what a call is given, while it can still be looked at"""

    def unknown(self, st, callee, args, site, rty=None):
        st.note(("given", callee, tuple(self.deref(st, a) for a in args), site))
        return super().unknown(st, callee, args, site, rty)


def exactly(t, v):
    """t is the number v itself or its plain rendering"""
    for _ in range(20):
        if t == v:
            return True
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] in ("cast", "with"):
            t = t[2] if t[0] == "cast" else t[1]
        elif t[0] == "call" and str(t[1]).rsplit("::", 1)[-1].split("<")[0] in ("to_string", "to_owned", "as_str", "as_bytes", "into_bytes", "deref", "as_ref", "borrow", "from", "into", "clone", "into_owned", "into_boxed_str") or t[0] == "call" and t[1] == "to_string":
            if not t[2]:
                return False
            t = t[2][0]
        elif t[0] == "fld" and t[1][0] == "dc" and t[1][2] == "Ok" and t[1][1][0] == "call" and re.search(r"::try_(from|into)$", re.sub(r"::<.*>$", "", str(t[1][1][1]))):
            t = t[1][1][2][0]
        elif t[0] == "fmtd":
            if t[1] not in ("display", "debug") or any(x for x in t[2]):
                return False
            t = t[3]
        elif t[0] == "cat":
            vals = [p for p in t[1] if p[0] == "val"]
            if len(vals) != 1 or any(p[0] == "lit" and p[1].strip() for p in t[1]):
                return False
            t = vals[0][1]
        elif t[0] in ("sfx", "txt", "mem", "bytes"):
            t = t[1]
        else:
            return False
    return False


def mentions(t, v):
    return t == v or has(t, lambda y: y == v)


def numeric_params(f):
    return [i for i in range(1, f.argc + 1) if f.locals[i].lstrip("&") in NUMT or f.locals[i].rsplit("::", 1)[-1].split("<")[0] == "ScalarValue"]


def writes(prog, rep):
    """number-writing functions: a parameter that is a number (or scalar value)"""
    roots = []
    for f in prog.fns.values():
        if testing(f) or f.is_closure or f.coroutine:
            continue
        name = f.path.rsplit("::", 1)[-1]
        if f.crate == "styx_format" and "writer::StyxWriter" in f.path and re.fullmatch(r"write_[iuf]\d+", name):
            roots.append((f, numeric_params(f)))
        elif f.crate == "serde_styx" and re.fullmatch(r"serialize_[iuf]\d+", name):
            roots.append((f, numeric_params(f)))
        elif f.crate == "facet_styx" and name == "scalar" and "FormatSerializer" in (f.impl_trait or f.path):
            roots.append((f, numeric_params(f)))
    done = set()
    n = 0
    while roots:
        f, ps = roots.pop()
        for i in ps:
            if (f.id, i) in done:
                continue
            done.add((f.id, i))
            n += one_writer(prog, rep, f, i, roots)
    return len(done), n


def one_writer(prog, rep, f, i, roots):
    it = Out(prog, inline=lambda g, c: False, max_paths=4000)
    arg = ("sym", "arg", f.lnames.get(i) or f"_{i}")
    n = 0
    scalar = f.locals[i].lstrip("&") not in NUMT and "ScalarValue" in f.locals[i]
    for path in it.run(f):
        if path.kind != "ret" or path.ret is None:
            continue
        if path.ret[0] == "agg" and path.ret[2] == "Err":
            continue
        vals = [arg]
        if scalar:
            s = next((vs for t, vs in path.st.facts.items() if t[0] == "disc" and canon(t[1]) in (canon(arg), ("mem", arg))), None)
            if s is None:
                continue
            names = {it.variant_of("facet_format::event::ScalarValue", d) for d in range(0, 32) if d in s} - {None}
            nums = {x for x in names if x.lower() in NUMT}
            if not nums:
                continue
            vals = [("fld", ("dc", w, x), "0") for w in (arg, ("mem", arg)) for x in nums]
        outs, bad = [], []
        for e in path.st.trace():
            ts = []
            if e[0] == "out":
                ts = [p[1] for p in e[1] if p[0] == "val"]
            elif e[0] == "given":
                tr = e[1].trait or ""
                if (e[1].full.startswith(("core::", "alloc::")) or re.match(r"<.* as core::", e[1].full) or tr.startswith("core::")) and not tr.endswith("Write"):
                    continue
                ts = list(e[2])
            elif e[0] in ("store", "write"):
                ts = [x for x in e[1:] if isinstance(x, tuple)]
            for k, t in enumerate(ts):
                for v in vals:
                    if exactly(t, v):
                        outs.append(e)
                        if e[0] == "given":
                            g = prog.target(e[1])
                            if g is not None and (g.locals[k + 1].lstrip("&") in NUMT or re.fullmatch(r"[A-Z]\w*|impl .*", g.locals[k + 1].lstrip("&"))) and exactly_number(t, v):
                                roots.append((g, [k + 1]))
                    elif mentions(t, v):
                        bad.append((e, t))
        final = [path.ret] + [x for x in path.st.heap.values() if isinstance(x, tuple)]
        for t in final:
            for v in vals:
                if find_exact(t, v):
                    outs.append(("ret", t))
                elif mentions(t, v) and path.ret is not t:
                    bad.append((("heap", None), t))
        n += 1
        what = f"{f.path} {f.locals[i]}" + (" " + "/".join(sorted(nums)) if scalar else "")
        rep.check(bool(outs), "write", what, "on a path that succeeds, the number itself is not written" + (f" (written: {show(bad[0][1])[:120]})" if bad else ""), f.loc())
    return n


def exactly_number(t, v):
    while isinstance(t, tuple) and t and t != v and t[0] in ("cast", "with"):
        t = t[2] if t[0] == "cast" else t[1]
    return t == v


def find_exact(t, v, d=0):
    if exactly(t, v):
        return True
    if not isinstance(t, tuple) or d > 12:
        return False
    if t and t[0] == "agg":
        return any(find_exact(x, v, d + 1) for x in t[3])
    if t and t[0] == "with":
        return find_exact(t[1], v, d + 1) or any(find_exact(z[1], v, d + 1) for z in t[2])
    return False


def run(prog, rep, tier):
    rep.rule("narrow", "a numeric cast keeps the value, by its types or by a bound on its operand")
    rep.rule("read", "a number handed over is what the whole text parses to, at a width that holds the target's values")
    rep.rule("order", "text of unknown type becomes a float only after both integer parses failed; text targets get text")
    rep.rule("pairs", "hex digits taken from the text are all in the bytes handed over")
    rep.rule("write", "a number is written as its plain rendering, on every successful path")
    n = narrow(prog, rep)
    rep.floor("narrow", "numeric casts", n, 25)
    r, k, m = read(prog, rep)
    rep.floor("read", "reader functions", r, 10)
    rep.floor("read", "numbers handed over", k, 15)
    rep.floor("pairs", "byte hand-overs", m, 1)
    w, paths = writes(prog, rep)
    rep.floor("write", "number writers", w, 30)
    rep.count("paths", paths)
