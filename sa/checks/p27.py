"""P27: the two serde serializers write the same data."""
import re

from ..absint import C, FALSE, TRUE, Interp, State, TooBig, ok, show
from ..mir import strip_generics
from ..outtext import APPEND, OutText
from .p14 import PLAIN, CALL

META = {
    "packages": ["serde_styx"],
    "crates": ["serde_styx", "styx_format"],
    "level": "other",
    "technique": "effect analysis of every serde method on all paths: the sequence of writer calls is matched with what the method has to write, and compared between the two serializers",
    "level_note": "Every method of every serde serializer trait implemented by the crate, all abstract paths; calls of the writer and of the value's own serialization are the effects.",
    "explanation": "writes: on every path that ends in success a method writes its value, tag or key exactly once and in order. same: the multi-line and the compact method of the same name have the same effects. "
    "root: only a structure met before anything else is written without braces. failed: a writer that reports an error makes the method fail.",
    "assumptions": ["StyxWriter writes what it is given (properties P01 to P07, P12, P13)"],
}
WRITER = "StyxWriter"
SER = re.compile(r"serde(_core)?::ser::(impls::)?Serialize$|serde(_core)?::ser::Serialize>?::serialize")
TRAIT = re.compile(r"ser::(Serializer|SerializeSeq|SerializeTuple|SerializeTupleStruct|SerializeTupleVariant|SerializeMap|SerializeStruct|SerializeStructVariant)\b")
ENDS = {"SerializeSeq": "end_seq", "SerializeTuple": "end_seq", "SerializeTupleStruct": "end_seq", "SerializeTupleVariant": "end_seq",
        "SerializeMap": "end_struct", "SerializeStruct": "end_struct", "SerializeStructVariant": "end_struct"}


class Eff(Interp):
    decode = OutText.decode
    joinparts = staticmethod(OutText.joinparts)
    fmt_parts = OutText.fmt_parts

    def cat(self, v):
        return v[1] if v[0] == "cat" else (("lit", v[2]),) if v[0] == "c" and v[1] == "str" else (("val", v),)

    def texts(self, st, c, args, tgt):
        """Text put together with format! and pushes."""
        n, p = c.name, c.path
        if "fmt::rt::Argument" in p and n.startswith("new_"):
            return [(st, ("fmtarg", n[4:], args[0]))]
        if p.startswith("core::fmt::Arguments") and n == "new" and len(args) == 2:
            d = self.decode(st, args[0], args[1])
            if d is not None:
                return [(st, ("fmt", d))]
        if p in ("alloc::fmt::format", "std::fmt::format") and args:
            return [(st, ("cat", self.fmt_parts(st, args[0])))]
        if n == "must_use" and len(args) == 1:
            return [(st, args[0])]
        if n in APPEND and len(args) == 2 and "String" in c.full and args[0][0] == "ref":
            loc = args[0][1]
            cur = self.content(st, loc)
            while cur[0] == "ref":
                loc, cur = cur[1], self.content(st, cur[1])
            new = self.deref(st, args[1])
            new = new[1] if new[0] == "fmt" else self.cat(new)
            # a key starts out empty
            self.store(st, loc, ("cat", (() if cur[0] == "fld" and cur[2] == "key" else self.cat(cur)) + new))
            return [(st, ok(C(0, "unit")) if "fmt" in n or n in ("write_str", "write_char") else C(0, "unit"))]
        return None

    def unknown(self, st, callee, args, site, rty=None):
        fn, b, n = site
        if any("&mut" in (fn.locals[x["p"][0]] if x["k"] in ("copy", "move") and len(x["p"]) == 1 else "") for x in fn.term(b).get("args", [])):
            return super().unknown(st, callee, args, site, rty)
        v = ("call", callee.full, tuple(self.deref(st, a) for a in args), 0)
        if rty:
            self.settype(v, rty)
        return [(st, v)]

    def __init__(self, prog, mine, **k):
        self.mine = mine
        super().__init__(prog, on_call=self.hook, inline=lambda t, c: t.crate == "serde_styx" and "::ser" in t.path, depth=6, max_paths=4000, merging=False, unroll=1, **k)

    def hook(self, I, st, c, args, site):
        tgt = self.prog.target(c)
        own = (tgt.self_ty or "") if tgt is not None else ""
        if WRITER in strip_generics(own) or WRITER in c.path and "::new" not in c.path:
            if c.name.startswith("finish") and args:
                # what was written, given back
                return [(st, self.deref(st, args[0]))]
            st.nid += 1
            fn, b, n = site
            r = ("wres", st.nid)
            rty = tgt.locals[0] if tgt is not None else ""
            fails = "Result<" in rty
            root = self.root_flag(st)
            st.note(("w", c.name, tuple(self.deref(st, a) for a in args[1:]), r if fails else None, root, site))
            if fails:
                self.settype(r, "core::result::Result")
            return [(st, r)]
        if c.name == "serialize" and "Serialize" in c.full and len(args) == 2 and tgt is None:
            v = self.deref(st, args[0])
            st.nid += 1
            r = ("wres", st.nid)
            self.settype(r, "core::result::Result")
            t = args[1]
            n = 0
            while t[0] == "ref" and n < 6:
                x = self.content(st, t[1])
                if x[0] != "ref":
                    break
                t = x
                n += 1
            inner = self.deref(st, args[1])
            if t[0] == "ref" and t[1][0] == "L" and inner[0] == "agg":
                # a serializer of its own, made on the spot: it collects the text of the value
                st.note(("key", v, r, site))
                a = self.prog.adts.get(inner[1])
                names = [x[0] for x in a["variants"][0]["fields"]] if a else []
                self.store(st, t[1], ("agg", inner[1], inner[2], tuple(("text of", v) for _ in inner[3])))
            else:
                st.note(("v", v, r, self.root_flag(st), site))
            return [(st, r)]
        return self.texts(st, c, args, tgt)

    def root_flag(self, st):
        """Value of the serializer's 'nothing written yet' flag."""
        for a in (("sym", "arg", 0),):
            v = self.content(st, ("S", a, ()))
            return self.fld_named(v, "at_root")
        return None

    def fld_named(self, v, name):
        if v[0] == "with":
            for k, x in v[2]:
                if k == name:
                    return x
        return ("fld", v[1] if v[0] == "with" else v, name)


def arg_root(t, d=0):
    """Arguments a term is built from."""
    out = set()
    if not isinstance(t, tuple) or d > 20:
        return out
    if len(t) > 2 and t[0] == "sym" and t[1] == "arg":
        return {t[2]}
    for x in t:
        if isinstance(x, tuple):
            out |= arg_root(x, d + 1)
    return out


def plain(t, d=0):
    """The argument a term is, if conversions are all that was done to it."""
    n = 0
    while isinstance(t, tuple) and n < 20:
        n += 1
        if t[0] == "sym" and t[1] == "arg":
            return t[2]
        if t[0] == "cast":
            t = t[2]
        elif t[0] == "mem":
            t = t[1]
        elif t[0] == "text of":
            x = plain(t[1])
            return None if x is None else ("text", x)
        elif t[0] == "call" and (CALL.search(t[1]) and CALL.search(t[1]).group(1) or "") in ("from", "into", "to_string", "as_str", "to_owned", "deref", "as_ref", "clone", "borrow") and len(t[2]) == 1:
            t = t[2][0]
        else:
            return None
    return None


def effects(I, p, roles):
    """Sequence of effects of a path, layout left out."""
    out = []
    for e in p.st.trace():
        if e[0] == "w":
            n = e[1]
            if n == "write_variant_tag" or n == "write_tag":
                out.append(("tag", tuple(plain(a) for a in e[2])))
            elif n.startswith("begin_"):
                out.append((n.split("_")[0] + "_" + n.split("_")[1], ()))
            elif n.startswith("end_"):
                out.append(("_".join(n.split("_")[:2]), ()))
            elif n in ("field_key", "field_key_raw"):
                out.append(("key", tuple(plain(a) for a in e[2])))
            elif n in ("write_null", "write_unit"):
                out.append(("null", ()))
            elif n.startswith("write_"):
                a = tuple(plain(x) for x in e[2])
                if arg_root(e[2]) or n not in ("write_byte", "write_str", "write_raw", "write_char_raw"):
                    out.append(("scalar", a))
        elif e[0] == "v":
            out.append(("value", (plain(e[1]),)))
    return tuple(out)


def expected(trait, name, f):
    """What a method has to write. Arguments are numbered from the receiver (0)."""
    if trait == "Serializer":
        if name in ("serialize_none", "serialize_unit", "serialize_unit_struct"):
            return (("null", ()),)
        if name == "serialize_some":
            return (("value", (1,)),)
        if name == "serialize_newtype_struct":
            return (("value", (2,)),)
        if name == "serialize_unit_variant":
            return (("tag", (3,)),)
        if name == "serialize_newtype_variant":
            return (("tag", (3,)), ("value", (4,)))
        if name in ("serialize_seq", "serialize_tuple", "serialize_tuple_struct"):
            return (("begin_seq", ()),)
        if name == "serialize_tuple_variant":
            return (("tag", (3,)), ("begin_seq", ()))
        if name in ("serialize_map", "serialize_struct"):
            return (("begin_struct", ()),)
        if name == "serialize_struct_variant":
            return (("tag", (3,)), ("begin_struct", ()))
        if re.fullmatch(r"serialize_(bool|[iu]\d+|f\d+|char|str|bytes)", name):
            return (("scalar", (1,)),)
        return None
    if name == "end":
        return ((ENDS[trait], ()),)
    if name == "serialize_element":
        return (("value", (1,)),)
    if name == "serialize_field":
        return (("key", (1,)), ("value", (2,))) if trait in ("SerializeStruct", "SerializeStructVariant") else (("value", (1,)),)
    if name == "serialize_key":
        return (("key", (("text", 1),)),)
    if name == "serialize_value":
        return (("value", (1,)),)
    if name == "serialize_entry":
        return (("key", (("text", 1),)), ("value", (2,)))
    return None


def explore(prog, f):
    I = Eff(prog, None)
    st = State()
    args = [("sym", "arg", i) for i in range(f.argc)]
    for i, a in enumerate(args):
        I.settype(a, f.locals[i + 1])
    return I, [p for p in I.run(f, args, st) if p.kind == "ret"]


def succeeded(I, p):
    """'ok', 'err', or the identity of the result that is returned."""
    v = I.deref(p.st, p.ret)
    if v[0] == "agg" and v[2] in ("Ok", "Err"):
        return v[2].lower()
    return v


def run(prog, rep, tier):
    rep.rule("writes", "on every successful path a serializer method writes exactly its tag, key and value, in order")
    rep.rule("same", "the methods of the same name in the multi-line and the compact serializer have the same effects")
    rep.rule("both", "both serializers implement the same methods")
    rep.rule("failed", "an error of the writer or of a nested value makes the method fail")
    rep.rule("root", "a structure is written without braces only if nothing was written before it")
    rep.rule("tags", "a tag's payload follows it directly, and whatever follows a tag without payload is kept apart from it")
    rep.rule("key", "the key serializer yields the text of its value or an error")
    imps = {}
    for f in prog.fns.values():
        if f.crate != "serde_styx" or not f.impl_trait or f.is_closure:
            continue
        m = TRAIT.search(f.impl_trait)
        if m:
            me = strip_generics(re.sub(r"^&('\S+ )?(mut )?", "", f.self_ty or "")).rsplit("::", 1)[-1]
            imps.setdefault((me, m.group(1)), {})[f.path.rsplit("::", 1)[-1]] = f
    rep.counts["serializers"] = sorted({k[0] for k in imps})
    clears = clearing(prog)
    # a serializer that builds text only has no writer of its own
    seen = {}
    for (me, trait), ms in sorted(imps.items()):
        keyser = trait == "Serializer" and not any("Impossible" not in m.locals[0] for n, m in ms.items() if n == "serialize_seq")
        for n, f in sorted(ms.items()):
            exp = expected(trait, n, f)
            if exp is None:
                if n in ("is_human_readable", "collect_str", "collect_seq", "collect_map", "skip_field"):
                    continue
                rep.bad("writes", f"{me}::{n}", f"{me}::{n}: no rule for this method", f.loc())
                continue
            try:
                I, paths = explore(prog, f)
            except TooBig:
                rep.bad("writes", f"{me}::{n}", f"{me}::{n}: too many paths", f.loc())
                continue
            if keyser:
                keys(rep, I, paths, me, n, f)
                continue
            good = 0
            for p in paths:
                s = succeeded(I, p)
                ev = p.st.trace()
                pend = [e[3] for e in ev if e[0] == "w" and e[3]] + [e[2] for e in ev if e[0] in ("v", "key")]
                for r in pend:
                    d = p.st.facts.get(("disc", r))
                    if s == "err":
                        continue
                    okk = s == r or d is not None and d.iv == ((0, 0),)
                    rep.check(okk, "failed", f"{me}:{trait}::{n}", f"{me}::{n} succeeds although a write may have failed", f.loc())
                if s == "err":
                    if not any(p.st.facts.get(("disc", r)) is not None and 1 in p.st.facts[("disc", r)] for r in pend):
                        rep.note(f"{me}::{n} reports an error of its own")
                        seen.setdefault((trait, n), {}).setdefault(me, set()).add("refuses")
                    continue
                good += 1
                eff = effects(I, p, None)
                seen.setdefault((trait, n), {}).setdefault(me, set()).add(eff)
                rep.check(eff == exp, "writes", f"{me}:{trait}::{n}", f"{me}::{n} writes {eff} on some path, expected {exp}", f.loc())
                root(rep, I, p, me, trait, n, f)
                tags(rep, p, me, n, f, clears)
            if not good:
                seen.setdefault((trait, n), {}).setdefault(me, set()).add("refuses")
    whole(prog, rep)
    pairs(rep, imps, seen)
    initial(prog, rep)


def clearing(prog):
    """Writer methods that take back the 'a payload follows' state without writing anything."""
    def sets(f):
        t, u = set(), set()
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and isinstance(s["p"][-1], list) and s["p"][-1][0] == "f" and s["r"]["k"] == "use" and s["r"]["x"]["k"] == "const":
                    (t if s["r"]["x"].get("int") in (1, "1") else u).add(s["p"][-1][2])
        return t, u
    fns = [f for f in prog.fns.values() if WRITER in strip_generics(f.self_ty or "") and f.crate == "styx_format" and not f.is_closure]
    flags = set()
    for f in fns:
        if f.path.endswith("::write_variant_tag"):
            flags = sets(f)[0]
    return {f.path.rsplit("::", 1)[-1] for f in fns if flags and flags <= sets(f)[1] and not list(f.calls()) and f.locals[0] == "()"} if flags else {f.path.rsplit("::", 1)[-1] for f in fns if "clear" in f.path.rsplit("::", 1)[-1]}


def tags(rep, p, me, n, f, clears):
    pending = False
    for e in p.st.trace():
        if e[0] == "v":
            pending = False
        elif e[0] == "w":
            if e[1] in ("write_variant_tag", "write_tag"):
                pending = True
            elif e[1] in clears or e[1].startswith("begin_"):
                pending = False
            elif pending:
                rep.bad("tags", f"{me}::{n} attached", f"{me}::{n}: {e[1]} writes between a tag and its payload", f.loc())
    if any(e[0] == "w" and e[1] in ("write_variant_tag", "write_tag") for e in p.st.trace()):
        rep.check(not pending, "tags", f"{me}::{n} apart", f"{me}::{n} writes a tag without payload and leaves the writer expecting one: the next value is glued to the tag", f.loc())


def root(rep, I, p, me, trait, n, f):
    """The flag that says nothing has been written yet: cleared by whatever writes, used by structures only."""
    ev = [e for e in p.st.trace() if e[0] in ("w", "v")]
    tagged = any(e[0] == "w" and e[1] == "write_variant_tag" for e in ev)
    for e in ev:
        if e[0] == "w" and e[1].startswith("begin_struct"):
            x = e[2][0] if e[2] else FALSE
            isflag = x[0] == "fld" and x[2] == "at_root"
            rep.check(x == FALSE or isflag and not tagged, "root", f"{me}::{n} root", f"{me}::{n} writes a structure without braces that may not be the root", f.loc())
    if trait == "Serializer" and has_flag(I.prog, me) and n not in ("serialize_some", "serialize_newtype_struct"):
        for e in ev:
            if e[0] == "v":
                # nested values are serialized with the flag cleared
                rep.check(e[3] == FALSE, "root", f"{me}::{n} nested", f"{me}::{n} writes before a nested value without noting that the root has been written", f.loc())
        if any(e[0] == "w" and e[1].startswith("begin_") for e in ev):
            # a scalar is followed by nothing
            rep.check(I.root_flag(p.st) == FALSE, "root", f"{me}::{n} after", f"{me}::{n} writes without noting that the root has been written", f.loc())


def has_flag(prog, me):
    for p, a in prog.adts.items():
        if p.startswith("serde_styx::") and p.rsplit("::", 1)[-1] == me:
            return any(n == "at_root" for n, t in a["variants"][0]["fields"])
    return False


def initial(prog, rep):
    """The flag is set only where a serializer is made."""
    n = 0
    for f in prog.fns.values():
        if f.crate != "serde_styx":
            continue
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and any(isinstance(e, list) and e[0] == "f" and e[2] == "at_root" for e in s["p"][1:]):
                    n += 1
                    r = s["r"]
                    rep.check(r["k"] == "use" and r["x"]["k"] == "const" and r["x"].get("int") in (0, "0", False), "root", f"{f.path} set", f"{f.path} sets the root flag again", f.loc(s["n"]))
    rep.counts["writes of the root flag"] = n
    for f in prog.fns.values():
        if f.crate != "serde_styx":
            continue
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and s["r"]["k"] == "agg" and str(s["r"].get("adt", "")).endswith("KeySerializer"):
                    x = s["r"]["xs"][0]
                    src = [c for cb, t, c in f.calls() if x["k"] in ("copy", "move") and t["d"] == x["p"]]
                    rep.check(len(src) == 1 and src[0].name in ("new", "default") and "String" in src[0].full, "key", f"{f.path} start", f"{f.path} makes a key serializer whose key is not empty", f.loc(s["n"]))


def whole(prog, rep):
    """The functions that serialize one value to text."""
    n = 0
    for f in prog.fns.values():
        if f.crate != "serde_styx" or f.impl_trait or f.is_closure or not f.pub or not f.argc or "Result<alloc::string::String" not in f.locals[0]:
            continue
        n += 1
        I, paths = explore(prog, f)
        for p in paths:
            s = succeeded(I, p)
            if s == "err":
                continue
            v = I.deref(p.st, p.ret)
            okk = s == "ok" and plain(v[3][0]) == ("text", 0) or v[0] == "call" and "serde_styx::" in v[1] and v[2] and plain(v[2][0]) == 0
            ks = [e[2] for e in p.st.trace() if e[0] == "key"]
            okk = okk and all(p.st.facts.get(("disc", r)) is not None and p.st.facts[("disc", r)].iv == ((0, 0),) for r in ks)
            rep.check(okk, "writes", f"{f.path}", f"{f.path} succeeds and yields {show(v)[:90]}, which is not the text of its value", f.loc())
    rep.floor("writes", "functions from a value to text", n, 2)


def keys(rep, I, paths, me, n, f):
    for p in paths:
        s = succeeded(I, p)
        if s == "err":
            continue
        ev = p.st.trace()
        if s != "ok":
            rep.check(any(e[0] == "v" and e[2] == s and plain(e[1]) in (1, 2) for e in ev), "key", f"{me}::{n}", f"{me}::{n} neither yields a key nor fails", f.loc())
            continue
        v = I.content(p.st, ("S", ("sym", "arg", 0), ()))
        got = v[2] if v[0] == "with" else ()
        want = 3 if n == "serialize_unit_variant" else 1
        okk = len(got) == 1 and keytext(got[0][1]) == want
        okk = okk or any(e[0] == "v" and plain(e[1]) in (1, 2) and p.st.facts.get(("disc", e[2])) is not None and p.st.facts[("disc", e[2])].iv == ((0, 0),) for e in ev)
        rep.check(okk, "key", f"{me}::{n}", f"{me}::{n} succeeds and the key is {show(got[0][1])[:80] if got else 'not set'}", f.loc())


def keytext(t):
    n = 0
    while isinstance(t, tuple) and n < 10:
        n += 1
        if t[0] == "sym" and t[1] == "arg":
            return t[2]
        if t[0] in ("mem",):
            t = t[1]
        elif t[0] == "cat" and len(t[1]) == 1 and t[1][0][0] == "val":
            t = t[1][0][1]
        elif t[0] == "call" and CALL.search(t[1]) and CALL.search(t[1]).group(1) in ("to_string", "to_owned", "from", "into", "clone") and t[2]:
            t = t[2][0]
        else:
            return None
    return None


def pairs(rep, imps, seen):
    mains = sorted({me for (me, tr) in imps if tr == "Serializer" and any("Impossible" not in m.locals[0] for n, m in imps[(me, tr)].items() if n == "serialize_seq")})
    rep.floor("both", "serializers with a writer", len(mains), 2)
    per = {}
    for (me, tr), ms in imps.items():
        if tr == "Serializer" and me not in mains:
            continue
        side = "Compact" if me.startswith("Compact") else ""
        per.setdefault((tr, me.removeprefix("Compact")), {})[side] = (me, ms)
    for (tr, base), sides in sorted(per.items()):
        if len(sides) == 1:
            rep.bad("both", f"{base}:{tr}", f"only {list(sides.values())[0][0]} implements {tr}")
            continue
        a, b = sides[""], sides["Compact"]
        for n in sorted(set(a[1]) | set(b[1])):
            rep.check(n in a[1] and n in b[1], "both", f"{base}:{tr}::{n}", f"{tr}::{n} is implemented by one of {a[0]} and {b[0]} only: the other falls back to the default")
            x, y = seen.get((tr, n), {}).get(a[0]), seen.get((tr, n), {}).get(b[0])
            rep.check(x == y, "same", f"{base}:{tr}::{n}", f"{a[0]}::{n} writes {x}, {b[0]}::{n} writes {y}", a[1].get(n, next(iter(a[1].values()))).loc())
