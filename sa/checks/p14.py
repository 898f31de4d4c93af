"""P14: schema validation enforces every constraint a schema states, at every depth."""
import re

from ..absint import C, FALSE, TRUE, State, TooBig, is_const, show
from ..elems import Elems
from ..iset import ISet

META = {
    "packages": ["facet-styx"],
    "crates": ["facet_styx", "styx_tree"],
    "level": "other",
    "technique": "abstract interpretation of the validator: every path of every schema variant is matched against the constraints the variant states",
    "level_note": "All abstract paths of the validator, one exploration per schema variant; collections are represented by up to two arbitrary elements, sub-validation is opaque (induction on the schema).",
    "explanation": "For every schema variant, each path that adds no error must have found the value's shape right and every stated bound kept, must have validated every element, entry or payload with the schema that belongs to it, "
    "and must pass every sub-result on; each path that adds an error must have found one of these violated.",
    "assumptions": ["f64/i128 parsing and comparison of the standard library", "a recursive validation is opaque: the property is an induction over the schema"],
}
RES = "facet_styx::schema_error::ValidationResult"
ERRS = ("errors",)


def field(prog, adt, name):
    a = prog.adts.get(adt)
    if a:
        for v in a["variants"]:
            for i, (n, t) in enumerate(v["fields"]):
                if n == name:
                    return i
    return None


class Val(Elems):
    def __init__(self, prog, root, **k):
        super().__init__(prog, on_call=self.hook, inline=self.wanted, depth=12, max_paths=60000, merging=False, **k)
        self.root = root

    def wanted(self, f, c):
        if f.is_closure:
            return True
        if (f.impl_trait or "").endswith(("Clone", "Debug", "Display")):
            return False
        if f.crate == "styx_tree":
            return "::value::" in f.path or "Value" in f.path
        if f.crate != "facet_styx":
            return False
        if "schema_types" in f.path and not f.impl_trait:
            return True
        if "schema_validate" in f.path:
            sig = " ".join(f.locals[: f.argc + 1])
            return f.locals[0] == "bool" or re.search(r"ValidationResult|Schema|Constraints", sig) and f.locals[0] not in ("alloc::string::String", "std::string::String", "&str", "&'static str", "&'{erased} str")
        return False

    # -------------------------------------------------------------- results
    def resid(self, st, a):
        """Identity of the result an argument refers to."""
        if a[0] == "ref":
            v = self.deref(st, a)
        else:
            v = a
        return v if v[0] in ("res", "sub") else None

    def errs_of(self, st, a):
        """The result whose error list an argument refers to."""
        v = self.deref(st, a)
        n = 0
        while v[0] == "mem" and n < 3:
            v = v[1]
            n += 1
        if v[0] == "fld" and v[2] == "errors" and v[1][0] in ("res", "sub"):
            return v[1]
        return None

    def bad(self, st, r, d=0):
        """Whether a result is known to hold an error."""
        if d > 6:
            return False
        for e in st.trace():
            if e[0] == "err" and e[1] == r:
                return True
            if e[0] == "merge" and e[1] == r and self.bad(st, e[2], d + 1):
                return True
        f = st.facts.get(("valid", r))
        return f is not None and f.iv == ((0, 0),)

    def clean(self, st, r):
        return not any(e[0] in ("err", "merge") and e[1] == r for e in st.trace()) and r[0] == "res"

    def hook(self, I, st, c, args, site):
        tgt = self.prog.target(c)
        if tgt is not None and tgt.id == self.root:
            st.nid += 1
            r = ("sub", st.nid)
            st.note(("sub", r, self.pt(st, args[1]), self.pt(st, args[2]), site))
            return [(st, r)]
        n = c.name
        if tgt is not None and (tgt.self_ty or "").endswith("ValidationResult"):
            if n in ("ok", "new", "default") and not args:
                st.nid += 1
                return [(st, ("res", st.nid))]
            r = self.resid(st, args[0]) if args else None
            if r is not None:
                if n == "error":
                    st.note(("err", r, site))
                    return [(st, C(0, "unit"))]
                if n == "warning":
                    st.note(("warn", r, site))
                    return [(st, C(0, "unit"))]
                if n == "merge":
                    o = self.resid(st, args[1])
                    st.note(("merge", r, o or self.deref(st, args[1]), site))
                    return [(st, C(0, "unit"))]
                if n == "is_valid":
                    return [(st, self.validity(st, r))]
            return None
        if n in ("is_empty", "len", "push", "extend", "append") and args:
            r = self.errs_of(st, args[0])
            if r is not None:
                if n == "is_empty":
                    return [(st, self.validity(st, r))]
                if n == "push":
                    st.note(("err", r, site))
                    return [(st, C(0, "unit"))]
                if n in ("extend", "append"):
                    o = self.errs_of(st, args[1])
                    st.note(("merge", r, o or self.deref(st, args[1]), site))
                    return [(st, C(0, "unit"))]
        if n in ("insert", "push", "contains", "contains_key") and len(args) in (2, 3) and re.search(r"HashSet|BTreeSet|Vec|HashMap|BTreeMap|slice", c.full) and tgt is None:
            base = self.addr(st, args[0])
            if base[0] not in ("iter", "coll") or n in ("insert", "push"):
                if args[0][0] == "ref" and self.last_loc(st, args[0])[0] == "L":
                    l = self.last_loc(st, args[0])
                    key = self.deref(st, args[1])
                    if n in ("insert", "push"):
                        st.note(("insert", l[1:], key, site))
                        return [(st, C(0, "unit") if n == "push" else st.fresh("ins"))]
                    return [(st, ("seen", l[1:], key))]
        return None

    def validity(self, st, r):
        if self.bad(st, r):
            return FALSE
        if self.clean(st, r):
            return TRUE
        t = ("valid", r)
        self.settype(t, "bool")
        return t

    def pt(self, st, a):
        """What a pointer argument denotes: the local's value, or an address."""
        n = 0
        while a[0] == "ref" and n < 8:
            if a[1][0] == "S":
                v = self.content(st, a[1])
                if v[0] != "ref":
                    return a
                a = v
            else:
                a = self.content(st, a[1])
            n += 1
        return a

    # -------------------------------------------------------------- library
    def unknown(self, st, callee, args, site, rty=None):
        fn, b, n = site
        t = fn.term(b)
        mut = False
        for i, x in enumerate(t.get("args", [])):
            ty = fn.locals[x["p"][0]] if x["k"] in ("copy", "move") and len(x["p"]) == 1 else ""
            if "&mut" in ty or x["k"] in ("copy", "move") and len(x["p"]) > 1 and i < len(args) and args[i][0] == "ref" and False:
                mut = True
        if mut:
            return super().unknown(st, callee, args, site, rty)
        v = ("call", callee.full, tuple(self.deref(st, a) for a in args), 0)
        if rty:
            self.settype(v, rty)
        return [(st, v)]

    def is_coll(self, c, a, st):
        return super().is_coll(c, a, st)

PLAIN = re.compile(r"(?:::|^)([a-z_0-9]+)(?:::<([^<>]*)>)?$")
CALL = re.compile(r"(?:::|^)([a-z_0-9]+)(?:::<(.*)>)?$")


def rd(t, d=0):
    """Readable address of a term."""
    if not isinstance(t, tuple) or not t or d > 40:
        return str(t)
    k = t[0]
    if k == "ref":
        return rdloc(t[1], d)
    if k == "fld":
        p = rd(t[1], d + 1)
        return p if t[2] == "pointer" else f"{p}.{t[2]}"
    if k == "dc":
        return f"{rd(t[1], d + 1)}.{t[2]}" if t[2] != "Some" else rd(t[1], d + 1) + "?"
    if k == "mem":
        return rd(t[1], d + 1)
    if k == "sym":
        return str(t[2]) if t[1] == "arg" and len(t) > 2 else ":".join(map(str, t[1:]))
    if k in ("item", "key", "value"):
        return f"{k}{t[2]}({rd(t[1], d + 1)})"
    if k == "call":
        m = PLAIN.search(t[1]) or CALL.search(t[1])
        n = (m.group(1) + ("::" + m.group(2) if m.group(2) and m.group(1) == "parse" else "")) if m else t[1]
        xs = [rd(a, d + 1) for a in t[2]]
        if n in ("index", "get", "get_unchecked") and len(xs) == 2:
            j = re.fullmatch(r"(\d+)|count\(.*,(\d+)\)", xs[1])
            if j:
                return f"item{j.group(1) or j.group(2)}({xs[0]})" + ("!" if n == "get" else "")
        if n == "first" and len(xs) == 1:
            return f"item0({xs[0]})!"
        return n + "(" + ",".join(xs) + ")"
    if k == "agg":
        if t[1] == "alloc::boxed::Box":
            return rd(t[3][0], d + 1)
        return (t[2] or t[1].rsplit("::", 1)[-1]) + "{" + ",".join(rd(a, d + 1) for a in t[3]) + "}"
    if k == "with":
        return rd(t[1], d + 1) + "{" + ",".join(f"{a}={rd(b, d + 1)}" for a, b in t[2]) + "}"
    if k == "c":
        return repr(t[2])
    if k == "elem":
        return elem(rd(t[1], d + 1), t[2], d)
    if k == "op":
        return f"({rd(t[2], d + 1)} {t[1]} {rd(t[3], d + 1)})"
    if k in ("disc", "un", "len", "seen", "valid", "count", "coll", "zip", "iter", "rev"):
        return k + "(" + ",".join(rd(x, d + 1) for x in t[1:]) + ")"
    return "<" + ",".join(rd(x, d + 1) if isinstance(x, tuple) else str(x) for x in t) + ">"


def elem(base, p, d):
    if p[0] == "i":
        j = re.fullmatch(r"(\d+)|count\(.*,(\d+)\)", rd(p[1], d + 1))
        if j:
            return f"item{j.group(1) or j.group(2)}({base})"
    if p[0] == "ci" and len(p) > 1 and not (len(p) > 3 and p[3]):
        return f"item{p[1]}({base})"
    return base + "[" + ",".join(rd(x, d + 1) if isinstance(x, tuple) else str(x) for x in p) + "]"


def rdloc(l, d):
    base = rd(l[1], d + 1) if l[0] == "S" else "local"
    for p in l[-1]:
        if p[0] == "f":
            if p[2] != "pointer":
                base += f".{p[2] or p[1]}"
        elif p[0] == "dc":
            base += "?" if p[2] == "Some" else f".{p[2]}"
        elif p[0] == "*":
            pass
        else:
            base = elem(base, p, d)
    return base.replace("!?.0", "")


def txt(t):
    return rd(t).replace("!?.0", "")


class Path:
    """One path of the validator: what it found out and what it did."""

    def __init__(self, I, p):
        self.I, self.st = I, p.st
        self.ret = I.deref(p.st, p.ret) if p.ret else None
        self.where = None
        self.rel = {}
        self.val = {}
        for k, x in p.st.facts.items():
            if k[0] == "rel":
                self.rel[(txt(k[1]), txt(k[2]))] = x
                self.rel[(txt(k[2]), txt(k[1]))] = (x & 2) | ((x & 1) << 2) | ((x & 4) >> 2)
            else:
                n = txt(k)
                self.val[n] = self.val[n] & x if n in self.val else x
        self.ev = p.st.trace()
        self.subs = {e[1]: (txt(e[2]), txt(e[3])) for e in self.ev if e[0] == "sub"}
        self.errs = [e for e in self.ev if e[0] == "err"]
        self.reported = self.content(self.ret)
        self.isbad = self.ret is not None and self.ret[0] in ("res", "sub") and I.bad(p.st, self.ret)
        self.errors = sum(1 for e in self.errs if e[1] in self.holders)

    def content(self, r):
        """Sub-validations whose outcome is part of r; self.holders: results that flow into it."""
        out, todo, seen = set(), [r], set()
        while todo:
            x = todo.pop()
            if x in seen or x is None:
                continue
            seen.add(x)
            if x[0] == "sub":
                out.add(x)
            for e in self.ev:
                if e[0] == "merge" and e[1] == x:
                    todo.append(e[2])
        self.holders = seen
        return out

    def one(self, t):
        """The only value a term can have here, if it is known."""
        x = self.val.get(t)
        if x is not None and len(x.iv) == 1 and x.iv[0][0] == x.iv[0][1]:
            return x.iv[0][0]
        return None

    def isnt(self, t, v):
        x = self.val.get(t)
        return x is not None and v not in x

    def disc(self, t):
        return self.one(f"disc({t})")

    def some(self, t):
        d = self.disc(t)
        return None if d is None else d == 1

    def valid(self, sub):
        f = self.st.facts.get(("valid", sub))
        return None if f is None else f.iv == ((1, 1),)

    def call(self, value, schema, kept=True):
        """A sub-validation of this value with this schema (both addresses) that is part of the result."""
        for r, (v, s) in self.subs.items():
            if v == value and s == schema and (not kept or r in self.reported or self.valid(r) is not None):
                return r
        return None

    def eq(self, a, b):
        m = self.rel.get((a, b))
        if m is None and a == b:
            return True
        if m == 2:
            return True
        if m is not None and not m & 2:
            return False
        x, y = self.one(a), self.one(b)
        if x is not None and y is not None:
            return x == y
        x, y = self.val.get(a), self.val.get(b)
        if x is not None and y is not None and not (x & y):
            return False
        return None

    def shape(self, v, want, variants):
        """Whether value v carries this payload: True, False or None."""
        d = self.disc(f"{v}.payload")
        if d == 0:
            return False
        if d == 1:
            if self.disc(f"{v}.payload?.0") == variants[want]:
                return True
            if self.isnt(f"disc({v}.payload?.0)", variants[want]):
                return False
        return None

    def unit(self, v):
        a, b = self.disc(f"{v}.tag"), self.disc(f"{v}.payload")
        if a == 1 or b == 1:
            return False
        return True if a == 0 and b == 0 else None

    def ended(self, src):
        return any(e[0] == "end" and rd(e[1]) == src for e in self.ev)

    def n(self, src):
        return self.one(f"len({src})")

    def elems(self, src):
        return sorted({e[2] for e in self.ev if e[0] == "elem" and rd(e[1]) == src})


class Judge:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.pay = {v["name"]: v["discr"] for v in prog.adts["styx_tree::value::Payload"]["variants"]}
        self.sch = {v["name"]: v["discr"] for v in prog.adts["facet_styx::schema_types::Schema"]["variants"]}

    # ---- one path: (needs, violations). needs: [(ok, key, text)]; violations: number of broken constraints found
    def path(self, name, p, root):
        self.p, self.needs, self.broken, self.free = p, [], 0, False
        where = root.loc()
        if p.ret is None or p.ret[0] not in ("res", "sub") or any(h[0] not in ("res", "sub") for h in p.holders):
            self.rep.bad("decide", name, f"{name}: cannot tell what result is returned ({txt(p.ret) if p.ret else None})", where)
            return
        getattr(self, "v_" + name)(p)
        for okk, key, text in self.needs:
            # a path that reports an error may leave other constraints undecided
            if not okk and not (p.isbad and key != "always"):
                self.rep.bad("enforced", f"{name}:{text}", f"{name}: a value is accepted although {text}", where)
            else:
                self.rep.good("enforced", f"{name}:{text}")
        for r, (v, s) in p.subs.items():
            if r not in p.reported and p.valid(r) is None:
                self.rep.bad("nested", f"{name}:{v}:{s}", f"{name}: the result of validating {v} is dropped", where)
            elif r not in p.reported and p.valid(r) is False and not (p.isbad or name in ("Union", "Enum") and any(p.valid(x) for x in p.reported)):
                self.rep.bad("nested", f"{name}:{v}:{s}", f"{name}: {v} was found invalid and no error is reported", where)
            else:
                self.rep.good("nested", f"{name}:{v}")
        if self.free:
            return
        if p.errors and not self.broken:
            self.rep.bad("justified", name, f"{name}: an error is reported on a path where no constraint is known to be broken: {self.facts(p)}", where)
        elif p.errors < self.broken:
            self.rep.bad("enforced", f"{name}:count", f"{name}: {self.broken} broken constraints and {p.errors} errors: {self.facts(p)}", where)
        else:
            self.rep.good("justified", name)

    def facts(self, p):
        return "; ".join(f"{k}={x.iv[0][0]}" for k, x in list(p.val.items()) if k.startswith("disc(") and len(x.iv) == 1 and x.iv[0][0] == x.iv[0][1])[:300]

    def need(self, cond, text):
        """cond: True holds, False broken (an error is due), None unknown."""
        self.needs.append((cond is True, "c", text))
        if cond is False:
            self.broken += 1
        return cond

    def must(self, cond, text):
        """An action every path has to take, whatever else it found."""
        self.needs.append((bool(cond), "c", text))

    def scalar(self, p):
        r = p.shape("value", "Scalar", self.pay)
        if r is None and p.disc("value.tag") == 1:
            r = False
        if p.isbad and r and p.disc("value.tag") == 1 and not self.broken:
            self.free = True
        return self.need(r, "it was not found to be a scalar")

    TEXT = "value.payload?.0.Scalar.0.text"

    def bounds(self, p, name, adt, measures):
        base = f"schema.{name}.0"
        c = p.some(base)
        self.must(c is not None, "the constraints were not looked at")
        if not c:
            return
        for v in self.prog.adts[adt]["variants"]:
            for f, ty in v["fields"]:
                d = p.some(f"{base}?.0.{f}")
                self.must(d is not None, f"{f} was not looked at")
                if not d:
                    continue
                b = f"{base}?.0.{f}?.0"
                if f in ("min", "min_len", "max", "max_len"):
                    got = [m for (x, y), m in p.rel.items() if y == b and re.fullmatch(measures, x)]
                    if not got:
                        self.need(None, f"{f} was not compared with the value")
                        continue
                    m = got[0]
                    for z in got[1:]:
                        m &= z
                    out = 1 if f.startswith("min") else 4
                    self.need(True if not m & out else False if m == out else None, f"{f} is violated")
                    if m == 2 | out and p.errors:
                        self.rep.bad("justified", f"{name}:{f}", f"{name}: the bound {f} itself is refused", None)
                else:
                    used = [k for k in list(p.val) + [a for a, b2 in p.rel] if b in k]
                    if not used:
                        self.rep.bad("constraint", f"{adt.rsplit('::', 1)[-1]}.{f}", f"{name}: the constraint {f} is never compared with the value")

    def v_String(self, p):
        if self.scalar(p):
            t = re.escape(self.TEXT)
            self.bounds(p, "String", "facet_styx::schema_types::StringConstraints", rf"len\({t}\)|count\(chars\({t}\)\)|len\(as_bytes\({t}\)\)")

    def number(self, p, name, ty):
        if not self.scalar(p):
            return None
        c = f"parse::{ty}({self.TEXT})"
        d = p.disc(c)
        self.need(None if d is None else d == 0, f"its text was not parsed as {ty}")
        return c + ".Ok.0" if d == 0 else None

    def v_Int(self, p):
        n = self.number(p, "Int", "i128")
        if n:
            self.bounds(p, "Int", "facet_styx::schema_types::IntConstraints", re.escape(n))

    def v_Float(self, p):
        n = self.number(p, "Float", "f64")
        if not n:
            return
        fin = p.one(f"is_finite({n})")
        nan, inf = p.one(f"is_nan({n})"), p.one(f"is_infinite({n})")
        ok = True if fin == 1 or nan == 0 and inf == 0 else False if fin == 0 or nan == 1 or inf == 1 else None
        self.need(ok, "it may be NaN or infinite")
        if ok:
            self.bounds(p, "Float", "facet_styx::schema_types::FloatConstraints", re.escape(n))

    def v_Bool(self, p):
        if self.scalar(p):
            a, b = p.eq(self.TEXT, "'true'"), p.eq(self.TEXT, "'false'")
            self.need(True if a or b else False if a is False and b is False else None, "its text is neither true nor false")

    def v_Literal(self, p):
        if self.scalar(p):
            self.need(p.eq(self.TEXT, "schema.Literal.0"), "its text is not the literal")

    def v_Unit(self, p):
        self.need(p.unit("value"), "it is not the unit value")

    def v_Any(self, p):
        pass

    def delegate(self, p, schema, value="value"):
        self.must(p.call(value, schema) in p.reported, f"{value} was not validated with {schema}")

    def v_Flatten(self, p):
        self.delegate(p, "schema.Flatten.0.0.0.value")

    def v_Default(self, p):
        self.delegate(p, "schema.Default.0.0.1.value")

    def v_Deprecated(self, p):
        self.delegate(p, "schema.Deprecated.0.0.1.value")
        self.rep.check(any(e[0] == "warn" and e[1] in p.holders for e in p.ev), "deprecated", "warning", "a deprecated value is accepted without a warning")

    def v_Optional(self, p):
        u = p.unit("value")
        s = p.call("value", "schema.Optional.0.0.0.value")
        if u is True:
            self.rep.check(not p.errors and not p.reported, "optional", "unit", "the unit value of an optional is validated with the inner schema")
        else:
            self.must(s in p.reported, "a value that may be present was not validated with the inner schema")

    def named(self, p, key, value, holder):
        """Lookup of a named type and validation with it."""
        get = [k[5:-1] for k in p.val if re.match(r"disc\(get\(self\.schema_file\.schema,", k)]
        want = f"get(self.schema_file.schema,{key})"
        self.must(want in get, f"the type {key} was not looked up")
        d = p.some(want)
        self.need(d, "its type is not defined")
        if d:
            self.delegate(p, want + "?.0", value)

    def v_Type(self, p):
        d = p.some("schema.Type.name")
        if d is None:
            self.must(False, "the type name was not looked at")
        elif d:
            self.named(p, "Some{schema.Type.name?.0}", "value", None)
        else:
            self.need(p.unit("value"), "it is not the unit value")

    # ---- collections
    def items(self, p, want):
        field = {"Sequence": "items", "Object": "entries"}[want]
        src = f"value.payload?.0.{want}.0.{field}"
        if not self.need(p.shape("value", want, self.pay), f"it was not found to be a {want.lower()}"):
            return None
        self.must(p.ended(src), f"not every one of its {field} was visited")
        for e in p.ev:
            if e[0] == "partial" and src in rd(e[1]):
                self.rep.bad("elements", f"{want}:{e[2]}", f"{e[2]} leaves out {field} of the value")
        return src

    def v_Seq(self, p):
        src = self.items(p, "Sequence")
        if src:
            for k in p.elems(src):
                self.must(p.call(f"item{k}({src})", "schema.Seq.0.0.0.value"), "an item was not validated with the element schema")

    def v_Tuple(self, p):
        src = self.items(p, "Sequence")
        if src:
            s = "schema.Tuple.0.0"
            self.need(p.eq(f"len({src})", f"len({s})"), "its length was not found equal to the number of element schemas")
            for k in p.elems(src):
                self.must(p.call(f"item{k}({src})", f"item{k}({s}).value"), "an item was not validated with the schema at its position")

    def v_Map(self, p):
        src = self.items(p, "Object")
        if not src:
            return
        s = "schema.Map.0.0"
        x = p.val.get(f"len({s})")
        n = p.n(s)
        if n not in (1, 2):
            self.need(False if x is not None and 1 not in x and 2 not in x else None, "the map schema has neither one nor two types")
            return
        for k in p.elems(src):
            e = f"item{k}({src})"
            g = self.keyed(p, e + ".key")
            if g is None:
                # nothing about the key itself is required of @map
                g = True
            if not g:
                self.broken += 1
                continue
            self.must(p.call(f"{e}.value", f"item{n - 1}({s}).value"), "the value of an entry was not validated with the value schema")
            if n == 2:
                self.must(p.call(f"{e}.key", f"item0({s}).value"), "the key of an entry was not validated with the key schema")

    def keyed(self, p, key):
        """Whether a key is plain text: True, False, None."""
        if p.disc(f"{key}.tag") == 1:
            return False
        sh = p.shape(key, "Scalar", self.pay)
        if sh is False:
            return False
        return True if sh and p.disc(f"{key}.tag") == 0 else None

    def v_Object(self, p):
        src = self.items(p, "Object")
        if not src:
            return
        s = "schema.Object.0.0"
        catch = [j for j in range(3) if p.some(f"key{j}({s}).value.tag")]
        nocatch = p.n(s) is not None and all(p.some(f"key{j}({s}).value.tag") is False for j in range(p.n(s)))
        names = {}
        for k in p.elems(src):
            e = f"item{k}({src})"
            u = p.unit(e + ".key")
            g = True if u else self.keyed(p, e + ".key")
            if g is False:
                self.broken += 1
                continue
            if g is None:
                self.must(False, "the key of an entry was not looked at")
                continue
            t = "''" if u else f"{e}.key.payload?.0.Scalar.0.text"
            names[k] = None if u else t
            get = f"get({s},Documented{{ObjectKey{{Some{{{t}}},None{{}}}},None{{}}}})"
            d = p.some(get)
            if d is None:
                if u and catch:
                    d = False
                else:
                    self.must(False, "the field of an entry was not looked up by its name")
                    continue
            if d:
                self.must(p.call(e + ".value", get + "?.0"), "the value of a field was not validated with the field's schema")
            elif catch:
                self.must(any(p.call(e + ".value", f"value{j}({s})") for j in catch), "the value of an additional field was not validated with the catch-all schema")
                if not any(f"key{j}({s}).value.tag?.0" in x for j in catch for x in list(p.val) + [a for a, b in p.rel]):
                    self.rep.bad("constraint", "ObjectKey.tag", "Object: the type of a typed catch-all key is never compared with the key")
            elif nocatch:
                self.need(False, "a field is not declared and there is no catch-all")
            else:
                self.must(False, "a field is not declared and the schema was not searched for a catch-all")
        # fields that must be there
        self.must(p.ended(s), "not every declared field was considered")
        ins = {}
        for e in p.ev:
            if e[0] == "insert":
                ins.setdefault(e[1], []).append(txt(e[2]))
        for j in range(p.n(s) or 0):
            nm = p.some(f"key{j}({s}).value.value")
            if nm is False:
                continue
            if nm is None:
                self.must(p.some(f"key{j}({s}).value.tag"), "the name of a declared field was not looked at")
                continue
            name = f"key{j}({s}).value.value?.0"
            there = None
            for k2, x in p.st.facts.items():
                if k2[0] == "seen" and name in txt(k2[2]) and re.fullmatch(r"(Some\{)?" + re.escape(name) + r"\}?", txt(k2[2])):
                    there = x.iv == ((1, 1),)
                    for k, t in names.items():
                        self.must(t is None or any(t in i for i in ins.get(k2[1], [])), "a field that is present was not recorded as seen")
            eqs = [p.eq(t, name) for t in names.values() if t]
            if there is None and any(x is True for x in eqs):
                there = True
            if there is None and len(eqs) == len(names) and all(x is False for x in eqs) and eqs:
                there = False
            req = self.required(p, f"value{j}({s})")
            if req is None and there is True:
                continue
            if there:
                continue
            if req is False:
                continue
            if there is False and req and self.sch["Flatten"] in p.val[f"disc(value{j}({s}))"]:
                self.rep.bad("constraint", "Flatten", "Object: a flattened entry is taken for a field of its own")
            if req is None or there is None:
                self.must(False, "a declared field was not found present, and was not found to be optional")
                continue
            self.need(False, "a required field is missing")

    def required(self, p, v, d=0):
        x = p.val.get(f"disc({v})")
        if x is None or d > 4:
            for k, y in p.val.items():
                if re.fullmatch(r"[a-z_]+\(" + re.escape(v) + r"\)", k) and not k.startswith("disc"):
                    return y.iv == ((1, 1),)
            return None
        opt = {self.sch["Optional"], self.sch["Default"]}
        if all(a == b and a in opt for a, b in x.iv):
            return False
        if p.disc(v) == self.sch["Deprecated"]:
            return self.required(p, f"{v}.Deprecated.0.0.1.value", d + 1)
        if any(o in x for o in opt) or self.sch["Deprecated"] in x:
            return None
        return True

    # ---- combinators
    def v_Union(self, p):
        s = "schema.Union.0.0"
        hit = [r for r in p.reported if p.subs[r][0] == "value" and re.fullmatch(rf"item\d\({re.escape(s)}\)\.value", p.subs[r][1])]
        if any(p.valid(r) for r in hit):
            self.must(not p.errors, "a variant matched")
            self.free = False
            return
        n = p.n(s)
        if n is None or not p.ended(s) and n:
            self.must(False, "not every variant was tried")
            return
        tried = [p.call("value", f"item{k}({s}).value", False) for k in range(n)]
        self.need(False if all(t and p.valid(t) is False for t in tried) else None, "no variant was found to match")

    def v_OneOf(self, p):
        b = p.call("value", "schema.OneOf.0.0.0.value")
        v = p.valid(b) if b else None
        if b and b in p.reported and v is not True:
            return
        if v is None:
            self.must(False, "it was not validated with the base type")
            return
        if v is False:
            self.broken += 1
            self.must(False, "the base type refuses it")
            return
        s = "schema.OneOf.0.0.1"
        if p.n(s) == 0 and not p.errors:
            return
        if not self.need(p.shape("value", "Scalar", self.pay), "it cannot be compared with the allowed values"):
            return
        same, other = [], []
        for (a, c), m in p.rel.items():
            if a != self.TEXT:
                continue
            j = re.search(rf"item(\d)\({re.escape(s)}\)", c)
            if not j:
                continue
            raw = re.fullmatch(rf"item\d\({re.escape(s)}\)(\.0)?", c)
            if raw and not any(x.startswith("disc(") and f"item{j.group(1)}({s})" in x and self.p.one(x) == 1 for x in p.val):
                self.rep.bad("one-of", "raw", "OneOf: the source text of an allowed value is compared with the value's content")
            (same if m == 2 else other if not m & 2 else []).append(int(j.group(1)))
        if same:
            return
        n = p.n(s)
        self.need(False if n is not None and set(range(n)) <= set(other) and p.ended(s) else None, "it was not found equal to an allowed value")

    def v_Enum(self, p):
        s = "schema.Enum.0.0"
        t = p.some("value.tag")
        if t is None:
            self.must(False, "its tag was not looked at")
            return
        if t:
            get = f"get({s},Documented{{value.tag?.0.name,None{{}}}})"
            d = p.some(get)
            if self.need(d, "its variant is not declared") is not True:
                return
            pay = p.some("value.payload")
            v = get + "?.0"
            sub = [r for r, (a, b) in p.subs.items() if b == v and r in p.reported]
            if sub:
                a = p.subs[sub[0]][0]
                self.must(re.fullmatch(r"Value\{None\{\},(Some\{value\.payload\?\.0\}|value\.payload),.*\}|value\{.*tag=None\{\}.*\}", a) and "payload=" not in a or pay is False and a.startswith("Value{None{},None{}"), "the payload was not validated as it stands")
                return
            if pay is None or pay:
                self.must(False, "its payload was not validated with the variant's schema")
                return
            k = p.val.get(f"disc({v})")
            unit = p.disc(v) == self.sch["Unit"] or p.disc(v) == self.sch["Type"] and (p.some(v + ".Type.name") is False or p.eq(v + ".Type.name?.0", "'unit'"))
            if unit:
                return
            hard = {self.sch[x] for x in ("String", "Int", "Float", "Bool", "Object", "Seq", "Tuple", "Map", "Literal", "Type", "OneOf")}
            if k is None:
                self.must(False, "the variant's schema was not looked at")
            elif p.disc(v) == self.sch["Type"]:
                self.need(False if p.some(v + ".Type.name") and p.eq(v + ".Type.name?.0", "'unit'") is False else None, "the variant requires a payload")
            elif any(h in k for h in hard):
                self.need(False, "the variant requires a payload")
            else:
                self.free = True
            return
        good = [r for r in p.reported if p.subs[r][0] == "value" and p.valid(r) and re.fullmatch(rf"value\d\({re.escape(s)}\)", p.subs[r][1])]
        if good:
            self.must(not p.errors, "a variant matched")
            return
        sh = p.shape("value", "Scalar", self.pay)
        if sh is False:
            self.need(False, "it has no tag and is not a scalar")
            return
        n = p.n(s)
        done = n is not None and p.ended(s)
        T = self.TEXT
        for k in range(n or 0):
            v = f"value{k}({s})"
            if p.call("value", v, False):
                if p.valid(p.call("value", v, False)) is not False:
                    done = False
                continue
            x = p.val.get(f"disc({v})")
            cand = {"String": None, "Int": p.disc(f"parse::i128({T})") == 1, "Float": p.disc(f"parse::f64({T})") == 1, "Bool": p.eq(T, "'true'") is False and p.eq(T, "'false'") is False}
            for nm, out in cand.items():
                if x is None or self.sch[nm] in x and not (out and p.disc(v) == self.sch[nm]):
                    done = False
        if any(r in p.reported and p.valid(r) is False for r in p.subs):
            self.rep.check(done, "justified", "Enum:untried", "Enum: an untagged value is refused although not every scalar variant was tried")
            return
        self.need(False if done else None, "it has no tag and no variant was found to accept it")


def explore(prog, root, variant):
    I = Val(prog, root.id)
    st = State()
    args = [("sym", "arg", n) for n in ("self", "value", "schema", "path")]
    for i, a in enumerate(args):
        I.settype(a, root.locals[i + 1])
    d = ("disc", I.content(st, ("S", args[2], ())))
    I.settype(d[1], "facet_styx::schema_types::Schema")
    if not I.refine(st, d, ISet.of(variant["discr"])):
        return I, []
    return I, list(I.run(root, args, st))


class Once:
    """Reports each obligation of the schema once, however many paths it was decided on."""

    def __init__(self, rep):
        self.rep, self.seen, self.failed = rep, set(), set()

    def good(self, rule, key):
        self.seen.add((rule, key))

    def bad(self, rule, key, msg, where=None):
        if (rule, key) not in self.failed:
            self.failed.add((rule, key))
            self.rep.bad(rule, key, msg, where)

    def check(self, cond, rule, key, msg, where=None):
        if cond:
            self.good(rule, key)
        else:
            self.bad(rule, key, msg, where)

    def flush(self):
        for r, k in sorted(self.seen - self.failed):
            self.rep.good(r, k)


def run(prog, rep, tier):
    rep.rule("enforced", "a path without error found every constraint of the schema kept")
    rep.rule("justified", "a path with an error found a constraint broken")
    rep.rule("nested", "the result of every nested validation is merged, returned, or tested and its failure reported")
    rep.rule("elements", "no entry, item or variant is left out")
    rep.rule("constraint", "every declared constraint is compared with the value")
    rep.rule("one-of", "allowed values are compared by content")
    rep.rule("optional", "the unit value is a value of every optional")
    rep.rule("deprecated", "deprecation is reported")
    rep.rule("root", "documents and named types are validated with the schema found under that name")
    rep.rule("api", "a result is valid exactly when it holds no error, and recording an error or merging a result keeps every error")
    rep.rule("decide", "the analysis can follow the result")
    root = next((f for f in prog.fns.values() if f.crate == "facet_styx" and f.path.endswith("::validate_value")), None)
    if root is None:
        rep.bad("decide", "root", "no validate_value found")
        return
    once = Once(rep)
    J = Judge(prog, once)
    n = 0
    for v in prog.adts["facet_styx::schema_types::Schema"]["variants"]:
        if not hasattr(J, "v_" + v["name"]):
            rep.bad("decide", f"variant:{v['name']}", f"no rule for the schema variant {v['name']}", root.loc())
            continue
        try:
            I, paths = explore(prog, root, v)
        except TooBig as e:
            rep.bad("decide", v["name"], f"{v['name']}: {e}", root.loc())
            continue
        rep.counts[f"paths {v['name']}"] = len(paths)
        rep.check(bool(paths), "decide", f"paths:{v['name']}", f"{v['name']}: no path found", root.loc())
        for p in paths:
            if p.kind != "ret":
                continue
            n += 1
            J.path(v["name"], Path(I, p), root)
    once.flush()
    rep.floor("decide", "paths of the validator", n, 300)
    entry(prog, rep, root, J)
    api(prog, rep)


def entry(prog, rep, root, J):
    for name, key in (("validate_document", "None{}"), ("validate_as_type", None)):
        f = next((f for f in prog.fns.values() if f.crate == "facet_styx" and f.path.endswith("::" + name)), None)
        if f is None:
            rep.bad("root", name, f"{name} is gone")
            continue
        I = Val(prog, root.id)
        st = State()
        args = [("sym", "arg", x) for x in ("self", "value", "type_name")[: f.argc]]
        for i, a in enumerate(args):
            I.settype(a, f.locals[i + 1])
        for q in I.run(f, args, st):
            if q.kind != "ret":
                continue
            p = Path(I, q)
            want = f"get(self.schema_file.schema,{key or 'Some{type_name}'})"
            d = p.some(want)
            if d:
                rep.check(p.call("value", want + "?.0") in p.reported, "root", f"{name}:found", f"{name}: the value is not validated with the schema found", f.loc())
            else:
                rep.check(d is False and p.isbad, "root", f"{name}:missing", f"{name}: a value is accepted without a schema", f.loc())


def api(prog, rep):
    fns = {f.path.rsplit("::", 1)[-1]: f for f in prog.fns.values() if f.crate == "facet_styx" and (f.self_ty or "").endswith("ValidationResult") and not f.impl_trait}
    for name in ("ok", "is_valid", "error", "merge"):
        f = fns.get(name)
        if f is None:
            rep.bad("api", name, f"ValidationResult::{name} is gone")
            continue
        I = Val(prog, None)
        I.on_call = lambda I_, st, c, args, site: None if (prog.target(c) is not None) else I.hook(I_, st, c, args, site)
        I.inline = lambda t, c: t.crate == "facet_styx" and "schema_error" in t.path
        st = State()
        a, b = ("sub", 1), ("sub", 2)
        args = []
        for i in range(f.argc):
            x = (a, b)[i] if i < 2 else ("sym", "arg", i)
            if f.locals[i + 1].startswith("&"):
                st.env[(("tmp", -i), 0)] = x
                x = ("ref", ("L", ("tmp", -i), 0, ()))
            args.append(x)
        for q in I.run(f, args, st):
            if q.kind != "ret":
                continue
            ev = q.st.trace()
            if name == "is_valid":
                rep.check(q.ret == ("valid", a), "api", name, f"is_valid returns {txt(q.ret)} instead of whether there are no errors", f.loc())
            elif name == "error":
                rep.check(any(e[0] == "err" and e[1] == a for e in ev), "api", name, "an error is not recorded on some path", f.loc())
            elif name == "merge":
                rep.check(any(e[0] == "merge" and e[1] == a and e[2] == b for e in ev), "api", name, "the errors of a merged result are not taken over on some path", f.loc())
            else:
                e = I.deref(q.st, q.ret)
                rep.check(e[0] == "agg" and all(x[0] == "call" and CALL.search(x[1]) and CALL.search(x[1]).group(1) in ("new", "default") or x[0] in ("agg", "repeat") for x in e[3]), "api", name, "a fresh result is not empty", f.loc())
