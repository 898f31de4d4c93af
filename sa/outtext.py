"""Output-text domain: what a writer appends to its output, as a sequence of parts.

('cat', parts)   a string built on the path; a part is ('lit', str) or ('val', term)
('sfx', P)       a symbolic input string (P = ('txt', term) at its start), see cursor
An "out" event records an append to a buffer that outlives the path (a field of self, a &mut argument).
Characters of an input string: the first three by position, all later ones by one representative."""
from .absint import C, FALSE, NONE, TRUE, State, is_const, some
from .cursor import Cursor, canon, linear, plus
from .iset import CHAR, FULL, ISet

APPEND = {"push_str", "push", "extend_from_slice", "write_str", "write_char", "write_all", "extend", "append", "add_assign", "write_fmt"}
BUF = ("String", "Vec", "dyn", "Formatter", "Write", "Stdout")


class OutText(Cursor):
    NPOS = 3

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.kback = {}

    def factkey(self, st):
        return frozenset((t, v) for t, v in st.facts.items() if t[0] == "disc" and t[1][0] == "opt" or t[0] == "fld" and t[1][0] == "dc" and t[1][1][0] == "opt" or t[0] == "restch")

    # ---- predicates on strings: the outcome with many cases is joined into one
    def enter(self, st, tgt, args, depth):
        res = super().enter(st, tgt, args, depth)
        if tgt.locals[0] != "bool" or not any("str" in t for t in tgt.locals[1 : tgt.argc + 1]):
            yield from res
            return
        res = list(res)
        groups = {}
        for s, v in res:
            groups.setdefault(v if v is None or v[0] == "c" else None, []).append((s, v))
        big = max(groups, key=lambda k: len(groups[k]))
        for k, g in groups.items():
            if k == big and k is not None and len(g) > 8:
                cls = {}
                for s, v in g:
                    key = (frozenset(s.env.items()), frozenset(s.heap.items()), frozenset((a, b) for a, b in s.ext.items() if a[0] not in ("restloop", "restdone") and a != "iter"), id(s.events) if s.events else 0)
                    o = cls.get(key)
                    if o is None:
                        cls[key] = s
                    else:
                        o.facts = {t: a | s.facts[t] for t, a in o.facts.items() if t in s.facts}
                        o.nid = max(o.nid, s.nid)
                        for x in [x for x in o.ext if x not in s.ext or s.ext[x] != o.ext[x]]:
                            del o.ext[x]
                for s in cls.values():
                    yield s, k
            else:
                yield from g

    # ---- texts
    def isstr(self, c):
        return "str>" in c.path or "string::String" in c.path or " for str" in c.full or "<str as" in c.path or "Cow" in c.full

    def text(self, st, v):
        v = self.deref(st, v)
        if v[0] == "sfx":
            return v
        return None

    def as_text(self, st, v):
        v = self.deref(st, v)
        if v[0] in ("sym", "fld", "mem", "call", "dc", "with", "static", "const", "elem"):
            return ("sfx", ("txt", v))
        return v

    def base(self, P):
        return P if P[0] == "txt" else None

    def restch(self, B):
        t = ("restch", B)
        self.tyof[t] = "char"
        return t

    def positions(self, st, B):
        P = B
        out = []
        for _ in range(self.NPOS):
            out.append(P)
            P = self.next_pos(st, P)
        return out

    def constrain(self, st, B, cls):
        for P in self.positions(st, B):
            if not self.refine(st, self.char_at(P), cls):
                # such a string has no character here
                for s in self.assume(st, self.present(P), False):
                    return True
                return False
        self.refine(st, self.restch(B), cls)
        return True

    def charclass(self, st, f, site, depth):
        """(chars for which the predicate may hold, chars for which it may fail) of a char pattern."""
        f = self.deref(st, f)
        if f[0] == "c" and f[1] == "char":
            s = ISet.of(f[2])
            return s, CHAR - s
        if f[0] == "agg" and f[1] in ("array", "slice") or f[0] == "agg" and f[1].startswith("["):
            vals = [self.deref(st, x) for x in f[3]]
            if all(x[0] == "c" and isinstance(x[2], int) for x in vals):
                s = ISet.of(*[x[2] for x in vals])
                return s, CHAR - s
            return CHAR, CHAR
        if f[0] == "fn" or f[0] == "agg" and f[1].startswith("closure:"):
            st.nid += 1
            ch = ("sym", "classch", st.nid)
            self.tyof[ch] = "char"
            T = F = ISet(())
            for s, v in self.call_closure(st.copy(), f, [ch], site, depth):
                if not self.real(v):
                    continue
                if v[0] == "c":
                    d = self.dom(s, ch)
                    if v[2]:
                        T = T | d
                    else:
                        F = F | d
                    continue
                for z in self.assume(s.copy(), v, True):
                    T = T | self.dom(z, ch)
                for z in self.assume(s, v, False):
                    F = F | self.dom(z, ch)
            return T & CHAR, F & CHAR
        return CHAR, CHAR

    # ---- string building
    def cat(self, v):
        if v[0] == "cat":
            return v[1]
        if v[0] == "c" and v[1] == "str":
            return (("lit", v[2]),) if v[2] else ()
        if v[0] == "c" and v[1] == "char":
            return (("lit", chr(v[2])),)
        if v[0] == "c" and v[1] == "bytes":
            return (("lit", bytes(v[2]).decode("latin1")),)
        if v[0] == "c" and v[1] in ("u8", "int") and isinstance(v[2], int):
            return (("lit", chr(v[2])),)
        if v[0] == "c" and isinstance(v[2], bytes):
            return (("lit", v[2].decode("latin1")),)
        return (("val", v),)

    @staticmethod
    def joinparts(a, b):
        a = list(a)
        for x in b:
            if x[0] == "lit" and a and a[-1][0] == "lit":
                a[-1] = ("lit", a[-1][1] + x[1])
            else:
                a.append(x)
        return tuple(a)

    def fmt_parts(self, st, v):
        """Parts of a core::fmt::Arguments value."""
        v = self.deref(st, v)
        if v[0] == "fmt":
            return v[1]
        return (("val", v),)

    def decode(self, st, tmpl, args):
        tmpl = self.deref(st, tmpl)
        args = self.deref(st, args)
        if tmpl[0] == "c" and isinstance(tmpl[2], (tuple, bytes)):
            b = bytes(tmpl[2])
        elif tmpl[0] == "agg" and all(x[0] == "c" for x in tmpl[3]):
            b = bytes(x[2] & 255 for x in tmpl[3])
        else:
            return None
        vals = [self.deref(st, x) for x in args[3]] if args[0] == "agg" else None
        if vals is None:
            return None
        out = ()
        i = 0
        nxt = 0
        while i < len(b):
            n = b[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                out = self.joinparts(out, (("lit", b[i : i + n].decode("utf8")),))
                i += n
            elif n == 0x80:
                ln = int.from_bytes(b[i : i + 2], "little")
                i += 2
                out = self.joinparts(out, (("lit", b[i : i + ln].decode("utf8")),))
                i += ln
            else:
                spec = []
                if n & 1:
                    spec.append(("flags", int.from_bytes(b[i : i + 4], "little")))
                    i += 4
                if n & 2:
                    spec.append(("width", int.from_bytes(b[i : i + 2], "little")))
                    i += 2
                if n & 4:
                    spec.append(("prec", int.from_bytes(b[i : i + 2], "little")))
                    i += 2
                if n & 8:
                    nxt = int.from_bytes(b[i : i + 2], "little")
                    i += 2
                if nxt >= len(vals):
                    return None
                a = vals[nxt]
                nxt += 1
                how, val = (a[1], a[2]) if a[0] == "fmtarg" else ("?", a)
                val = self.deref(st, val)
                if how == "display" and not spec:
                    out = self.joinparts(out, self.cat(val))
                else:
                    out = out + (("val", ("fmtd", how, tuple(spec), val)),)
        return out

    def text_call(self, st, c, args, site, depth):
        n = c.name
        p = c.path
        # formatting machinery
        if "fmt::rt::Argument" in p and n.startswith("new_"):
            return [(st, ("fmtarg", n[4:], args[0]))]
        if p.startswith("core::fmt::Arguments"):
            if n == "from_str" or n == "new_const":
                return [(st, ("fmt", self.cat(self.deref(st, args[0]))))]
            if n == "new" and len(args) == 2:
                d = self.decode(st, args[0], args[1])
                if d is not None:
                    return [(st, ("fmt", d))]
        if p in ("alloc::fmt::format", "std::fmt::format") and args:
            return [(st, ("cat", self.fmt_parts(st, args[0])))]
        if n == "must_use" and len(args) == 1:
            return [(st, args[0])]
        if (n in ("new", "with_capacity", "default")) and ("string::String" in c.full or "vec::Vec" in c.full) and (not args or n == "with_capacity"):
            return [(st, ("cat", ()))]
        if not args:
            return None
        if n in ("as_bytes", "as_str", "to_string", "to_owned", "into_owned", "into_string", "into_bytes", "as_ref", "deref", "as_slice", "borrow", "to_vec", "into_boxed_str", "clone", "from", "into"):
            v = self.deref(st, args[0])
            if v[0] in ("cat", "sfx") or v[0] == "c" and v[1] == "str":
                if n in ("clone", "from", "into") or len(args) == 1:
                    return [(st, v)]
            if self.isstr(c) and n in ("as_bytes", "as_str", "to_owned", "to_string", "as_ref", "deref", "borrow", "into_owned", "into_string", "into_bytes"):
                return [(st, v)]
        if n == "to_string" and len(args) == 1:
            v = ("call", "to_string", (self.deref(st, args[0]),), 0)
            self.tyof[v] = "alloc::string::String"
            return [(st, v)]
        if n in APPEND and len(args) == 2 and any(b in c.full or b in p for b in BUF) and ("Vec" not in c.full or "u8" in c.full):
            self.append(st, args[0], self.parts_of(st, args[1], n), site)
            return [(st, ("agg", "core::result::Result", "Ok", (("agg", "tuple", None, ()),)))]
        if n == "repeat" and len(args) == 2 and self.isstr(c):
            return [(st, ("cat", (("val", ("repeat", self.deref(st, args[0]))),)))]
        # read-only questions about input strings
        v0 = self.deref(st, args[0])
        if v0[0] in ("sym", "fld", "mem", "call", "dc", "with", "elem") and self.isstr(c) and "str" in p:
            v0 = self.as_text(st, v0)
            args = [v0] + list(args[1:])
        t = v0 if v0[0] == "sfx" else None
        B = self.base(t[1]) if t else None
        if t is not None and B is not None:
            if n == "bytes":
                return [(st, ("chars", B, "bytes"))]
            if n == "contains" and len(args) == 2:
                pat = self.deref(st, args[1])
                if not (pat[0] == "c" and pat[1] == "str"):
                    return self.quant(st, B, args[1], "any", site, depth)
                if len(pat[2]) == 1:
                    return self.quant(st, B, C(ord(pat[2]), "char"), "any", site, depth)
                return [(st, ("call", "contains", (t, pat), 0))]
            if n in ("find", "rfind") and len(args) == 2:
                out = []
                for s, b in self.quant(st, B, args[1], "any", site, depth):
                    for z in self.assume(s.copy(), b, True):
                        out.append((z, some(z.fresh("found"))))
                    out += [(z, NONE) for z in self.assume(s, b, False)]
                return out
            if n == "ends_with":
                return [(st, ("call", "ends_with", (t, self.deref(st, args[1])), 0))]
        it = self.deref(st, args[0])
        if it[0] == "chars" and n == "next" and it[1][0] == "restpos":
            # any later character, or the end: all of them have then been through the loop
            B = it[1][1]
            out = []
            s = st.copy()
            s.facts.pop(self.char_at(it[1]), None)
            out.append((s, some(self.char_at(it[1]))))
            rl = st.ext.get(("restloop", B))
            if rl:
                st.ext[("restdone", B)] = st.ext.get(("restdone", B), ()) + (rl[1],)
            out.append((st, NONE))
            return out
        if it[0] == "chars" and self.base(it[1]) is not None and n in ("any", "all"):
            return self.quant(st, it[1], args[1], n, site, depth)
        if it[0] == "chars" and n in ("filter", "map", "rev", "position", "find", "fold", "count"):
            return [(st, ("call", n, (it, self.deref(st, args[1]) if len(args) > 1 else TRUE), 0))]
        if it[0] == "call" and it[1] in ("filter", "map", "rev") and n in ("count", "next", "collect", "sum", "is_some", "is_none"):
            return [(st, ("call", n, (it,), 0))]
        return super().text_call(st, c, args, site, depth)

    def quant(self, st, B, f, n, site, depth):
        T, F = self.charclass(st, f, site, depth)
        out = []
        if n == "any":
            s = st.copy()
            if self.constrain(s, B, F):
                out.append((s, FALSE))
            out.append((st, TRUE))
        else:
            s = st.copy()
            if self.constrain(s, B, T):
                out.append((s, TRUE))
            out.append((st, FALSE))
        return out

    def parts_of(self, st, v, n):
        v = self.deref(st, v)
        if v[0] == "fmt":
            return v[1]
        return self.cat(v)

    def append(self, st, dest, parts, site):
        cur = self.deref(st, dest)
        if cur[0] == "cat":
            loc = dest[1] if dest[0] == "ref" else ("S", dest, ())
            while True:
                inner = self.content(st, loc)
                if inner[0] == "ref":
                    loc = inner[1]
                    continue
                break
            self.store_quiet(st, loc, ("cat", self.joinparts(cur[1], parts)))
        else:
            st.note(("out", parts, site))

    # ---- loops over characters
    def unroll_for(self, st, fn, fr, body):
        for (f, l), v in st.env.items():
            if f == fr and v[0] == "chars":
                return max(self.unroll, self.NPOS)
        return self.unroll

    def on_back(self, st, fn, fr, head):
        for k, v in list(st.ext.items()):
            if k[0] == "restloop" and v[1] == (fn.id, head):
                B, loop = v
                d = self.dom(st, self.char_at(("restpos", B))) & CHAR
                self.kback[(loop, B)] = self.kback.get((loop, B), ISet(())) | d

    def widen(self, st, fn, fr, body):
        its = {k: v for k, v in st.env.items() if v[0] == "chars"}
        cats = {k: v for k, v in st.env.items() if v[0] == "cat"}
        super().widen(st, fn, fr, body)
        for k, v in its.items():
            if st.env.get(k) != v:
                B = v[1]
                bs = [x for x in linear(B)[0] if x[0] == "txt"]
                B = bs[0] if bs else B
                if B[0] == "txt":
                    N = ("restpos", B)
                    st.env[k] = ("chars", N) + v[2:]
                    st.ext[("restloop", B)] = (B, (fn.id, self.headof(fn, body)))
                    for t in (self.char_at(N), ("disc", ("opt", N))):
                        st.facts.pop(t, None)
        for k, v in cats.items():
            if st.env.get(k) != v:
                st.env[k] = ("cat", (("val", ("loopbuilt", fn.id, min(body))),))

    @staticmethod
    def headof(fn, body):
        for h, b in fn.loops().items():
            if b == body:
                return h
        return min(body)

    def flat(self, trace):
        """The output of a path, as parts, with the sites of the appends."""
        out = []
        for e in trace:
            if e[0] == "out":
                for x in e[1]:
                    if x[0] == "lit" and out and out[-1][0] == "lit":
                        out[-1] = ("lit", out[-1][1] + x[1], e[2])
                    else:
                        out.append((x[0], x[1], e[2]))
        return out

    def box(self, st, B):
        """(classes of the first characters, class of the rest); None where the string may end."""
        sets = []
        P = B
        mayempty = 1 not in self.dom(st, ("disc", ("opt", P))) or 0 in self.dom(st, ("disc", ("opt", P)))
        if ("disc", ("opt", P)) not in st.facts:
            mayempty = True
        ends = []
        for _ in range(self.NPOS):
            d = st.facts.get(("disc", ("opt", P)))
            can_end = d is None or 0 in d
            can_go = d is None or 1 in d
            ends.append((can_end, can_go))
            sets.append(self.dom(st, self.char_at(P)) & CHAR)
            P = self.next_pos(st, P)
        rest = self.dom(st, self.restch(B)) & CHAR
        for loop in st.ext.get(("restdone", B), ()):
            rest = rest & self.kback.get((loop, B), ISet(()))
        return mayempty, tuple(sets), tuple(ends), rest
