"""Strings of bounded shape: a sequence of characters, each a constant or a term with a class.

('chs', items)        a string; an item is a char constant, a char term, or ('hexof', how, spec, term)
('seq', items, i)     an iterator standing at items[i]
Every string operation is exact on such values; where the outcome depends on a class, states fork."""
from .absint import C, FALSE, NONE, TRUE, UNIT, err, is_const, ok, some, tup
from .iset import CHAR, CHAR_PRED, ISet, unicode_pred
from .outtext import OutText

WIDTH = [(ISet.rng(0, 0x7F), 1), (ISet.rng(0x80, 0x7FF), 2), (ISet.rng(0x800, 0xFFFF), 3), (ISet.rng(0x10000, 0x10FFFF), 4)]
KEEP = {"as_str", "to_string", "to_owned", "into_owned", "into_string", "as_ref", "deref", "borrow", "into_boxed_str", "clone", "from", "into", "deref_mut", "as_mut_str", "to_vec", "as_bytes", "into_bytes", "as_slice", "must_use", "unwrap_or_default_str", "into_iter_str"}
WS = CHAR_PRED["is_whitespace"]


def lit(s):
    return ("chs", tuple(C(ord(c), "char") for c in s))


def text_of(v):
    """The constant text, or None."""
    if v[0] == "chs" and all(x[0] == "c" for x in v[1]):
        return "".join(chr(x[2]) for x in v[1])
    if v[0] == "c" and v[1] == "str":
        return v[2]
    return None


RADIX = {"lower_hex": 16, "upper_hex": 16, "octal": 8, "binary": 2}
INTS = {"u8", "u16", "u32", "u64", "usize", "u128"}

class AbsStr(OutText):
    def __init__(self, *a, **k):
        k.setdefault("unroll", 24)
        k.setdefault("merging", False)
        super().__init__(*a, **k)

    def factkey(self, st):
        return frozenset(st.facts.items())

    def unroll_for(self, st, fn, fr, body):
        return self.unroll

    # ---- helpers
    def sym(self, name, cls=CHAR):
        t = ("sym", "ch", name)
        self.tyof[t] = "char"
        return t

    def chs(self, st, v):
        v = self.deref(st, v)
        if v[0] == "chs":
            return v
        if v[0] == "c" and v[1] == "str":
            return lit(v[2])
        if v[0] == "c" and v[1] == "bytes":
            return lit(bytes(v[2]).decode("latin1"))
        if v[0] == "cat":
            out = ()
            for p in v[1]:
                if p[0] == "lit":
                    out += lit(p[1])[1]
                else:
                    x = p[1]
                    if x[0] == "chs":
                        out += x[1]
                    elif x[0] == "fmtd":
                        out += (("hexof", x[1], x[2], self.deref(st, x[3])),)
                    elif x[0] == "c" and x[1] == "str":
                        out += lit(x[2])[1]
                    elif (self.tyof.get(x) or (x[1] if x[0] in ("c", "cast") and isinstance(x[1], str) else "")) in INTS:
                        out += (("hexof", "display", (), x),)
                    else:
                        out += (x,)
            return ("chs", out)
        return None

    def cat(self, v):
        if v[0] == "chs":
            t = text_of(v)
            if t is not None:
                return (("lit", t),) if t else ()
            return (("val", v),)
        return super().cat(v)

    def ref(self, st, v):
        st.nid += 1
        k = ("tmp", st.nid)
        st.env[(k, 0)] = v
        return ("ref", ("L", k, 0, ()))

    def widths(self, st, x):
        """Fork on the encoded length of item x: yields (state, bytes)."""
        if x[0] == "c":
            yield st, len(chr(x[2]).encode()) if x[1] != "u8" else 1
            return
        if x[0] == "hexof":
            yield st, 1
            return
        d = self.dom(st, x) & CHAR
        ws = [(s, w) for s, w in WIDTH if d & s]
        if len(ws) == 1:
            yield st, ws[0][1]
            return
        for s, w in ws:
            z = st.copy()
            if self.refine(z, x, s):
                yield z, w

    def offsets(self, st, items):
        """Yields (state, byte offset of every item and of the end)."""
        if items and all(x[0] == "agg" for x in items):
            yield st, tuple(range(len(items) + 1))
            return
        acc = [(st, (0,))]
        for x in items:
            nxt = []
            for s, o in acc:
                for z, w in self.widths(s, x):
                    nxt.append((z, o + (o[-1] + w,)))
            acc = nxt
        yield from acc

    def test(self, st, x, cls):
        """Yields (state, bool): whether item x is in cls."""
        if x[0] == "c":
            yield st, x[2] in cls
            return
        if x[0] == "hexof":
            yield st, bool(ISet.of(ord("0")) & cls)
            return
        s = st.copy()
        if self.refine(s, x, cls):
            yield s, True
        if self.refine(st, x, CHAR - cls):
            yield st, False

    def same(self, st, x, y):
        if y[0] == "c":
            yield from self.test(st, x, ISet.of(y[2]))
        elif x[0] == "c":
            yield from self.test(st, y, ISet.of(x[2]))
        elif x == y:
            yield st, True
        else:
            d, e = self.dom(st, x), self.dom(st, y)
            if d & e:
                yield st.copy(), True
            yield st, False

    def pattern(self, st, pat):
        """('cls', ISet) | ('str', items) | ('fn', closure)"""
        v = self.deref(st, pat)
        if v[0] == "c" and v[1] == "char":
            return ("cls", ISet.of(v[2]))
        s = self.chs(st, v)
        if s is not None:
            return ("str", s[1])
        if v[0] == "agg" and v[3] and all(self.deref(st, x)[0] == "c" for x in v[3]) and not v[1].startswith("closure"):
            return ("cls", ISet.of(*[self.deref(st, x)[2] for x in v[3]]))
        if v[0] == "fn" or v[0] == "agg" and v[1].startswith("closure:"):
            return ("fn", v)
        if v[0] == "c" and v[1] == "strs":
            return ("cls", ISet.of(*[ord(x) for x in v[2] if len(x) == 1]))
        if v[0] in ("sym", "fld") and self.tyof.get(v) == "char":
            return ("one", v)
        return None

    def hit(self, st, pat, x, site, depth):
        """Does item x match a char pattern: yields (state, bool)."""
        if pat[0] == "cls":
            yield from self.test(st, x, pat[1])
        elif pat[0] == "one":
            yield from self.same(st, x, pat[1])
        elif pat[0] == "fn":
            yield from self.truth(st, pat[1], [x], site, depth)

    def truth(self, st, f, args, site, depth):
        for s, v in self.call_closure(st, f, args, site, depth):
            if not self.real(v):
                continue
            for z in self.assume(s.copy(), v, True):
                yield z, True
            for z in self.assume(s, v, False):
                yield z, False

    def match_at(self, st, items, i, pat, site, depth):
        """yields (state, matched length or None)"""
        if pat[0] == "str":
            p = pat[1]
            if i + len(p) > len(items):
                yield st, None
                return
            acc = [st]
            for k, y in enumerate(p):
                nxt = []
                for s in acc:
                    for z, t in self.same(s, items[i + k], y):
                        if t:
                            nxt.append(z)
                        else:
                            yield z, None
                acc = nxt
            for s in acc:
                yield s, len(p)
        else:
            if i >= len(items):
                yield st, None
                return
            for s, t in self.hit(st, pat, items[i], site, depth):
                yield s, 1 if t else None

    def search(self, st, items, pat, site, depth, back=False, start=0):
        """first (or last) match: yields (state, index or None, length)"""
        n = len(items)
        order = range(n, start - 1, -1) if back else range(start, n + 1)
        acc = [st]
        for i in order:
            nxt = []
            for s in acc:
                for z, m in self.match_at(s, items, i, pat, site, depth):
                    if m is not None:
                        yield z, i, m
                    else:
                        nxt.append(z)
            acc = nxt
        for s in acc:
            yield s, None, 0

    def cut(self, st, items, off, site):
        """item index of byte offset `off`: yields (state, index or None if inside a character)."""
        for s, o in self.offsets(st, items):
            yield s, (o.index(off) if off in o else None)

    def rangeof(self, st, r, total):
        r = self.deref(st, r)
        if r[0] != "agg":
            return None
        n = r[1].rsplit("::", 1)[-1].split("<")[0]
        xs = [self.deref(st, x) for x in r[3]]
        if not all(x[0] == "c" for x in xs):
            return None
        if n == "RangeFrom":
            return xs[0][2], total
        if n == "RangeTo":
            return 0, xs[0][2]
        if n == "Range":
            return xs[0][2], xs[1][2]
        if n == "RangeFull":
            return 0, total
        if n == "RangeToInclusive":
            return 0, xs[0][2] + 1
        if n == "RangeInclusive":
            return xs[0][2], xs[1][2] + 1
        return None

    def sub(self, st, items, r, site):
        """Slices by a byte range: yields (state, items or None when it would panic)."""
        for s, o in self.offsets(st, items):
            ab = self.rangeof(s, r, o[-1])
            if ab is None:
                yield s, "?"
                continue
            a, b = ab
            if a in o and b in o and a <= b:
                yield s, items[o.index(a) : o.index(b)]
            else:
                yield s, None

    def expand(self, st, items):
        """Replaces formatted hexadecimal numbers by their digits: yields (state, items)."""
        acc = [(st, ())]
        for x in items:
            nxt = []
            for s, out in acc:
                if x[0] != "hexof":
                    nxt.append((s, out + (x,)))
                    continue
                spec = dict(x[2])
                base = RADIX.get(x[1], 10)
                alt = C(ord("0"), "char"), C(ord({16: "x", 8: "o", 2: "b"}.get(base, "x")), "char")
                alt = alt if spec.get("flags", 0) >> 23 & 1 and base != 10 else ()
                width = spec.get("width", 0)
                zero = spec.get("flags", 0) >> 24 & 1
                pad = ()
                width = max(0, width - len(alt))
                inner = x[3]
                d = self.dom(s, inner)
                for k in range(1, 9 if base == 16 else 23):
                    lo = 0 if k == (max(1, width) if zero else 1) else base ** (k - 1)
                    if zero and k < width:
                        continue
                    pad = () if zero or k >= width else (C(32, "char"),) * (width - k)
                    cls = d & ISet.rng(lo, base**k - 1)
                    if not cls:
                        continue
                    z = s.copy()
                    if not self.refine(z, inner, cls):
                        continue
                    digs = []
                    for i in range(k):
                        t = ("hexd", i, k, x) if base == 16 else ("digd", base, i, k, x)
                        self.tyof[t] = "char"
                        z.facts[t] = CHAR_PRED["is_ascii_hexdigit"] if base == 16 else ISet.rng(48, 47 + base)
                        digs.append(t)
                    nxt.append((z, out + pad + alt + tuple(digs)))
            acc = nxt
        yield from acc

    # ---- calls
    def text_call(self, st, c, args, site, depth):
        r = self.str_call(st, c, args, site, depth)
        if r is not None:
            return r
        r = self.iter_call(st, c, args, site, depth)
        if r is not None:
            return r
        return super().text_call(st, c, args, site, depth)

    def str_call(self, st, c, args, site, depth):
        n, p = c.name, c.path
        if n in ("new", "with_capacity", "default") and ("string::String" in c.full) and (not args or n == "with_capacity"):
            return [(st, ("chs", ()))]
        if n == "from_str_radix" and len(args) == 2:
            s = self.chs(st, args[0])
            rad = self.deref(st, args[1])
            if s is not None and rad[0] == "c":
                return self.radix(st, s, rad[2], c)
        if n == "to_digit" and len(args) == 2:
            return self.digit(st, self.deref(st, args[0]), self.deref(st, args[1])[2])
        if n == "from_u32" and len(args) == 1:
            return self.from_u32(st, self.deref(st, args[0]))
        if n in ("eq", "ne") and len(args) == 2:
            a, b = self.chs(st, args[0]), self.chs(st, args[1])
            if a is not None and b is not None:
                out = []
                if len(a[1]) != len(b[1]):
                    return [(st, C(int(n == "ne"), "bool"))]
                for s, m in self.match_at(st, a[1], 0, ("str", b[1]), site, depth):
                    out.append((s, C(int((m is not None) == (n == "eq")), "bool")))
                return out
        if n == "format" and p.endswith("fmt::format") and args:
            r = super().text_call(st, c, args, site, depth)
            if r:
                return [(s, self.chs(s, v) or v) for s, v in r]
        if n == "to_string" and len(args) == 1:
            v = self.deref(st, args[0])
            if v[0] == "c" and v[1] == "char" or self.tyof.get(v) == "char":
                return [(st, ("chs", (v,)))]
        if n in ("from", "into") and len(args) == 1 and "char" in c.full and "String" in c.full:
            v = self.deref(st, args[0])
            if v[0] == "c" and v[1] == "char" or self.tyof.get(v) == "char":
                return [(st, ("chs", (v,)))]
        if n in ("min", "max") and len(args) == 2:
            a, b = self.deref(st, args[0]), self.deref(st, args[1])
            if a[0] == "c" and b[0] == "c" and isinstance(a[2], int):
                return [(st, a if (a[2] <= b[2]) == (n == "min") else b)]
        if n in ("saturating_sub", "wrapping_add", "saturating_add", "wrapping_sub") and len(args) == 2:
            a, b = self.deref(st, args[0]), self.deref(st, args[1])
            if a[0] == "c" and b[0] == "c":
                return [(st, C(a[2] + b[2] if "add" in n else max(0, a[2] - b[2]), a[1]))]
        if not args:
            return None
        a0 = self.deref(st, args[0])
        s0 = a0 if a0[0] == "chs" else None
        if a0[0] == "c" and a0[1] == "str" and (n in ("chars", "len", "is_empty", "char_indices", "bytes") or n in ("starts_with", "contains") and len(args) == 2):
            s0 = lit(a0[2])
        if s0 is None:
            return None
        it = s0[1]
        if n in KEEP and len(args) == 1:
            return [(st, args[0] if n in ("deref", "as_str", "as_ref", "borrow") and args[0][0] == "ref" else s0)]
        if n == "to_ascii_lowercase" or n == "to_lowercase":
            if all(x[0] == "c" for x in it):
                return [(st, lit(text_of(s0).lower()))]
            return None
        if n in ("push", "push_str", "extend", "write_str", "write_char", "add_assign", "extend_from_slice", "add") and len(args) == 2:
            v = self.deref(st, args[1])
            if v[0] == "seq":
                add = v[1][v[2] :]
            elif n in ("push", "write_char"):
                add = (v,)
            else:
                s = self.chs(st, v)
                if s is None:
                    add = (v,)
                else:
                    add = s[1]
            new = ("chs", it + tuple(add))
            if n == "add":
                return [(st, new)]
            self.put(st, args[0], new)
            return [(st, ok(UNIT) if n.startswith("write") else UNIT)]
        if n == "write_fmt" and len(args) == 2:
            parts = self.fmt_parts(st, args[1])
            add = self.chs(st, ("cat", parts))
            self.put(st, args[0], ("chs", it + add[1]))
            return [(st, ok(UNIT))]
        if n == "pop":
            if not it:
                return [(st, NONE)]
            self.put(st, args[0], ("chs", it[:-1]))
            return [(st, some(it[-1]))]
        if n == "clear":
            self.put(st, args[0], ("chs", ()))
            return [(st, UNIT)]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, UNIT)]
        if n == "chars":
            return [(st, ("seq", it, 0))]
        if n in ("bytes", "iter", "into_iter", "iter_mut"):
            return [(st, ("seq", it, 0))]
        if n == "len" and ("Vec" in c.full or "[" in c.full):
            return [(st, C(len(it), "usize"))] if not any(x[0] == "c" or x[0] == "sym" and x[1] == "ch" for x in it) else [(s, C(o[-1], "usize")) for s, o in self.offsets(st, it)]
        if n in ("last", "first") and "[" in c.full:
            return [(st, some(it[-1 if n == "last" else 0]) if it else NONE)]
        if n == "char_indices":
            return [(s, ("seq", tuple(tup(C(o[i], "usize"), x) for i, x in enumerate(it)), 0)) for s, o in self.offsets(st, it)]
        if n == "len":
            return [(s, C(o[-1], "usize")) for s, o in self.offsets(st, it)]
        if n == "is_empty":
            return [(st, C(int(not it), "bool"))]
        if n in ("starts_with", "ends_with", "strip_prefix", "strip_suffix"):
            pat = self.pattern(st, args[1])
            if pat is None:
                return None
            front = n in ("starts_with", "strip_prefix")
            i = 0 if front else len(it) - (len(pat[1]) if pat[0] == "str" else 1)
            out = []
            res = self.match_at(st, it, i, pat, site, depth) if i >= 0 else [(st, None)]
            for s, m in res:
                if n.endswith("_with"):
                    out.append((s, C(int(m is not None), "bool")))
                elif m is None:
                    out.append((s, NONE))
                else:
                    out.append((s, some(("chs", it[m:] if front else it[:i]))))
            return out
        if n in ("contains", "find", "rfind", "split_once", "rsplit_once"):
            pat = self.pattern(st, args[1])
            if pat is None:
                return None
            out = []
            for s, i, m in self.search(st, it, pat, site, depth, back=n.startswith("r")):
                if n == "contains":
                    out.append((s, C(int(i is not None), "bool")))
                elif i is None:
                    out.append((s, NONE))
                elif "split" in n:
                    out.append((s, some(tup(("chs", it[:i]), ("chs", it[i + m :])))))
                else:
                    for z, o in self.offsets(s, it[:i]):
                        out.append((z, some(C(o[-1], "usize"))))
            return out
        if n in ("split", "lines", "split_inclusive", "split_terminator"):
            return self.split(st, it, n, args, site, depth)
        if n in ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches"):
            pat = self.pattern(st, args[1]) if len(args) > 1 else ("cls", WS)
            if pat is None or pat[0] == "str":
                return None
            acc = [(st, it)]
            out = []
            if "end" not in n:
                acc2 = []
                while acc:
                    s, x = acc.pop()
                    if not x:
                        acc2.append((s, x))
                        continue
                    for z, t in self.hit(s, pat, x[0], site, depth):
                        (acc if t else acc2).append((z, x[1:] if t else x))
                acc = acc2
            if "start" not in n:
                acc2 = []
                while acc:
                    s, x = acc.pop()
                    if not x:
                        acc2.append((s, x))
                        continue
                    for z, t in self.hit(s, pat, x[-1], site, depth):
                        (acc if t else acc2).append((z, x[:-1] if t else x))
                acc = acc2
            return [(s, ("chs", x)) for s, x in acc]
        if n in ("index", "get", "get_unchecked", "split_at", "is_char_boundary") and len(args) == 2:
            if n == "split_at" or n == "is_char_boundary":
                k = self.deref(st, args[1])
                if k[0] != "c":
                    return None
                out = []
                for s, i in self.cut(st, it, k[2], site):
                    if n == "is_char_boundary":
                        out.append((s, C(int(i is not None), "bool")))
                    elif i is None:
                        s.note(("slicepanic", site))
                        out.append((s, None))
                    else:
                        out.append((s, tup(("chs", it[:i]), ("chs", it[i:]))))
                return out
            rv = self.deref(st, args[1])
            if rv[0] == "c":
                # byte index
                k = rv[2]
                out = []
                for s, o in self.offsets(st, it):
                    if k in o and o.index(k) < len(it):
                        x = it[o.index(k)]
                        out.append((s, some(self.ref(s, x)) if n == "get" else self.ref(s, x)))
                    elif n == "get":
                        out.append((s, NONE if k >= o[-1] else some(s.fresh("byte"))))
                    elif k < o[-1]:
                        b = s.fresh("byte")
                        self.tyof[b] = "u8"
                        s.facts[b] = ISet.rng(128, 255)
                        out.append((s, self.ref(s, b)))
                    else:
                        s.note(("slicepanic", site))
                        out.append((s, None))
                return out
            out = []
            for s, x in self.sub(st, it, args[1], site):
                if x == "?":
                    s.note(("slice?", site))
                    out.append((s, s.fresh("slice")))
                elif x is None:
                    if n == "get":
                        out.append((s, NONE))
                    else:
                        s.note(("slicepanic", site))
                        out.append((s, None))
                else:
                    out.append((s, some(("chs", x)) if n == "get" else ("chs", x)))
            return out
        if n == "repeat" and self.deref(st, args[1])[0] == "c":
            return [(st, ("chs", it * self.deref(st, args[1])[2]))]
        if n in ("truncate",):
            k = self.deref(st, args[1])
            if k[0] == "c":
                out = []
                for s, i in self.cut(st, it, k[2], site):
                    self.put(s, args[0], ("chs", it[:i]))
                    out.append((s, UNIT))
                return out
        if n in ("replace",) and len(args) == 3:
            return self.replace(st, it, args, site, depth)
        return None

    def replace(self, st, it, args, site, depth):
        pat = self.pattern(st, args[1])
        to = self.chs(st, args[2])
        if pat is None or to is None:
            return None
        out = []
        acc = [(st, 0, ())]
        while acc:
            s, i, r = acc.pop()
            if i >= len(it):
                out.append((s, ("chs", r)))
                continue
            for z, m in self.match_at(s, it, i, pat, site, depth):
                if m:
                    acc.append((z, i + m, r + to[1]))
                else:
                    acc.append((z, i + 1, r + (it[i],)))
        return out

    def split(self, st, it, n, args, site, depth):
        pat = ("cls", ISet.of(10)) if n == "lines" else self.pattern(st, args[1])
        if pat is None:
            return None
        out = []
        acc = [(st, 0, ())]
        while acc:
            s, i, r = acc.pop()
            for z, k, m in self.search(s, it, pat, site, depth, start=i):
                if k is None:
                    tail = it[i:]
                    if tail or n == "split":
                        r2 = r + (("chs", tail),)
                    else:
                        r2 = r
                    out.append((z, ("seq", r2, 0)))
                else:
                    piece = it[i : k + m] if n == "split_inclusive" else it[i:k]
                    if n == "lines" and piece and piece[-1] == C(13, "char"):
                        piece = piece[:-1]
                    acc.append((z, k + m, r + (("chs", piece),)))
        return out

    def put(self, st, dest, v):
        loc = dest[1] if dest[0] == "ref" else ("S", dest, ())
        for _ in range(8):
            inner = self.content(st, loc)
            if inner[0] == "ref":
                loc = inner[1]
                continue
            break
        self.store_quiet(st, loc, v)

    def radix(self, st, s, base, c):
        it = s[1]
        ty = "u32"
        for t in ("u8", "u16", "u32", "u64", "i32", "i64", "u128"):
            if f"impl {t}>" in c.path or f"{t} as" in c.full:
                ty = t
        lim = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "i32": 2**31 - 1, "i64": 2**63 - 1, "u128": 2**128 - 1}[ty]
        t = text_of(s)
        if t is not None:
            try:
                body = t[1:] if t[:1] in "+" and len(t) > 1 else t
                if not body or "_" in body or not body.isascii() or body.strip() != body or body[0] in "+-":
                    raise ValueError
                v = int(body, base)
                if v <= lim:
                    return [(st, ok(C(v, ty)))]
            except ValueError:
                pass
            return [(st, err(("sym", "ParseIntError")))]
        digs = ISet.rng(48, 47 + min(base, 10))
        if base > 10:
            digs = digs | ISet.rng(97, 86 + base) - ISet.rng(87 + base, 127) | ISet.rng(65, 54 + base)
        out = []
        acc = [st]
        for i, x in enumerate(it):
            nxt = []
            for z in acc:
                cls = digs if i or len(it) == 1 else digs | ISet.of(43)
                for y, t in self.test(z, x, cls):
                    if t:
                        nxt.append(y)
                    else:
                        out.append((y, err(("sym", "ParseIntError"))))
            acc = nxt
        for z in acc:
            if it and it[0][0] == "hexd" and base == 16 and it == tuple(("hexd", i, len(it), it[0][3]) for i in range(len(it))):
                v = it[0][3][3]
                out.append((z, ok(v)))
                continue
            v = ("radix", base, s)
            self.tyof[v] = ty
            # value range from the leading digits
            hi = base ** len(it) - 1
            if any(x[0] == "hexof" for x in it):
                hi = 0x10FFFF
            if hi > lim:
                y = z.copy()
                out.append((y, err(("sym", "ParseIntError"))))
                hi = lim
            if v not in z.facts:
                lo = 0
                lead = self.dom(z, it[0])
                if lead and not lead & ISet.of(48) and it[0][0] != "hexof" and not lead & ISet.of(43):
                    lo = base ** (len(it) - 1)
                z.facts[v] = ISet.rng(min(lo, hi), hi)
            out.append((z, ok(v)))
        return out

    def digit(self, st, ch, base):
        digs = ISet.rng(48, 47 + min(base, 10))
        if base > 10:
            digs = digs | ISet.rng(97, 86 + base) | ISet.rng(65, 54 + base)
        out = []
        for s, t in self.test(st, ch, digs):
            if not t:
                out.append((s, NONE))
            elif ch[0] == "c":
                out.append((s, some(C(int(chr(ch[2]), base), "u32"))))
            else:
                v = ("digit", base, ch)
                self.tyof[v] = "u32"
                s.facts.setdefault(v, ISet.rng(0, base - 1))
                out.append((s, some(v)))
        return out

    def from_u32(self, st, v):
        good = CHAR
        if v[0] == "c":
            if v[2] in good:
                return [(st, some(C(v[2], "char")))]
            return [(st, NONE)]
        if v[0] == "cast" and self.tyof.get(v[2]) == "char":
            return [(st, some(v[2]))]
        out = []
        t = ("fromu32", v)
        self.tyof[t] = "char"
        s = st.copy()
        if self.refine(s, v, good):
            s.facts[t] = self.dom(s, v) & CHAR
            out.append((s, some(t)))
        if self.refine(st, v, ISet.rng(0, 2**32 - 1) - good):
            out.append((st, NONE))
        return out

    def content(self, st, loc):
        if loc[0] == "S" and loc[1][0] in ("chs", "seq") and loc[1] not in st.heap:
            return self.project(st, loc[1], loc[2])
        return super().content(st, loc)

    def project(self, st, v, proj):
        for k, p in enumerate(proj):
            w = v
            if p[0] in ("i", "ci") and w[0] in ("chs", "seq"):
                it = w[1] if w[0] == "chs" else w[1][w[2] :]
                ix = p[1] if p[0] == "ci" else self.deref(st, p[1])
                if p[0] == "ci" and isinstance(ix, int) and ix < len(it) and not (len(p) > 3 and p[3]):
                    v = it[ix]
                    continue
                if p[0] == "i" and ix[0] == "c" and isinstance(ix[2], int) and ix[2] < len(it):
                    v = it[ix[2]]
                    continue
            v = super().project(st, v, (p,))
        return v

    # ---- iterators
    def iter_call(self, st, c, args, site, depth):
        n = c.name
        if not args:
            return None
        if n in ("rev", "into_iter", "enumerate", "map", "filter", "any", "all", "collect"):
            r = self.deref(st, args[0])
            if r[0] == "agg" and "ops::range::Range" in r[1] and len(r[3]) >= 2 and n != "into_iter":
                a, b = self.deref(st, r[3][0]), self.deref(st, r[3][1])
                if a[0] == "c" and b[0] == "c" and b[2] - a[2] <= 64 and "From" not in r[1]:
                    hi = b[2] + ("Inclusive" in r[1])
                    args = [("seq", tuple(C(x, a[1]) for x in range(a[2], hi)), 0)] + list(args[1:])
        if n == "index" and len(args) == 2:
            q, k = self.deref(st, args[0]), self.deref(st, args[1])
            if q[0] in ("chs", "seq") and "Vec" in c.full and k[0] == "c" and isinstance(k[2], int):
                it = q[1] if q[0] == "chs" else q[1][q[2] :]
                if k[2] < len(it):
                    return [(st, self.ref(st, it[k[2]]))]
                st.note(("slicepanic", site))
                return [(st, None)]
        if n == "next" or n == "next_back":
            r = self.deref(st, args[0])
            if r[0] == "agg" and "ops::range::Range" in r[1] and len(r[3]) >= 2:
                a, b = self.deref(st, r[3][0]), self.deref(st, r[3][1])
                if a[0] == "c" and b[0] == "c" and "Inclusive" not in r[1]:
                    if a[2] >= b[2]:
                        return [(st, NONE)]
                    if n == "next":
                        self.put(st, args[0], ("agg", r[1], r[2], (C(a[2] + 1, a[1]), b)))
                        return [(st, some(a))]
                    self.put(st, args[0], ("agg", r[1], r[2], (a, C(b[2] - 1, b[1]))))
                    return [(st, some(C(b[2] - 1, b[1])))]
        q = self.deref(st, args[0])
        if q[0] != "seq":
            return None
        items, i = q[1], q[2]
        rest = items[i:]
        if n in ("into_iter", "peekable", "fuse", "copied", "cloned", "iter", "by_ref", "clone", "as_str"):
            if n == "by_ref":
                return [(st, args[0])]
            if n == "clone":
                return [(st, q)]
            if n == "as_str":
                return [(st, ("chs", rest))]
            return [(st, args[0] if n == "into_iter" and args[0][0] == "ref" else q)]
        if n == "next":
            if not rest:
                return [(st, NONE)]
            self.put(st, args[0], ("seq", items, i + 1))
            return [(st, some(rest[0]))]
        if n == "next_back":
            if not rest:
                return [(st, NONE)]
            self.put(st, args[0], ("seq", items[:-1], i))
            return [(st, some(rest[-1]))]
        if n == "peek":
            if not rest:
                return [(st, NONE)]
            return [(st, some(self.ref(st, rest[0])))]
        if n in ("next_if", "next_if_eq"):
            if not rest:
                return [(st, NONE)]
            out = []
            if n == "next_if_eq":
                res = self.same(st, rest[0], self.deref(st, args[1]))
            else:
                res = self.truth(st, args[1], [self.ref(st, rest[0])], site, depth)
            for s, t in res:
                if t:
                    self.put(s, args[0], ("seq", items, i + 1))
                    out.append((s, some(rest[0])))
                else:
                    out.append((s, NONE))
            return out
        if n == "nth":
            k = self.deref(st, args[1])
            if k[0] == "c":
                self.put(st, args[0], ("seq", items, min(len(items), i + k[2] + 1)))
                return [(st, some(rest[k[2]]) if k[2] < len(rest) else NONE)]
        if n == "last":
            return [(st, some(rest[-1]) if rest else NONE)]
        if n == "count":
            return [(st, C(len(rest), "usize"))]
        if n == "rev":
            return [(st, ("seq", rest[::-1], 0))]
        if n in ("skip", "take"):
            k = self.deref(st, args[1])
            if k[0] == "c":
                return [(st, ("seq", rest[k[2] :] if n == "skip" else rest[: k[2]], 0))]
        if n == "enumerate":
            return [(st, ("seq", tuple(tup(C(j, "usize"), x) for j, x in enumerate(rest)), 0))]
        if n == "collect":
            if "String" in c.full:
                out = ()
                for x in rest:
                    if x[0] == "chs":
                        out += x[1]
                    else:
                        out += (x,)
                return [(st, ("chs", out))]
            return [(st, ("seq", rest, 0))]
        if n in ("any", "all", "position", "find"):
            acc = [st]
            out = []
            for j, x in enumerate(rest):
                nxt = []
                for s in acc:
                    for z, t in self.truth(s, args[1], [self.ref(s, x) if n == "find" else x], site, depth):
                        stop = t if n != "all" else not t
                        if stop:
                            self.put(z, args[0], ("seq", items, i + j + 1))
                            out.append((z, {"any": TRUE, "all": FALSE}.get(n) or some(C(j, "usize") if n == "position" else x)))
                        else:
                            nxt.append(z)
                acc = nxt
            for s in acc:
                out.append((s, {"any": FALSE, "all": TRUE}.get(n) or NONE))
            return out
        if n in ("filter", "take_while", "skip_while", "map", "map_while", "filter_map", "flat_map"):
            acc = [(st, ())]
            out = []
            for j, x in enumerate(rest):
                nxt = []
                for s, r in acc:
                    if n in ("map", "flat_map"):
                        for z, v in self.call_closure(s, args[1], [x], site, depth):
                            if self.real(v):
                                nxt.append((z, r + (v,)))
                        continue
                    if n in ("filter_map", "map_while"):
                        for z, v in self.call_closure(s, args[1], [x], site, depth):
                            if self.real(v):
                                for y, var, pl in self.opt(z, v):
                                    if var == "Some":
                                        nxt.append((y, r + (pl[0],)))
                                    elif n == "filter_map":
                                        nxt.append((y, r))
                                    else:
                                        out.append((y, ("seq", r, 0)))
                        continue
                    if n == "skip_while" and r:
                        nxt.append((s, r + (x,)))
                        continue
                    for z, t in self.truth(s, args[1], [self.ref(s, x)], site, depth):
                        if n == "filter":
                            nxt.append((z, r + (x,) if t else r))
                        elif n == "take_while":
                            if t:
                                nxt.append((z, r + (x,)))
                            else:
                                out.append((z, ("seq", r, 0)))
                        else:
                            nxt.append((z, r if t else r + (x,)))
                acc = nxt
            return out + [(s, ("seq", r, 0)) for s, r in acc]
        if n in ("is_empty", "len"):
            return [(st, C(int(not rest), "bool") if n == "is_empty" else C(len(rest), "usize"))]
        if n == "size_hint":
            return None
        return None
