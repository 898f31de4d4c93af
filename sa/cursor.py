"""Cursor domain: positions in a source text as terms, characters at positions as interval-valued terms.

('sfx', P)   the text from byte position P to the end
('opt', P)   the Option<char> at P;  its payload is the character term
('chars', P) a char iterator standing at P
Positions are sums  base + k + len_utf8(ch)...  kept in binop normal form."""
from .absint import C, FALSE, NONE, TRUE, Interp, ISet, is_const, some, tup
from .iset import CHAR, FULL


def nocast(t):
    """Value-preserving view of a position term: integer casts dropped everywhere."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "cast":
        return nocast(t[2])
    if t[0] == "c" and isinstance(t[2], int):
        return ("c", "int", t[2])
    return tuple(nocast(x) if isinstance(x, tuple) else x for x in t)


def linear(t):
    """(base terms multiset, constant) of a sum."""
    t = nocast(t)
    if t[0] == "c" and isinstance(t[2], int):
        return (), t[2]
    if t[0] == "op" and t[1] == "Add":
        a, k = linear(t[2])
        b, l = linear(t[3])
        return tuple(sorted(a + b, key=repr)), k + l
    if t[0] == "op" and t[1] == "Sub" and t[3][0] == "c":
        a, k = linear(t[2])
        return a, k - t[3][2]
    return (t,), 0


def canon(t):
    """Canonical position term."""
    bs, k = linear(t)
    r = None
    for b in bs:
        r = b if r is None else ("op", "Add", r, b)
    if r is None:
        return C(k, "int")
    if k:
        r = ("op", "Add" if k > 0 else "Sub", r, C(abs(k), "int"))
    return r


def plus(p, t):
    return canon(("op", "Add", p, t))


def same(a, b):
    return linear(a) == linear(b)


def minus(a, b):
    """a - b as (extra terms, constant) when b's terms are all in a; else None."""
    x, k = linear(a)
    y, l = linear(b)
    x = list(x)
    for t in y:
        if t in x:
            x.remove(t)
        else:
            return None
    return x, k - l


class Cursor(Interp):
    def char_at(self, P):
        t = ("fld", ("dc", ("opt", P), "Some"), "0")
        self.tyof[t] = "char"
        self.tyof[("opt", P)] = "core::option::Option"
        return t

    def present(self, P):
        self.tyof[("opt", P)] = "core::option::Option"
        return ("op", "Eq", ("disc", ("opt", P)), C(1, "discr"))

    def width(self, st, P):
        ch = self.char_at(P)
        if self.dom(st, ch) <= ISet.rng(0, 127):
            return C(1, "usize")
        t = ("call", "len_utf8", (ch,), 0)
        st.facts.setdefault(t, ISet.rng(1, 4))
        return t

    def next_pos(self, st, P):
        return plus(P, self.width(st, P))

    def lit_at(self, st, P, s):
        cs = []
        for c in s:
            cs.append(self.present(P))
            cs.append(("in", self.char_at(P), ISet.of(ord(c))))
            P = plus(P, C(len(c.encode()), "usize"))
        return ("and", tuple(cs)) if cs else TRUE

    def text(self, st, v):
        v = self.deref(st, v)
        return v if v[0] == "sfx" else None

    def std(self, st, c, args, site, depth):
        r = self.text_call(st, c, args, site, depth)
        if r is not None:
            return r
        return super().std(st, c, args, site, depth)

    def text_call(self, st, c, args, site, depth):
        n = c.name
        if not args:
            return None
        t = self.text(st, args[0])
        if t is not None:
            P = t[1]
            if n == "chars":
                return [(st, ("chars", P))]
            if n == "char_indices":
                return [(st, ("cidx", P, P))]
            if n == "is_empty":
                self.tyof[("opt", P)] = "core::option::Option"
                return [(st, ("op", "Eq", ("disc", ("opt", P)), C(0, "discr")))]
            if n in ("starts_with", "strip_prefix"):
                pat = self.deref(st, args[1])
                cond = None
                if pat[0] == "c" and pat[1] == "str":
                    cond, ln = self.lit_at(st, P, pat[2]), C(len(pat[2].encode()), "usize")
                elif pat[0] == "c" and pat[1] == "char":
                    cond, ln = self.lit_at(st, P, chr(pat[2])), C(len(chr(pat[2]).encode()), "usize")
                elif pat[0] == "agg" and pat[1].startswith("closure:") or pat[0] == "fn":
                    return self.pred_at(st, P, args[1], n, site, depth)
                if cond is None:
                    if n == "starts_with":
                        return [(st, ("call", "starts_with", (t, pat), 0))]
                    s2 = st.copy()
                    return [(st, NONE), (s2, some(("sfx", plus(P, ("call", "len", (pat,), 0)))))]
                if n == "starts_with":
                    return [(st, cond)]
                out = [(s, some(("sfx", plus(P, ln)))) for s in self.assume(st.copy(), cond, True)]
                return out + [(s, NONE) for s in self.assume(st, cond, False)]
            if n == "index" and len(args) == 2:
                rng = self.deref(st, args[1])
                if rng[0] == "agg" and rng[1].endswith("RangeFrom"):
                    st.note(("suffix", P, rng[3][0], site))
                    return [(st, ("sfx", plus(P, rng[3][0])))]
                if rng[0] == "agg" and rng[1].endswith("range::Range"):
                    return [(st, ("slice", P, rng[3][0], rng[3][1]))]
            if n == "get" and len(args) == 2:
                rng = self.deref(st, args[1])
                if rng[0] == "agg" and rng[1].endswith("RangeFrom"):
                    return [(st, some(("sfx", plus(P, rng[3][0]))))]
            if n == "len":
                return [(st, ("call", "len", (t,), 0))]
        it = self.deref(st, args[0])
        if it[0] == "chars":
            P = it[1]
            if n == "next":
                out = []
                for s in self.assume(st.copy(), self.present(P), True):
                    self.set_iter(s, args[0], ("chars", self.next_pos(s, P)))
                    out.append((s, ("agg", "core::option::Option", "Some", (self.char_at(P),))))
                out += [(s, NONE) for s in self.assume(st, self.present(P), False)]
                # keep the option term itself so that later tests agree
                return out
            if n == "nth" and args[1][0] == "c":
                P2 = P
                sts = [(st, P)]
                for _ in range(args[1][2]):
                    nxt = []
                    for s, p in sts:
                        nxt.append((s, self.next_pos(s, p)))
                    sts = nxt
                out = []
                for s, p in sts:
                    for z in self.assume(s.copy(), self.present(p), True):
                        out.append((z, some(self.char_at(p))))
                    out += [(z, NONE) for z in self.assume(s, self.present(p), False)]
                return out
            if n == "nth":
                return [(st, ("opt", ("sym", "nth", P, args[1])))]
            if n in ("take_while", "peekable", "rev", "skip", "enumerate"):
                return [(st, ("iter", n, it, tuple(args[1:])))]
            if n == "as_str":
                return [(st, ("sfx", P))]
            if n == "clone":
                return [(st, it)]
        if it[0] == "iter" and n == "count":
            v = ("call", "count", (it,), 0)
            self.tyof[v] = "usize"
            return [(st, v)]
        if n == "next" and ("ops::range::Range" in c.full or (c.trait or "").endswith("Iterator")):
            loc = args[0][1] if args[0][0] == "ref" else None
            st.ext["iter"] = st.ext.get("iter", frozenset()) | {(site[0].id, site[1])}
            if loc is not None:
                self.store(st, loc, st.fresh("it"))
            v = st.fresh("nextval")
            self.tyof[v] = "core::option::Option"
            return [(st, v)]
        return None

    def pred_at(self, st, P, f, n, site, depth):
        out = []
        for s in self.assume(st.copy(), self.present(P), False):
            out.append((s, FALSE if n == "starts_with" else NONE))
        for s in self.assume(st, self.present(P), True):
            for z, v in self.call_closure(s, f, [self.char_at(P)], site, depth):
                if not self.real(v):
                    out.append((z, v))
                elif n == "starts_with":
                    out.append((z, v))
                else:
                    for y in self.assume(z.copy(), v, True):
                        out.append((y, some(("sfx", self.next_pos(y, P)))))
                    out += [(y, NONE) for y in self.assume(z, v, False)]
        return out

    def set_iter(self, st, ref, v):
        if ref[0] == "ref":
            self.store_quiet(st, ref[1], v)
        else:
            self.store_quiet(st, ("S", ref, ()), v)
