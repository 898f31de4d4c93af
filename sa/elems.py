"""Interp with a model of iterators: every element of a collection is a term of its own.

An iterator is ('iter', src, kind, k, ops): the collection it walks (by address), what it yields
('ref', 'keys', 'values', 'pairs'), how many elements were taken and the adapters on top. Taking an
element forks into the end (event 'end') and the next element (event 'elem'); after LIMIT elements
only the end is left. Adapters that leave elements out are events too ('partial')."""
from .absint import C, FALSE, NONE, TRUE, UNIT, Interp, some, tup
from .iset import ISet

LIMIT = 2
LAZY = {"map", "filter", "filter_map", "enumerate", "zip", "inspect", "cloned", "copied", "rev", "peekable", "fuse", "by_ref", "into_iter", "iter", "iter_mut", "as_slice"}
PART = {"skip", "take", "step_by", "skip_while", "take_while", "map_while", "chain", "cycle", "windows", "chunks", "flat_map", "flatten", "scan"}


class Elems(Interp):
    def __init__(self, prog, **k):
        k.setdefault("unroll", LIMIT + 1)
        super().__init__(prog, **k)

    # -------------------------------------------------------------- making iterators
    def addr(self, st, a):
        """The collection behind a reference, by address."""
        n = 0
        while a[0] == "ref" and n < 8:
            v = self.content(st, a[1])
            if v[0] in ("iter", "coll"):
                return v
            if v[0] != "ref":
                if a[1][0] == "L":
                    return v
                return a
            a = v
            n += 1
        return a

    def as_iter(self, st, a, kind):
        s = self.addr(st, a)
        if s[0] == "iter":
            return s
        if s[0] == "coll":
            it = s[1]
            return ("iter", it[1], it[2], 0, it[4])
        return ("iter", s, kind, 0, ())

    def is_coll(self, c, a, st):
        f = c.full
        return any(x in f for x in ("alloc::vec::Vec", "core::slice", "[T]", "collections::", "HashMap", "BTreeMap", "IndexMap", "HashSet", "BTreeSet", "slice::")) or self.addr(st, a)[0] in ("iter", "coll")

    def item(self, src, kind, k):
        if kind == "pairs":
            return tup(("key", src, k), ("value", src, k))
        if kind == "keys":
            return ("key", src, k)
        if kind == "values":
            return ("value", src, k)
        return ("item", src, k)

    def turned(self, it):
        src = it[1][1] if it[1][0] == "rev" else ("rev", it[1])
        return ("iter", src) + it[2:]

    def pull(self, st, it, site, depth):
        """Yields (state, item or None at the end, iterator afterwards)."""
        _, src, kind, k, ops = it
        if src[0] == "rev":
            # for one collection only the order of the visits changes
            src = src[1]
            it = ("iter", src, kind, k, ops)
        if src[0] == "zip":
            base = [(s, None if x is None else tup(x, y), ("iter", ("zip", i, j), kind, k + 1, ())) for s, x, y, i, j in self.pull2(st, src, site, depth)]
        else:
            base = []
            n = ("len", src)
            self.settype(n, "usize")
            s = st.copy()
            if self.refine(s, n, ISet.of(k)):
                s.note(("end", src, k, site))
                base.append((s, None, it))
            s = st.copy()
            empty = src[0] == "call" and src[1].endswith("::new") and not src[2]
            if k < LIMIT and not empty and self.refine(s, n, ISet.rng(k + 1, 2**64 - 1)):
                s.note(("elem", src, k, site))
                base.append((s, self.item(src, kind, k), ("iter", src, kind, k + 1, ())))
        for s, x, i in base:
            if x is None:
                yield s, None, it
                continue
            yield from self.through(s, x, ("iter", i[1], i[2], i[3], ops), 0, site, depth)

    def pull2(self, st, src, site, depth):
        for s, x, i in self.pull(st, src[1], site, depth):
            if x is None:
                # both sides end when either does
                s.note(("end", src[2][1], src[2][3], site))
                yield s, None, None, i, src[2]
                continue
            k = src[2]
            s.note(("elem", k[1], k[3], site))
            yield s, x, self.item(k[1], k[2], k[3]), i, ("iter", k[1], k[2], k[3] + 1, k[4])

    def through(self, st, x, it, n, site, depth):
        ops = it[4]
        if n == len(ops):
            yield st, x, it
            return
        op, f = ops[n]
        if op == "map":
            for s, v in self.call_closure(st, f, [x], site, depth):
                if self.real(v):
                    yield from self.through(s, v, it, n + 1, site, depth)
        elif op == "enumerate":
            yield from self.through(st, tup(("count", it[1], it[3] - 1), x), it, n + 1, site, depth)
        elif op == "inspect":
            yield from self.through(st, x, it, n + 1, site, depth)
        elif op in ("filter", "filter_map"):
            arg = x
            if op == "filter":
                st.nid += 1
                st.env[(("tmp", st.nid), 0)] = x
                arg = ("ref", ("L", ("tmp", st.nid), 0, ()))
            for s, v in self.call_closure(st, f, [arg], site, depth):
                if not self.real(v):
                    continue
                if op == "filter":
                    for z in self.assume(s.copy(), v, True):
                        yield from self.through(z, x, it, n + 1, site, depth)
                    for z in self.assume(s, v, False):
                        z.note(("left out", it[1], it[3] - 1, site))
                        yield from self.pull(z, it, site, depth)
                else:
                    for z, var, pl in self.opt(s, v):
                        if var == "Some":
                            yield from self.through(z, pl[0], it, n + 1, site, depth)
                        else:
                            z.note(("left out", it[1], it[3] - 1, site))
                            yield from self.pull(z, it, site, depth)

    # -------------------------------------------------------------- calls
    def iter_call(self, st, c, args, site, depth):
        n = c.name
        if not args:
            return None
        a0 = self.addr(st, args[0])
        isit = a0[0] in ("iter", "coll")
        if n in ("iter", "into_iter", "iter_mut", "keys", "values", "drain") and len(args) <= 2:
            if not self.is_coll(c, args[0], st) and not isit:
                if n != "into_iter" or "&" not in c.full:
                    return None
            kind = {"keys": "keys", "values": "values"}.get(n)
            if kind is None:
                kind = "pairs" if "Map" in c.full.split(" as ")[0] and n in ("iter", "into_iter") and "Set" not in c.full else "ref"
            return [(st, self.as_iter(st, args[0], kind))]
        if n in ("len", "is_empty") and (isit or self.is_coll(c, args[0], st)) and not (isit and a0[0] == "iter" and a0[4]):
            t = ("len", a0[1] if a0[0] == "iter" else self.whole(a0))
            self.settype(t, "usize")
            return [(st, t if n == "len" else ("op", "Eq", t, C(0, "usize")))]
        if not isit:
            return None
        it = self.as_iter(st, args[0], "ref") if a0[0] == "coll" else a0
        if n in ("map", "filter", "filter_map", "inspect") and len(args) == 2:
            return [(st, it[:4] + (it[4] + ((n, args[1]),),))]
        if n == "enumerate":
            return [(st, it[:4] + (it[4] + ((n, None),),))]
        if n == "rev":
            return [(st, self.turned(it))]
        if n in ("cloned", "copied", "fuse", "peekable", "by_ref", "as_slice", "deref", "as_ref", "borrow"):
            return [(st, args[0] if n in ("by_ref", "deref", "as_ref", "as_slice", "borrow") else it)]
        if n == "zip":
            other = self.as_iter(st, args[1], "ref")
            if it[1][0] == "rev":
                # two reversed sides pair up like two straight ones
                it, other = self.turned(it), self.turned(other)
            return [(st, ("iter", ("zip", it, other), "zip", 0, ()))]
        if n in PART:
            st.note(("partial", it[1], n, site))
            return [(st, it)]
        if n == "collect":
            return [(st, ("coll", self.freeze(st, it)))]
        if n == "next":
            out = []
            for s, x, i in self.pull(st, it, site, depth):
                if args[0][0] == "ref":
                    self.store_quiet(s, self.last_loc(s, args[0]), i)
                out.append((s, NONE if x is None else some(x)))
            return out
        if n in ("any", "all", "find", "find_map", "for_each", "position", "contains", "try_for_each", "last", "count"):
            f = args[1] if len(args) > 1 else None
            return list(self.drive(st, it, n, f, site, depth))
        if n == "fold" and len(args) == 3:
            return list(self.fold(st, it, args[1], args[2], site, depth))
        return None

    def freeze(self, st, v, d=0):
        """References to locals, held by adapters that are run later, keep what they refer to."""
        if not isinstance(v, tuple) or not v or d > 8:
            return v
        if v[0] == "ref" and len(v) == 2 and v[1][0] == "L":
            st.nid += 1
            key = ("frozen", st.nid)
            st.env[(key, 0)] = self.freeze(st, self.content(st, v[1]), d + 1)
            return ("ref", ("L", key, 0, ()))
        if v[0] in ("iter", "agg", "zip", "coll") or isinstance(v[0], tuple) or v[0] in ("map", "filter", "filter_map", "inspect"):
            return tuple(self.freeze(st, x, d + 1) if isinstance(x, tuple) else x for x in v)
        return v

    @staticmethod
    def whole(a):
        """Source of a collection made by adapters that keep every element."""
        if a[0] == "coll" and all(op in ("map", "enumerate", "inspect") for op, f in a[1][4]) and a[1][1][0] != "zip":
            return a[1][1]
        return a

    def last_loc(self, st, a):
        n = 0
        while n < 8:
            v = self.content(st, a[1])
            if v[0] != "ref":
                return a[1]
            a = v
            n += 1
        return a[1]

    def fold(self, st, it, acc, f, site, depth):
        for s, x, i in self.pull(st, it, site, depth):
            if x is None:
                yield s, acc
                continue
            for z, v in self.call_closure(s, f, [acc, x], site, depth):
                if self.real(v):
                    yield from self.fold(z, i, v, f, site, depth)

    def drive(self, st, it, n, f, site, depth):
        for s, x, i in self.pull(st, it, site, depth):
            if x is None:
                yield s, {"any": FALSE, "contains": FALSE, "all": TRUE, "find": NONE, "find_map": NONE, "position": NONE, "for_each": UNIT}.get(n, s.fresh(n))
                continue
            if n in ("count", "last"):
                yield from self.drive(s, i, n, f, site, depth)
                continue
            if n == "contains":
                res = [(s, self.eq(s, x, f))]
            else:
                arg = x
                if n == "find":
                    s.nid += 1
                    s.env[(("tmp", s.nid), 0)] = x
                    arg = ("ref", ("L", ("tmp", s.nid), 0, ()))
                res = self.call_closure(s, f, [arg], site, depth)
            for z, v in res:
                if not self.real(v):
                    continue
                if n == "for_each":
                    yield from self.drive(z, i, n, f, site, depth)
                elif n == "try_for_each":
                    for y, var, pl in self.res(z, v):
                        if var == "Ok":
                            yield from self.drive(y, i, n, f, site, depth)
                        else:
                            yield y, v
                elif n == "find_map":
                    for y, var, pl in self.opt(z, v):
                        if var == "Some":
                            yield y, some(pl[0])
                        else:
                            yield from self.drive(y, i, n, f, site, depth)
                else:
                    hit = n != "all"
                    for y in self.assume(z.copy(), v, hit):
                        yield y, {"any": TRUE, "contains": TRUE, "all": FALSE, "find": some(x), "position": some(("count", it[1], i[3] - 1))}[n]
                    for y in self.assume(z, v, not hit):
                        yield from self.drive(y, i, n, f, site, depth)

    def std(self, st, c, args, site, depth):
        r = self.iter_call(st, c, args, site, depth)
        if r is not None:
            return r
        return super().std(st, c, args, site, depth)

    def optres(self, st, n, isopt, args, site, depth):
        if isopt and n in ("get_or_insert", "insert", "replace", "get_or_insert_with") and args[0][0] == "ref":
            loc = self.last_loc(st, args[0])
            if n in ("insert", "replace"):
                old = self.content(st, loc)
                self.store(st, loc, some(args[1]))
                return [(st, old if n == "replace" else ("ref", self.ext_loc(loc, ("f", 0, "0"))))]
            out = []
            for s, var, pl in self.opt(st, self.content(st, loc)):
                if var == "Some":
                    out.append((s, ("ref", self.ext_loc(loc, ("f", 0, "0")))))
                elif n == "get_or_insert":
                    self.store(s, loc, some(args[1]))
                    out.append((s, ("ref", self.ext_loc(loc, ("f", 0, "0")))))
                else:
                    for z, v in self.call_closure(s, args[1], [], site, depth):
                        if self.real(v):
                            self.store(z, loc, some(v))
                            out.append((z, ("ref", self.ext_loc(loc, ("f", 0, "0")))))
            return out
        return super().optres(st, n, isopt, args, site, depth)
