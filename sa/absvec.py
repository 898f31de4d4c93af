"""Vectors and maps with known element positions on top of AbsStr.

('vec', items)          a Vec or slice whose elements have known positions
('map', ((k, v), ...))  a hash or tree map with known keys
"""
from .absint import C, NONE, UNIT, some, tup
from .absstr import AbsStr, text_of

VECNEW = ("new", "with_capacity", "default")
SAME = ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "by_ref", "as_deref")


class Vecs(AbsStr):
    maps = True

    def vecable(self, full):
        return ("alloc::vec::Vec::<" in full or "alloc::vec::Vec<" in full) and "Vec::<u8>" not in full and "Vec<u8>" not in full

    def where(self, v):
        """The location of the container v refers to, or None for a value."""
        return v[1] if v[0] == "ref" else None

    def resolve(self, st, v):
        loc = None
        for _ in range(8):
            if v[0] != "ref":
                break
            loc = v[1]
            v = self.content(st, loc)
        return loc, v

    def elem(self, st, loc, items, k):
        if loc is None:
            return self.ref(st, items[k])
        return ("ref", self.ext_loc(loc, ("ci", k)))

    def refs(self, st, loc, items):
        return tuple(self.elem(st, loc, items, k) for k in range(len(items)))

    def keyeq(self, a, b):
        a, b = a, b
        if a == b:
            return True
        try:
            if a[0] == "chs" and b[0] == "chs" and all(x[0] == "c" for x in a[1] + b[1]):
                return text_of(a) == text_of(b)
        except Exception:
            pass
        if a[0] == "c" and b[0] == "c":
            return a[2] == b[2]
        return None

    def keyval(self, st, k):
        k = self.deref(st, k)
        s = self.chs(st, k) if k[0] in ("c", "chs", "cat") and not (k[0] == "c" and k[1] != "str") else None
        return s if s is not None else k

    def text_call(self, st, c, args, site, depth):
        r = self.vec_call(st, c, args, site, depth)
        if r is not None:
            return r
        return super().text_call(st, c, args, site, depth)

    def vec_call(self, st, c, args, site, depth):
        n = c.name
        if n in VECNEW and (not args or n == "with_capacity"):
            if self.vecable(c.full) and c.path.startswith("alloc::vec"):
                return [(st, ("vec", ()))]
            if self.maps and ("HashMap" in c.path or "BTreeMap" in c.path):
                return [(st, ("map", ()))]
        if n == "from_iter" and args and self.vecable(c.full):
            q = self.deref(st, args[0])
            if q[0] == "seq":
                return [(st, ("vec", q[1][q[2] :]))]
        if n == "box_assume_init_into_vec_unsafe" and args:
            q = self.deref(st, args[0])
            if q[0] == "agg":
                return [(st, ("vec", q[3]))]
        if not args:
            return None
        if n == "collect" and self.vecable(c.full.rsplit("collect", 1)[-1]):
            q = self.deref(st, args[0])
            if q[0] == "seq":
                return [(st, ("vec", q[1][q[2] :]))]
        if n == "zip" and len(args) == 2:
            a, b = self.deref(st, args[0]), self.deref(st, args[1])
            if a[0] == "seq":
                if b[0] == "vec":
                    b = ("seq", self.refs(st, self.resolve(st, args[1])[0], b[1]), 0)
                if b[0] == "seq":
                    return [(st, ("seq", tuple(tup(x, y) for x, y in zip(a[1][a[2] :], b[1][b[2] :])), 0))]
        if n in ("chain",) and len(args) == 2:
            a, b = self.deref(st, args[0]), self.deref(st, args[1])
            if a[0] == "seq" and b[0] == "seq":
                return [(st, ("seq", a[1][a[2] :] + b[1][b[2] :], 0))]
        if n == "once" and c.path.endswith("once::once") and len(args) == 1:
            return [(st, ("seq", (args[0],), 0))]
        loc, v = self.resolve(st, args[0])
        if v[0] == "vec":
            return self.on_vec(st, c, n, args, loc, v[1], site, depth)
        if v[0] == "map":
            return self.on_map(st, c, n, args, loc, v[1], site, depth)
        return None

    def on_vec(self, st, c, n, args, loc, it, site, depth):
        if n in SAME:
            return [(st, args[0] if args[0][0] == "ref" else ("vec", it))]
        if n in ("clone", "to_vec", "to_owned", "into_boxed_slice", "into_vec", "into"):
            return [(st, ("vec", it))]
        if n == "len":
            return [(st, C(len(it), "usize"))]
        if n == "is_empty":
            return [(st, C(int(not it), "bool"))]
        if n == "push" and len(args) == 2:
            self.put(st, args[0], ("vec", it + (args[1],)))
            return [(st, UNIT)]
        if n == "pop":
            if not it:
                return [(st, NONE)]
            self.put(st, args[0], ("vec", it[:-1]))
            return [(st, some(it[-1]))]
        if n in ("last", "first", "last_mut", "first_mut"):
            if not it:
                return [(st, NONE)]
            return [(st, some(self.elem(st, loc, it, len(it) - 1 if n.startswith("last") else 0)))]
        if n in ("get", "get_mut", "index", "index_mut") and len(args) == 2:
            k = self.deref(st, args[1])
            if k[0] == "c" and isinstance(k[2], int):
                if 0 <= k[2] < len(it):
                    e = self.elem(st, loc, it, k[2])
                    return [(st, some(e) if n.startswith("get") else e)]
                if n.startswith("get"):
                    return [(st, NONE)]
                st.note(("slicepanic", site))
                return [(st, None)]
            r = self.range(st, k, len(it))
            if r is not None:
                a, b = r
                if 0 <= a <= b <= len(it):
                    x = ("vec", it[a:b])
                    return [(st, some(x) if n.startswith("get") else x)]
                if n.startswith("get"):
                    return [(st, NONE)]
                st.note(("slicepanic", site))
                return [(st, None)]
            return None
        if n in ("iter", "iter_mut"):
            return [(st, ("seq", self.refs(st, loc, it), 0))]
        if n == "into_iter":
            return [(st, ("seq", self.refs(st, loc, it) if args[0][0] == "ref" else it, 0))]
        if n == "drain" and len(args) == 2:
            r = self.range(st, self.deref(st, args[1]), len(it))
            if r is not None:
                self.put(st, args[0], ("vec", it[: r[0]] + it[r[1] :]))
                return [(st, ("seq", it[r[0] : r[1]], 0))]
            return None
        if n == "insert" and len(args) == 3:
            k = self.deref(st, args[1])
            if k[0] == "c" and k[2] <= len(it):
                self.put(st, args[0], ("vec", it[: k[2]] + (args[2],) + it[k[2] :]))
                return [(st, UNIT)]
            return None
        if n in ("remove", "swap_remove") and len(args) == 2:
            k = self.deref(st, args[1])
            if k[0] == "c" and k[2] < len(it):
                if n == "swap_remove" and k[2] < len(it) - 1:
                    left = it[: k[2]] + (it[-1],) + it[k[2] + 1 : -1]
                else:
                    left = it[: k[2]] + it[k[2] + 1 :]
                self.put(st, args[0], ("vec", left))
                return [(st, it[k[2]])]
            return None
        if n == "truncate" and len(args) == 2:
            k = self.deref(st, args[1])
            if k[0] == "c":
                self.put(st, args[0], ("vec", it[: k[2]]))
                return [(st, UNIT)]
            return None
        if n == "clear":
            self.put(st, args[0], ("vec", ()))
            return [(st, UNIT)]
        if n in ("extend", "append", "extend_from_slice") and len(args) == 2:
            q = self.deref(st, args[1])
            if q[0] in ("vec", "seq"):
                add = q[1] if q[0] == "vec" else q[1][q[2] :]
                self.put(st, args[0], ("vec", it + tuple(add)))
                if n == "append":
                    self.put(st, args[1], ("vec", ()))
                return [(st, UNIT)]
            return None
        if n == "reverse":
            self.put(st, args[0], ("vec", it[::-1]))
            return [(st, UNIT)]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, UNIT)]
        if n in ("split_first", "split_last"):
            if not it:
                return [(st, NONE)]
            a, b = (self.elem(st, loc, it, 0), ("vec", it[1:])) if n == "split_first" else (self.elem(st, loc, it, len(it) - 1), ("vec", it[:-1]))
            return [(st, some(tup(a, b)))]
        if n == "contains" and len(args) == 2:
            k = self.keyval(st, args[1])
            hits = [self.keyeq(self.keyval(st, x), k) for x in it]
            if True in hits or None not in hits:
                return [(st, C(int(True in hits), "bool"))]
            return None
        return None

    def range(self, st, k, n):
        if k[0] != "agg":
            return None
        xs = [self.deref(st, x) for x in k[3]]
        if any(x[0] != "c" for x in xs[:2]):
            return None
        if k[1].endswith("RangeFull"):
            return 0, n
        if k[1].endswith("RangeFrom"):
            return xs[0][2], n
        if k[1].endswith("RangeTo"):
            return 0, xs[0][2]
        if k[1].endswith("RangeToInclusive"):
            return 0, xs[0][2] + 1
        if k[1].endswith("RangeInclusive"):
            return xs[0][2], xs[1][2] + 1
        if k[1].endswith("Range"):
            return xs[0][2], xs[1][2]
        return None

    def find(self, st, it, k):
        """Index of the key, -1 when absent, None when unknown."""
        unsure = False
        for i, (kk, vv) in enumerate(it):
            e = self.keyeq(kk, k)
            if e:
                return i
            if e is None:
                unsure = True
        return None if unsure else -1

    def on_map(self, st, c, n, args, loc, it, site, depth):
        if n in ("len",):
            return [(st, C(len(it), "usize"))]
        if n == "is_empty":
            return [(st, C(int(not it), "bool"))]
        if n == "clone":
            return [(st, ("map", it))]
        if n == "clear":
            self.put(st, args[0], ("map", ()))
            return [(st, UNIT)]
        if n in SAME:
            return [(st, args[0])]
        if n in ("get", "get_mut", "contains_key", "get_key_value", "insert", "remove") and len(args) >= 2:
            k = self.keyval(st, args[1])
            i = self.find(st, it, k)
            if i is None:
                return None
            if n == "contains_key":
                return [(st, C(int(i >= 0), "bool"))]
            if n in ("get", "get_mut"):
                return [(st, NONE if i < 0 else some(self.ref(st, it[i][1])))] if n == "get" or i < 0 else None
            if n == "get_key_value":
                return [(st, NONE if i < 0 else some(tup(self.ref(st, it[i][0]), self.ref(st, it[i][1]))))]
            if n == "remove":
                if i < 0:
                    return [(st, NONE)]
                self.put(st, args[0], ("map", it[:i] + it[i + 1 :]))
                return [(st, some(it[i][1]))]
            if i < 0:
                self.put(st, args[0], ("map", it + ((k, args[2]),)))
                return [(st, NONE)]
            self.put(st, args[0], ("map", it[:i] + ((it[i][0], args[2]),) + it[i + 1 :]))
            return [(st, some(it[i][1]))]
        return None

    # ---- element access
    def content(self, st, loc):
        if loc[0] == "S" and loc[1][0] in ("vec", "map") and loc[1] not in st.heap:
            return self.project(st, loc[1], loc[2])
        return super().content(st, loc)

    def project(self, st, v, proj):
        for j, p in enumerate(proj):
            if p[0] in ("i", "ci") and v[0] == "vec":
                ix = p[1]
                if isinstance(ix, tuple):
                    ix = self.deref(st, ix)
                    ix = ix[2] if ix[0] == "c" else None
                if isinstance(ix, int) and len(p) > 3 and p[3]:
                    ix = len(v[1]) - ix
                if isinstance(ix, int) and 0 <= ix < len(v[1]):
                    v = v[1][ix]
                    continue
            v = super().project(st, v, (p,))
        return v

    def update(self, st, v, proj, x):
        if proj and proj[0][0] in ("i", "ci") and v[0] == "vec":
            ix = proj[0][1]
            if isinstance(ix, tuple):
                ix = self.deref(st, ix)
                ix = ix[2] if ix[0] == "c" else None
            if isinstance(ix, int) and 0 <= ix < len(v[1]):
                return ("vec", v[1][:ix] + (self.update(st, v[1][ix], proj[1:], x),) + v[1][ix + 1 :])
        return super().update(st, v, proj, x)
