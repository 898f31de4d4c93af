"""Interp with linear relations between integers: proves index, slice and overflow checks.

A state carries relations 'form >= 0' where a form is a constant plus integer multiples of terms; they
come from branches and from library models (get, position, checked_add, ...). A check is proved by
interval bounds after adding at most a few known relations; nothing is handed to a solver. At a loop
head 'counter <= length of a slice' is kept if every round keeps it (found by dropping candidates)."""
import re

from . import panics
from .absint import C, FALSE, INT_RANGE, NONE, TRUE, UNIT, Interp, err, ok, some, tup
from .iset import ISet

UMAX = 2**64 - 1
LMAX = 2**63 - 1
RNG = "core::ops::range::"


def addf(a, b, k=1):
    d = dict(a[1])
    for t, c in b[1]:
        d[t] = d.get(t, 0) + k * c
    return a[0] + k * b[0], tuple(sorted(((t, c) for t, c in d.items() if c), key=repr))


class Bounds(Interp):
    def __init__(self, prog, **k):
        self.ob = {}
        self.dropped = set()
        self.again = False
        self.visited = set()
        self.root = None
        k.setdefault("merging", False)
        super().__init__(prog, on_call=self.hook, **k)

    # ------------------------------------------------------------ forms
    def lin(self, st, t):
        k = t[0]
        if k == "c" and isinstance(t[2], int):
            return t[2], ()
        if k == "op" and t[1] in ("Add", "Sub"):
            return addf(self.lin(st, t[2]), self.lin(st, t[3]), 1 if t[1] == "Add" else -1)
        if k == "op" and t[1] == "Mul" and t[3][0] == "c":
            return addf((0, ()), self.lin(st, t[2]), t[3][2])
        if k == "cast" and t[1] in INT_RANGE:
            if self.rng(st, t[2]) is not None:
                lo, hi = self.rng(st, t[2])
                a, b = INT_RANGE[t[1]]
                if a <= lo and hi <= b:
                    return self.lin(st, t[2])
        if k == "len":
            return self.length(st, t[1])
        return 0, ((t, 1),)

    def rng(self, st, t):
        if t[0] == "len":
            return 0, LMAX
        d = self.dom(st, t)
        ty = self.tyof.get(t)
        if t[0] == "cast":
            ty = t[1]
        lo, hi = INT_RANGE.get(ty, (None, None))
        if d.iv:
            a, b = d.iv[0][0], d.iv[-1][1]
            if lo is None:
                lo, hi = a, b
            else:
                lo, hi = max(lo, a), min(hi, b)
        return None if lo is None else (lo, hi)

    def base(self, st, a):
        """What a slice, vector or array reference refers to."""
        n = 0
        while a[0] == "ref" and n < 8:
            a = self.content(st, a[1])
            n += 1
        if a[0] == "mem" and a[1][0] in ("slice", "sym", "fld", "call"):
            return a[1]
        return a

    def length(self, st, x):
        x = self.base(st, x)
        if x[0] == "slice":
            return addf(self.lin(st, x[3]), self.lin(st, x[2]), -1)
        if x[0] == "agg" and x[1] in ("array", "slice") or x[0] == "agg" and x[1].startswith("["):
            return len(x[3]), ()
        if x[0] == "c" and isinstance(x[2], (tuple, bytes, str)):
            return len(x[2]), ()
        if x[0] == "bytes":
            return self.length(st, x[1])
        m = re.search(r"; (\d+)\]$", self.tyof.get(x) or "")
        if m:
            return int(m.group(1)), ()
        return 0, ((("len", x), 1),)

    def lenterm(self, st, x):
        f = self.length(st, x)
        if not f[1]:
            return C(f[0], "usize")
        x = self.base(st, x)
        if x[0] == "slice":
            return self.binop(st, "Sub", x[3], x[2])
        t = ("len", x)
        self.tyof[t] = "usize"
        return t

    # ------------------------------------------------------------ proving
    def low(self, st, f):
        n = f[0]
        for t, c in f[1]:
            r = self.rng(st, t)
            if r is None:
                return None
            n += c * (r[0] if c > 0 else r[1])
        return n

    def prove(self, st, f, depth=4, used=()):
        """f >= 0 on every run that reaches this state?"""
        n = self.low(st, f)
        if n is not None and n >= 0:
            return True
        if not depth:
            return False
        neg = {t for t, c in f[1] if c < 0}
        pos = {t for t, c in f[1] if c > 0}
        for g in st.ext.get("ge", ()):
            if g in used:
                continue
            if not any(c < 0 and t in neg for t, c in g[1]) and not any(c > 0 and t in pos for t, c in g[1]):
                continue
            if self.prove(st, addf(f, g, -1), depth - 1, used + (g,)):
                return True
        return False

    def le(self, st, a, b):
        return self.prove(st, addf(b, a, -1))

    def add(self, st, f):
        """Records f >= 0; False if that is impossible here."""
        if not f[1]:
            return f[0] >= 0
        neg = addf((-1, ()), f, -1)
        if self.prove(st, neg, 3):
            return False
        if len(f[1]) == 1 and abs(f[1][0][1]) == 1:
            t, c = f[1][0]
            if not self.refine(st, t, ISet.rng(-f[0], 1 << 127) if c == 1 else ISet.rng(-(1 << 127), f[0])):
                return False
        st.ext["ge"] = st.ext.get("ge", frozenset()) | {f}
        return True

    def assume(self, st, c, truth):
        res = super().assume(st, c, truth)
        if c[0] != "op" or c[1] not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") or any(x[0] in ("disc", "agg", "slice", "bytes") or x[0] == "c" and not isinstance(x[2], int) for x in c[2:4]):
            return res
        if not any(self.tyof.get(x) in INT_RANGE or x[0] in ("op", "len", "cast") for x in c[2:4]):
            return res
        op = c[1]
        if not truth:
            op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
        out = []
        for s in res:
            a, b = self.lin(s, c[2]), self.lin(s, c[3])
            d = addf(b, a, -1)
            fs = {"Lt": [addf(d, (-1, ()))], "Le": [d], "Gt": [addf((-1, ()), d, -1)], "Ge": [addf((0, ()), d, -1)], "Eq": [d, addf((0, ()), d, -1)], "Ne": []}[op]
            if all(self.add(s, f) for f in fs):
                out.append(s)
        return out

    # ------------------------------------------------------------ obligations
    def oblige(self, fn, line, kind, good, why=""):
        k = (fn.path, line, kind)
        o = self.ob.get(k)
        if o is None or o[0] and not good:
            self.ob[k] = (good, why, fn)

    def step(self, st, fn, fr, b, depth, loops):
        self.visited.add(fn.id)
        t = fn.term(b)
        if t["k"] != "assert":
            yield from super().step(st, fn, fr, b, depth, loops)
            return
        m = t.get("m") or t.get("msg") or "assert"
        for s, to, how, x in super().step(st, fn, fr, b, depth, loops):
            if how == "go":
                self.asserted(s, fn, fr, b, m)
            yield s, to, how, x

    def asserted(self, s, fn, fr, b, m):
        st_ = [x for x in fn.stmts(b) if x["k"] == "=" and x["r"]["k"] == "bin"]
        line = fn.term(b).get("n")
        if m.startswith("overflow") and st_ and st_[-1]["r"]["op"].endswith("WithOverflow"):
            r = st_[-1]["r"]
            ty = fn.locals[st_[-1]["p"][0]].strip("()").split(",")[0]
            a, c = (self.operand(s, fn, fr, r[x]) for x in "ab")
            lo, hi = INT_RANGE.get(ty, (None, None))
            op = r["op"][:3]
            if lo is None:
                self.oblige(fn, line, m, False, "unknown type")
                return
            if op == "Mul":
                ra, rb = self.rng(s, a), self.rng(s, c)
                good = ra is not None and rb is not None and ra[0] >= 0 and rb[0] >= 0 and ra[1] * rb[1] <= hi
            else:
                f = addf(self.lin(s, a), self.lin(s, c), 1 if op == "Add" else -1)
                good = self.prove(s, addf((hi, ()), f, -1)) and self.prove(s, addf((-lo, ()), f))
            self.oblige(fn, line, m, good, f"{self.say(a)} {op.lower()} {self.say(c)} may leave the range of {ty}")
        elif m.startswith("bounds") and st_ and st_[-1]["r"]["op"] == "Lt":
            r = st_[-1]["r"]
            a, c = (self.operand(s, fn, fr, r[x]) for x in "ab")
            f = addf(addf(self.lin(s, c), self.lin(s, a), -1), (-1, ()))
            self.oblige(fn, line, m, self.prove(s, f), f"index {self.say(a)} may reach {self.say(c)}")
        elif m.startswith(("div", "rem")) and st_:
            r = st_[-1]["r"]
            a = self.operand(s, fn, fr, r["a"])
            self.oblige(fn, line, m, self.prove(s, addf(self.lin(s, a), (-1, ()))), f"{self.say(a)} may be zero")
        else:
            self.oblige(fn, line, m, False, "not understood")

    def say(self, t):
        from .absint import show
        return re.sub(r"\?loop:[^ )]*", "counter", show(t))[:80]

    # ------------------------------------------------------------ loops
    def widen(self, st, fn, fr, body):
        before = dict(st.env)
        head = tuple(sorted(body))[0]
        super().widen(st, fn, fr, body)
        st.ext["ge"] = frozenset(f for f in st.ext.get("ge", ()) if not any(self.mentions_loop(t, fn.id, fr[1], head) for t, c in f[1]))
        lens = set()
        for key, v in before.items():
            if not isinstance(v, tuple) or not v:
                continue
            local = key[0] == fr and isinstance(key[1], int) and "[u8" in fn.locals[key[1]]
            if local or v[0] == "slice" or v[0] in ("sym", "fld", "call", "mem") and "[u8" in (self.tyof.get(v) or ""):
                b = self.base(st, v)
                if b[0] != "ref":
                    lens.add(b)
        cands = []
        for key, old in before.items():
            new = st.env.get(key)
            if old[0] == "range":
                st.env[key] = old
                continue
            if new == old or new is None or new[0] != "sym" or new[1] != "loop" or key[0] != fr or fn.locals[key[1]] != "usize":
                continue
            self.tyof[new] = "usize"
            for b in sorted(lens, key=repr):
                cid = (self.root, fr, head, key[1], b)
                if cid in self.dropped:
                    continue
                L = self.length(st, b)
                if self.le(st, self.lin(st, old), L):
                    cands.append((cid, key, b))
                    self.add(st, addf(L, self.lin(st, new), -1))
        st.ext[("cand", fn.id, fr, head)] = tuple(cands)

    def on_back(self, st, fn, fr, head):
        for h in (head,):
            for k, cands in list(st.ext.items()):
                if isinstance(k, tuple) and k[0] == "cand" and k[1] == fn.id and k[2] == fr and (k[3] == head or head in fn.loops() and k[3] == tuple(sorted(fn.loops()[head]))[0]):
                    for cid, key, b in cands:
                        if not self.le(st, self.lin(st, st.env[key]), self.length(st, b)):
                            self.dropped.add(cid)
                            self.again = True

    # ------------------------------------------------------------ library
    def newint(self, st, ty="usize", *tag):
        v = st.fresh(*tag)
        self.tyof[v] = ty
        return v

    def rvalue(self, st, fn, fr, r):
        if r["k"] == "un" and r["op"] == "PtrMetadata":
            return self.lenterm(st, self.operand(st, fn, fr, r["a"]))
        if r["k"] == "agg" and r["ak"] == "adt" and norm_range(r["adt"]) and not r["enum"]:
            xs = tuple(self.operand(st, fn, fr, x) for x in r["xs"])
            return ("agg", RNG + norm_range(r["adt"]), None, xs)
        return super().rvalue(st, fn, fr, r)

    def limits(self, st, r, b):
        """(lo, hi) terms of a range used on b, or None."""
        r = self.deref(st, r)
        if r[0] == "range":
            return r[1], r[2]
        if r[0] == "call" and r[1].endswith("RangeInclusive::new") or r[0] == "agg" and r[1] == RNG + "RangeInclusive":
            xs = r[2] if r[0] == "call" else r[3]
            return xs[0], self.binop(st, "Add", xs[1], C(1, "usize"))
        if r[0] != "agg" or not r[1].startswith(RNG):
            return None
        n = r[1][len(RNG):]
        if n == "Range":
            return r[3][0], r[3][1]
        if n == "RangeFrom":
            return r[3][0], self.lenterm(st, b)
        if n == "RangeTo":
            return C(0, "usize"), r[3][0]
        if n == "RangeToInclusive":
            return C(0, "usize"), self.binop(st, "Add", r[3][0], C(1, "usize"))
        if n == "RangeFull":
            return C(0, "usize"), self.lenterm(st, b)
        return None

    def sub(self, st, b, lo, hi):
        if b[0] == "slice":
            # offsets are kept relative to the whole
            return ("slice", b[1], self.binop(st, "Add", b[2], lo), self.binop(st, "Add", b[2], hi))
        return ("slice", b, lo, hi)

    def hook(self, I, st, c, args, site):
        fn, bb, line = site
        n, p, full = c.name, c.path, c.full
        why = panics.why(c)
        a0 = args[0] if args else None
        if n == "len" and len(args) == 1:
            return [(st, self.lenterm(st, a0))]
        if n == "is_empty" and len(args) == 1 and ("slice" in p or "Vec" in full or "[u8]" in full):
            return [(st, self.binop(st, "Eq", self.lenterm(st, a0), C(0, "usize")))]
        if n in ("index", "index_mut") and "ops::index::Index" in full and len(args) == 2:
            b = self.base(st, a0)
            L = self.limits(st, args[1], b)
            if L is not None and "str" not in full.split(" as ")[0]:
                lo, hi = L
                g = self.le(st, self.lin(st, lo), self.lin(st, hi)) and self.le(st, self.lin(st, hi), self.length(st, b))
                self.oblige(fn, line, "slice", g, f"{self.say(lo)}..{self.say(hi)} may lie outside the data")
                return [(st, self.sub(st, b, lo, hi))]
            if L is None and re.search(r"Index<usize>", full):
                i = self.deref(st, args[1])
                g = self.prove(st, addf(addf(self.length(st, b), self.lin(st, i), -1), (-1, ())))
                self.oblige(fn, line, "index", g, f"index {self.say(i)} may lie outside the data")
                return [(st, ("elem", ("mem", b), ("i", i)))]
            self.oblige(fn, line, "index", False, "not understood")
            return None
        if n in ("get", "get_mut") and len(args) == 2 and ("slice" in p or "Vec" in full):
            b = self.base(st, a0)
            L = self.limits(st, args[1], b)
            if L is not None:
                lo, hi = L
                fs = [addf(self.lin(st, hi), self.lin(st, lo), -1), addf(self.length(st, b), self.lin(st, hi), -1)]
                v = self.sub(st, b, lo, hi)
            else:
                i = self.deref(st, args[1])
                fs = [addf(addf(self.length(st, b), self.lin(st, i), -1), (-1, ()))]
                v = ("elem", ("mem", b), ("i", i))
            return self.either(st, fs, some(v), NONE)
        if n in ("split_at", "split_at_checked") and len(args) == 2 and "slice" in p:
            b, i = self.base(st, a0), self.deref(st, args[1])
            f = addf(self.length(st, b), self.lin(st, i), -1)
            v = tup(self.sub(st, b, C(0, "usize"), i), self.sub(st, b, i, self.lenterm(st, b)))
            if n == "split_at":
                self.oblige(fn, line, "slice", self.prove(st, f), f"split at {self.say(i)} may lie outside the data")
                return [(st, v)] if self.add(st, f) else []
            return self.either(st, [f], some(v), NONE)
        m = re.search(r"first_chunk::<(\d+)>$", full)
        if m and len(args) == 1:
            b, k = self.base(st, a0), C(int(m.group(1)), "usize")
            v = self.sub(st, b, C(0, "usize"), k)
            if n == "split_first_chunk":
                v = tup(("bytes", v), self.sub(st, b, k, self.lenterm(st, b)))
            else:
                v = ("bytes", v)
            return self.either(st, [addf(self.length(st, b), (k[2], ()), -1)], some(v), NONE)
        if n in ("try_into", "try_from") and len(args) == 1:
            m = re.search(r"\[u8; (\d+)\]", full)
            b = self.base(st, a0)
            if m and "[u8]" in full:
                f = addf(self.length(st, b), (int(m.group(1)), ()), -1)
                return self.either(st, [f, addf((0, ()), f, -1)], ok(("bytes", b)), err(st.fresh("size")))
            m = re.search(r"TryInto<(\w+)>|^<(\w+) as core::convert::TryFrom", full)
            to = m and (m.group(1) or m.group(2))
            if to in INT_RANGE:
                v = self.deref(st, a0)
                f = self.lin(st, v)
                lo, hi = INT_RANGE[to]
                t = ("cast", to, v)
                return self.either(st, [addf((hi, ()), f, -1), addf((-lo, ()), f)], ok(t), err(st.fresh("size")))
        if n in ("from_le_bytes", "from_be_bytes", "from_ne_bytes") and "core::num" in p:
            v = self.deref(st, a0)
            t = ("call", n, (v,), 0)
            m = re.search(r"<impl (\w+)>", p)
            self.tyof[t] = m.group(1) if m else "u32"
            return [(st, t)]
        if n.startswith("checked_") and "core::num" in p and len(args) == 2:
            m = re.search(r"<impl (\w+)>", p)
            lo, hi = INT_RANGE.get(m.group(1) if m else "", (0, UMAX))
            a, b = self.deref(st, a0), self.deref(st, args[1])
            if n[8:] in ("add", "sub"):
                v = self.binop(st, n[8:].capitalize(), a, b)
                f = addf(self.lin(st, a), self.lin(st, b), 1 if n[8:] == "add" else -1)
                self.tyof.setdefault(v, m.group(1) if m else "usize")
                return self.either(st, [addf((hi, ()), f, -1), addf((-lo, ()), f)], some(v), NONE)
            if n[8:] == "mul" and b[0] == "c":
                v = ("op", "Mul", a, b)
                f = self.lin(st, v)
                self.tyof.setdefault(v, m.group(1) if m else "usize")
                return self.either(st, [addf((hi, ()), f, -1)], some(v), NONE)
        if n.startswith(("saturating_", "wrapping_")) and "core::num" in p and len(args) == 2:
            a, b = self.deref(st, a0), self.deref(st, args[1])
            v = self.newint(st, "usize", n)
            out = []
            if n == "saturating_sub":
                f = addf(self.lin(st, a), self.lin(st, b), -1)
                return self.either(st, [f], self.binop(st, "Sub", a, b), C(0, "usize"))
            if n == "saturating_add":
                f = addf((UMAX, ()), addf(self.lin(st, a), self.lin(st, b)), -1)
                return self.either(st, [f], self.binop(st, "Add", a, b), C(UMAX, "usize"))
            return [(st, v)]
        if n in ("min", "max") and len(args) == 2 and ("cmp" in p or "cmp" in full):
            a, b = self.deref(st, a0), self.deref(st, args[1])
            f = addf(self.lin(st, b), self.lin(st, a), -1)
            return self.either(st, [f], a if n == "min" else b, b if n == "min" else a)
        if n == "windows" and len(args) == 2 and "slice" in p:
            k = self.deref(st, args[1])
            self.oblige(fn, line, "windows", self.prove(st, addf(self.lin(st, k), (-1, ()))), "windows of size zero")
            return [(st, ("windows", self.base(st, a0), k))]
        it = self.deref(st, a0) if a0 is not None else None
        if it is not None and it[0] == "windows" and n in ("position", "rposition", "any", "find") and len(args) == 2:
            return self.search(st, it, n, args[1], site)
        if it is not None and it[0] == "agg" and it[1] == RNG + "Range" and n in ("into_iter", "iter"):
            return [(st, ("range", it[3][0], it[3][1]))]
        if it is not None and it[0] == "range" and n == "next":
            s = st.copy()
            i = self.newint(s, "usize", "index")
            f = self.lin(s, i)
            out = []
            if self.add(s, addf(f, self.lin(s, it[1]), -1)) and self.add(s, addf(addf(self.lin(s, it[2]), f, -1), (-1, ()))):
                out.append((s, some(i)))
            return out + [(st, NONE)]
        if n in ("unwrap", "expect") and (p.startswith("core::option") or p.startswith("core::result")):
            good = True
            for s, var, pl in (self.opt if "option" in p else self.res)(st.copy(), a0):
                good = good and var in ("Some", "Ok")
            self.oblige(fn, line, "unwrap", good, "the value may be missing")
            return None
        if n == "copy_from_slice" and len(args) == 2:
            f = addf(self.length(st, self.base(st, a0)), self.length(st, self.base(st, args[1])), -1)
            self.oblige(fn, line, "copy", self.prove(st, f) and self.prove(st, addf((0, ()), f, -1)), "the lengths may differ")
            return None
        if n in ("from_utf8", "from_utf8_lossy", "push", "extend_from_slice", "extend", "append", "insert") and not why:
            st.note(("use", n, tuple(self.deref(st, a) for a in args), args[0] if args else None, site))
        if why:
            self.oblige(fn, line, why, False, "it may panic")
        return None

    def either(self, st, fs, yes, no):
        """yes where all forms are >= 0, no elsewhere."""
        out = []
        s = st.copy()
        if all(self.add(s, f) for f in fs):
            out.append((s, yes))
        for f in fs:
            s = st.copy()
            if self.add(s, addf((-1, ()), f, -1)):
                out.append((s, no))
                if len(fs) > 1:
                    # one copy without the reason is enough
                    s.ext["ge"] = st.ext.get("ge", frozenset())
                    break
        return out

    def search(self, st, it, n, f, site):
        b, k = it[1], it[2]
        out = []
        s = st.copy()
        i = self.newint(s, "usize", "pos")
        fi = self.lin(s, i)
        if self.add(s, addf(addf(self.length(s, b), fi, -1), self.lin(s, k), -1)):
            w = self.sub(s, b, i, self.binop(s, "Add", i, k))
            for z, v in self.call_closure(s, f, [w], site, 0):
                if not self.real(v):
                    out.append((z, v))
                    continue
                for y in self.assume(z, v, True):
                    out.append((y, TRUE if n == "any" else some(w) if n == "find" else some(i)))
        out.append((st, FALSE if n == "any" else NONE))
        return out

    def unknown(self, st, callee, args, site, rty=None):
        fn, b, n = site
        if any("&mut" in (fn.locals[x["p"][0]] if x["k"] in ("copy", "move") and len(x["p"]) == 1 else "") for x in fn.term(b).get("args", [])):
            return super().unknown(st, callee, args, site, rty)
        st.nid += 1
        v = ("call", callee.full, tuple(self.base(st, a) for a in args), st.nid)
        if rty:
            self.tyof[v] = rty
        return [(st, v)]

    # ------------------------------------------------------------ driving
    def settle(self, fns):
        """Runs all functions until the loop invariants are stable; returns {fn: paths}."""
        while True:
            self.again = False
            self.ob = {}
            self.visited = set()
            self.paths = self.steps = 0
            out = {}
            for f in fns:
                from .absint import State
                st = State()
                self.root = f.id
                args = [("sym", "arg", i) for i in range(f.argc)]
                for i, a in enumerate(args):
                    self.settype(a, f.locals[i + 1])
                out[f] = list(self.run(f, args, st))
            if not self.again:
                return out


def norm_range(adt):
    m = re.search(r"core::ops::range::(Range\w*)$|core::range::(Range\w*)$", adt)
    return m and (m.group(1) or m.group(2))
