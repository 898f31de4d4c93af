"""Interp over a function that walks one node of the syntax tree and writes it out.

Children are unknown elements of known possible kinds. An iteration over children is cut after one
round from an arbitrary state; a round that comes back without having written its element leaves the
kinds that element may have uncovered. `missing` then says, for a path, which kinds of children of
the node it may leave out, from the finished iterations, the tests that found no such child, and the
children written one by one. Nothing is assumed about the number or the order of children."""
import re

from .absint import C, FALSE, NONE, TRUE, UNIT, Interp, some, tup
from .iset import ISet

SK = "styx_cst::syntax_kind::SyntaxKind"
NOT = "rowan::utility_types::NodeOrToken"
SAME = {"clone", "as_ref", "borrow", "deref", "to_owned", "into", "from", "syntax", "as_node", "as_token", "cloned", "copied"}
TEXT = {"as_str", "to_string", "to_owned", "into", "from", "as_ref", "deref", "borrow", "clone", "trim_end", "into_owned"}
LAZY = {"filter", "filter_map", "map", "inspect", "enumerate", "peekable", "into_iter", "iter", "by_ref", "fuse", "cloned", "copied", "rev", "iter_mut"}


class Walk(Interp):
    def __init__(self, prog, grammar, drop, fixed, once, exact, is_emit, **k):
        self.g, self.drop, self.fixed, self.once, self.exact = grammar, drop, fixed, once, exact
        self.is_emit = is_emit
        self.kd = {v["name"]: v["discr"] for v in prog.adts[SK]["variants"]}
        self.kn = {d: n for n, d in self.kd.items()}
        self.rounds = []
        self.relaxed = False   # every kind of child at most once
        self.unc = {}
        k.setdefault("merging", False)
        k.setdefault("depth", 12)
        super().__init__(prog, on_call=self.hook, **k)

    # ------------------------------------------------------------ elements
    def el(self, st, v):
        """The element (node or token) a value stands for."""
        n = 0
        while n < 12:
            n += 1
            if v[0] == "ref":
                v = self.content(st, v[1])
            elif v[0] == "mem" and isinstance(v[1], tuple):
                v = v[1]
            elif v[0] == "agg" and len(v[3]) == 1 and (v[1].startswith("styx_cst::") or v[1] == NOT):
                v = v[3][0]
            else:
                break
        return v if v[0] == "el" else None

    def kinds(self, st, e):
        d = self.dom(st, ("disc", ("kind", e)))
        return {n for n in e[2] if any(a <= self.num(n) <= b for a, b in d.iv)} if d.iv else set(e[2])

    def num(self, k):
        return self.kd[k.split("@")[0]]

    def new(self, st, base, kinds):
        st.nid += 1
        return ("el", st.nid, tuple(sorted(kinds)), base)

    def is_node(self, k):
        return k in self.g

    def children(self, st, e, nodes):
        ks = set()
        for k in self.kinds(st, e):
            ks |= {c for c in self.g.get(k, ()) if not nodes or self.is_node(c)}
        return ks

    def wrap(self, st, base, kinds, typed):
        """(state, value, element) for one more element of the given kinds."""
        if not typed:
            if kinds:
                e = self.new(st, base, kinds)
                yield st, e, e
            return
        for var, sub in (("Node", {k for k in kinds if self.is_node(k)}), ("Token", {k for k in kinds if not self.is_node(k)})):
            if sub:
                s = st.copy()
                e = self.new(s, base, sub)
                yield s, ("agg", NOT, var, (e,)), e

    def it(self, st, v):
        n = 0
        while v[0] == "ref" and n < 6:
            v = self.content(st, v[1])
            n += 1
        return v if v[0] == "it" else None

    # ('it', base, nodes, ops, site)
    def pull(self, st, it, site, depth):
        """(state, value, element) per possible next element."""
        _, base, nodes, ops, _ = it
        for s, v, e in list(self.wrap(st.copy(), base, self.children(st, base, nodes), not nodes)):
            yield from self.through(s, v, e, ops, 0, site, depth)

    def through(self, st, v, e, ops, n, site, depth):
        if n == len(ops):
            yield st, v, e
            return
        op, f = ops[n]
        if op in ("enumerate", "index"):
            i = st.fresh("i")
            self.tyof[i] = "usize"
            st.ext[("nth", ("it", e[3]) + f, i)] = self.tmp(st, v)
            yield from self.through(st, tup(i, v) if op == "enumerate" else i, e, ops, n + 1, site, depth)
            return
        arg = v
        if op in ("filter", "inspect"):
            st.nid += 1
            st.env[(("tmp", st.nid), 0)] = v
            arg = ("ref", ("L", ("tmp", st.nid), 0, ()))
        for s, r in self.call_closure(st, f, [arg], site, depth):
            if not self.real(r):
                continue
            if op == "filter":
                for z in self.assume(s, r, True):
                    yield from self.through(z, v, e, ops, n + 1, site, depth)
            elif op == "inspect":
                yield from self.through(s, v, e, ops, n + 1, site, depth)
            elif op == "map":
                yield from self.through(s, r, e, ops, n + 1, site, depth)
            else:
                for z, var, pl in self.opt(s, r):
                    if var == "Some":
                        yield from self.through(z, pl[0], e, ops, n + 1, site, depth)

    def surely(self, st, it, site, depth, pred=None):
        """Kinds of the children that certainly pass (it and pred)."""
        out = set()
        for k in self.children(st, it[1], it[2]):
            good, seen = True, False
            n = self.count(st, it, k, site, depth, pred)
            if n:
                out.add(k)
        return out

    def count(self, st, it, k, site, depth, pred):
        s0 = st.copy()
        base = it[1]
        vals = [(s, v, e) for s, v, e in self.wrap(s0, base, {k}, not it[2])]
        for s, v, e in vals:
            if not self.always(s, v, it[3], 0, site, depth, pred):
                return False
        return True

    def always(self, st, v, ops, n, site, depth, pred):
        if n == len(ops):
            if pred is None:
                return True
            for s, r in self.call_closure(st, pred[1], [v if pred[0] != "ref" else self.tmp(st, v)], site, depth):
                if not self.real(r):
                    continue
                if pred[2] == "opt":
                    if any(var == "None" for z, var, pl in self.opt(s, r)):
                        return False
                elif self.assume(s, r, False):
                    return False
            return True
        op, f = ops[n]
        if op in ("enumerate", "index"):
            return self.always(st, tup(st.fresh("i"), v) if op == "enumerate" else st.fresh("i"), ops, n + 1, site, depth, pred)
        arg = self.tmp(st, v) if op in ("filter", "inspect") else v
        for s, r in self.call_closure(st, f, [arg], site, depth):
            if not self.real(r):
                continue
            if op == "filter":
                if self.assume(s.copy(), r, False):
                    return False
                nxt = v
            elif op == "filter_map":
                o = list(self.opt(s, r))
                if any(x[1] == "None" for x in o):
                    return False
                for z, var, pl in o:
                    if not self.always(z, pl[0], ops, n + 1, site, depth, pred):
                        return False
                continue
            else:
                nxt = v if op == "inspect" else r
            if not self.always(s, nxt, ops, n + 1, site, depth, pred):
                return False
        return True

    def tmp(self, st, v):
        st.nid += 1
        st.env[(("tmp", st.nid), 0)] = v
        return ("ref", ("L", ("tmp", st.nid), 0, ()))

    # ------------------------------------------------------------ loops
    def widen(self, st, fn, fr, body):
        before = dict(st.env)
        super().widen(st, fn, fr, body)
        for key, old in before.items():
            if isinstance(old, tuple) and old and old[0] in ("it", "coll") and st.env.get(key) != old:
                st.env[key] = old

    def on_back(self, st, fn, fr, head):
        body = fn.loops().get(head, ())
        for k, v in list(st.ext.items()):
            if isinstance(k, tuple) and k[0] == "cur" and k[1] == fn.id and k[2] in body:
                self.rounds.append((k[1:], st, v))

    # ------------------------------------------------------------ library
    def hook(self, I, st, c, args, site):
        fn, bb, line = site
        n, p, full = c.name, c.path, c.full
        depth = 3
        a0 = args[0] if args else None
        tgt = self.prog.target(c)
        if tgt is not None and self.is_emit(tgt):
            es = [self.el(st, a) for a in args[1:]]
            for e in es:
                if e is not None:
                    st.note(("emit", e, tgt, site))
            if not any(e is not None for e in es):
                return None
            st2 = st
            if a0 is not None and a0[0] == "ref":
                self.havoc_self(st2, a0)
            return [(st2, UNIT if tgt.locals[0] == "()" else st2.fresh("r"))]
        e = self.el(st, a0) if a0 is not None else None
        if e is not None:
            if n == "kind":
                t = ("kind", e)
                self.tyof[t] = SK
                if ("disc", t) not in st.facts:
                    s = ISet(())
                    for k in e[2]:
                        s = s | ISet.of(self.num(k))
                    if not self.refine(st, ("disc", t), s):
                        return []
                return [(st, t)]
            if n in ("children", "children_with_tokens"):
                return [(st, ("it", e, n == "children", (), (fn.id, bb)))]
            if n in ("into_node", "into_token", "as_node", "as_token"):
                w = self.base(st, a0)
                if w[0] == "agg" and w[1] == NOT:
                    return [(st, some(e) if (w[2] == "Node") == n.endswith("node") else NONE)]
            if n in ("text", "to_string", "green") or n == "fmt":
                return [(st, ("text", e))]
            if n in ("clone", "to_owned", "as_ref", "borrow"):
                return [(st, self.base(st, a0))]
            if n in ("first_child", "first_token", "first_child_or_token", "last_child", "last_token", "parent", "next_sibling", "prev_sibling"):
                return None
            if n == "cast" and tgt is None:
                return None
        t0 = self.text(st, a0) if a0 is not None else None
        if t0 is not None:
            if n in TEXT and len(args) == 1:
                return [(st, t0)]
            if n == "is_empty":
                return [(st, FALSE)]
        if n == "is_empty" and len(args) == 1:
            v = self.base(st, a0)
            if v[0] == "c" and isinstance(v[2], (str, bytes, tuple)):
                return [(st, TRUE if len(v[2]) == 0 else FALSE)]
        if n in ("push_str", "push", "write_str", "write_char", "insert_str", "insert", "extend", "add_assign") and len(args) >= 2 and ("String" in full or "Write" in full):
            t = self.text(st, args[-1])
            v = self.base(st, args[-1])
            st.note(("put", t if t is not None else v))
            return [(st, UNIT if n[:5] != "write" else st.fresh("fmt"))]
        if n in ("into_iter", "next") and a0 is not None:
            r = self.base(st, a0)
            if r[0] == "agg" and r[1].endswith("ops::range::Range") and len(r[3]) == 2 and r[3][0] == C(0, "usize") and r[3][1][0] == "len" and len(r[3][1][1]) == 4 and n == "into_iter":
                _, b, nodes, ops = r[3][1][1]
                return [(st, ("it", b, nodes, ops + (("index", (nodes, ops)),), (fn.id, bb)))]
        i = self.it(st, a0) if a0 is not None else None
        if i is not None:
            r = self.iterate(st, i, n, args, site, depth)
            if r is not None:
                return r
        v0 = self.base(st, a0) if a0 is not None else None
        if v0 is not None and v0[0] == "coll":
            r = self.collection(st, v0, n, args, site, full)
            if r is not None:
                return r
        return None

    def havoc_self(self, st, a0):
        pass

    def base(self, st, v):
        n = 0
        while v[0] == "ref" and n < 8:
            v = self.content(st, v[1])
            n += 1
        return v

    def text(self, st, v):
        v = self.base(st, v)
        if v[0] == "mem" and isinstance(v[1], tuple):
            v = v[1]
        return v if v[0] == "text" else None

    def iterate(self, st, it, n, args, site, depth):
        fn, bb, line = site
        _, base, nodes, ops, at = it
        if n in ("into_iter", "iter", "by_ref", "fuse", "cloned", "copied", "peekable"):
            return [(st, it)]
        if n == "rev":
            return None
        if n in ("filter", "filter_map", "map", "inspect"):
            return [(st, ("it", base, nodes, ops + ((n, args[1]),), at))]
        if n == "enumerate":
            return [(st, ("it", base, nodes, ops + (("enumerate", (nodes, ops)),), at))]
        if n in ("collect", "to_vec"):
            return [(st, ("coll", it))]
        if n == "next":
            out = []
            s = st.copy()
            s.note(("done", it, (fn.id, bb)))
            s.ext.pop(("cur", fn.id, bb), None)
            out.append((s, NONE))
            for s, v, e in self.pull(st, it, site, depth):
                s.ext[("cur", fn.id, bb)] = e
                s.note(("one", base, e, None, (fn.id, bb)))
                out.append((s, some(v)))
            return out
        if n == "for_each":
            for s, v, e in self.pull(st, it, site, depth):
                for z, r in self.call_closure(s, args[1], [v], site, depth):
                    if self.real(r):
                        self.rounds.append(((fn.id, bb), z, e))
            s = st.copy()
            s.note(("done", it, (fn.id, bb)))
            return [(s, UNIT)]
        if n in ("any", "find", "find_map", "all", "position"):
            mode = ("ref" if n == "find" else "val", args[1], "opt" if n == "find_map" else "bool")
            out = []
            for s, v, e in self.pull(st, it, site, depth):
                arg = self.tmp(s, v) if n == "find" else v
                for z, r in self.call_closure(s, args[1], [arg], site, depth):
                    if not self.real(r):
                        continue
                    if n == "find_map":
                        for y, var, pl in self.opt(z, r):
                            if var == "Some":
                                y.note(("one", base, e, it, None))
                                out.append((y, some(pl[0])))
                        continue
                    for y in self.assume(z, r, n != "all"):
                        y.note(("one", base, e, it, None))
                        out.append((y, TRUE if n == "any" else FALSE if n == "all" else some(v) if n == "find" else some(y.fresh("i"))))
            s = st.copy()
            if n == "all":
                gone = set()
            else:
                gone = self.surely(st, it, site, depth, mode)
            s.note(("absent", base, frozenset(gone)))
            if not all(any((k, c) in self.exact for c in gone) for k in self.kinds(st, base)):
                out.append((s, {"any": FALSE, "all": TRUE}.get(n, NONE)))
            return out
        if n in ("count", "len"):
            return [(st, self.lent(it))]
        if n in ("last", "nth", "skip", "take", "step_by", "take_while", "skip_while", "min", "max", "first"):
            return [(st, st.fresh("part"))]
        return None

    def lent(self, it):
        t = ("len", it[:4])
        self.tyof[t] = "usize"
        return t

    def collection(self, st, v, n, args, site, full):
        it = v[1]
        L = self.lent(it)
        if n in ("iter", "into_iter", "as_slice", "deref", "iter_mut", "as_ref", "borrow", "drain"):
            return [(st, ("it",) + it[1:4] + ((site[0].id, site[1]),) if n in ("iter", "into_iter", "iter_mut", "drain") else v)]
        if n == "len":
            return [(st, L)]
        if n == "is_empty":
            return [(st, self.binop(st, "Eq", L, C(0, "usize")))]
        if n in ("index", "get", "first", "last"):
            at = self.base(st, args[1]) if len(args) > 1 else n
            key = ("nth", it[:4], at if at[0] in ("c", "sym") or n in ("first", "last") else None)
            if n == "first":
                key = ("nth", it[:4], C(0, "usize"))
            old = st.ext.get(key) if key[2] is not None else None
            if old is not None:
                return [(st, old if n == "index" else some(old))]
            out = []
            for s, x, e in self.pull(st, it, site, 3):
                if not self.refine(s, L, ISet.rng(1, 1 << 60)):
                    continue
                s.note(("one", it[1], e, it, None))
                x = self.tmp(s, x)
                s.ext[key] = x
                out.append((s, x if n == "index" else some(x)))
            if n != "index":
                out.append((st, NONE))
            return out
        return None

    # ------------------------------------------------------------ coverage
    def direct(self, st, e):
        for ev in st.trace():
            if ev[0] == "emit" and ev[1] == e:
                return True
            if ev[0] == "put" and ev[1] == ("text", e):
                return True
        return False

    def consts(self, st):
        out = []
        for ev in st.trace():
            if ev[0] == "put" and ev[1][0] == "c":
                x = ev[1][2]
                if isinstance(x, str):
                    out.append(x)
                elif isinstance(x, (bytes, tuple)):
                    out.append(bytes(x).decode("utf8", "replace"))
                elif isinstance(x, int):
                    out.append(chr(x))
        return out

    def missing(self, st, e, kinds=None):
        """Kinds (of e, or parent/child) that this path may leave out."""
        if self.direct(st, e):
            return set()
        out = set()
        texts = self.consts(st)
        for k in kinds if kinds is not None else self.kinds(st, e):
            if k in self.drop or any(self.fixed.get(k, "\0") in x for x in texts):
                continue
            if not self.is_node(k):
                out.add(k)
                continue
            for c in self.g[k]:
                if c in self.drop or any(self.fixed.get(c, "\0") in x for x in texts):
                    continue
                if not self.child(st, e, k, c):
                    out.add(f"{k}/{c}")
        return out

    def child(self, st, e, k, c):
        for ev in st.trace():
            if ev[0] == "done" and ev[1][1] == e:
                it = ev[1]
                if it[2] and not self.is_node(c):
                    continue
                # elements the iteration leaves out are not covered by it
                if c not in self.through_all(st, it, c):
                    continue
                if c not in self.unc.get((ev[2], e), ()):
                    return True
            elif ev[0] == "absent" and ev[1] == e and c in ev[2]:
                return True
            elif ev[0] == "one" and ev[1] == e and c in self.kinds(st, ev[2]):
                if ev[3] is not None and (self.relaxed or (k, c) in self.once or self.single(st, ev[3])) and not self.missing(st, ev[2], {c}):
                    return True
        # nothing of that kind was collected
        for t, d in st.facts.items():
            if t[0] == "len" and t[1][1] == e and d.iv == ((0, 0),) and (not t[1][2] or self.is_node(c)) and c in self.through_all(st, t[1] + (None,), c):
                return True
        return False

    def single(self, st, it):
        d = self.dom(st, self.lent(it))
        return d.iv == ((1, 1),)

    def through_all(self, st, it, c):
        key = ("ta", it[:4], c)
        if key not in st.ext:
            self_st = st.copy()
            st.ext[key] = frozenset({c}) if self.count(self_st, it, c, (self.cur_fn, 0, None), 3, None) else frozenset()
        return st.ext[key]

    def settle(self):
        """Kinds left uncovered by each iteration, until stable."""
        while True:
            n = sum(len(x) for x in self.unc.values())
            for at, st, e in self.rounds:
                for k in self.kinds(st, e):
                    if self.missing(st, e, {k}):
                        self.unc.setdefault((at, e[3]), set()).add(k)
            if n == sum(len(x) for x in self.unc.values()):
                return
