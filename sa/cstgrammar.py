"""Which kinds of children the CST parser gives the nodes of a tree it reports no error for.

A shape is a kind of node together with the function that starts it. For every shape: the shapes and
token kinds it may get as children, those it gets at most once, and those it gets exactly once."""
from . import cstream
from .absint import C, UNIT
from .cstream import BUILDER, Run
from .iset import ISet

SK = "styx_cst::syntax_kind::SyntaxKind"


class Rec(Run):
    def __init__(self, m, ctx, sums, **k):
        super().__init__(m, ctx, sums, **k)
        self.kids = {}
        self.many = set()
        self.counts = {}
        self.sk = {v["discr"]: v["name"] for v in m.prog.adts[SK]["variants"]}

    def kindnames_of(self, st, v):
        """Names of the syntax kinds a builder argument may be."""
        n = 0
        v = self.deref(st, v)
        while n < 8:
            n += 1
            if v[0] == "agg" and v[1] == SK:
                return {v[2]}
            if v[0] == "agg" and len(v[3]) == 1:
                v = self.deref(st, v[3][0])
            elif v[0] == "cast":
                v = self.deref(st, v[2])
            elif v[0] == "call" and len(v[2]) == 1:
                v = self.deref(st, v[2][0])
            elif v[0] == "disc":
                v = self.deref(st, v[1])
            else:
                break
        if v[0] == "c" and isinstance(v[2], int):
            return {self.sk[v[2]]} if v[2] in self.sk else None
        if v[0] == "agg" and v[1] == SK:
            return {v[2]}
        return None

    def add(self, st, child, site):
        o = st.ext.get("open", ())
        fr = st.frames[-1] if st.frames else None
        parent = o[-1][0] if o else ("top", self.ctx)
        self.kids.setdefault(parent, set()).add(child)
        if not o:
            return
        shape, f, b, of, cnt = o[-1]
        if of != fr or any(site[1] in body and b not in body for body in site[0].loops().values()):
            self.many.add((shape, child))
        d = dict(cnt)
        d[child] = min(2, d.get(child, 0) + 1)
        st.ext["open"] = o[:-1] + ((shape, f, b, of, tuple(sorted(d.items(), key=repr))),)

    def hook(self, I, st, c, args, site):
        if c.name in ("push", "extend", "insert") and "ParseError" in c.full:
            return []
        if BUILDER in c.full:
            if c.name == "start_node":
                ks = self.kindnames_of(st, args[1])
                shape = (next(iter(ks)) if ks and len(ks) == 1 else "?") + "@" + site[0].name
                self.add(st, shape, site)
                fr = st.frames[-1] if st.frames else None
                st.ext["open"] = st.ext.get("open", ()) + ((shape, site[0].id, site[1], fr, ()),)
            elif c.name == "token":
                ks = self.kindnames_of(st, args[1])
                for k in ks or {"?"}:
                    self.add(st, k, site)
            elif c.name == "finish_node" and st.ext.get("open"):
                shape, f, b, of, cnt = st.ext["open"][-1]
                self.counts.setdefault(shape, []).append(dict(cnt))
                st.ext["open"] = st.ext["open"][:-1]
        return super().hook(I, st, c, args, site)

    def summary(self, st, t, args, site):
        key = (t.id, self.argkey(st, args))
        self.add(st, ("top", key), site)
        return super().summary(st, t, args, site)


def derive(prog, roots_of):
    m = cstream.Model(prog, "styx_cst")
    rs = list(roots_of(m))
    sums, res = cstream.solve(m, rs, cls=Rec)
    kids, many, counts = {}, set(), {}
    for f, I, ps in res.values():
        for k, v in I.kids.items():
            kids.setdefault(k, set()).update(v)
        many |= I.many
        for k, v in I.counts.items():
            counts.setdefault(k, []).extend(v)

    def flat(k, seen):
        out = set()
        for x in kids.get(k, ()):
            if isinstance(x, tuple):
                if x not in seen:
                    out |= flat(x, seen | {x})
            else:
                out.add(x)
        return out

    g = {k: flat(k, set()) for k in counts}
    once, exact = set(), set()
    for k in g:
        via = set()
        for x in kids[k]:
            if isinstance(x, tuple):
                via |= flat(x, {x})
        for c in g[k]:
            if c in via or (k, c) in many:
                continue
            ns = [d.get(c, 0) for d in counts[k]]
            if max(ns) <= 1:
                once.add((k, c))
                if min(ns) == 1:
                    exact.add((k, c))
    tops = set()
    for r in rs:
        tops |= flat(("top", r), set())
    return g, once, exact, tops
