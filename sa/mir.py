"""The dumped program: functions with their control-flow graphs, ADT tables, call graph."""
import json
import os
import re
from functools import lru_cache

from .build import CheckError

_LT = re.compile(r"'(?:[A-Za-z_][A-Za-z0-9_]*)(?!')")


@lru_cache(maxsize=None)
def norm(p):
    """Drop lifetimes from a printed path or type."""
    if p is None or "'" not in p:
        return p
    p = re.sub(r"for<[^<>]*> ", "", p)
    p = re.sub(r"&'[A-Za-z_]\w* ", "&", p)
    p = re.sub(r"&'_ ", "&", p)
    p = re.sub(r"'[A-Za-z_]\w*, ", "", p)
    p = re.sub(r"(, )?'[A-Za-z_]\w*(?!')", "", p)
    p = p.replace("::<>", "").replace("<>", "")
    return p


class Callee:
    __slots__ = ("path", "full", "res", "rid", "trait", "targs", "virtual", "ctor", "dyn", "name")

    def __init__(self, j):
        if "path" not in j:
            self.path = self.full = self.res = self.name = "<dyn>"
            self.rid = None
            self.trait = None
            self.targs = []
            self.virtual = True
            self.ctor = False
            self.dyn = j
            return
        self.dyn = None
        self.path = norm(j["path"])
        self.full = norm(j["full"])
        self.res = norm(j.get("res")) or self.path
        self.rid = j.get("rid")
        self.trait = norm(j.get("trait"))
        self.targs = [norm(x) for x in j.get("targs", [])]
        self.virtual = bool(j.get("virtual"))
        self.ctor = bool(j.get("ctor"))
        self.name = last_seg(self.path)

    def __repr__(self):
        return self.full


def last_seg(p):
    """Final path segment, generics dropped."""
    p = re.sub(r"::<.*?>$", "", p) if p.endswith(">") and "::<" in p else p
    return p.rsplit("::", 1)[-1]


class Fn:
    def __init__(self, j, crate, prog):
        self.j = j
        self.crate = crate
        self.prog = prog
        self.id = j["id"]
        self.path = norm(j["path"])
        self.name = last_seg(self.path)
        self.file = j["file"]
        self.line = j["line"]
        self.kind = j["kind"]
        self.argc = j["argc"]
        self.pub = j.get("pub", False)
        self.exported = j.get("exported", False)
        self.self_ty = norm(j.get("self_ty"))
        self.impl_trait = norm(j.get("impl_trait"))
        self.root = j.get("root")
        self.parent = j.get("parent")
        self.is_closure = "root" in j
        self.coroutine = bool(j.get("coroutine"))
        self.locals = [norm(x[0]) for x in j["locals"]]
        self.lnames = {i: x[1] for i, x in enumerate(j["locals"]) if len(x) > 1}
        self.upvars = j.get("upvars", [])
        self.blocks = j["blocks"]
        self._succ = None
        self._dom = None
        self._pdom = None
        self._defs = None

    def __repr__(self):
        return f"<{self.path}>"

    # ---- CFG (normal control flow only: unwind edges are not followed)
    def term(self, b):
        return self.blocks[b]["t"]

    def stmts(self, b):
        return self.blocks[b]["s"]

    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succ_of(i) for i in range(len(self.blocks))]
        return self._succ[b]

    def _succ_of(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k == "switch":
            out = []
            for _, x in t["arms"]:
                if x not in out:
                    out.append(x)
            if t["else"] not in out:
                out.append(t["else"])
            return out
        if "to" in t:
            return [t["to"]] if t["to"] >= 0 else []
        return []

    @property
    def reach(self):
        """Blocks reachable from entry along normal edges, in reverse post-order."""
        if getattr(self, "_rpo", None) is None:
            seen = set()
            post = []
            st = [(0, iter(self.succ(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    post.append(b)
                    st.pop()
            self._rpo = post[::-1]
        return self._rpo

    @property
    def preds(self):
        if getattr(self, "_preds", None) is None:
            p = {b: [] for b in self.reach}
            for b in self.reach:
                for s in self.succ(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def dom(self):
        """block -> set of dominators"""
        if self._dom is None:
            rpo = self.reach
            allb = set(rpo)
            dom = {b: allb for b in rpo}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in rpo:
                    if b == 0:
                        continue
                    ps = [dom[p] for p in self.preds[b]]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    def dominates(self, a, b):
        return a in self.dom().get(b, ())

    def back_edges(self):
        d = self.dom()
        return [(b, s) for b in self.reach for s in self.succ(b) if s in d[b]]

    def live_in(self):
        """block -> locals whose value may still be used; locals whose address is taken count as used everywhere."""
        if getattr(self, "_live", None) is not None:
            return self._live
        borrowed = set()
        use, dfn, succ = {}, {}, {}

        def places(x, out):
            if isinstance(x, dict):
                p = x.get("p")
                if isinstance(p, list) and p and isinstance(p[0], int):
                    out.add(p[0])
                    for e in p[1:]:
                        if isinstance(e, list) and e and e[0] == "i" and isinstance(e[1], int):
                            out.add(e[1])
                        elif isinstance(e, list) and len(e) > 1 and isinstance(e[1], int) and e[0] not in ("f", "v"):
                            out.add(e[1])
                for k, v in x.items():
                    if k != "p":
                        places(v, out)
            elif isinstance(x, list):
                for v in x:
                    places(v, out)

        for b in self.reach:
            u, d = set(), set()
            for s in self.blocks[b]["s"]:
                if s.get("k") in ("dead", "live"):
                    continue
                r = set()
                places(s.get("r", {}), r)
                if s.get("k") == "=" and s["r"].get("k") in ("ref", "addr", "rawptr"):
                    borrowed.add(s["r"]["p"][0])
                pl = s.get("p")
                u |= r - d
                if pl and len(pl) == 1:
                    d.add(pl[0])
                elif pl:
                    q = set()
                    places({"p": pl}, q)
                    u |= q - d
            t = dict(self.term(b) or {})
            dest = t.pop("d", None)
            r = set()
            places(t, r)
            u |= r - d
            if dest and len(dest) == 1:
                d.add(dest[0])
            elif dest:
                u |= {dest[0]} - d
            if t.get("k") == "ret":
                u |= {0} - d
            use[b], dfn[b] = u, d
            succ[b] = [x for x in self.succ(b)]
        live = {b: set() for b in self.reach}
        ch = True
        while ch:
            ch = False
            for b in reversed(list(self.reach)):
                o = set()
                for x in succ[b]:
                    o |= live.get(x, set())
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = {b: v | borrowed for b, v in live.items()}
        return self._live

    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        out = {}
        for b, h in self.back_edges():
            body = out.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(self.preds[x])
        return out

    def calls(self):
        """(block, term, Callee) for every call on a reachable block"""
        for b in self.reach:
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                yield b, t, self.callee(b)

    def callee(self, b):
        t = self.blocks[b]["t"]
        c = t.get("_callee")
        if c is None:
            c = t["_callee"] = Callee(t["f"])
        return c

    def defs(self):
        """local -> [(block, stmt index or -1 for the terminator, place projection, rvalue or call)]"""
        if self._defs is None:
            d = {}
            for b in self.reach:
                for i, s in enumerate(self.blocks[b]["s"]):
                    if s["k"] == "=":
                        d.setdefault(s["p"][0], []).append((b, i, s["p"][1:], s["r"]))
                t = self.blocks[b]["t"]
                if t["k"] == "call":
                    d.setdefault(t["d"][0], []).append((b, -1, t["d"][1:], t))
                elif t["k"] == "yield":
                    d.setdefault(t["ra"][0], []).append((b, -1, t["ra"][1:], t))
            self._defs = d
        return self._defs

    def loc(self, n=None):
        return f"{self.file}:{n or self.line}"


class Prog:
    def __init__(self, d, crates=None):
        self.fns = {}
        self.adts = {}
        self.crates = {}
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"):
                continue
            c = f.rsplit(".", 2)[0]
            if crates is not None and c not in crates:
                continue
            with open(os.path.join(d, f)) as fh:
                j = json.load(fh)
            if j["stolen"]:
                raise CheckError(f"{c}: bodies not available: {j['stolen'][:3]}")
            self.crates.setdefault(c, 0)
            for fj in j["fns"]:
                fn = Fn(fj, c, self)
                self.fns[fn.id] = fn
                self.crates[c] += 1
                for i, p in enumerate(fj.get("promoted", [])):
                    p["id"] = fn.id + f"::promoted[{i}]"
            for a in j["adts"]:
                self.adts[norm(a["path"])] = a
        if crates is not None:
            miss = set(crates) - set(self.crates)
            if miss:
                raise CheckError(f"no dump for crates {sorted(miss)}")
        self.by_path = {}
        for fn in self.fns.values():
            self.by_path.setdefault(fn.path, []).append(fn)
        self.children = {}
        for fn in self.fns.values():
            if fn.is_closure:
                self.children.setdefault(fn.parent, []).append(fn)

    def promoted(self, fn, i):
        ps = fn.j.get("promoted", [])
        key = (fn.id, i)
        cache = getattr(self, "_prom", None)
        if cache is None:
            cache = self._prom = {}
        if key not in cache:
            j = dict(ps[i])
            j["id"] = fn.id + f"::promoted[{i}]"
            cache[key] = Fn(j, fn.crate, self)
        return cache[key]

    def target(self, callee):
        """Local Fn a call resolves to, if its body is in the dump."""
        if callee.rid and not callee.virtual:
            return self.fns.get(callee.rid)
        return None

    def find(self, suffix, crate=None, many=False):
        """Functions whose path ends with `suffix` on a segment boundary."""
        r = [
            f
            for f in self.fns.values()
            if (crate is None or f.crate == crate) and (f.path == suffix or f.path.endswith("::" + suffix))
        ]
        if many:
            return r
        if len(r) != 1:
            raise CheckError(f"anchor {suffix!r} in {crate}: {len(r)} matches, expected 1")
        return r[0]

    def method(self, self_ty, name, trait=None, crate=None):
        """The method `name` of inherent/trait impl on `self_ty` (type path suffix)."""
        r = []
        for f in self.fns.values():
            if f.is_closure or f.name != name or not f.self_ty:
                continue
            st = f.self_ty
            if not (st == self_ty or st.endswith("::" + self_ty) or strip_generics(st).endswith("::" + self_ty)):
                continue
            if trait is None and f.impl_trait is None:
                r.append(f)
            elif trait is not None and f.impl_trait and (f.impl_trait == trait or f.impl_trait.endswith("::" + trait)):
                r.append(f)
        if crate:
            r = [f for f in r if f.crate == crate]
        if len(r) != 1:
            raise CheckError(f"anchor {self_ty}::{name} (trait {trait}): {len(r)} matches, expected 1")
        return r[0]

    def methods_of(self, self_ty):
        return [
            f
            for f in self.fns.values()
            if f.self_ty and not f.is_closure and (strip_generics(f.self_ty) == self_ty or strip_generics(f.self_ty).endswith("::" + self_ty))
        ]

    def adt(self, suffix):
        r = [a for p, a in self.adts.items() if p == suffix or p.endswith("::" + suffix)]
        if len(r) != 1:
            raise CheckError(f"type {suffix!r}: {len(r)} matches, expected 1")
        return r[0]


def strip_generics(t):
    if t is None:
        return None
    out = []
    depth = 0
    i = 0
    while i < len(t):
        c = t[i]
        if c == "<":
            depth += 1
        elif c == ">" and (i == 0 or t[i - 1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::").rstrip(":")


# ------------------------------------------------------------------ printing
def show_place(fn, p):
    s = f"_{p[0]}"
    if p[0] in fn.lnames:
        s += f"({fn.lnames[p[0]]})"
    for e in p[1:]:
        if e[0] == "*":
            s = f"(*{s})"
        elif e[0] == "f":
            s += f".{e[2] or e[1]}"
        elif e[0] == "i":
            s += f"[_{e[1]}]"
        elif e[0] == "dc":
            s += f" as {e[2]}"
        else:
            s += str(e)
    return s


def show_op(fn, x):
    if x["k"] in ("copy", "move"):
        return show_place(fn, x["p"])
    if x["k"] == "const":
        for k in ("int", "str", "bytes", "mem", "ptr_strs", "ptr_bytes"):
            if k in x:
                if k == "int" and x["ty"] == "char":
                    return repr(chr(x[k]))
                return f"{x[k]!r}"
        if "fn" in x:
            return "fn " + Callee(x["fn"]).full
        return "const " + str(x.get("name") or x.get("closure") or x.get("promoted", x["ty"]))
    return str(x)


def show_rv(fn, r):
    k = r["k"]
    if k == "use":
        return show_op(fn, r["x"])
    if k == "ref":
        return ("&mut " if r["mut"] else "&") + show_place(fn, r["p"])
    if k == "bin":
        return f"{show_op(fn, r['a'])} {r['op']} {show_op(fn, r['b'])}"
    if k == "un":
        return f"{r['op']} {show_op(fn, r['a'])}"
    if k == "cast":
        return f"{show_op(fn, r['a'])} as {r['to']}"
    if k == "discr":
        return f"discr({show_place(fn, r['p'])})"
    if k == "agg":
        xs = ", ".join(show_op(fn, x) for x in r["xs"])
        return f"{r.get('variant') or r.get('closure') or r['ak']}({xs})"
    return str(r)


def show(fn):
    out = [f"fn {fn.path}  [{fn.file}:{fn.line}] argc={fn.argc}"]
    for i, l in enumerate(fn.locals):
        if i in fn.lnames or i <= fn.argc:
            out.append(f"  _{i} {fn.lnames.get(i, '')}: {l}")
    for b in fn.reach:
        out.append(f" bb{b}:")
        for s in fn.stmts(b):
            if s["k"] == "=":
                out.append(f"    {show_place(fn, s['p'])} = {show_rv(fn, s['r'])}   // {s['n']}")
            elif s["k"] == "setd":
                out.append(f"    setd {s}")
        t = fn.term(b)
        if t["k"] == "call":
            c = fn.callee(b)
            out.append(
                f"    {show_place(fn, t['d'])} = {c.full}({', '.join(show_op(fn, x) for x in t['args'])}) -> bb{t['to']}   // {t['n']}"
            )
        elif t["k"] == "switch":
            out.append(f"    switch {show_op(fn, t['x'])} {t['arms']} else bb{t['else']}   // {t['n']}")
        elif t["k"] == "assert":
            out.append(f"    assert {t['msg']} -> bb{t['to']}")
        else:
            out.append(f"    {t['k']} {'bb%s' % t['to'] if 'to' in t else ''}   // {t['n']}")
    return "\n".join(out)
