"""P20: the C interface tolerates null pointers and never panics across it."""
import re

from ..absint import C, Interp, State, show, some, NONE
from ..iset import FULL, ISet
from ..mir import norm, strip_generics
from .. import panics

META = {
    "packages": ["styx-ffi"],
    "crates": ["styx_ffi", "styx_tree"],
    "level": "other",
    "technique": "abstract interpretation of every exported function over the nullness of each pointer; ownership pairing; handle-type and panic-site analysis",
    "level_note": "All abstract paths of every exported function. Panics inside the parser are the subject of P24, not of this check.",
    "explanation": "Each function exported with C linkage is interpreted with symbolic pointers. Every dereference and every use by the library must lie on paths where the pointer is known not to be null, "
    "paths with a null pointer must return the failure value, every owned object that leaves must have an exported function taking it back with the same type, and no path may panic.",
    "assumptions": ["non-null pointers passed by C callers are valid, as the documented contract says"],
}
NULL = ISet.of(0)


def isptr(t):
    return t.startswith("*")


def pointee(t):
    return t.split(" ", 1)[1] if isptr(t) else t


class Ffi(Interp):
    def __init__(self, prog, rep, fn):
        super().__init__(prog, on_call=self.hook, depth=6, inline=lambda t, c: t.crate == "styx_ffi")
        self.rep = rep
        self.root = fn
        self.params = set()

    def need(self, st, p, how, fn, line=None):
        if p not in self.params:
            return
        ok = 0 not in self.dom(st, p)
        self.rep.check(ok, "null-before-use", f"{self.root.path}:{p[2]}:{how}", f"{self.root.path} {how} `{p[2]}` on a path where it may be null", fn.loc(line))

    def loc_of(self, st, fr, place):
        loc = ("L", fr, place[0], ())
        for i, e in enumerate(place[1:]):
            if e[0] == "*":
                v = super().content(st, super().loc_of(st, fr, place[: i + 1]))
                if v in self.params:
                    self.need(st, v, "dereferences", self.prog.fns.get(fr[0], self.root))
        return super().loc_of(st, fr, place)

    def own(self, st, ty):
        st.nid += 1
        v = ("call", "owned", (ty,), st.nid)
        st.facts[v] = FULL - NULL
        st.ext[("own", v)] = ty
        return v

    def hook(self, I, st, c, args, site):
        fn, b, line = site
        n, p = c.name, re.sub(r"::<(?!impl)[^<>]*>", "", c.path)
        a = args[0] if args else None
        onptr = p.startswith("core::ptr::")
        if onptr and n == "is_null":
            return [(st, ("op", "Eq", a, C(0, "usize")))]
        if onptr and n in ("null", "null_mut", "dangling"):
            return [(st, C(0, "usize"))]
        if onptr and n in ("cast", "cast_mut", "cast_const", "as_ptr"):
            return [(st, a)]
        if onptr and (n in ("as_ref", "as_mut") and len(args) == 1 or n == "new" and "non_null" in p):
            out = []
            for s in self.assume(st.copy(), ("op", "Eq", a, C(0, "usize")), True):
                out.append((s, NONE))
            for s in self.assume(st, ("op", "Eq", a, C(0, "usize")), False):
                out.append((s, some(a)))
            return out
        if n == "from_raw" and ("boxed::Box" in p or "c_str::CString" in p or "rc::Rc" in p or "sync::Arc" in p):
            ty = self.ownty(c, fn, b, arg=True)
            self.need(st, a, "frees", fn, line)
            st.ext[("freed", a)] = ty
            st.note(("freed", a, ty))
            return [(st, st.fresh("own"))]
        if n == "into_raw":
            return [(st, self.own(st, self.ownty(c, fn, b)))]
        if n == "leak" or n == "forget" or "ManuallyDrop" in p and n == "new":
            self.rep.bad("ownership", f"{self.root.path}:{n}", f"{self.root.path} gives up memory with {n}", fn.loc(line))
        if n == "new" and "c_str::CString" in p:
            v = self.deref(st, a)
            if v[0] == "c" and isinstance(v[2], str) and "\0" not in v[2]:
                return [(st, ("agg", "core::result::Result", "Ok", (st.fresh("cstring"),)))]
        if n == "branch" or p.startswith("core::panicking"):
            return None
        tgt = self.prog.target(c)
        if tgt is None or not self.inline(tgt, c):
            for x in args:
                if x in self.params and not (c.trait or "").endswith("cmp::PartialEq") and not (c.trait or "").endswith("clone::Clone"):
                    self.need(st, x, f"passes to {n}", fn, line)
        if n in ("index", "index_mut") and "ops::" in p and len(args) == 2:
            self.index(st, c, args, site)
        return None

    def index(self, st, c, args, site):
        fn, b, line = site
        if re.match(r"<?(str|alloc::string::String)\b", c.full.lstrip("<")) or "str as" in c.full.split("Index")[0]:
            return  # text slicing: P24
        base, i = self.deref(st, args[0]), args[1]
        ok = False
        for k, m in st.facts.items():
            if k[0] == "rel" and i in (k[1], k[2]):
                o = k[2] if k[1] == i else k[1]
                m = m if k[1] == i else (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)
                if m == 1 and o[0] == "call" and str(o[1]).endswith("::len"):
                    ok = True
        if not ok:
            self.rep.bad("no-panic", f"{self.root.path}:index", f"{self.root.path} indexes {c.full} without a preceding bounds check: an out-of-range index from C aborts the process", fn.loc(line))

    @staticmethod
    def ownty(c, fn, b, arg=False):
        if "CString" in c.full:
            return "CString"
        t = fn.term(b)
        x = t["args"][0] if arg else None
        ty = None
        if arg and x["k"] in ("copy", "move") and len(x["p"]) == 1:
            ty = pointee(fn.locals[x["p"][0]])
        elif not arg and len(t["d"]) == 1:
            ty = pointee(fn.locals[t["d"][0]])
        kind = re.search(r"(boxed::Box|rc::Rc|sync::Arc)", c.full)
        return f"{kind.group(1).split('::')[1] if kind else '?'}<{norm(ty) if ty else '?'}>"


def failure(I, st, ty, v, adts):
    """Is v the failure value of type ty?"""
    if ty == "()":
        return True
    if isptr(ty) or ty in ("bool", "usize", "u8", "i32", "u32", "i64", "u64", "isize"):
        return I.dom(st, v) == NULL
    a = adts.get(strip_generics(ty))
    if a and a["kind"] == "enum":
        return v[0] == "agg" and a["variants"][0]["name"] == v[2]
    if a and a["kind"] == "struct" and v[0] == "agg":
        fs = a["variants"][0]["fields"]
        d = [I.dom(st, x) for x in v[3]]
        for i, (n, t) in enumerate(fs):
            if "char" in t or t == "*mut i8" or t == "*mut u8":
                if 0 in d[i]:
                    return False
            elif isptr(t) and d[i] != NULL:
                return False
        return True
    return False


def run(prog, rep, tier):
    rep.rule("null-before-use", "every use of a pointer parameter lies on paths where it is known not to be null")
    rep.rule("failure-value", "on every path where a pointer parameter is null the function returns null, zero, the empty kind, or an error message")
    rep.rule("exclusive", "a parse result carries either a document or an error message, never both or neither")
    rep.rule("ownership", "every owned object handed out appears in the return value, once, and has an exported function that takes back exactly that type; borrowed pointers never own")
    rep.rule("borrowed", "a returned const pointer points into the object passed in, not into the function's own memory")
    rep.rule("no-panic", "no path of an exported function or of the tree accessors it uses panics")
    rep.rule("abi", "exported functions use the C ABI that aborts instead of unwinding")
    rep.rule("handles", "each opaque handle type always stands for the same Rust type")
    ex = sorted((f for f in prog.fns.values() if f.crate == "styx_ffi" and f.j.get("exported")), key=lambda f: f.path)
    rep.floor("null-before-use", "exported functions", len(ex), 18)
    given, taken, ptrs = {}, {}, 0
    for f in ex:
        rep.check("C" in f.j["abi"].split() and "unwind: true" not in f.j["abi"], "abi", f.path, f"{f.path} has ABI {f.j['abi']}: a panic would unwind into C", f.loc())
        rty = f.locals[0]
        I = Ffi(prog, rep, f)
        args = []
        for i in range(1, f.argc + 1):
            a = ("sym", "arg", f.lnames.get(i, str(i)))
            I.tyof[a] = f.locals[i]
            args.append(a)
            if isptr(f.locals[i]):
                I.params.add(a)
                ptrs += 1
        used = set()
        paths = I.run(f, list(args))
        for path in paths:
            st, v = path.st, path.ret
            if path.kind == "panic":
                what = next((e for e in reversed(st.trace()) if e[0] in ("panic", "diverge")), None)
                s = what[3] if what else None
                rep.bad("no-panic", f"{f.path}:{s[0].path if s else '?'}", f"{f.path} can panic{' in ' + s[0].path if s else ''}: C callers see the process abort", s[0].loc(s[2]) if s else f.loc())
                continue
            if path.kind != "ret":
                continue
            for a in I.params:
                if I.dom(st, a) == NULL:
                    used.add(a)
                    rep.check(failure(I, st, rty, v, prog.adts), "failure-value", f"{f.path}:{a[2]}", f"{f.path} returns {show(v)} although `{a[2]}` is null", f.loc())
            leaves(prog, rep, I, f, st, v, rty, given)
            freed = [e for e in st.trace() if e[0] == "freed"]
            for e in freed:
                taken.setdefault(e[2], set()).add(f.path)
                n = sum(1 for x in freed if x[1] == e[1])
                rep.check(n == 1, "ownership", f"{f.path}:once", f"{f.path} frees the same object {n} times", f.loc())
                k = args.index(e[1]) + 1 if e[1] in args else None
                rep.check(k is not None and f.locals[k].startswith("*mut"), "ownership", f"{f.path}:taken", f"{f.path} frees something that is not an owned (mutable) pointer passed to it", f.loc())
                if k is not None:
                    pt = norm(pointee(f.locals[k]))
                    want = "CString" if pt in ("i8", "u8") else f"Box<{pt}>"
                    rep.check(e[2] == want, "ownership", f"{f.path}:type", f"{f.path} takes a {f.locals[k]} but frees it as {e[2]}", f.loc())
        if f.locals[0] == "()" and any(f.path in x for x in taken.values()):
            for path in paths:
                a = args[0]
                if path.kind == "ret" and I.dom(path.st, a) != NULL and 0 not in I.dom(path.st, a):
                    rep.check(("freed", a) in path.st.ext, "ownership", f"{f.path}:always", f"{f.path} does not free its argument on every path", f.loc())
    rep.counts["pointer parameters"] = ptrs
    rep.floor("ownership", "owned types handed out", len(given), 2)
    for ty, fs in sorted(given.items()):
        rep.check(len(taken.get(ty, ())) == 1, "ownership", f"release:{ty}", f"{ty} is handed out by {sorted(fs)} but released by {sorted(taken.get(ty, ()))}")
    static_panics(prog, rep, ex)
    handles(prog, rep)


def leaves(prog, rep, I, f, st, v, rty, given):
    parts = [(v, rty)]
    a = prog.adts.get(strip_generics(rty))
    if v and v[0] == "agg" and a and a["kind"] == "struct":
        parts = [(x, t) for x, (n, t) in zip(v[3], a["variants"][0]["fields"])]
        ptr = [(x, t) for x, t in parts if isptr(t)]
        if len(ptr) == 2:
            live = [x for x, t in ptr if I.dom(st, x) != NULL]
            may = [x for x in live if 0 in I.dom(st, x)]
            rep.check(len(live) == 1 and not may, "exclusive", f.path, f"{f.path} returns a result with {len(live)} of document and error set", f.loc())
    owned = {k[1]: t for k, t in st.ext.items() if k[0] == "own"}
    seen = []
    for x, t in parts:
        if x in owned:
            seen.append(x)
            pt = norm(pointee(t))
            want = "CString" if pt in ("i8", "u8") else f"Box<{pt}>"
            rep.check(t.startswith("*mut") and owned[x] == want, "ownership", f"{f.path}:gives", f"{f.path} hands out {owned[x]} as {t}", f.loc())
            given.setdefault(owned[x], set()).add(f.path)
        elif isptr(t) and I.dom(st, x) != NULL:
            root = rootof(x)
            own_frame = root is not None and root[0] == "L"
            rep.check(not own_frame, "borrowed", f.path, f"{f.path} returns a pointer into its own stack frame", f.loc())
            rep.check(not t.startswith("*mut") or x in I.params, "ownership", f"{f.path}:owned", f"{f.path} returns a {t} that no allocation was released for", f.loc())
    for x, t in owned.items():
        rep.check(seen.count(x) == 1, "ownership", f"{f.path}:leak", f"{f.path} turns a {t} into a raw pointer that appears {seen.count(x)} times in its result", f.loc())


def rootof(v):
    while isinstance(v, tuple) and v:
        if v[0] == "ref":
            return v[1] if v[1][0] == "L" else rootof(v[1][1])
        if v[0] in ("fld", "dc", "mem", "elem", "cast"):
            v = v[1] if v[0] != "cast" else v[2]
            continue
        if v[0] == "call" and str(v[1]).endswith(("::as_ptr", "::as_mut_ptr")) and v[2]:
            v = v[2][0]
            continue
        return None
    return None


def static_panics(prog, rep, ex):
    stop = [f.id for f in prog.fns.values() if "BuildError" in f.locals[0]]
    reach = panics.reachable(prog, ex, ("styx_ffi", "styx_tree"), stop)
    rep.counts["functions reachable from the interface"] = len(reach)
    for f, via in reach.values():
        n = 0
        for s in panics.sites(f):
            n += 1
            m = s.what
            if m.startswith(("overflow:Add", "overflow:Mul")):
                continue  # would need 2^64 items
            if s.callee is not None and f.crate == "styx_ffi" and s.callee.name in ("index", "index_mut", "unwrap", "expect"):
                continue  # decided on the paths above
            if s.callee is not None and s.callee.name == "index" and "str as" in s.callee.full.split("Index")[0]:
                continue  # text slicing: P24
            if m.startswith("overflow:Sub") and f.crate == "styx_tree":
                continue  # P24
            rep.bad("no-panic", f"{f.path}:{m.split(' ')[0]}", f"{f.path}, reachable from the C interface, can panic: {m}", s.where())
        if not n:
            rep.good("no-panic", f.path)


def handles(prog, rep):
    """Pointer casts between an opaque handle and the type it stands for."""
    pair = {}
    n = 0
    for f in prog.fns.values():
        if f.crate != "styx_ffi":
            continue
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] != "=" or s["r"]["k"] != "cast":
                    continue
                a, z = norm(s["r"]["from"]), norm(s["r"]["to"])
                if not (isptr(a) and isptr(z)):
                    continue
                a, z = pointee(a), pointee(z)
                for h, t in ((a, z), (z, a)):
                    if h.startswith("styx_ffi::") and h != t and h in prog.adts:
                        n += 1
                        pair.setdefault(h, {}).setdefault(t, []).append(f)
            t = f.term(b)
            if t["k"] == "call":
                c = f.callee(b)
                if c.name == "cast" and c.path.startswith("core::ptr") and len(c.targs) == 2:
                    a, z = c.targs
                    for h, t in ((a, z), (z, a)):
                        if h.startswith("styx_ffi::") and h != t and h in prog.adts:
                            n += 1
                            pair.setdefault(h, {}).setdefault(t, []).append(f)
    rep.floor("handles", "handle casts", n, 10)
    back = {}
    for h, ts in sorted(pair.items()):
        main = max(ts, key=lambda t: len(ts[t]))
        back.setdefault(main, []).append(h)
        for t, fs in ts.items():
            rep.check(t == main, "handles", f"{h}:{fs[0].path}", f"{fs[0].path} treats {h} as {t}; elsewhere it stands for {main}", fs[0].loc())
    for t, hs in back.items():
        rep.check(len(hs) == 1, "handles", f"type:{t}", f"{t} is handed out under several handle types {hs}")
