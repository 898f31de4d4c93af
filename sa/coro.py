"""Interpretation of async code: an awaited local async function is analysed in place, any other
future is ready with an unknown value; plus element-wise models of searches in collections."""
import re

from .absint import C, FALSE, NONE, TRUE, UNIT, Interp, some

POLL = "core::task::poll::Poll"


def bare(p):
    return re.sub(r"::<(?!impl)[^<>]*>", "", p)


ITER = re.compile(r"core::slice::iter::Iter|alloc::vec::into_iter::IntoIter|std::collections::hash::(set|map)::(Iter|IntoIter|Keys|Values)|core::iter::adapters::(cloned|copied)::")


class AsyncInterp(Interp):
    def __init__(self, prog, on_call=None, on_await=None, **kw):
        super().__init__(prog, on_call=on_call, **kw)
        self.on_await = on_await

    def unroll_for(self, st, fn, fr, body):
        if any(fn.term(b)["k"] == "yield" for b in body):
            return 1  # the loop of an await: left in its first round
        return self.unroll

    def widen(self, st, fn, fr, body):
        # the element model of iterators does not depend on their position
        keep = {k: v for k, v in st.env.items() if k[0] == fr and k[1] < len(fn.locals) and ITER.match(fn.locals[k[1]])}
        super().widen(st, fn, fr, body)
        st.env.update(keep)

    def do_call(self, st, callee, args, site, depth, rty=None):
        n, p, tr = callee.name, callee.path, callee.trait or ""
        if n == "into_future" and "future" in p and len(args) == 1:
            yield st, args[0]
            return
        if n in ("new_unchecked", "get_unchecked_mut", "as_mut", "get_mut", "new") and "pin::Pin" in p and len(args) == 1:
            yield st, args[0]
            return
        if n == "get_context" and p.startswith("core::future"):
            yield st, ("sym", "cx")
            return
        if n == "pin" and "boxed::Box" in p and len(args) == 1:
            yield st, ("agg", "alloc::boxed::Box", None, (args[0],))
            return
        if n == "poll" and tr.endswith("future::Future"):
            yield from self.poll(st, callee, args, site, depth)
            return
        yield from super().do_call(st, callee, args, site, depth, rty)

    def poll(self, st, callee, args, site, depth):
        v = self.deref(st, args[0])
        while v[0] == "agg" and v[1] == "alloc::boxed::Box":
            v = self.deref(st, v[3][0])
        if v[0] == "agg" and v[1].startswith("coroutine:"):
            fn = self.prog.fns.get(v[1][10:])
            if fn is not None and depth < self.depth and self.inline(fn, callee) and sum(1 for f in st.frames if f[0] == fn.id) < self.reclimit:
                for s, r in self.enter(st, fn, [v, ("sym", "cx")], depth):
                    if r is None or isinstance(r, tuple) and r and r[0] == "__back__":
                        yield s, r
                    else:
                        yield s, ("agg", POLL, "Ready", (r,))
                return
        if self.on_await:
            r = self.on_await(self, st, v, site)
            if r is not None:
                for s, x in r:
                    yield s, ("agg", POLL, "Ready", (x,))
                return
        st.note(("await", v, site))
        st.nid += 1
        yield st, ("agg", POLL, "Ready", (("awaited", v, st.nid),))

    # ------------------------------------------------------------ collections
    def base(self, st, v):
        """The collection an iterator or view ranges over."""
        v = self.deref(st, v)
        for _ in range(12):
            if v[0] == "call" and bare(str(v[1])).rsplit("::", 1)[-1] in ("iter", "into_iter", "iter_mut", "as_slice", "deref", "by_ref", "copied", "cloned", "borrow", "as_ref", "keys") and v[2]:
                v = self.deref(st, v[2][0])
            else:
                break
        return v

    def std(self, st, c, args, site, depth):
        n, p = c.name, c.path
        it = (c.trait or "").endswith("iterator::Iterator")
        if it and n in ("any", "all", "find", "position") and len(args) == 2 and args[1][0] == "agg":
            return list(self.search(st, n, args, site, depth))
        if it and n == "next" and args:
            b = self.deref(st, args[0])
            if b[0] == "call" and bare(str(b[1])).rsplit("::", 1)[-1] in ("iter", "into_iter", "copied", "cloned", "keys"):
                return [(st.copy(), some(("elemof", self.base(st, b)))), (st, NONE)]
        if n == "contains" and len(args) == 2 and ("slice" in p or "vec::Vec" in p or "HashSet" in p or "BTreeSet" in p or "VecDeque" in p):
            e = ("elemof", self.base(st, args[0]))
            out = []
            for s in self.assume(st.copy(), self.eq(st, args[1], e), True):
                out.append((s, TRUE))
            out.append((st, FALSE))
            return out
        if n in ("first", "get") and "slice" in p and (n == "first" or len(args) == 2 and args[1][0] == "c"):
            e = ("elem", self.base(st, args[0]), C(0, "usize") if n == "first" else args[1])
            return [(st.copy(), some(e)), (st, NONE)]
        if n == "split_first" and "slice" in p:
            b = self.base(st, args[0])
            return [(st.copy(), some(("agg", "tuple", None, (("elem", b, C(0, "usize")), ("rest", b))))), (st, NONE)]
        if n == "index" and (c.trait or "").endswith("ops::index::Index") and len(args) == 2 and args[1][0] == "c":
            return [(st, ("elem", self.base(st, args[0]), args[1]))]
        if n in ("as_str", "as_ref", "borrow", "deref", "to_owned", "to_string", "clone", "as_os_str", "as_path", "into", "from") and len(args) == 1 and args[0][0] in ("elem", "elemof"):
            return [(st, args[0])]
        return super().std(st, c, args, site, depth)

    def search(self, st, n, args, site, depth):
        e = ("elemof", self.base(st, args[0]))
        for s, r in self.call_closure(st.copy(), args[1], [e], site, depth):
            if r is None:
                yield s, None
                continue
            for z in self.assume(s, r, n != "all"):
                st2 = z
                yield st2, {"any": TRUE, "all": FALSE, "find": some(e), "position": some(("sym", "position", n))}[n]
        yield st, {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE}[n]
