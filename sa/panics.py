"""Enumeration of the places in MIR where execution can panic."""
import re

# library functions that panic on some arguments: path regex -> why
PANICKY = [
    (r"^core::panicking::", "panic"),
    (r"^core::option::Option(<.*>)?::(unwrap|expect)$", "unwrap of None"),
    (r"^core::option::(unwrap|expect)_failed", "unwrap of None"),
    (r"^core::result::Result(<.*>)?::(unwrap|expect|unwrap_err|expect_err)$", "unwrap of Err"),
    (r"^core::result::unwrap_failed", "unwrap of Err"),
    (r"^core::ops::(index::)?(Index|IndexMut)::(index|index_mut)$", "index"),
    (r"^core::str::(<impl str>::)?(split_at|split_at_mut|slice_unchecked)$", "split inside a character or past the end"),
    (r"^core::slice::(<impl \[.*\]>::)?(split_at|split_at_mut|copy_from_slice|clone_from_slice|swap|chunks|chunks_exact|windows|rotate_left|rotate_right|copy_within|fill_with_unchecked)$", "slice operation"),
    (r"^alloc::string::String::(insert|insert_str|remove|split_off|drain|truncate|replace_range)$", "string operation at a bad position"),
    (r"^alloc::vec::Vec(<.*>)?::(insert|remove|swap_remove|split_off|drain|extend_from_within|splice)$", "vector operation out of bounds"),
    (r"^alloc::collections::(vec_deque::)?VecDeque(<.*>)?::(insert|swap|split_off|drain|range)$", "deque operation out of bounds"),
    (r"^core::cell::RefCell(<.*>)?::(borrow|borrow_mut|replace|swap)$", "already borrowed"),
    (r"^core::char::(methods::<impl char>::)?(to_digit|from_digit)$", "radix"),
    (r"^core::iter::(traits::iterator::)?Iterator::step_by$", "step of zero"),
    (r"^std::(rt::begin_panic|panicking::)", "panic"),
    (r"^core::num::.*::(pow|abs|ilog|ilog2|ilog10|isqrt|div_euclid|rem_euclid|next_power_of_two)$", "arithmetic overflow"),
    (r"^alloc::rc::Rc(<.*>)?::new_cyclic$", "panic"),
]
PANICKY = [(re.compile(a), b) for a, b in PANICKY]
_memo = {}


def why(callee):
    p = callee.path
    r = _memo.get(p)
    if r is None:
        q = re.sub(r"::<(?!impl)[^<>]*>", "", p)
        r = next((w for rx, w in PANICKY if rx.match(q)), "")
        _memo[p] = r
    return r


class Site:
    __slots__ = ("fn", "b", "kind", "what", "term", "callee")

    def __init__(self, fn, b, kind, what, term, callee=None):
        self.fn, self.b, self.kind, self.what, self.term, self.callee = fn, b, kind, what, term, callee

    @property
    def line(self):
        return self.term.get("n")

    def where(self):
        return self.fn.loc(self.line)

    def __repr__(self):
        return f"{self.fn.path}:{self.line} {self.kind} {self.what}"


def sites(fn):
    """Every place of fn (not its callees) that can panic."""
    for b in fn.reach:
        t = fn.term(b)
        if t["k"] == "assert":
            yield Site(fn, b, "assert", t.get("m") or t.get("msg") or "assert", t)
        elif t["k"] == "call":
            c = fn.callee(b)
            w = why(c)
            if w:
                yield Site(fn, b, "call", f"{c.path} ({w})", t, c)
            elif t["to"] < 0 and c.path not in ("core::hint::unreachable_unchecked",):
                yield Site(fn, b, "call", f"{c.path} (does not return)", t, c)


def reachable(prog, roots, crates=None, stop=()):
    """Functions reachable from roots through resolved calls, closures and function values."""
    seen = {}
    todo = [(f, None) for f in roots]
    while todo:
        f, via = todo.pop()
        if f.id in seen or (crates and f.crate not in crates) or f.id in stop:
            continue
        seen[f.id] = (f, via)
        for g in callees(prog, f):
            todo.append((g, f.id))
    return seen


def _fnrefs(x, out):
    if isinstance(x, dict):
        if "rid" in x and "path" in x:
            out.add(x["rid"])
        if x.get("k") == "agg" and x.get("ak") in ("closure", "coroutine"):
            out.add(x["closure"])
        for v in x.values():
            if isinstance(v, (dict, list)):
                _fnrefs(v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                _fnrefs(v, out)


def callees(prog, f):
    ids = set()
    for b in f.reach:
        for s in f.stmts(b):
            if s["k"] == "=":
                _fnrefs(s["r"], ids)
        t = f.term(b)
        _fnrefs({k: v for k, v in t.items() if not k.startswith("_")}, ids)
    out = []
    for i in ids:
        g = prog.fns.get(i)
        if g is not None:
            out.append(g)
    for c in prog.children.get(f.id, []):
        if c not in out:
            out.append(c)
    return out
