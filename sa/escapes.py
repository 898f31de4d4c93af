"""Escape encoders and decoders of the code base, found by what they do."""
from .absint import C, State, show
from .absstr import AbsStr, lit, text_of
from .iset import CHAR, ISet

HEX = ISet.rng(48, 57) | ISet.rng(97, 102) | ISet.rng(65, 70)
STR = ("&str", "alloc::string::String", "&alloc::string::String", "alloc::borrow::Cow", "&alloc::borrow::Cow")


def isstr(t):
    t = t.replace("mut ", "").replace("'_ ", "").replace("'src ", "").replace("'de ", "")
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.split(" ", 1)[-1]
    return t == "str" or t == "alloc::string::String" or t.startswith("alloc::borrow::Cow<") and t.endswith("str>")


def texty(t):
    for w in ("core::result::Result<", "core::option::Option<"):
        if t.startswith(w):
            t = t[len(w) :]
            return t.startswith("alloc::string::String") or t.startswith("alloc::borrow::Cow<") or t.startswith("&str")
    return isstr(t)


def candidates(prog, crates):
    for f in sorted(prog.fns.values(), key=lambda f: f.path):
        if f.crate not in crates or f.is_closure or "::tests::" in f.id or f.coroutine:
            continue
        if not texty(f.locals[0]):
            continue
        ss = [i for i in range(1, f.argc + 1) if isstr(f.locals[i])]
        if len(ss) == 1 and f.argc <= 2:
            yield f, ss[0]


def shape(I, st, *xs, tag=""):
    """A string from constants and classes; returns the items."""
    out = ()
    for i, x in enumerate(xs):
        if isinstance(x, str):
            out += lit(x)[1]
        elif isinstance(x, ISet):
            t = I.sym(f"{tag}{i}")
            st.facts[t] = x
            out += (t,)
        else:
            out += tuple(x)
    return out


class Routine:
    def __init__(self, prog, f, i):
        self.prog, self.f, self.i = prog, f, i
        self.wrap = False

    def args(self, items):
        q = lit('"')[1]
        v = ("chs", q + items + q if self.wrap else items)
        a = []
        for k in range(1, self.f.argc + 1):
            a.append(v if k == self.i else ("sym", "arg", self.f.lnames.get(k, k)))
        return a

    def run(self, I, st, items):
        """Yields (state, 'text', items) | (state, 'err', value) | (state, 'none', None) | (state, 'panic', site) | (state, '?', value)."""
        for p in I.run(self.f, self.args(items), st.copy()):
            if p.kind != "ret":
                yield p.st, "panic" if p.kind == "panic" else "?", p.where
                continue
            v = I.deref(p.st, p.ret)
            if v[0] == "agg" and v[2] in ("Err", "None"):
                yield p.st, "err" if v[2] == "Err" else "none", v[3][0] if v[3] else None
                continue
            while v[0] == "agg" and v[2] in ("Ok", "Some", "Owned", "Borrowed"):
                v = I.deref(p.st, v[3][0])
            s = I.chs(p.st, v)
            if s is None:
                yield p.st, "?", v
            else:
                yield p.st, "text", s[1]


def const_out(prog, r, text):
    I = AbsStr(prog, depth=6, max_paths=500, max_steps=30000)
    out = set()
    try:
        for s, k, v in r.run(I, State(), lit(text)[1]):
            out.add((k, text_of(("chs", v)) if k == "text" else None))
    except Exception:
        return None
    if len(out) == 1:
        k, t = out.pop()
        return t if k == "text" else None
    return None


def find(prog, crates):
    enc, dec = [], []
    for f, i in candidates(prog, crates):
        r = Routine(prog, f, i)
        if const_out(prog, r, "a\nb") == "a\\nb" and const_out(prog, r, "a") == "a":
            enc.append(r)
            continue
        o = const_out(prog, r, '"a\\nb"')
        if o == "a\nb":
            r.wrap = True
            dec.append(r)
        elif const_out(prog, r, "a\\nb") == "a\nb":
            dec.append(r)
    return enc, dec


def show_items(items):
    return "".join(chr(x[2]) if x[0] == "c" else "<" + show(x) + ">" for x in items)


def example(I, st, items):
    """A concrete member of the shape, for messages."""
    out = ""
    for x in items:
        if x[0] == "c":
            out += chr(x[2])
        else:
            d = I.dom(st, x) & CHAR
            out += chr(d.pick()) if d else "?"
    return out
