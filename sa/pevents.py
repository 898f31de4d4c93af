"""What the event parser pushes to its event queue, per abstract path."""
from .absint import C, State, UNIT, show
from .absstr import AbsStr
from .mir import strip_generics

QUEUE = "VecDeque<styx_parse::events::Event"


def last(p):
    return strip_generics(p).rsplit("::", 1)[-1]


class Events(AbsStr):
    """Notes ('ev', kind variant, payload tuple, event value, site) for each push and ('rec', fn, args, site) for each call of a
    function that pushes events and is not analysed in place."""

    def __init__(self, prog, emitters=(), **k):
        k.setdefault("depth", 5)
        super().__init__(prog, **k)
        self.emitters = set(emitters)
        self.on_call = self.hook

    def hook(self, I, st, c, args, site):
        if "VecDeque" in c.full and "Event" in c.full:
            if c.name in ("push_back",):
                e = self.deref(st, args[1])
                k = self.deref(st, self.fld(e, 1, "kind")) if e[0] == "agg" else e
                if e[0] == "agg":
                    k = next((self.deref(st, x) for x in e[3] if self.deref(st, x)[0] == "agg" and last(self.deref(st, x)[1]) == "EventKind"), k)
                st.note(("ev", k[2] if k[0] == "agg" else "?", errkind(self, st, k[3]) if k[0] == "agg" and k[2] == "Error" else None, self.detail(st, e, k), site))
                return [(st, UNIT)]
            if c.name in ("push_front", "extend", "insert", "append"):
                st.note(("ev", "?", None, None, site))
                return [(st, UNIT)]
            if c.name == "pop_front":
                st.note(("pop", site))
                return [(st, st.fresh("popped"))]
            if c.name in ("len", "is_empty"):
                return None
        t = self.prog.target(c)
        if t is not None and t.id in self.emitters and self.stop(t, st):
            st.note(("rec", t, tuple(self.deref(st, a) for a in args), site))
            return [(st, st.fresh("rec"))]
        return None

    def detail(self, st, e, k):
        return None

    def recdetail(self, st, t, args):
        return None

    def stop(self, t, st):
        return sum(1 for f in st.frames if f[0] == t.id) >= 1 or t.id in self.opaque_fns

    opaque_fns = frozenset()


def pushers(prog, crate="styx_parse"):
    """Functions that push to the event queue themselves or through callees."""
    direct = set()
    calls = {}
    for f in prog.fns.values():
        if f.crate != crate or "::tests" in f.id:
            continue
        cs = set()
        for b, t, c in f.calls():
            if "VecDeque" in c.full and "Event" in c.full and c.name in ("push_back", "push_front", "extend"):
                direct.add(f.id)
            g = prog.target(c)
            if g is not None:
                cs.add(g.id)
        calls[f.id] = cs
    out = set(direct)
    while True:
        n = {i for i, cs in calls.items() if i not in out and cs & out}
        if not n:
            return out
        out |= n


def errkind(I, st, payload):
    for x in payload:
        x = I.deref(st, x)
        if x[0] == "agg" and last(x[1]) == "ParseErrorKind":
            return x[2]
    return "?"


def seq(I, p):
    out = []
    for e in p.st.trace():
        if e[0] == "ev":
            out.append(e[1] + (":" + e[2] if e[1] == "Error" else ""))
        elif e[0] == "rec":
            out.append("<" + e[1].name + ">")
        elif e[0] == "pop":
            out.append("pop")
    return out
