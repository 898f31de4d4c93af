"""Path-partitioned abstract interpretation of MIR.

Values are terms; integer, char, bool and discriminant terms carry an interval set, refined at
branches. Local helpers are analysed in place up to a stated depth, loops are widened (everything a
loop writes is forgotten at its head) after `unroll` precise rounds. No solver: a branch is
discarded only when the interval set of the tested term becomes empty."""
from .build import CheckError
from .iset import BOOL, CHAR, CHAR_PRED, EMPTY, FULL, ISet, unicode_pred
from .mir import Callee, norm, strip_generics

INT_RANGE = {
    "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
    "u128": (0, 2**128 - 1), "i8": (-128, 127), "i16": (-(2**15), 2**15 - 1), "i32": (-(2**31), 2**31 - 1),
    "i64": (-(2**63), 2**63 - 1), "isize": (-(2**63), 2**63 - 1), "i128": (-(2**127), 2**127 - 1),
}


def ty_set(ty):
    if ty == "char":
        return CHAR
    if ty == "bool":
        return BOOL
    if ty in INT_RANGE:
        return ISet.rng(*INT_RANGE[ty])
    return FULL


def C(v, ty="int"):
    return ("c", ty, v)


UNIT = ("agg", "tuple", None, ())
TRUE = C(1, "bool")
FALSE = C(0, "bool")


def some(v):
    return ("agg", "core::option::Option", "Some", (v,))


NONE = ("agg", "core::option::Option", "None", ())


def ok(v):
    return ("agg", "core::result::Result", "Ok", (v,))


def err(v):
    return ("agg", "core::result::Result", "Err", (v,))


def tup(*a):
    return ("agg", "tuple", None, tuple(a))


def is_const(v):
    return v[0] == "c"


def show(v, depth=0):
    if depth > 6:
        return "…"
    k = v[0]
    d = depth + 1
    if k == "c":
        if v[1] == "char":
            return repr(chr(v[2]))
        return repr(v[2])
    if k == "agg":
        nm = v[2] or (v[1].rsplit("::", 1)[-1] if v[1] != "tuple" else "")
        return f"{nm}({', '.join(show(x, d) for x in v[3])})" if v[3] or not nm else nm
    if k == "ref":
        return "&" + show_loc(v[1], d)
    if k == "sym":
        return "?" + ":".join(str(x) for x in v[1:])
    if k == "fld":
        return f"{show(v[1], d)}.{v[2]}"
    if k == "dc":
        return f"({show(v[1], d)} as {v[2]})"
    if k == "mem":
        return f"*{show(v[1], d)}"
    if k == "disc":
        return f"discr({show(v[1], d)})"
    if k == "op":
        return f"({show(v[2], d)} {v[1]} {show(v[3], d)})"
    if k == "call":
        return f"{v[1].rsplit('::', 1)[-1]}({', '.join(show(x, d) for x in v[2])})"
    if k == "with":
        return f"{show(v[1], d)}{{{', '.join(f'{a}={show(b, d)}' for a, b in v[2])}}}"
    return "(" + " ".join(show(x, d) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in v) + ")"


def show_loc(l, d=0):
    if l[0] == "L":
        return f"_{l[2]}@{l[1]}" + "".join("." + str(p) for p in l[3])
    return f"*{show(l[1], d)}" + "".join("." + str(p) for p in l[2])


class State:
    HISTORY = {}
    __slots__ = ("env", "heap", "facts", "events", "frames", "ext", "nid", "visits", "steps")

    def __init__(self):
        self.env = {}  # (frame, local) -> value
        self.heap = {}  # pointer term -> value of what it points to
        self.facts = {}  # term -> ISet
        self.events = ()  # recorded happenings, linked list (prev, item)
        self.frames = ()
        self.ext = {}  # check-specific state, immutable values
        self.nid = 0
        self.visits = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.events = self.events
        s.frames = self.frames
        s.ext = dict(self.ext)
        s.nid = self.nid
        s.visits = dict(self.visits)
        return s

    def fresh(self, *tag):
        self.nid += 1
        return ("sym", self.nid) + tag

    def note(self, item):
        # equal histories are one object, so that states that differ in nothing can be joined
        try:
            k = (id(self.events), item)
            e = State.HISTORY.get(k)
            if e is None:
                e = (self.events, item)
                if len(State.HISTORY) > 400000:
                    State.HISTORY.clear()
                State.HISTORY[k] = e
            self.events = e
        except TypeError:
            self.events = (self.events, item)

    def trace(self):
        out = []
        e = self.events
        while e:
            out.append(e[1])
            e = e[0]
        return out[::-1]


class Path:
    def __init__(self, kind, st, ret, where):
        self.kind = kind  # ret | panic | back
        self.st = st
        self.ret = ret
        self.where = where


class TooBig(CheckError):
    pass


class Interp:
    """hooks: on_call(interp, st, callee, args, site) -> None (default treatment) or list of
    (state, value) with value None for 'does not return'."""

    reclimit = 2

    def __init__(self, prog, on_call=None, depth=6, unroll=0, max_paths=20000, inline=None, on_write=None, on_switch=None, max_steps=2000000, merging=True):
        self.merging = merging
        self.prog = prog
        self.on_call = on_call
        self.depth = depth
        self.unroll = unroll
        self.max_paths = max_paths
        self.inline = inline or (lambda fn, callee: True)
        self.on_write = on_write
        self.on_switch = on_switch
        self.tyof = {}
        self.inlined = set()
        self.opaque = set()
        self.paths = 0
        self.steps = 0
        self.max_steps = max_steps

    # ------------------------------------------------------------ facts
    def dom(self, st, t):
        if t[0] == "c":
            return ISet.of(t[2]) if isinstance(t[2], int) else FULL
        f = st.facts.get(t)
        if f is not None:
            return f
        k = t[0]
        if k == "disc":
            v = t[1]
            if v[0] == "agg" and v[2] is not None:
                d = self.discr(v[1], v[2])
                if d is not None:
                    return ISet.of(d)
            ty = self.tyof.get(v)
            if ty:
                a = self.prog.adts.get(strip_generics(ty))
                if a and a["kind"] == "enum":
                    return ISet.norm([(x["discr"], x["discr"]) for x in a["variants"]])
        if k == "op":
            r = self.arith(st, t)
            if r is not None:
                return r
        if k == "cast":
            inner = self.dom(st, t[2])
            tt = ty_set(t[1])
            if inner <= tt:
                return inner
            return tt
        ty = self.tyof.get(t)
        if ty:
            return ty_set(ty)
        if k == "in":
            return BOOL
        return FULL

    def arith(self, st, t):
        op = t[1]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return BOOL
        return None

    def discr(self, adt, variant):
        a = self.prog.adts.get(adt) or self.prog.adts.get(strip_generics(adt))
        if a:
            for v in a["variants"]:
                if v["name"] == variant:
                    return v["discr"]
        std = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Borrowed": 0, "Owned": 1,
               "Less": -1, "Equal": 0, "Greater": 1, "Ready": 0, "Pending": 1}
        return std.get(variant)

    def variant_of(self, adt, d):
        a = self.prog.adts.get(adt) or self.prog.adts.get(strip_generics(adt or ""))
        if a:
            for v in a["variants"]:
                if v["discr"] == d:
                    return v["name"]
        return None

    def refine(self, st, t, s):
        """Restrict term t to s; False when empty."""
        if t[0] == "c":
            return not isinstance(t[2], int) or t[2] in s
        d = self.dom(st, t) & s
        if not d:
            return False
        st.facts[t] = d
        # value-preserving casts and constant offsets share the fact
        if t[0] == "cast" and self.dom(st, t[2]) <= ty_set(t[1]):
            return self.refine(st, t[2], d)
        if t[0] == "op" and t[1] in ("Add", "Sub") and t[3][0] == "c":
            k = t[3][2] if t[1] == "Add" else -t[3][2]
            return self.refine(st, t[2], ISet(tuple((a - k, b - k) for a, b in d.iv)))
        return True

    def assume(self, st, c, truth):
        """States in which bool term c has the given truth value (st may be consumed)."""
        k = c[0]
        if k == "c":
            return [st] if bool(c[2]) == truth else []
        if k == "un" and c[1] == "Not":
            return self.assume(st, c[2], not truth)
        if k == "and" or k == "or":
            if (k == "and") == truth:
                sts = [st]
                for x in c[1]:
                    sts = [z for s in sts for z in self.assume(s, x, truth)]
                return sts
            out = []
            cur = [st]
            for x in c[1]:
                nxt = []
                for s in cur:
                    out += self.assume(s.copy(), x, truth)
                    nxt += self.assume(s, x, not truth)
                cur = nxt
            return out
        if k == "in":
            s = c[2] if truth else ~c[2]
            ok_ = self.refine(st, c[1], s)
            if ok_:
                st.facts[c] = ISet.of(int(truth))
            return [st] if ok_ else []
        if k == "op":
            op, a, b = c[1], c[2], c[3]
            if op in ("BitAnd", "BitOr") and self.is_bool(st, a) and self.is_bool(st, b):
                return self.assume(st, ("and" if op == "BitAnd" else "or", (a, b)), truth)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if not truth:
                    op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
                if a == b and not self.floaty(a):
                    return [st] if op in ("Eq", "Le", "Ge") else []
                da, db = self.dom(st, a), self.dom(st, b)
                sa, sb = self.cmp_sets(op, da, db)
                if not self.refine(st, a, sa) or not self.refine(st, b, sb):
                    return []
                if not self.order_ok(st, op, a, b):
                    return []
        if not self.refine(st, c, ISet.of(int(truth))):
            return []
        return [st]

    def order_ok(self, st, op, a, b):
        """Syntactic consistency of comparisons between the same two terms."""
        key = ("rel", a, b)
        m = {"Lt": 1, "Eq": 2, "Gt": 4, "Le": 3, "Ge": 6, "Ne": 5}[op]
        if repr(b) < repr(a):
            key = ("rel", b, a)
            m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)
        cur = st.facts.get(key, 7)
        cur &= m
        if not cur:
            return False
        st.facts[key] = cur
        return True

    def floaty(self, t):
        return self.tyof.get(t) in ("f32", "f64")

    def is_bool(self, st, t):
        if t[0] in ("in", "and", "or"):
            return True
        return self.dom(st, t) <= BOOL

    def cmp_sets(self, op, da, db):
        def lo(s):
            return s.iv[0][0]

        def hi(s):
            return s.iv[-1][1]

        if op == "Eq":
            return db, da
        if op == "Ne":
            sa = ~db if db.single() is not None else FULL
            sb = ~da if da.single() is not None else FULL
            return sa, sb
        big = ISet.rng
        LO_, HI_ = -(1 << 127), (1 << 128)
        if op == "Lt":
            return big(LO_, hi(db) - 1), big(lo(da) + 1, HI_)
        if op == "Le":
            return big(LO_, hi(db)), big(lo(da), HI_)
        if op == "Gt":
            return big(lo(db) + 1, HI_), big(LO_, hi(da) - 1)
        return big(lo(db), HI_), big(LO_, hi(da))

    # ------------------------------------------------------------ memory
    def fld(self, v, idx, name=None, ty=None):
        k = v[0]
        if k == "agg":
            if idx < len(v[3]):
                return v[3][idx]
        if k == "with":
            for a, b in v[2]:
                if a == (name or idx):
                    return b
            return self.fld(v[1], idx, name, ty)
        t = ("fld", v, name or idx)
        if ty:
            self.tyof.setdefault(t, ty)
        return t

    def set_fld(self, v, idx, name, x):
        k = v[0]
        if k == "agg" and idx < len(v[3]):
            fs = list(v[3])
            fs[idx] = x
            return ("agg", v[1], v[2], tuple(fs))
        key = name or idx
        if k == "with":
            rest = tuple((a, b) for a, b in v[2] if a != key)
            return ("with", v[1], rest + ((key, x),))
        return ("with", v, ((key, x),))

    def content(self, st, loc):
        if loc[0] == "L":
            v = st.env.get((loc[1], loc[2]))
            if v is None:
                v = ("sym", "undef", loc[1], loc[2])
            proj = loc[3]
        else:
            v = st.heap.get(loc[1])
            if v is None and loc[1][0] == "agg" and loc[1][1] != "alloc::boxed::Box":
                # a reference whose referent is known by value
                v = loc[1]
            elif v is None:
                v = ("mem", loc[1])
                ty = self.tyof.get(loc[1])
                if ty and ty.startswith("&"):
                    self.tyof.setdefault(v, ty.lstrip("&").removeprefix("mut ").strip())
            proj = loc[2]
        return self.project(st, v, proj)

    def project(self, st, v, proj):
        for p in proj:
            if p[0] == "f":
                v = self.fld(v, p[1], p[2])
            elif p[0] == "dc":
                if v[0] == "agg":
                    pass
                else:
                    v = ("dc", v, p[2])
            elif p[0] == "*":
                if v[0] == "ref":
                    v = self.content(st, v[1])
                elif v[0] == "agg" and v[1] == "alloc::boxed::Box":
                    v = v[3][0]
                else:
                    v = self.content(st, ("S", v, ()))
            else:
                v = ("elem", v, p)
        return v

    def store(self, st, loc, x):
        if loc[0] == "L":
            key = (loc[1], loc[2])
            base = st.env.get(key, ("sym", "undef", loc[1], loc[2]))
            st.env[key] = self.update(st, base, loc[3], x)
        else:
            base = st.heap.get(loc[1])
            if base is None:
                base = ("mem", loc[1])
            st.heap[loc[1]] = self.update(st, base, loc[2], x)
        if self.on_write:
            self.on_write(self, st, loc, x)

    def update(self, st, v, proj, x):
        if not proj:
            return x
        p = proj[0]
        if p[0] == "f":
            return self.set_fld(v, p[1], p[2], self.update(st, self.fld(v, p[1], p[2]), proj[1:], x))
        if p[0] == "dc":
            if v[0] == "agg":
                return self.update(st, v, proj[1:], x)
            inner = self.update(st, ("dc", v, p[2]), proj[1:], x)
            return inner
        # element write: the container becomes unknown, remembering nothing
        return st.fresh("elemwrite")

    def loc_of(self, st, fr, place):
        """Resolve a MIR place to an abstract location (root, projection without deref)."""
        loc = ("L", fr, place[0], ())
        for e in place[1:]:
            if e[0] == "*":
                v = self.content(st, loc)
                if v[0] == "ref":
                    loc = v[1]
                elif v[0] == "agg" and v[1] == "alloc::boxed::Box":
                    loc = self.ext_loc(loc, ("f", 0, "0"))
                else:
                    loc = ("S", v, ())
            elif e[0] == "f":
                loc = self.ext_loc(loc, ("f", e[1], e[2]))
            elif e[0] == "dc":
                loc = self.ext_loc(loc, ("dc", e[1], e[2]))
            elif e[0] == "i":
                idx = st.env.get((fr, e[1]), ("sym", "undef"))
                loc = self.ext_loc(loc, ("i", idx))
            else:
                loc = self.ext_loc(loc, tuple(e))
        return loc

    @staticmethod
    def ext_loc(loc, p):
        if loc[0] == "L":
            return ("L", loc[1], loc[2], loc[3] + (p,))
        return ("S", loc[1], loc[2] + (p,))

    def read(self, st, fr, place):
        if len(place) == 1:
            v = st.env.get((fr, place[0]))
            return v if v is not None else ("sym", "undef", fr, place[0])
        return self.content(st, self.loc_of(st, fr, place))

    def deref(self, st, v):
        """Follow references to the value itself."""
        n = 0
        while v[0] == "ref" and n < 8:
            v = self.content(st, v[1])
            n += 1
        return v

    # ------------------------------------------------------------ operands / rvalues
    def const(self, st, fn, x):
        ty = norm(x["ty"])
        if "promoted" in x:
            return self.promoted(st, fn, x["promoted"])
        if "fn" in x:
            return ("fn", Callee(x["fn"]))
        if "closure" in x:
            return ("agg", "closure:" + x["closure"], None, ())
        if "int" in x:
            return C(x["int"], ty)
        if "str" in x:
            return C(x["str"], "str")
        if "static" in x:
            return ("static", x["static"])
        if "bytes" in x:
            return ("c", "bytes", tuple(x["bytes"]))
        if "ptr_strs" in x:
            return ("c", "strs", tuple(x["ptr_strs"]))
        if "ptr_bytes" in x:
            return ("c", "bytes", tuple(x["ptr_bytes"]))
        if "mem" in x:
            b = bytes(x["mem"])
            a = self.prog.adts.get(strip_generics(ty))
            if a and a["kind"] == "enum" and all(not v["fields"] for v in a["variants"]) and len(b) <= 8:
                d = int.from_bytes(b, "little")
                v = self.variant_of(ty, d)
                if v:
                    return ("agg", strip_generics(ty), v, ())
            if ty.startswith("core::option::Option<") and ty.endswith("char>"):
                d = int.from_bytes(b, "little")
                return NONE if d == 0x110000 else some(C(d, "char"))
            return ("c", ty, b)
        if ty == "()" or x.get("zst"):
            if ty == "()":
                return UNIT
            return ("c", ty, "zst")
        if "name" in x:
            return ("const", norm(x["name"]))
        return ("sym", "const", ty)

    def promoted(self, st, fn, i):
        p = self.prog.promoted(fn, i)
        fr = ("prom", fn.id, i)
        # straight-line evaluation
        b = 0
        n = 0
        while n < 50:
            n += 1
            for s in p.stmts(b):
                if s["k"] == "=":
                    v = self.rvalue(st, p, fr, s["r"])
                    self.store_quiet(st, self.loc_of(st, fr, s["p"]), v)
            t = p.term(b)
            if t["k"] == "ret":
                return st.env.get((fr, 0), ("sym", "prom", fn.id, i))
            if t["k"] in ("goto", "drop", "assert"):
                b = t["to"]
                continue
            if t["k"] == "call" and t["to"] >= 0:
                args = [self.operand(st, p, fr, x) for x in t["args"]]
                self.store_quiet(st, self.loc_of(st, fr, t["d"]), ("call", p.callee(b).full, tuple(args), 0))
                b = t["to"]
                continue
            break
        return ("sym", "prom", fn.id, i)

    def store_quiet(self, st, loc, v):
        w, self.on_write = self.on_write, None
        try:
            self.store(st, loc, v)
        finally:
            self.on_write = w

    def operand(self, st, fn, fr, x):
        k = x["k"]
        if k in ("copy", "move"):
            return self.read(st, fr, x["p"])
        if k == "const":
            return self.const(st, fn, x)
        return ("sym", "operand")

    def binop(self, st, op, a, b, ty=None):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a[0] == "c" and b[0] == "c" and isinstance(a[2], int) and isinstance(b[2], int):
            x, y = a[2], b[2]
            r = None
            if base == "Add":
                r = x + y
            elif base == "Sub":
                r = x - y
            elif base == "Mul":
                r = x * y
            elif base == "Div" and y:
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif base == "Rem" and y:
                r = x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
            elif base == "BitAnd":
                r = x & y
            elif base == "BitOr":
                r = x | y
            elif base == "BitXor":
                r = x ^ y
            elif base == "Shl":
                r = x << y
            elif base == "Shr":
                r = x >> y
            elif base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                r = int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[base])
                return C(r, "bool")
            if r is not None:
                return C(r, a[1])
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            # fieldless enum compare via discriminant is done by eq(); keep the term
            if a[0] == "c" and b[0] != "c":
                a, b = b, a
                base = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(base, base)
            return ("op", base, a, b)
        if base in ("Add", "Sub"):
            if b[0] == "c" and b[2] == 0:
                return a
            if base == "Add" and a[0] == "c":
                a, b = b, a
                if b[2] == 0:
                    return a
            # (x + k1) + k2
            if b[0] == "c" and a[0] == "op" and a[1] in ("Add", "Sub") and a[3][0] == "c":
                k1 = a[3][2] if a[1] == "Add" else -a[3][2]
                k2 = b[2] if base == "Add" else -b[2]
                k = k1 + k2
                if k == 0:
                    return a[2]
                return ("op", "Add" if k > 0 else "Sub", a[2], C(abs(k), b[1]))
        if base in ("BitAnd", "BitOr") and b[0] == "c" and b[1] == "bool":
            if base == "BitAnd":
                return a if b[2] else FALSE
            return TRUE if b[2] else a
        return ("op", base, a, b)

    def rvalue(self, st, fn, fr, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fn, fr, r["x"])
        if k == "ref":
            p = r["p"]
            # reborrow: &*x with x a symbolic pointer gives x itself
            loc = self.loc_of(st, fr, p)
            if loc[0] == "S" and not loc[2]:
                return loc[1]
            return ("ref", loc)
        if k == "rawptr":
            loc = self.loc_of(st, fr, r["p"])
            if loc[0] == "S" and not loc[2]:
                return loc[1]
            return ("ref", loc)
        if k == "bin":
            v = self.binop(st, r["op"], self.operand(st, fn, fr, r["a"]), self.operand(st, fn, fr, r["b"]))
            if r["op"].endswith("WithOverflow"):
                return tup(v, ("sym", "ovf"))
            return v
        if k == "un":
            a = self.operand(st, fn, fr, r["a"])
            if r["op"] == "Not":
                if a[0] == "c" and a[1] == "bool":
                    return C(1 - a[2], "bool")
                if a[0] == "un" and a[1] == "Not":
                    return a[2]
                return ("un", "Not", a)
            if r["op"] == "Neg" and a[0] == "c" and isinstance(a[2], int):
                return C(-a[2], a[1])
            return ("un", r["op"], a)
        if k == "cast":
            a = self.operand(st, fn, fr, r["a"])
            to = norm(r["to"])
            if "Pointer" in r["ck"] or "Unsize" in r["ck"] or "Transmute" in r["ck"] or "PtrToPtr" in r["ck"]:
                return a
            if a[0] == "c" and isinstance(a[2], int):
                if to in INT_RANGE or to == "char":
                    v = a[2]
                    if to in INT_RANGE:
                        lo, hi = INT_RANGE[to]
                        if not lo <= v <= hi:
                            m = hi - lo + 1
                            v = (v - lo) % m + lo
                    return C(v, to)
            frm = norm(r["from"])
            self.tyof.setdefault(a, frm)
            t = ("cast", to, a)
            self.tyof.setdefault(t, to)
            return t
        if k == "discr":
            v = self.read(st, fr, r["p"])
            if v[0] == "agg" and v[2] is not None:
                d = self.discr(v[1], v[2])
                if d is not None:
                    return C(d, "discr")
            self.tyof.setdefault(v, norm(r["ty"]))
            return ("disc", v)
        if k == "agg":
            xs = tuple(self.operand(st, fn, fr, x) for x in r["xs"])
            ak = r["ak"]
            if ak == "adt":
                return ("agg", norm(r["adt"]), r["variant"] if r["enum"] else None, xs)
            if ak in ("closure", "coroutine"):
                return ("agg", ak + ":" + r["closure"], None, xs)
            return ("agg", ak, None, xs)
        if k == "repeat":
            return ("repeat", self.operand(st, fn, fr, r["x"]), r["n"])
        return ("sym", "rv", str(r)[:40])

    # ------------------------------------------------------------ execution
    def run(self, fn, args=None, st=None):
        """All abstract paths of fn from the given arguments."""
        st = st or State()
        if args is None:
            args = []
            for i in range(1, fn.argc + 1):
                a = ("sym", "arg", fn.lnames.get(i, i))
                self.tyof[a] = fn.locals[i]
                args.append(a)
        out = []
        for s, v, kind, where in self.call_fn(st, fn, args, 0):
            out.append(Path(kind, s, v, where))
        return out

    def call_fn(self, st, fn, args, depth):
        """Generator of (state, return value, kind, where)."""
        self.inlined.add(fn.id)
        st.nid += 1
        fr = (fn.id, st.nid)
        st.frames = st.frames + (fr,)
        for i, a in enumerate(args):
            st.env[(fr, i + 1)] = a
            if i + 1 < len(fn.locals):
                self.settype(a, fn.locals[i + 1])
        loops = fn.loops()
        order = {b: i for i, b in enumerate(fn.reach)}
        pend = {0: [st]}
        while pend:
            b = min(pend, key=order.__getitem__)
            states = pend.pop(b)
            if self.merging and len(states) > 1:
                states = self.join(states, fn, fr, b)
            for s in states:
                for s2, nb, kind, val in self.step(s, fn, fr, b, depth, loops):
                    if kind == "go":
                        pend.setdefault(nb, []).append(s2)
                    else:
                        s2.frames = s2.frames[:-1] if s2.frames and s2.frames[-1] == fr else s2.frames
                        if kind == "ret" and not self.escapes(val):
                            for k in [k for k in s2.env if k[0] == fr]:
                                del s2.env[k]
                        self.paths += 1 if depth == 0 else 0
                        if self.paths > self.max_paths:
                            raise TooBig(f"more than {self.max_paths} paths in {fn.path}")
                        yield s2, val, kind, (fn, b)

    def factkey(self, st):
        """Facts that must agree for two states to be joined."""
        return ()

    def join(self, states, fn=None, fr=None, b=None):
        groups = {}
        out = []
        for s in states:
            key = (frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.ext.items()), frozenset(s.visits.items()), s.frames, id(s.events) if s.events else 0, self.factkey(s))
            g = groups.get(key)
            if g is None:
                groups[key] = s
                out.append(s)
            else:
                g.facts = {t: a | s.facts[t] for t, a in g.facts.items() if t in s.facts}
                g.nid = max(g.nid, s.nid)
        return out

    def escapes(self, val):
        return True if val is None else self._has_ref(val, 0)

    def _has_ref(self, v, d):
        if not isinstance(v, tuple) or d > 12:
            return False
        if v and v[0] == "ref" and v[1][0] == "L":
            return True
        return any(self._has_ref(x, d + 1) for x in v if isinstance(x, tuple))

    def settype(self, v, ty):
        if v[0] not in ("c", "agg", "ref") and v not in self.tyof:
            self.tyof[v] = ty

    def step(self, st, fn, fr, b, depth, loops):
        """Execute block b; yields (state, next block, 'go'|'ret'|'panic'|'back', value)."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooBig(f"analysis of {fn.path} exceeds {self.max_steps} steps")
        if b in loops:
            key = (fr, b)
            n = st.visits.get(key, 0) + 1
            st.visits[key] = n
            # visits of inner loop heads restart with every round of the outer loop
            for h in loops:
                if h != b and h in loops[b] and (fr, h) in st.visits:
                    st.visits[(fr, h)] = 0
            if n == 1:
                st.visits[("u", key)] = self.unroll_for(st, fn, fr, loops[b])
            u = st.visits[("u", key)]
            if n == u + 1:
                self.widen(st, fn, fr, loops[b])
            elif n > u + 1:
                st.visits[key] = 0
                self.on_back(st, fn, fr, b)
                yield st, None, "back", (fn, b)
                return
        for s in fn.stmts(b):
            if s["k"] == "=":
                v = self.rvalue(st, fn, fr, s["r"])
                p = s["p"]
                if len(p) == 1:
                    self.settype(v, fn.locals[p[0]])
                    st.env[(fr, p[0])] = v
                else:
                    self.site = (fn, b, s["n"])
                    self.store(st, self.loc_of(st, fr, p), v)
            elif s["k"] == "dead":
                st.env.pop((fr, s["l"]), None)
            elif s["k"] == "setd":
                self.store(st, self.loc_of(st, fr, s["p"]), st.fresh("setd"))
        t = fn.term(b)
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            yield st, t["to"], "go", None
        elif k == "ret":
            yield st, None, "ret", st.env.get((fr, 0), UNIT)
        elif k == "switch":
            yield from self.switch(st, fn, fr, b, t)
        elif k == "call":
            yield from self.call(st, fn, fr, b, t, depth)
        elif k == "yield":
            v = self.operand(st, fn, fr, t["x"])
            st.note(("yield", v, fn, b, t["n"]))
            r = st.fresh("resume")
            self.store(st, self.loc_of(st, fr, t["ra"]), r)
            yield st, t["to"], "go", None
        # unreachable / resume / abort: path ends silently

    def switch(self, st, fn, fr, b, t):
        v = self.operand(st, fn, fr, t["x"])
        arms = t["arms"]
        if v[0] == "c" and isinstance(v[2], int):
            for val, to in arms:
                if val == v[2]:
                    yield st, to, "go", None
                    return
            yield st, t["else"], "go", None
            return
        if t["ty"] == "bool":
            # arms: [[0, F]] else T
            f = [to for val, to in arms if val == 0]
            for truth, to in ((True, t["else"]), (False, f[0] if f else t["else"])):
                for s in self.assume(st.copy(), v, truth):
                    if self.on_switch:
                        self.on_switch(self, s, fn, b, v, truth)
                    yield s, to, "go", None
            return
        self.settype(v, norm(t["ty"]))
        rest = FULL
        for val, to in arms:
            rest = rest - ISet.of(val)
            s = st.copy()
            if self.refine(s, v, ISet.of(val)):
                self.on_variant(s, v, val)
                if self.on_switch:
                    self.on_switch(self, s, fn, b, v, val)
                yield s, to, "go", None
        s = st.copy()
        if fn.term(t["else"])["k"] != "unreach" and self.refine(s, v, rest):
            if self.on_switch:
                self.on_switch(self, s, fn, b, v, None)
            yield s, t["else"], "go", None

    def on_variant(self, st, v, val):
        pass

    def widen(self, st, fn, fr, body):
        locs = []
        for b in body:
            for s in fn.stmts(b):
                if s["k"] == "=":
                    locs.append(s["p"])
                    if s["r"]["k"] in ("ref", "rawptr") and s["r"]["mut"]:
                        locs.append(s["r"]["p"])
            t = fn.term(b)
            if t["k"] == "call":
                locs.append(t["d"])
            elif t["k"] == "yield":
                locs.append(t["ra"])
        key = 0
        for p in locs:
            # locals first defined inside the loop are dead at its head; widening them is harmless
            root = [p[0]]
            for e in p[1:]:
                root.append(e)
                if e[0] == "*":
                    pass
            loc = self.trim(st, fr, p)
            old = self.content(st, loc)
            key += 1
            new = ("sym", "loop", fn.id, fr[1], tuple(sorted(body))[0], self.locname(loc))
            if old[0] == "sym" and old == new:
                continue
            ty = self.tyof.get(old)
            if loc[0] == "L" and not loc[3]:
                ty = fn.locals[loc[2]] if loc[1] == fr else ty
            if ty:
                self.tyof.setdefault(new, ty)
            if new in st.facts:
                del st.facts[new]
            self.store_quiet(st, loc, new)
        for t_ in [t_ for t_ in st.facts if self.mentions_loop(t_, fn.id, fr[1], tuple(sorted(body))[0])]:
            del st.facts[t_]
        if self.on_write:
            self.on_widen(st, fn, fr, body)

    def unroll_for(self, st, fn, fr, body):
        return self.unroll

    def on_back(self, st, fn, fr, head):
        pass

    def on_widen(self, st, fn, fr, body):
        pass

    def mentions_loop(self, t, fid, n, h):
        if not isinstance(t, tuple):
            return False
        if len(t) >= 5 and t[0] == "sym" and t[1] == "loop" and t[2] == fid and t[3] == n and t[4] == h:
            return True
        return any(self.mentions_loop(x, fid, n, h) for x in t if isinstance(x, tuple))

    def locname(self, loc):
        return loc[1:] if loc[0] == "L" else ("S",) + loc[1:]

    def trim(self, st, fr, p):
        """Location of p cut at the first element/variant projection."""
        out = [p[0]]
        for e in p[1:]:
            if e[0] in ("i", "ci", "sub", "dc"):
                break
            out.append(e)
        # a pointer local that is itself rewritten in the loop still denotes its entry value here
        return self.loc_of(st, fr, out)

    # ------------------------------------------------------------ calls
    def call(self, st, fn, fr, b, t, depth):
        callee = fn.callee(b)
        args = [self.operand(st, fn, fr, x) for x in t["args"]]
        site = (fn, b, t["n"])
        rty = fn.locals[t["d"][0]] if len(t["d"]) == 1 else None
        for s, v in self.do_call(st, callee, args, site, depth, rty):
            if v is None or (isinstance(v, tuple) and v and v[0] == "__back__"):
                kind = "panic" if v is None else "back"
                yield s, None, kind, (v[1] if v else None)
                continue
            if t["to"] < 0:
                s.note(("diverge", callee, tuple(args), site))
                yield s, None, "panic", None
                continue
            p = t["d"]
            if len(p) == 1:
                self.settype(v, fn.locals[p[0]])
                s.env[(fr, p[0])] = v
            else:
                self.store(s, self.loc_of(s, fr, p), v)
            yield s, t["to"], "go", None

    def do_call(self, st, callee, args, site, depth, rty=None):
        if callee.dyn is not None and "dyn" in callee.dyn:
            f = self.operand(st, site[0], st.frames[-1], callee.dyn["dyn"]) if st.frames else ("sym", "dyn")
            if f[0] == "fn":
                callee = f[1]
            elif f[0] == "agg" and f[1].startswith("closure:"):
                yield from self.call_closure(st, f, args, site, depth)
                return
        if "tracing" in callee.full and ("tracing_core::" in callee.full or "tracing::" in callee.full):
            # logging has no effect on results; the disabled branch is analysed
            yield st, (FALSE if rty == "bool" else st.fresh("tracing"))
            return
        if self.on_call:
            r = self.on_call(self, st, callee, args, site)
            if r is not None:
                yield from r
                return
        tgt = self.prog.target(callee)
        if tgt is not None and tgt.coroutine:
            tgt = None
        if tgt is not None and depth < self.depth and self.inline(tgt, callee) and sum(1 for f in st.frames if f[0] == tgt.id) < self.reclimit:
            yield from self.enter(st, tgt, args, depth)
            return
        if tgt is not None:
            self.opaque.add(tgt.id)
        r = self.std(st, callee, args, site, depth)
        if r is not None:
            yield from r
            return
        yield from self.unknown(st, callee, args, site, rty)

    def merge(self, results):
        """Join returning states that differ only in what is known about terms."""
        groups = {}
        out = []
        for s, v, kind, where in results:
            if kind != "ret":
                out.append((s, v, kind, where))
                continue
            key = (v, frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.ext.items()), id(s.events) if s.events else 0, self.factkey(s))
            g = groups.get(key)
            if g is None:
                groups[key] = s
                out.append((s, v, kind, where))
            else:
                f = {}
                for t, a in g.facts.items():
                    b = s.facts.get(t)
                    if b is not None:
                        f[t] = a | b
                g.facts = f
                g.nid = max(g.nid, s.nid)
        return out

    def enter(self, st, tgt, args, depth):
        res = self.call_fn(st, tgt, args, depth + 1)
        if self.merging:
            res = self.merge(list(res))
        for s, v, kind, where in res:
            if kind == "ret":
                yield s, v
            elif kind == "back":
                yield s, ("__back__", v)
            else:
                yield s, None

    def unknown(self, st, callee, args, site, rty=None):
        st.note(("call", callee, tuple(args), site))
        st.nid += 1
        v = ("call", callee.full, tuple(args), st.nid)
        if rty:
            self.tyof[v] = rty
        self.havoc_args(st, callee, args, site)
        return [(st, v)]

    def havoc_args(self, st, callee, args, site):
        fn, b, n = site
        t = fn.term(b)
        for i, a in enumerate(args):
            # the static type of the argument decides whether the callee may write through it
            ty = None
            if i < len(t.get("args", [])):
                x = t["args"][i]
                if x["k"] in ("copy", "move") and len(x["p"]) == 1:
                    ty = fn.locals[x["p"][0]]
            mutable = ty is None or "&mut" in ty
            if not mutable:
                continue
            if a[0] == "ref":
                self.store(st, a[1], st.fresh("havoc", callee.name))
            elif a[0] in ("sym", "fld", "mem", "call", "dc", "with") and ty and ty.startswith("&mut"):
                self.store(st, ("S", a, ()), st.fresh("havoc", callee.name))

    def call_closure(self, st, f, args, site, depth):
        f = self.deref(st, f)
        if f[0] == "fn":
            yield from self.do_call(st, f[1], args, site, depth)
            return
        if f[0] == "agg" and f[1].startswith("closure:"):
            fn = self.prog.fns.get(f[1][8:])
            if fn is not None and depth < self.depth:
                st.nid += 1
                # closure bodies take the environment by reference or by value
                envty = fn.locals[1] if fn.argc >= 1 else ""
                if envty.startswith("&"):
                    key = (("clo", st.nid), 0)
                    st.env[key] = f
                    env = ("ref", ("L", ("clo", st.nid), 0, ()))
                else:
                    env = f
                yield from self.enter(st, fn, [env] + list(args), depth)
                return
        st.note(("callclosure", f, tuple(args), site))
        yield st, st.fresh("closure")

    # ------------------------------------------------------------ library models
    def fork(self, st, v, adt, cases):
        """Split on the variant of v. cases: variant -> number of payload fields.
        Yields (state, variant, payload tuple)."""
        v = self.deref(st, v)
        if v[0] == "agg" and v[2] in cases:
            yield st, v[2], v[3]
            return
        d = ("disc", v)
        for name, n in cases.items():
            s = st.copy()
            if self.refine(s, d, ISet.of(self.discr(adt, name))):
                yield s, name, tuple(("fld", ("dc", v, name), i if False else "0") for i in range(n))

    def opt(self, st, v):
        return self.fork(st, v, "core::option::Option", {"Some": 1, "None": 0})

    def res(self, st, v):
        return self.fork(st, v, "core::result::Result", {"Ok": 1, "Err": 1})

    def eq(self, st, a, b, depth=0):
        """Bool term for structural equality."""
        a, b = self.deref(st, a), self.deref(st, b)
        if a == b and a[0] in ("c", "agg"):
            return TRUE
        if a[0] == "c" and b[0] == "c":
            return C(int(a[2] == b[2]), "bool")
        if a[0] == "agg" and b[0] == "agg":
            if a[2] != b[2]:
                return FALSE
            if len(a[3]) == len(b[3]):
                cs = [self.eq(st, x, y, depth + 1) for x, y in zip(a[3], b[3])]
                cs = [c for c in cs if c != TRUE]
                if any(c == FALSE for c in cs):
                    return FALSE
                if not cs:
                    return TRUE
                return cs[0] if len(cs) == 1 else ("and", tuple(cs))
        if b[0] != "agg" and a[0] == "agg":
            a, b = b, a
        if b[0] == "agg" and b[2] is not None:
            d = self.discr(b[1], b[2])
            if d is not None:
                cs = [("op", "Eq", ("disc", a), C(d, "discr"))]
                self.settype(a, b[1])
                for i, y in enumerate(b[3]):
                    cs.append(self.eq(st, ("fld", ("dc", a, b[2]), str(i)), y, depth + 1))
                return cs[0] if len(cs) == 1 else ("and", tuple(cs))
        if a[0] == "c" and b[0] != "c":
            a, b = b, a
        return ("op", "Eq", a, b)

    def std(self, st, c, args, site, depth):
        n = c.name
        p = c.path
        tr = c.trait or ""
        if n in ("discriminant_value", "discriminant") and p.startswith("core::"):
            v = self.deref(st, args[0])
            if v[0] == "agg" and v[2] is not None and self.discr(v[1], v[2]) is not None:
                return [(st, C(self.discr(v[1], v[2]), "discr"))]
            g = c.full[c.full.find("<") + 1 : -1] if "<" in c.full else ""
            if g:
                self.tyof.setdefault(v, g)
            return [(st, ("disc", v))]
        # ---- char predicates
        if "char" in p and (n in CHAR_PRED or n in ("is_alphabetic", "is_numeric", "is_alphanumeric", "is_uppercase", "is_lowercase")):
            if "methods::<impl char>" in p:
                v = self.deref(st, args[0])
                s = CHAR_PRED.get(n) or unicode_pred(n)
                self.settype(v, "char")
                if v[0] == "c":
                    return [(st, C(int(v[2] in s), "bool"))]
                return [(st, ("in", v, s))]
        if "num::<impl u8>" in p and n in CHAR_PRED and n.startswith("is_ascii"):
            v = self.deref(st, args[0])
            self.settype(v, "u8")
            if v[0] == "c":
                return [(st, C(int(v[2] in CHAR_PRED[n]), "bool"))]
            return [(st, ("in", v, CHAR_PRED[n] & ISet.rng(0, 255)))]
        if n == "len_utf8" and args:
            v = self.deref(st, args[0])
            if self.dom(st, v) <= ISet.rng(0, 127):
                return [(st, C(1, "usize"))]
            t = ("call", "len_utf8", (v,), 0)
            st.facts.setdefault(t, ISet.rng(1, 4))
            return [(st, t)]
        # ---- equality
        if tr.endswith("cmp::PartialEq") and n in ("eq", "ne") and len(args) == 2:
            e = self.eq(st, args[0], args[1])
            if n == "ne":
                e = C(1 - e[2], "bool") if e[0] == "c" else ("un", "Not", e)
            return [(st, e)]
        if tr.endswith("cmp::PartialOrd") and n in ("lt", "le", "gt", "ge") and len(args) == 2:
            a, b = self.deref(st, args[0]), self.deref(st, args[1])
            return [(st, self.binop(st, n.capitalize(), a, b))]
        # ---- identity-like conversions
        if (tr.endswith("clone::Clone") and n == "clone") or n in ("to_owned", "cloned", "copied") and not args[1:] and ("borrow" in tr or "option" in p):
            v = self.deref(st, args[0])
            return [(st, v)]
        if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str", "as_slice", "as_deref", "as_bytes_ref") and len(args) == 1:
            a = args[0]
            if n in ("as_ref", "as_mut") and "option::Option" in p:
                out = []
                for s, var, pl in self.opt(st, a):
                    out.append((s, NONE if var == "None" else some(pl[0])))
                return out
            if n == "as_deref":
                out = []
                for s, var, pl in self.opt(st, a):
                    out.append((s, NONE if var == "None" else some(pl[0])))
                return out
            if "boxed::Box<" in c.full and a[0] == "ref":
                b = self.content(st, a[1])
                while b[0] == "ref":
                    a, b = b, self.content(st, b[1])
                if b[0] == "agg" and b[1] == "alloc::boxed::Box":
                    return [(st, ("ref", self.ext_loc(a[1], ("f", 0, "0"))))]
            return [(st, a)]
        if n in ("into", "from", "into_iter", "to_string", "to_owned", "into_string", "into_boxed_str", "by_ref") and len(args) == 1 and self.transparent(c):
            return [(st, self.deref(st, args[0]) if n in ("to_string", "to_owned") else args[0])]
        if n == "new" and "boxed::Box" in p:
            return [(st, ("agg", "alloc::boxed::Box", None, (args[0],)))]
        # ---- ? operator
        if tr.endswith("try_trait::Try") and n == "branch":
            CF = "core::ops::control_flow::ControlFlow"
            out = []
            if "option::Option" in c.full.split(" as ")[0]:
                for s, var, pl in self.opt(st, args[0]):
                    out.append((s, ("agg", CF, "Continue", pl) if var == "Some" else ("agg", CF, "Break", (NONE,))))
            else:
                for s, var, pl in self.res(st, args[0]):
                    out.append((s, ("agg", CF, "Continue", pl) if var == "Ok" else ("agg", CF, "Break", (err(pl[0]),))))
            return out
        if n == "from_residual":
            v = args[0]
            return [(st, v)]
        # ---- Option / Result
        isopt = p.startswith("core::option::Option") or "option::Option::<" in p
        isres = p.startswith("core::result::Result")
        if isopt or isres:
            r = self.optres(st, n, isopt, args, site, depth)
            if r is not None:
                return r
        # ---- closures
        if n in ("call", "call_mut", "call_once") and "ops::function" in p:
            a = args[1] if len(args) > 1 else UNIT
            a = list(a[3]) if a[0] == "agg" else [a]
            return list(self.call_closure(st, args[0], a, site, depth))
        if n == "replace" and p.startswith("core::mem") or n == "take" and p.startswith("core::mem"):
            if args[0][0] == "ref":
                old = self.content(st, args[0][1])
                new = args[1] if n == "replace" else st.fresh("default")
                self.store(st, args[0][1], new)
                return [(st, old)]
            old = self.content(st, ("S", args[0], ()))
            self.store(st, ("S", args[0], ()), args[1] if n == "replace" else st.fresh("default"))
            return [(st, old)]
        if c.ctor:
            # tuple-struct / variant constructor used as a function
            parts = p.rsplit("::", 2)
            a = self.prog.adts.get(parts[0] + "::" + parts[1]) if len(parts) == 3 else None
            if a and a["kind"] == "enum":
                return [(st, ("agg", norm(a["path"]), parts[2], tuple(args)))]
            return [(st, ("agg", p, None, tuple(args)))]
        if p.startswith("core::panicking") or n in ("panic_fmt", "begin_panic", "unwrap_failed", "expect_failed"):
            st.note(("panic", c, tuple(args), site))
            return [(st, None)]
        return None

    def transparent(self, c):
        f = c.full
        if c.name in ("into_iter", "by_ref"):
            return True
        if c.name == "to_string":
            return "str as" in f or "String as" in f or "Cow" in f or "char as" in f
        if c.name in ("to_owned", "into_boxed_str", "into_string"):
            return True
        if c.name in ("into", "from"):
            return any(x in f for x in ("String as core::convert::From<&", "Cow", "as core::convert::Into<alloc::string::String>",
                                        "T as core::convert::From<T>", "usize as core::convert::From", "u32 as core::convert::From<char>",
                                        "u64 as core::convert::From", "u32 as core::convert::From", "i64 as core::convert::From"))
        return False

    def optres(self, st, n, isopt, args, site, depth):
        good, bad = ("Some", "None") if isopt else ("Ok", "Err")
        split = self.opt if isopt else self.res
        mkgood = some if isopt else ok

        def mkbad(pl):
            return NONE if isopt else err(pl[0])

        if n in ("is_some", "is_none", "is_ok", "is_err"):
            v = self.deref(st, args[0])
            want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[n]
            if v[0] == "agg":
                return [(st, C(int(v[2] == want), "bool"))]
            d = self.discr(None, want) if False else {"Some": 1, "None": 0, "Ok": 0, "Err": 1}[want]
            self.settype(v, "core::option::Option" if isopt else "core::result::Result")
            return [(st, ("op", "Eq", ("disc", v), C(d, "discr")))]
        if n in ("unwrap", "expect"):
            out = []
            for s, var, pl in split(st, args[0]):
                if var == good:
                    out.append((s, pl[0]))
                else:
                    s.note(("panic", None, tuple(args), site))
                    out.append((s, None))
            return out
        if n in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            out = []
            for s, var, pl in split(st, args[0]):
                if var == good:
                    out.append((s, pl[0]))
                elif n == "unwrap_or":
                    out.append((s, args[1]))
                elif n == "unwrap_or_default":
                    out.append((s, ("call", "default", (), 0)))
                else:
                    out += list(self.call_closure(s, args[1], list(pl) if not isopt else [], site, depth))
            return out
        if n in ("map", "and_then", "map_err", "ok_or", "ok_or_else", "ok", "err", "is_some_and", "is_ok_and", "is_none_or", "map_or", "map_or_else", "or", "or_else", "filter", "copied", "cloned", "take", "inspect", "flatten"):
            if n == "take":
                a = args[0]
                loc = a[1] if a[0] == "ref" else ("S", a, ())
                old = self.content(st, loc)
                self.store(st, loc, NONE)
                return [(st, old)]
            out = []
            for s, var, pl in split(st, args[0]):
                g = var == good
                if n in ("copied", "cloned"):
                    out.append((s, mkgood(self.deref(s, pl[0])) if g else mkbad(pl)))
                elif n == "map":
                    if g:
                        out += [(z, mkgood(v) if self.real(v) else v) for z, v in self.call_closure(s, args[1], [pl[0]], site, depth)]
                    else:
                        out.append((s, mkbad(pl)))
                elif n == "map_err":
                    if g:
                        out.append((s, ok(pl[0])))
                    else:
                        out += [(z, err(v) if self.real(v) else v) for z, v in self.call_closure(s, args[1], [pl[0]], site, depth)]
                elif n == "and_then":
                    if g:
                        out += list(self.call_closure(s, args[1], [pl[0]], site, depth))
                    else:
                        out.append((s, mkbad(pl)))
                elif n == "ok_or":
                    out.append((s, ok(pl[0]) if g else err(args[1])))
                elif n == "ok_or_else":
                    if g:
                        out.append((s, ok(pl[0])))
                    else:
                        out += [(z, err(v) if self.real(v) else v) for z, v in self.call_closure(s, args[1], [], site, depth)]
                elif n == "ok":
                    out.append((s, some(pl[0]) if g else NONE))
                elif n == "err":
                    out.append((s, NONE if g else some(pl[0])))
                elif n in ("is_some_and", "is_ok_and"):
                    if g:
                        out += list(self.call_closure(s, args[1], [pl[0]], site, depth))
                    else:
                        out.append((s, FALSE))
                elif n == "is_none_or":
                    if g:
                        out += list(self.call_closure(s, args[1], [pl[0]], site, depth))
                    else:
                        out.append((s, TRUE))
                elif n == "map_or":
                    if g:
                        out += list(self.call_closure(s, args[2], [pl[0]], site, depth))
                    else:
                        out.append((s, args[1]))
                elif n == "map_or_else":
                    if g:
                        out += list(self.call_closure(s, args[2], [pl[0]], site, depth))
                    else:
                        out += list(self.call_closure(s, args[1], list(pl), site, depth))
                elif n == "or":
                    out.append((s, mkgood(pl[0]) if g else args[1]))
                elif n == "or_else":
                    if g:
                        out.append((s, mkgood(pl[0])))
                    else:
                        out += list(self.call_closure(s, args[1], list(pl), site, depth))
                elif n == "filter":
                    if not g:
                        out.append((s, NONE))
                    else:
                        s.nid += 1
                        key = (("tmp", s.nid), 0)
                        s.env[key] = pl[0]
                        for z, v in self.call_closure(s, args[1], [("ref", ("L", key[0], 0, ()))], site, depth):
                            if not self.real(v):
                                out.append((z, v))
                                continue
                            for z2 in self.assume(z.copy(), v, True):
                                out.append((z2, some(pl[0])))
                            for z2 in self.assume(z, v, False):
                                out.append((z2, NONE))
                elif n == "inspect":
                    out.append((s, mkgood(pl[0]) if g else mkbad(pl)))
                elif n == "flatten":
                    out.append((s, pl[0] if g else mkbad(pl)))
            return out
        return None

    @staticmethod
    def real(v):
        return v is not None and not (isinstance(v, tuple) and v and v[0] == "__back__")
