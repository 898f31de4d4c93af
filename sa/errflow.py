"""What becomes of an error value inside one function.

Starting at a call whose result is assumed to be an error (a `Result` that is `Err`, an event, lexeme or token of the error kind),
every control-flow path is followed with the set of locals that hold the error or something computed from it. Switches on the
discriminant of such a local take only the edge of the assumed variant. A path is fine once the error is handed to somebody (a call
that is not a mere projection, a panic, the end of the process) or is part of the returned value. Everything else loses it.
"""
import re

from .mir import norm, strip_generics

# calls that keep the assumed variants of their first argument
SAME = {
    "map", "and_then", "inspect", "inspect_err", "as_ref", "as_mut", "as_deref", "as_deref_mut", "copied", "cloned", "clone", "map_err", "into_iter", "iter", "into", "from", "to_owned", "deref", "deref_mut", "borrow",
    "into_result", "transpose", "as_slice", "unwrap_unchecked", "flatten", "boxed", "by_ref", "from_residual", "into_future", "new_unchecked", "get_context", "poll", "from_output",
}
# pure calls: what they return is computed from their arguments
PURE = {"to_string", "format", "new", "new_const", "new_v1", "new_display", "new_debug", "from_usize", "len", "is_empty", "as_str", "as_bytes", "borrow", "span", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "must_use", "width", "kind", "source", "start", "end", "into_owned", "from_str_nonconst", "none", "to_string_lossy", "display", "into_boxed_str", "min", "max", "message", "id"}
PRINT = ("std::io::stdio::_print", "std::io::stdio::_eprint", "std::process::exit", "std::process::abort")
LOG = re.compile(r"^<?(tracing|log|tracing_core)\b|tracing::|::__macro_support|callsite|LevelFilter|FieldSet|ValueSet")


def adt_last(p):
    return strip_generics(p or "").rsplit("::", 1)[-1]


class Lost:
    def __init__(self, fn, line, why):
        self.fn, self.line, self.why = fn, line, why


class Flow:
    """`mode`: {adt short name: variant} assumed for the tracked value."""

    def __init__(self, prog, logs_count=False, seed=None, consume=None, look=None, taken=None, keep=None, want=None, sink=None, limit=20000, field_sink=None, made=None):
        self.made = made  # (fn, aggregate) -> bool: building this value reports the error
        self.prog = prog
        self.logs = logs_count
        self.keep = keep  # extra (callee) -> None | "handled" | "same" | "pure" | "drop" | dict(new mode)
        self.want = want  # (fn, return rvalue) -> bool: what a returned value must be
        self.limit = limit
        self.default = "handled"  # what a call of an unknown function does with the error
        self.stores = True  # storing the error behind a reference reports it
        self.seed = seed  # (fn, place) -> mode of a place that holds an error from the start, or None
        self.look, self.taken = look, taken
        self.consume = consume  # callee -> bool: this call takes out what was only looked at before
        self.field_sink = field_sink
        self.stop = ()  # blocks at which a path is fine

    # ---- one function
    def track(self, f, starts, mode, flags=()):
        """starts: [(block to start in, local, place projection)]; returns (None if every path is fine, else a Lost)"""
        self.steps = 0
        self.answers = set()  # what a predicate answers
        seen = set()
        work = []
        for b, l in starts:
            work.append((b, frozenset([(l, tuple(sorted(mode.items())))] if l is not None else []), frozenset(flags), ""))
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            self.steps += 1
            if self.steps > self.limit:
                return Lost(f, f.line, "not decided: too many paths")
            b, tr, consts, ret = st
            if b in self.stop:
                continue
            r = self.block(f, b, dict(tr), dict(consts), ret)
            if r is None:
                continue
            if isinstance(r, Lost):
                return r
            for nb, t2, c2, rr in r:
                work.append((nb, frozenset(t2.items()), frozenset(c2.items()), rr))
        if any(not because for a, because in self.answers) and len({a for a, because in self.answers}) > 1:
            return Lost(f, f.line, "answers both true and false")
        return None

    def modes(self, m):
        return dict(m)

    def place_info(self, f, p, tr):
        """mode of the tracked root of a place, or None; pruned paths give 'no'"""
        if p[0] not in tr:
            return None
        m = dict(tr[p[0]])
        for e in p[1:]:
            if e[0] == "dc":
                # downcast of some enum to variant e[2]: feasible only if compatible
                pass
        return m

    def infeasible(self, f, p, tr):
        if p[0] not in tr:
            return False
        m = dict(tr[p[0]])
        for i, e in enumerate(p[1:], 1):
            if e[0] == "dc":
                for a, v in m.items():
                    if e[2] in VARIANTS.get(a, ()) and e[2] != v:
                        return True
        return False

    def block(self, f, b, tr, consts, ret):
        for s in f.stmts(b):
            k = s["k"]
            if k == "dead":
                tr.pop(s["l"], None)
                consts.pop(s["l"], None)
                continue
            if k != "=":
                continue
            p, r = s["p"], s["r"]
            l = p[0]
            if self.made and r["k"] == "agg" and r["ak"] == "adt" and self.made(f, r):
                return None
            src, const, infeasible = self.rvalue(f, r, tr, consts)
            if infeasible:
                return None
            whole = len(p) == 1
            if whole and const is not None:
                consts[l] = const
            elif whole:
                consts.pop(l, None)
            if src is not None:
                if len(p) > 1 and self.field_sink and self.field_sink(f, p):
                    return None
                if not whole and any(e == "*" or e[0] == "*" for e in p[1:]):
                    # stored behind a reference: somebody else can see it
                    if self.stores:
                        return None
                    continue
                if not whole and l in tr:
                    pass
                else:
                    tr[l] = tuple(sorted(src.items()))
            elif whole and r["k"] == "use" and r["x"]["k"] == "const" and f.locals[l] in SCALARS and self.because(f, b, consts):
                # a flag or counter set because of the error
                tr[l] = ()
            elif r["k"] == "bin" and f.locals[l] in SCALARS and self.because(f, b, consts):
                tr[l] = ()
            elif whole and l in tr and r["k"] != "discr":
                tr.pop(l, None)
            if l == 0 and whole:
                ret = self.ret_kind(f, r, src, const)
                if r["k"] == "agg" and r.get("variant") == "None" and self.because(f, b, consts):
                    ret = "fail"
        t = f.term(b)
        k = t["k"]
        if k in ("goto", "drop", "assert", "yield"):
            if t.get("to", -1) < 0:
                return None
            return self.edge(f, b, t["to"], tr, consts, ret)
        if k == "ret":
            return self.at_ret(f, b, tr, consts, ret)
        if k == "switch":
            return self.switch(f, b, t, tr, consts, ret)
        if k == "call":
            return self.call(f, b, t, tr, consts, ret)
        return None  # unreachable, resume: not a normal end

    def edge(self, f, b, to, tr, consts, ret):
        return [(to, tr, consts, ret)]

    def at_ret(self, f, b, tr, consts, ret):
        if consts.get("looking") == 1:
            return None
        if self.want is not None:
            return None if self.want(f, ret, tr) else Lost(f, f.term(b).get("n", f.line), "returns normally")
        if 0 in tr or ret == "fail":
            if f.locals[0] == "bool" and ret in ("=0", "=1"):
                self.answers.add((ret, True))
            return None
        if f.locals[0] == "bool" and ret in ("=0", "=1"):
            # a predicate: the answer for an error must not be the answer for everything
            other = [d for d in f.defs().get(0, []) if d[1] == -1 or d[3]["k"] != "use" or d[3]["x"].get("int") != int(ret[1])]
            if other:
                self.answers.add((ret, False))
                return None
        # handed out through a parameter that points to it
        return Lost(f, f.term(b).get("n", f.line), "returns normally")

    def ret_kind(self, f, r, src, const):
        if r["k"] == "agg" and r["ak"] == "adt":
            v = r.get("variant")
            if v in ("Err", "Break"):
                return "fail"
            if adt_last(r["adt"]) in ("Lexeme",) and v == "Error":
                return "Error"
            return "agg:" + str(v)
        if const is not None:
            return f"={const}"
        return ""

    def opmode(self, x, tr):
        if x["k"] == "const":
            return None
        return dict(tr[x["p"][0]]) if x["p"][0] in tr else None

    def rvalue(self, f, r, tr, consts):
        """(mode or None, constant or None, infeasible)"""
        k = r["k"]
        if k in ("use", "cast"):
            x = r.get("x") or r.get("a")
            if x["k"] == "const":
                return None, x.get("int"), False
            if self.infeasible(f, x["p"], tr):
                return None, None, True
            m = self.opmode(x, tr)
            if self.seed and (m is None or "nest" not in m):
                sm = self.seed(f, x["p"])
                if sm is not None:
                    return (sm, None, False) if "flag" not in sm else ({}, 1, False)
            if m is not None and len(x["p"]) > 1:
                m = self.project(m, x["p"])
            if m is not None and "flag" in m and f.locals[x["p"][0]].startswith("&") and len(x["p"]) == 2 and x["p"][1][0] == "*":
                return {}, 1, False
            c = consts.get(x["p"][0]) if len(x["p"]) == 1 else None
            return m, c, False
        if k == "ref":
            if self.infeasible(f, r["p"], tr):
                return None, None, True
            m = dict(tr[r["p"][0]]) if r["p"][0] in tr else None
            if self.seed and (m is None or "nest" not in m):
                sm = self.seed(f, r["p"])
                if sm is not None:
                    return sm, None, False
            if m is not None and len(r["p"]) > 1:
                m = self.project(m, r["p"])
            return m, None, False
        if k == "discr":
            l = r["p"][0]
            sm = self.seed(f, r["p"]) if self.seed and (l not in tr or "nest" not in dict(tr[l])) else None
            if l in tr or sm:
                m = sm or dict(tr[l])
                a = adt_last(r.get("adt"))
                if a in m:
                    for n, v in (r.get("vars") or {}).items():
                        if v == m[a]:
                            return None, int(n), False
                    return None, None, True
                # a discriminant of something inside: any value
                return None, None, False
            return None, None, False
        if k == "bin":
            ms = [self.opmode(x, tr) for x in (r["a"], r["b"])]
            if any(m is not None for m in ms):
                if any(m is not None and "len" in m for m in ms):
                    i = 0 if ms[0] is not None else 1
                    y = (r["b"], r["a"])[i]
                    op = r["op"] if i == 0 else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(r["op"], r["op"])
                    v = y.get("int") if y["k"] == "const" else consts.get(y["p"][0])
                    res = {("Eq", 0): 0, ("Ne", 0): 1, ("Gt", 0): 1, ("Ge", 1): 1, ("Lt", 1): 0, ("Le", 0): 0}.get((op, v))
                    return {}, res, False
                return {}, None, False
            cs = [x.get("int") if x["k"] == "const" else consts.get(x["p"][0]) if len(x["p"]) == 1 else None for x in (r["a"], r["b"])]
            if None not in cs:
                op = r["op"]
                if op in ("Eq", "Ne"):
                    return None, int((cs[0] == cs[1]) == (op == "Eq")), False
            return None, None, False
        if k == "un":
            x = r.get("a") or r.get("x")
            m = self.opmode(x, tr)
            c = consts.get(x["p"][0]) if x["k"] != "const" and len(x["p"]) == 1 else None
            if r.get("op") == "Not" and c in (0, 1) and f.locals[x["p"][0]] == "bool":
                return m, 1 - c, False
            return m, None, False
        if k == "agg":
            for x in r["xs"]:
                if x["k"] != "const" and self.infeasible(f, x["p"], tr):
                    return None, None, True
            got = [m for m in (self.opmode(x, tr) for x in r["xs"]) if m is not None]
            if got:
                if r["ak"] == "adt" and r.get("variant") in ("Some", "Ok", "Err", "Ready") and len(got) == 1:
                    m = dict(got[0])
                    m[adt_last(r["adt"])] = r["variant"]
                    return m, None, False
                return {}, None, False
            return None, None, False
        if k == "len":
            return None, None, False
        ops = [x for x in (r.get("x"), r.get("a"), r.get("b")) if isinstance(x, dict)]
        if any(self.opmode(x, tr) is not None for x in ops if "k" in x):
            return {}, None, False
        return None, None, False

    def project(self, m, p):
        """the mode of a part of a tracked value"""
        m = dict(m)
        for e in p[1:]:
            if e[0] == "dc":
                for a in list(m):
                    if m[a] == e[2]:
                        del m[a]
        return m

    def switch(self, f, b, t, tr, consts, ret):
        x = t["x"]
        if x["k"] != "const" and len(x["p"]) == 1 and x["p"][0] in consts:
            v = consts[x["p"][0]]
            for n, to in t["arms"]:
                if n == v:
                    return self.ctl(f, b, to, tr, consts, ret)
            return self.ctl(f, b, t["else"], tr, consts, ret)
        if x["k"] != "const" and len(x["p"]) > 1 and f_bool(f, x["p"]):
            m = self.seed(f, x["p"]) if self.seed else None
            if m is None and len(x["p"]) == 2 and x["p"][0] in tr:
                m = dict(tr[x["p"][0]])
            if m is not None and "flag" in m:
                for n, to in t["arms"]:
                    if n == 1:
                        return self.ctl(f, b, to, tr, consts, ret)
                return self.ctl(f, b, t["else"], tr, consts, ret)
        out = []
        for to in f.succ(b):
            r = self.edge(f, b, to, dict(tr), dict(consts), ret)
            if isinstance(r, Lost):
                return r
            out += r
        return out

    def ctl(self, f, b, to, tr, consts, ret):
        """an edge taken because of the error: what is decided in the blocks it alone leads to depends on the error"""
        if len(f.preds[to]) == 1:
            consts = {**consts, "ctl": to}
        return self.edge(f, b, to, tr, consts, ret)

    def because(self, f, b, consts):
        return "ctl" in consts and f.dominates(consts["ctl"], b)

    def call(self, f, b, t, tr, consts, ret):
        c = f.callee(b)
        to = t.get("to", -1)
        d = t["d"]
        for x in t["args"]:
            if x["k"] != "const" and self.infeasible(f, x["p"], tr):
                return None
        args = [(i, self.opmode(x, tr)) for i, x in enumerate(t["args"])]
        hit = [(i, m) for i, m in args if m is not None]
        if to is None or to < 0:
            return None  # does not come back: the process ends or panics
        full = strip_generics(c.path)
        if any(full.endswith(p.rsplit("::", 1)[-1]) and p.split("::")[0] in c.path for p in PRINT):
            if hit or self.because(f, b, consts):
                return None
        newmode = None
        const = None
        moved = [t["args"][i]["p"][0] for i, m in hit if t["args"][i]["k"] == "move" and len(t["args"][i]["p"]) == 1]
        if hit:
            v = self.verdict(f, b, t, c, hit)
            if v == "handled":
                return None
            if isinstance(v, dict) and "*once" in v:
                # the first element holds the error; a loop may end after it
                v = {k: x for k, x in v.items() if k != "*once"}
                if consts.get("it") == b:
                    v = None
                consts["it"] = b
            if isinstance(v, dict):
                newmode = v
            elif isinstance(v, tuple) and v[0] == "into":
                tr[v[1]] = ()
            elif isinstance(v, tuple):
                newmode, const = v
        for l in moved:
            if l in tr and l != d[0]:
                tr.pop(l, None)
        if self.consume and consts.get("looking") == 1 and self.consume(c):
            consts["looking"] = 0
            if len(d) == 1:
                newmode = self.taken
        elif self.look and consts.get("looking") == 1 and self.look(c):
            newmode = self.taken
        if len(d) == 1:
            consts.pop(d[0], None)
            tr.pop(d[0], None)
            if const is not None:
                consts[d[0]] = const
            if newmode is not None:
                tr[d[0]] = tuple(sorted(newmode.items()))
            if d[0] == 0:
                ret = "fail" if c.name == "from_residual" and hit else ""
        elif newmode is not None and self.stores:
            return None
        return self.edge(f, b, to, tr, consts, ret)

    def verdict(self, f, b, t, c, hit):
        n = c.name
        m = dict(hit[0][1])
        if "coll" in m and hit[0][0] == 0:
            if n == "is_empty":
                return {}, 0
            if n == "len":
                return {"len": "pos"}
            if n in ("next", "next_back"):
                return {**{k: v for k, v in m.items() if k != "coll"}, "Option": "Some", "*once": "1"}
            if n in ("first", "last", "get", "pop", "pop_front", "pop_back", "peek", "next_back", "first_mut", "split_first", "find", "min_by_key", "max_by_key", "reduce"):
                return {**{k: v for k, v in m.items() if k != "coll"}, "Option": "Some"}
            if n in ("iter", "into_iter", "drain", "deref", "as_slice", "iter_mut", "clone", "as_ref", "map", "by_ref", "enumerate", "cloned", "copied", "rev", "peekable", "take", "replace", "borrow"):
                return m
            if n in ("filter_map", "flat_map", "chain", "zip"):
                return {"coll": "full"}
            if n in ("skip", "filter", "skip_while", "take_while", "step_by"):
                return {}
            if n == "any":
                return {}
        if n in ADD and hit[0][0] > 0:
            r = self.receiver(f, t["args"][0])
            if r is not None:
                return ("into", r)
        if self.keep:
            v = self.keep(f, b, t, c, hit)
            if v is not None:
                return v if v != "drop" else None
        if LOG.search(c.path) and not self.logs:
            return {} if n not in ("dispatch", "log") else None
        head = strip_generics(c.path)
        isres = "Result" in head or "Option" in head or "ControlFlow" in head or "ops::try_trait" in c.path
        if n == "drop" and "mem" in c.path or n in ("forget",):
            return None
        if isres or "try_trait" in c.path:
            if n in ("unwrap", "expect", "unwrap_err", "expect_err"):
                if m.get("Result") == "Err" or m.get("Option") == "None":
                    return None if n.endswith("err") and False else "handled"
                return self.peel(m, n)
            if n == "ok":
                return {"Option": "None"} if m.get("Result") == "Err" else self.swap(m, "Result", "Ok", "Option", "Some")
            if n == "err":
                return {"Option": "Some"} if m.get("Result") == "Err" else {"Option": "None"}
            if n in ("is_err", "is_ok", "is_some", "is_none"):
                bad = {"is_err": m.get("Result") == "Err", "is_ok": m.get("Result") != "Err", "is_some": m.get("Option") != "None", "is_none": m.get("Option") == "None"}[n]
                return {}, int(bad)
            if n in ("is_some_and", "is_ok_and"):
                return ({}, 0) if m.get("Result") == "Err" or m.get("Option") == "None" else {}
            if n in ("is_none_or", "is_err_and"):
                return {}
            if n == "branch":
                failing = m.get("Result") == "Err" or m.get("Option") == "None"
                m2 = {k: v for k, v in m.items() if k not in ("Result", "Option")}
                m2["ControlFlow"] = "Break" if failing else "Continue"
                if failing:
                    m2["Result" if m.get("Result") else "Option"] = m.get("Result") or m.get("Option")
                else:
                    # what comes out is the payload
                    m2.update({k: v for k, v in m.items() if k == "Option" and m.get("Result") == "Ok"})
                return m2
            if n == "from_residual":
                return m
            if n in ("ok_or", "ok_or_else"):
                return {"Result": "Err"} if m.get("Option") == "None" else self.swap(m, "Option", "Some", "Result", "Ok")
            if n in ("unwrap_or", "unwrap_or_default", "or", "or_else", "xor", "unwrap_or_else", "map_or", "map_or_else", "zip", "filter", "and"):
                failing = m.get("Result") == "Err" or m.get("Option") == "None"
                if hit[0][0] != 0:
                    return m
                if not failing:
                    if n == "filter" and not self.filter_ok(f, b, t):
                        return {}
                    if n in ("map_or", "map_or_else"):
                        return "handled"
                    return self.peel(m, n) if n.startswith("unwrap") else m
                if n == "and":
                    return m
                if n in ("unwrap_or_else", "or_else", "map_or_else"):
                    g = self.closure(f, b, t, 1)
                    if g is not None and self.handles(g, n == "or_else"):
                        return "handled"
                    if g is not None and any(c2.name == "default" for b2, t2, c2 in g.calls()):
                        return None
                    if n == "unwrap_or_else" and g is not None and self.keeps_input(f, t, g):
                        # the text that could not be read is used as it stands
                        return "handled"
                return None
            if n in ("inspect_err", "map_err"):
                g = self.closure(f, b, t, 1)
                return m
            if n in SAME:
                return m
        if n in SAME or n in ("index", "next", "next_back", "first", "last", "get"):
            return m
        if n in PURE or n == "fmt":
            if n in ("eq", "ne"):
                return self.compare(f, b, t, hit)
            return {}
        return self.default

    def receiver(self, f, x, depth=0):
        """the owned local collection a `&mut` argument points to, or None"""
        if x["k"] == "const" or depth > 5 or len(x["p"]) > 1:
            return None
        ds = [d for d in f.defs().get(x["p"][0], []) if not d[2]]
        if len(ds) != 1 or ds[0][1] == -1:
            return None
        r = ds[0][3]
        if r["k"] == "ref":
            if len(r["p"]) == 1 and r["p"][0] > f.argc:
                return r["p"][0]
            if len(r["p"]) == 2 and r["p"][1][0] == "*":
                return self.receiver(f, {"k": "copy", "p": r["p"][:1]}, depth + 1)
            return None
        if r["k"] == "use":
            return self.receiver(f, r["x"], depth + 1)
        return None

    def peel(self, m, n):
        m = dict(m)
        if m.get("Result") == "Ok":
            m.pop("Result")
        elif m.get("Option") == "Some":
            m.pop("Option")
        return m

    def swap(self, m, a, va, b, vb):
        m = dict(m)
        m.pop(a, None)
        m[b] = vb
        return m

    def compare(self, f, b, t, hit):
        """a comparison of the assumed enum with a constant variant"""
        c = f.callee(b)
        mm = dict(hit[0][1])
        other = [x for i, x in enumerate(t["args"]) if i != hit[0][0]]
        a = next((k for k in mm if k in c.full), None)
        if a is None or not other:
            return {}
        v = self.variant(f, other[0])
        if v is None:
            return {}
        return {}, int((v == mm[a]) == (c.name == "eq"))

    def variant(self, f, x, depth=0):
        """the variant name of an operand that is (a reference to) a constant enum value"""
        if depth > 6:
            return None
        if x["k"] == "const":
            if "promoted" in x:
                g = self.prog.promoted(f, x["promoted"])
                for b in g.reach:
                    for s in g.stmts(b):
                        if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "adt":
                            return s["r"].get("variant")
            return None
        ds = [d for d in f.defs().get(x["p"][0], []) if not d[2]]
        if len(ds) != 1 or ds[0][1] == -1:
            return None
        r = ds[0][3]
        if r["k"] == "agg" and r["ak"] == "adt":
            return r.get("variant")
        if r["k"] in ("use", "cast"):
            return self.variant(f, r.get("x") or r.get("a"), depth + 1)
        if r["k"] == "ref":
            return self.variant(f, {"k": "copy", "p": r["p"][:1]}, depth + 1)
        return None

    def closure(self, f, b, t, i):
        if i >= len(t["args"]):
            return None
        x = t["args"][i]
        if x["k"] == "const":
            return None
        for d in f.defs().get(x["p"][0], []):
            if d[1] != -1 and d[3]["k"] == "agg" and d[3].get("closure"):
                return self.prog.fns.get(d[3]["closure"])
        return None

    def keeps_input(self, f, t, g):
        """The closure yields a copy of what the failing call was given."""
        back = lambda l: slice_of(f, l)
        if not any(c.name in ("clone", "to_string", "to_owned", "into", "from") for b, u, c in g.calls()):
            return False
        res, cap = t["args"]
        if "p" not in res or "p" not in cap:
            return False
        made = [u for b, u, c in f.calls() if u["d"][0] == res["p"][0]]
        given = set().union(set(), *(back(x["p"][0]) for u in made for x in u["args"] if "p" in x))
        return bool(made) and bool((back(cap["p"][0]) - {res["p"][0]}) & given)

    def filter_ok(self, f, b, t):
        return False

    def handles(self, g, is_result):
        """a closure that receives the error does something with it"""
        if g.argc < 2:
            return False
        sub = Flow(self.prog, self.logs, self.keep, None, limit=self.limit)
        r = sub.track(g, [(0, 2)], {})
        return r is None


def slice_of(f, l):
    """Locals a local is computed from."""
    out, todo = set(), [l]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        for d in f.defs().get(x, []):
            todo += places(d[3])
    return out


def places(r):
    out = []
    if isinstance(r, dict):
        for k, v in r.items():
            if k == "p" and isinstance(v, list) and v and isinstance(v[0], int):
                out.append(v[0])
            elif k != "d" and isinstance(v, (dict, list)):
                out += places(v)
    elif isinstance(r, list):
        for v in r:
            out += places(v)
    return out


def f_bool(f, p):
    """could this projected place be a bool (its type is not recorded for projections)"""
    return True


ADD = {"push", "push_back", "push_front", "insert", "extend", "append", "push_str", "extend_from_slice", "get_or_insert", "get_or_insert_with"}
SCALARS = {"bool", "i32", "u32", "usize", "isize", "u64", "i64", "u8", "(usize, bool)", "(u32, bool)", "(i32, bool)", "(u64, bool)"}

VARIANTS = {
    "Result": ("Ok", "Err"),
    "Option": ("Some", "None"),
    "ControlFlow": ("Continue", "Break"),
}
