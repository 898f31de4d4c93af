"""What unit a number is counted in: a demand-driven, field-sensitive value-origin analysis.

For a place of a function the analysis collects every origin its value can have, as small terms:

  ("k", n)              a constant
  ("u", unit)           a count in `unit`: byte, u16, char, line, item, cp (a character itself)
  ("len", t)            byte length of the text t;  ("find", F): offset of a match, F = byte length of the match if fixed
  ("in", what)          a number that came from outside (named field of a foreign structure)
  ("p", i, proj)        the i-th parameter of the function asked about (resolved at its callers)
  ("+", a, b) / ("-", a, b)
  ("acc", x, fn, block) a loop-carried accumulation of x
  ("it", kind, ...)     an iterator;  ("el", it, proj): an element of it
  ("top", why)          not tracked

Only how values are produced is followed; paths and conditions are not.
"""
import re

from .coro import bare

LIMIT = 60
SAME = {
    "clone", "into", "from", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "to_owned", "copied", "cloned", "into_iter", "iter", "by_ref", "as_str", "into_future", "to_string",
    "try_into", "try_from", "unwrap", "expect", "new_unchecked", "as_deref", "identity", "abs", "get_mut", "as_slice", "into_inner", "take", "new",
}
KEEP_IT = {"rev", "filter", "skip", "skip_while", "take", "take_while", "peekable", "fuse", "step_by", "inspect", "by_ref", "into_iter", "cloned", "copied", "chain"}
TEXT_IT = {"chars": "chars", "char_indices": "char_indices", "bytes": "bytes", "encode_utf16": "utf16", "lines": "lines", "as_bytes": "asbytes"}


def key(place):
    out = []
    for e in place:
        if e == "*" or (isinstance(e, list) and e[0] == "*"):
            continue
        if isinstance(e, int):
            out.append(e)
        elif e[0] == "f":
            out.append(("f", e[1], e[2] if len(e) > 2 else "", e[3] if len(e) > 3 else ""))
        elif e[0] == "dc":
            out.append(("dc", e[2]))
        else:
            out.append(("x",))
    return tuple(out)


def match(dp, pp):
    """dp: projection written, pp: projection read -> remaining projection, or None"""
    dp = [e for e in dp]
    if len(dp) > len(pp):
        return None
    for a, b in zip(dp, pp):
        if a[0] != b[0] or (a[0] in ("f", "dc") and a[1] != b[1]):
            return None
    return tuple(pp[len(dp):])


def strip_dc(p):
    return tuple(e for e in p if e[0] != "dc")


class Units:
    def __init__(self, prog, crates, fields=None, skip=lambda f: False, ascii_pred=None):
        self.prog = prog
        self.crates = set(crates)
        self.fields = fields or (lambda adt, name: None)
        self.skip = skip
        self.ascii_pred = ascii_pred or (lambda fn: None)
        self.memo = {}
        self.open = []
        self._sites = None
        self._made = {}
        self.own = {bare(k) for k, a in prog.adts.items() if a["kind"] == "struct" and k.split("::")[0] in self.crates}

    # ------------------------------------------------------------ values
    def operand(self, fn, x, proj=()):
        if x["k"] in ("copy", "move"):
            return self.place(fn, x["p"], proj)
        if "int" in x:
            if x.get("ty") == "char":
                return frozenset({("u", "cp"), ("chr", x["int"])})
            return frozenset({("k", x["int"])})
        if "str" in x:
            return frozenset({("s", x["str"])})
        if "closure" in x or "fn" in x:
            return frozenset({("fnval", x.get("closure") or str(x["fn"].get("rid") or x["fn"].get("path")))})
        if x.get("named") is not None:
            return frozenset({("top", "const")})
        return frozenset({("top", "const")})

    def place(self, fn, place, extra=()):
        k = key(place) + tuple(extra)
        return self.value(fn, k[0], tuple(k[1:]))

    def value(self, fn, local, proj):
        # a field whose meaning is fixed by its structure
        for i in range(len(proj) - 1, -1, -1):
            e = proj[i]
            if e[0] == "f" and len(e) > 3 and e[2]:
                r = self.fields(bare(e[3]), e[2])
                if r is not None:
                    return frozenset({r})
                break
        ck = (fn.id, local, proj)
        if ck in self.memo:
            return self.memo[ck]
        if ck in self.open:
            return frozenset({("rec", ck)})
        if len(self.open) > 150 or len(proj) > 10:
            return frozenset({("top", "depth")})
        self.open.append(ck)
        out = set()
        try:
            if 1 <= local <= fn.argc and not (fn.is_closure and local == 1):
                out.add(("p", local, proj))
            if fn.is_closure and local == 1:
                out |= self.upvar(fn, proj)
            ds = fn.defs().get(local, [])
            partial = False
            for b, i, dp, rv in ds:
                rest = match(key([0] + list(dp))[1:], proj)
                if rest is None:
                    if match(proj, key([0] + list(dp))[1:]) is not None:
                        partial = True
                    continue
                if i == -1:
                    if rv["k"] == "call":
                        out |= self.call(fn, b, rv, rest)
                    else:
                        out.add(("top", "resume"))
                else:
                    out |= self.rvalue(fn, b, rv, rest)
                if len(out) > LIMIT:
                    out = {("top", "many")}
                    break
            if partial:
                out.add(("top", "partial"))
            if not ds and not out:
                out.add(("top", "undefined"))
        finally:
            self.open.pop()
        # close the recursion on this key
        res = set()
        for t in out:
            if t == ("rec", ck):
                continue
            if mentions(t, ("rec", ck)):
                res |= self.close(t, ("rec", ck))
            else:
                res.add(t)
        if len(res) > LIMIT:
            res = {("top", "many")}
        if proj and any(t[0] == "top" for t in res):
            e = proj[-1]
            if e[0] == "f" and len(e) > 3 and e[2] and bare(e[3]) in self.own:
                res = {t for t in res if t[0] != "top"} | self.made(bare(e[3]), e[2])
        res = frozenset(res)
        if not any(mentions_rec(t) for t in res):
            self.memo[ck] = res
        return res

    def close(self, t, rec):
        """t contains the value being computed: turn sums into accumulations."""
        if t == rec:
            return set()
        if t[0] == "+":
            out = set()
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if mentions(a, rec):
                    out |= {("acc", b, t[3] if len(t) > 3 else None)} if not mentions(b, rec) else {("top", "rec")}
                    out |= {x for x in self.close(a, rec)}
                    return out
        if t[0] == "-":
            if mentions(t[1], rec) and not mentions(t[2], rec):
                return {("acc", t[2], t[3] if len(t) > 3 else None)} | self.close(t[1], rec)
        if t[0] == "acc":
            if mentions(t[1], rec):
                return {("acc", x, t[2]) for x in self.close(t[1], rec)}
            return {t}
        return {("top", "rec")}

    def rvalue(self, fn, b, r, proj):
        k = r["k"]
        if k == "use":
            return self.operand(fn, r["x"], proj)
        if k == "ref":
            return self.place(fn, r["p"], proj)
        if k == "cast":
            return self.operand(fn, r["a"], proj)
        if k == "agg":
            return self.agg(fn, r, proj)
        if k == "bin":
            op = r["op"].replace("WithOverflow", "").replace("Unchecked", "")
            if r["op"].endswith("WithOverflow"):
                if proj and proj[0][0] == "f" and proj[0][1] == 1:
                    return frozenset({("top", "flag")})
            if op in ("Add", "Sub"):
                return self.arith("+" if op == "Add" else "-", self.operand(fn, r["a"]), self.operand(fn, r["b"]), (fn.id, b))
            if op in ("BitAnd", "BitOr", "Shl", "Shr", "Mul", "Div", "Rem", "BitXor"):
                a, c = self.operand(fn, r["a"]), self.operand(fn, r["b"])
                if all(x[0] == "k" for x in a | c) and len(a) == len(c) == 1:
                    x, y = next(iter(a))[1], next(iter(c))[1]
                    try:
                        v = {"BitAnd": x & y, "BitOr": x | y, "Shl": x << y if y < 64 else None, "Shr": x >> y, "Mul": x * y, "Div": x // y if y else None, "Rem": x % y if y else None, "BitXor": x ^ y}[op]
                    except Exception:
                        v = None
                    if v is not None:
                        return frozenset({("k", v)})
                return frozenset({("op", op, tuple(sorted(a | c, key=repr))[:6])})
            return frozenset({("top", op)})
        return frozenset({("top", k)})

    def arith(self, op, a, c, at):
        out = set()
        for x in a:
            for y in c:
                if y == ("k", 0):
                    out.add(x)
                elif x == ("k", 0) and op == "+":
                    out.add(y)
                elif x[0] == "k" and y[0] == "k":
                    out.add(("k", x[1] + y[1] if op == "+" else x[1] - y[1]))
                elif depth(x) > 8 or depth(y) > 8:
                    out.add(("top", "deep"))
                else:
                    out.add((op, x, y, at))
        if len(out) > LIMIT:
            return frozenset({("top", "many")})
        return frozenset(out)

    def agg(self, fn, r, proj):
        if not proj:
            if r.get("ak") == "closure" or r.get("closure"):
                return frozenset({("fnval", r.get("closure") or r.get("id"))})
            return frozenset({("agg", r.get("variant") or r.get("ak"))})
        p = proj
        if p[0][0] == "dc":
            if r.get("variant") != p[0][1]:
                return frozenset()
            p = p[1:]
        if not p:
            return frozenset({("agg", r.get("variant"))})
        if p[0][0] == "f" and p[0][1] < len(r["xs"]):
            return self.operand(fn, r["xs"][p[0][1]], p[1:])
        return frozenset({("top", "agg")})

    # ------------------------------------------------------------ closures
    def closure_fn(self, fnvals):
        out = []
        for v in fnvals:
            if v[0] == "fnval" and v[1] in self.prog.fns:
                out.append(self.prog.fns[v[1]])
        return out

    def upvar(self, fn, proj):
        if not proj or proj[0][0] != "f":
            return {("top", "env")}
        out = set()
        par = self.prog.fns.get(fn.parent)
        if par is None:
            return {("top", "env")}
        for b in par.reach:
            for s in par.stmts(b):
                r = s.get("r") if s["k"] == "=" else None
                if r and r["k"] == "agg" and (r.get("closure") == fn.id or r.get("id") == fn.id):
                    if proj[0][1] < len(r["xs"]):
                        out |= self.operand(par, r["xs"][proj[0][1]], strip_dc(proj[1:]) if False else proj[1:])
        # parameters of the creator stay symbolic only for the creator itself
        return {(("pp", par.id, t[1], t[2]) if t[0] == "p" else t) for t in out} or {("top", "env")}

    def apply(self, f, args, proj):
        """value of f's result (projected) with parameters replaced; args: param local -> fn(proj)->set"""
        return self.subst([unparent(t, f.id) for t in self.value(f, 0, proj)], args)

    def subst(self, terms, args):
        out = set()
        for t in terms:
            out |= self.subst1(t, args)
            if len(out) > LIMIT:
                return frozenset({("top", "many")})
        return frozenset(out)

    def subst1(self, t, args):
        if t[0] == "p":
            f = args.get(t[1])
            return set(f(t[2])) if f else {("top", "param")}
        if t[0] in ("+", "-"):
            return set(self.arith(t[0], self.subst1(t[1], args), self.subst1(t[2], args), t[3]))
        if t[0] == "acc":
            return {("acc", x, t[2]) for x in self.subst1(t[1], args)}
        if t[0] in ("len",):
            return {("len", x) for x in self.subst1(t[1], args)}
        if t[0] == "el":
            out = set()
            for x in self.subst1(t[1], args):
                out |= self.element(x, t[2])
            return out
        if t[0] == "it":
            if len(t) > 2 and isinstance(t[2], tuple) and mentions_p(t[2]):
                return {("it", t[1], x) + t[3:] for x in self.subst1(t[2], args)}
            return {t}
        if t[0] in self.COMPOUND:
            return self.compound(t, lambda x: self.subst1(x, args))
        return {t}

    COMPOUND = ()

    def compound(self, t, f):
        """rebuild a term of an extension: parts that are terms are replaced by f"""
        alts = [()]
        for x in t:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and mentions_p(x):
                xs = f(x)
            else:
                xs = [x]
            alts = [a + (y,) for a in alts for y in xs]
            if len(alts) > LIMIT:
                return {("top", "many")}
        return set(alts)

    # ------------------------------------------------------------ calls
    def call(self, fn, b, t, proj):
        c = fn.callee(b)
        args = t["args"]
        A = lambda i, p=(): self.operand(fn, args[i], tuple(p)) if i < len(args) else frozenset({("top", "arg")})
        tgt = self.prog.target(c)
        if tgt is not None and tgt.crate in self.crates:
            return self.apply(tgt, {i + 1: (lambda p, i=i: A(i, p)) for i in range(len(args))}, proj)
        n = c.name
        base = bare(c.path)
        TOP = frozenset({("top", n)})
        some = [e for e in proj if e[0] != "dc"]
        # the payload of Some/Ok/Continue: ("dc", X), ("f", 0)
        pay = proj[2:] if len(proj) >= 2 and proj[0][0] == "dc" and proj[0][1] in ("Some", "Ok", "Continue") else None
        opt = "Option" if "option::Option" in base else "Result" if "result::Result" in base else None
        inner = (("dc", "Some" if opt == "Option" else "Ok"), ("f", 0, "", ""))
        if n in ("len",) and ("str" in base or "String" in base):
            return frozenset({("len", x) for x in A(0)} or {("len", ("top", "?"))})
        if n == "len":
            its = A(0)
            if any(x[0] == "it" for x in its):
                return frozenset({("u", count_unit(x)) for x in its})
            return frozenset({("u", "item")})
        if n == "len_utf8":
            return frozenset({("u", "chlen")})
        if n == "len_utf16":
            return frozenset({("u", "u16")})
        if n == "encode_utf16":
            return frozenset({("it", "utf16")})
        if n in TEXT_IT and "str" in base:
            return frozenset({("it", TEXT_IT[n])})
        if n in ("split", "split_inclusive", "split_terminator", "rsplit", "split_whitespace", "matches") and "str" in base:
            return frozenset({("it", "pieces")})
        if n in ("find", "rfind") and "str" in base:
            if pay is not None:
                return frozenset({("find", self.pattern(fn, A(1)))})
            return frozenset({("top", "opt")})
        if n in ("match_indices", "rmatch_indices"):
            return frozenset({("it", "match_indices", self.pattern(fn, A(1)))})
        if n in ("count",):
            return frozenset({("u", count_unit(x)) for x in A(0)})
        if n in ("position", "rposition") and pay is not None:
            return frozenset({("u", count_unit(x)) for x in A(0)})
        if n in ("sum",):
            out = set()
            for x in A(0):
                out |= {("acc", y, None) for y in self.element(x, ())}
            return frozenset(out)
        if n == "fold":
            out = set(A(1, proj))
            for f in self.closure_fn(A(2)):
                REC = ("rec", ("fold", f.id, fn.id, b))
                res = self.apply(f, {2: lambda p: frozenset({REC}), 3: lambda p: frozenset().union(*[self.element(x, p) for x in A(0)] or [frozenset()])}, proj)
                for y in res:
                    out |= self.close(y, REC) if mentions(y, REC) else {y}
            return frozenset(out)
        if n in ("find", "rfind") and pay is not None and opt is None:
            out = set()
            for x in A(0):
                if x == ("it", "char_indices") and [e for e in pay if e[0] == "f"][:1] and [e for e in pay if e[0] == "f"][0][1] == 0:
                    out.add(("find", self.pattern(fn, A(1))))
                else:
                    out |= self.element(x, pay)
            return frozenset(out)
        if n in ("next", "next_back", "last", "nth", "first", "get", "peek", "max", "min", "find") and pay is not None and "cmp::" not in base:
            out = set()
            for x in A(0):
                out |= self.element(x, pay)
            return frozenset(out)
        if n in ("find_map",) and pay is not None:
            out = set()
            for f in self.closure_fn(A(1)):
                out |= self.apply(f, {2: lambda p: frozenset().union(*[self.element(x, p) for x in A(0)])}, proj)
            return frozenset(out) or TOP
        if n == "map" and opt is None:
            return frozenset({("it", "map", x, tuple(f.id for f in self.closure_fn(A(1)))) for x in A(0)})
        if n in ("filter_map", "flat_map", "scan", "map_while"):
            return frozenset({("it", "other")})
        if n == "enumerate":
            return frozenset({("it", "enum", x) for x in A(0)})
        if n in ("zip", "windows", "chunks"):
            return frozenset({("it", "other")})
        if n in KEEP_IT and opt is None:
            return A(0, proj)
        if opt:
            if n in ("map", "and_then"):
                if proj[:1] and proj[0][0] == "dc" and proj[0][1] in ("Err",):
                    return A(0, proj)
                out = set()
                fs = self.closure_fn(A(1))
                p = pay if n == "map" else proj
                if p is None:
                    return TOP
                for f in fs:
                    out |= self.apply(f, {2: lambda q: A(0, inner + tuple(q))}, tuple(p))
                fv = [x for x in A(1) if x[0] == "fnval" and x[1] not in self.prog.fns]
                return frozenset(out) if fs and not fv else frozenset(out | {("top", n)})
            if n in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "unwrap", "expect"):
                out = set(A(0, inner + tuple(proj)))
                if n == "unwrap_or":
                    out |= A(1, proj)
                elif n == "unwrap_or_default":
                    out.add(("k", 0))
                elif n == "unwrap_or_else":
                    for f in self.closure_fn(A(1)):
                        out |= self.apply(f, {}, proj)
                return frozenset(out)
            if n in ("map_or", "map_or_else"):
                out = set(A(1, proj)) if n == "map_or" else set()
                fs = self.closure_fn(A(2))
                for f in fs:
                    out |= self.apply(f, {2: lambda q: A(0, inner + tuple(q))}, tuple(proj))
                if n == "map_or_else":
                    for f in self.closure_fn(A(1)):
                        out |= self.apply(f, {}, proj)
                return frozenset(out) if fs else TOP
            if n in ("or", "or_else", "filter", "copied", "cloned", "as_ref", "as_deref", "clone"):
                out = set(A(0, proj))
                if n == "or":
                    out |= A(1, proj)
                return frozenset(out)
            if n in ("ok", "ok_or", "ok_or_else", "map_err") and pay is not None:
                src = (("dc", "Ok" if opt == "Result" else "Some"), ("f", 0, "", ""))
                return A(0, src + tuple(pay))
        if n == "branch":
            if pay is not None:
                o = "Some" if "option::Option" in c.full else "Ok"
                return A(0, (("dc", o), ("f", 0, "", "")) + tuple(pay))
            return frozenset({("top", "branch")})
        if n == "from_residual":
            return frozenset() if pay is not None else TOP
        if n in ("saturating_sub", "wrapping_sub", "abs_diff"):
            return self.arith("-", A(0), A(1), (fn.id, b))
        if n in ("saturating_add", "wrapping_add"):
            return self.arith("+", A(0), A(1), (fn.id, b))
        if n in ("checked_sub", "checked_add") and pay is not None:
            return self.arith("-" if n == "checked_sub" else "+", A(0), A(1), (fn.id, b))
        if n in ("add_assign",):
            return TOP
        if n in ("min", "max", "clamp") and len(args) >= 2:
            out = set()
            for i in range(len(args)):
                out |= A(i)
            return frozenset(out)
        if n in ("start", "end") and ("TextRange" in base or "TextRange" in c.full):
            return frozenset({("u", "byte")})
        if n in ("of", "text_len") or "TextSize" in base and n in ("of",):
            return frozenset({("u", "byte")})
        if n == "new" and base.endswith("Position::new"):
            if proj and proj[0][0] == "f":
                return A(proj[0][1])
            return TOP
        if n == "index":
            return frozenset({("top", "index")}) if not self.texty(c) else frozenset({("text",)})
        if n in SAME:
            if n in ("try_into", "try_from") and pay is not None:
                return A(0, pay)
            if n == "into" or n == "from" or n == "clone" or n == "deref" or n == "to_owned":
                return A(0, proj)
            if opt is None or n not in ("unwrap", "expect"):
                return A(0, proj)
        return TOP

    def texty(self, c):
        return "str" in c.full.split(" as ")[0] or "String" in c.full.split(" as ")[0]

    def pattern(self, fn, terms):
        """byte length of what the pattern matches, when it is the same for all matches"""
        ls = set()
        for x in terms:
            if x[0] == "chr":
                ls.add(len(chr(x[1]).encode()) if not 0xD800 <= x[1] < 0xE000 else None)
            elif x[0] == "s":
                ls.add(len(x[1].encode()))
            elif x == ("u", "cp"):
                continue
            elif x[0] == "fnval":
                f = self.prog.fns.get(x[1])
                ls.add(1 if f is not None and self.ascii_pred(f) else None)
            else:
                ls.add("?")
        return ls.pop() if len(ls) == 1 else "?"

    def element(self, it, proj):
        """origins of an element of iterator `it`, projected"""
        r = self._element(it, proj)
        e = proj[-1] if proj else None
        if e and e[0] == "f" and len(e) > 3 and e[2] and bare(e[3]) in self.own and any(t[0] == "top" for t in r):
            return {t for t in r if t[0] != "top"} | set(self.made(bare(e[3]), e[2]))
        return r

    def _element(self, it, proj):
        p = tuple(e for e in proj if e[0] == "f")
        if it[0] in ("p", "rec", "pp"):
            return {("el", it, tuple(proj))}
        if it[0] != "it":
            return {("top", "elem")}
        k = it[1]
        if k == "chars":
            return {("u", "cp")}
        if k == "char_indices":
            return {("u", "byte")} if p and p[0][1] == 0 else {("u", "cp")} if p else {("top", "pair")}
        if k == "bytes":
            return {("u", "bytev")}
        if k == "utf16":
            return {("u", "unitv")}
        if k == "lines" or k == "pieces":
            return {("text",)}
        if k == "match_indices":
            return {("find", it[2])} if p and p[0][1] == 0 else {("text",)}
        if k == "enum":
            if p and p[0][1] == 0:
                return {("u", count_unit(it[2]))}
            rest = list(proj)
            for i, e in enumerate(rest):
                if e[0] == "f":
                    rest = rest[i + 1:]
                    break
            return self.element(it[2], tuple(rest)) if p else {("top", "pair")}
        if k == "map":
            out = set()
            for fid in it[3]:
                f = self.prog.fns[fid]
                out |= self.apply(f, {2: lambda q: self.element(it[2], q)}, tuple(proj))
            return out or {("top", "map")}
        return {("top", "elem")}

    # ------------------------------------------------------------ fields of the program's own structures
    def made(self, adt, name):
        """everything stored in the field wherever a value of the structure is built or the field is assigned"""
        k = (adt, name)
        if k in self._made:
            return self._made[k]
        self._made[k] = set()
        out = set()
        save, self.open = self.open, []
        for f in self.prog.fns.values():
            if f.crate not in self.crates or self.skip(f):
                continue
            for b in f.reach:
                for s in f.stmts(b):
                    if s["k"] != "=":
                        continue
                    r = s["r"]
                    if r["k"] == "agg" and r["ak"] == "adt" and bare(r["adt"]) == adt and name in (r.get("fields") or []):
                        out |= self.resolve(f, self.operand(f, r["xs"][r["fields"].index(name)]))
                    e = s["p"][-1] if len(s["p"]) > 1 else None
                    if e and e[0] == "f" and len(e) > 3 and e[2] == name and bare(e[3]) == adt:
                        out |= self.resolve(f, self.rvalue(f, b, r, ()))
        self.open = save
        self._made[k] = out or {("top", "field")}
        return self._made[k]

    # ------------------------------------------------------------ callers
    def sites(self):
        if self._sites is None:
            self._sites = {}
            for f in self.prog.fns.values():
                if f.crate not in self.crates or self.skip(f):
                    continue
                for b, t, c in f.calls():
                    g = self.prog.target(c)
                    if g is not None:
                        self._sites.setdefault(g.id, []).append((f, b, t))
        return self._sites

    def resolve(self, fn, terms, seen=()):
        """replace remaining parameters by what the callers pass"""
        out = set()
        for t in terms:
            if not mentions_p(t):
                out.add(t)
                continue
            if t[0] == "p":
                out |= self.callers(fn, t[1], t[2], seen)
            elif t[0] == "pp":
                out |= self.callers(self.prog.fns[t[1]], t[2], t[3], seen)
            elif t[0] in ("+", "-"):
                out |= self.arith(t[0], self.resolve(fn, {t[1]}, seen), self.resolve(fn, {t[2]}, seen), t[3])
            elif t[0] == "acc":
                out |= {("acc", x, t[2]) for x in self.resolve(fn, {t[1]}, seen)}
            elif t[0] == "len":
                out.add(("len", ("text",)))
            elif t[0] in self.COMPOUND:
                out |= self.compound(t, lambda x: self.resolve(fn, {x}, seen))
            elif t[0] == "el":
                for x in self.resolve(fn, {t[1]}, seen):
                    out |= self.element(x, t[2])
            else:
                out.add(("top", "param"))
        return out

    def callers(self, fn, i, proj, seen):
        k = (fn.id, i, proj)
        if k in seen or len(seen) > 8:
            return set()
        ss = self.sites().get(fn.id, [])
        if not ss:
            return {("top", "entry")}
        out = set()
        for f, b, t in ss:
            if i - 1 < len(t["args"]):
                out |= self.resolve(f, self.operand(f, t["args"][i - 1], proj), seen + (k,))
        return out


def count_unit(it):
    """what the number of elements of `it` counts"""
    if it[0] != "it":
        return "?"
    k = it[1]
    if k in ("chars", "char_indices"):
        return "char"
    if k in ("bytes", "asbytes"):
        return "byte"
    if k == "utf16":
        return "u16"
    if k == "lines":
        return "line"
    if k in ("enum", "map"):
        return count_unit(it[2])
    return "item"


def unparent(t, fid):
    """captured parameters of f become f's parameters again"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and t[0] == "pp" and t[1] == fid:
        return ("p", t[2], t[3])
    return tuple(unparent(x, fid) for x in t)


def depth(t):
    return 1 + max([depth(x) for x in t if isinstance(x, tuple)], default=0) if isinstance(t, tuple) else 0


def mentions(t, x):
    return t == x or (isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple)))


def mentions_rec(t):
    return isinstance(t, tuple) and len(t) > 0 and (t[0] == "rec" or any(mentions_rec(y) for y in t if isinstance(y, tuple)))


def mentions_p(t):
    return isinstance(t, tuple) and len(t) > 0 and (t[0] in ("p", "pp") or any(mentions_p(y) for y in t if isinstance(y, tuple)))


def refs(st, v, n):
    """v behind n references, for handing to an interpreted function"""
    for _ in range(n):
        ptr = ("sym", "argref", v)
        st.heap[ptr] = v
        v = ("ref", ("H", ptr, ()))
    return v
