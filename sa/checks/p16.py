"""P16: editor positions are UTF-16 columns, and text is only cut at character boundaries."""
import re

from ..absint import Interp, State, TooBig
from ..coro import bare
from ..iset import ISet
from ..mir import norm
from ..units import Units, count_unit, refs
from .p17 import testing

META = {
    "packages": ["styx-lsp"],
    "crates": ["styx_lsp"],
    "level": "other",
    "technique": "unit inference: interprocedural value-origin analysis of every number stored as a column, compared with a column, or used to cut text",
    "level_note": "Flow-insensitive within a function, context-sensitive over calls. A number whose origin is not tracked (for example one sent by an extension as a position) is counted as undecided, not as a violation.",
    "explanation": "Every construction of an editor position, every comparison with a column and every range used to cut text in the language server is traced back to where its number was counted: "
    "columns must be counted in UTF-16 units (never bytes, characters or loop rounds over characters), and cut points must be character boundaries of the text.",
    "assumptions": ["spans of the parsed tree and ranges of the syntax tree are byte offsets at character boundaries (P01, P05)"],
}
CRATE = "styx_lsp"
POS = re.compile(r"(^|::)Position$")
COL_OWN = {("SemanticToken", "length"), ("SemanticToken", "delta_start")}


def field_unit(adt, name):
    last = adt.rsplit("::", 1)[-1]
    if POS.search(adt):
        return ("u", "u16") if name == "character" else ("u", "line") if name == "line" else None
    if last in ("Span",) and name in ("start", "end"):
        return ("u", "byte")
    if last in ("OffsetToPositionParams", "Cursor", "ParseError", "ParseDiagnostic") and name in ("offset",):
        return ("in", f"{last}.{name}") if last.endswith("Params") else ("u", "byte")
    if adt.startswith("styx_lsp_ext::") and name in ("offset", "start", "end"):
        return ("in", f"{last}.{name}")
    return None


class CharSet:
    """the set of characters a predicate closure accepts"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def ascii(self, f):
        if f.id not in self.memo:
            self.memo[f.id] = self._ascii(f)
        return self.memo[f.id]

    def _ascii(self, f):
        try:
            I = Interp(self.prog, unroll=1, depth=4, max_paths=4000)
            st = State()
            ch = ("sym", "ch")
            I.tyof[ch] = "char"
            st.facts[ch] = ISet.rng(0x80, 0x10FFFF)
            ty, arg = f.locals[f.argc].replace(" ", ""), ch
            if "(usize,char)" in ty:
                arg = ("agg", "tuple", None, (("sym", "i"), ch))
            elif "char" not in ty:
                return False
            arg = refs(st, arg, ty.count("&"))
            for p in I.run(f, [("sym", "env")] * (f.argc - 1) + [arg], st):
                if p.kind == "ret" and I.assume(p.st, p.ret, True):
                    return False
            return True
        except TooBig:
            return False


class Judge:
    def __init__(self, prog, U):
        self.prog = prog
        self.U = U

    def unit(self, t):
        k = t[0]
        if k == "k":
            return "const"
        if k == "u":
            return "byte" if t[1] == "chlen" else t[1]
        if k in ("len", "find"):
            return "byte"
        if k == "in":
            return "byte"
        if k in ("+", "-"):
            a, b = self.unit(t[1]), self.unit(t[2])
            if a == "const":
                return b
            if b == "const" or a == b:
                return a
            if "?" in (a, b):
                return "?"
            return f"mixed {a}/{b}"
        if k == "acc":
            if t[1][0] != "k":
                return self.unit(t[1])
            return self.rounds(t[2], t[1][1])
        return "?"

    def rounds(self, at, step):
        """a counter stepped by a constant: what do the rounds of its loop run over?"""
        if at is None:
            return "?"
        fn, b = self.prog.fns[at[0]], at[1]
        best = None
        for h, body in fn.loops().items():
            if b in body and (best is None or len(body) < len(best[1])):
                best = (h, body)
        if best is None:
            return "?"
        if self.guarded(fn, b, best[1]):
            return "u16"
        us = set()
        for x, t, c in fn.calls():
            if x in best[1] and c.name in ("next", "next_back") and t["args"]:
                for it in self.U.resolve(fn, self.U.operand(fn, t["args"][0])):
                    us.add(count_unit(it))
        if len(us) == 1:
            return us.pop()
        return "?"

    def guarded(self, fn, b, body):
        """the step depends on how many UTF-16 units the character takes"""
        for x in fn.dom().get(b, ()):
            if x not in body or fn.term(x)["k"] != "switch":
                continue
            for y in body:
                for s in fn.stmts(y):
                    if s["k"] == "=" and s["r"]["k"] == "bin":
                        for o in (s["r"]["a"], s["r"]["b"]):
                            if o.get("k") == "const" and o.get("ty") in ("char", "u32") and isinstance(o.get("int"), int) and 0xD800 <= o["int"] <= 0x10000:
                                return True
                if fn.term(y)["k"] == "call" and fn.callee(y).name == "len_utf16":
                    return True
        return False


def explain(t):
    k = t[0]
    if k == "len":
        return "a byte length"
    if k == "find":
        return "a byte offset"
    if k == "acc":
        return "a counter increased once per loop round"
    if k in ("+", "-"):
        return f"{explain(t[1])} {k} {explain(t[2])}"
    if k == "k":
        return str(t[1])
    if k == "u":
        return {"byte": "a byte offset", "char": "a number of characters", "u16": "a UTF-16 count", "chlen": "a byte length"}.get(t[1], t[1])
    return str(k)


def cut_ok(J, t):
    """True: boundary, False: definitely not ensured, None: unknown"""
    k = t[0]
    if k == "k":
        return True if t[1] == 0 else None
    if k in ("len", "find"):
        return True
    if k == "u":
        if t[1] in ("byte",):
            return True
        if t[1] == "chlen":
            return None
        if t[1] in ("char", "u16"):
            return False
        return None
    if k == "in":
        return False
    if k == "acc":
        u = J.unit(t)
        if u in ("char", "u16"):
            return False
        return True if t[1] in (("u", "chlen"), ("len", ("text",))) else None
    if k == "+":
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if b[0] == "k":
                if a[0] == "find":
                    if a[1] is None:
                        return False
                    return True if a[1] == b[1] else None
                return None
        a, b = cut_ok(J, t[1]), cut_ok(J, t[2])
        return True if a and (b or t[2] == ("u", "chlen")) or b and t[1] == ("u", "chlen") else None
    if k == "-":
        a, b = cut_ok(J, t[1]), cut_ok(J, t[2])
        return True if a and b else None
    return None


def mix(rep, rule, U, J, f):
    """obligations: a UTF-16 count is compared and combined only with UTF-16 counts"""
    cmps = 0
    for b in f.reach:
        for s in f.stmts(b):
            if s["k"] != "=":
                continue
            r = s["r"]
            if r["k"] == "bin":
                ta = U.operand(f, r["a"])
                tb = U.operand(f, r["b"])
                op = r["op"].replace("WithOverflow", "")
                if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Add", "Sub"):
                    ra, rb = U.resolve(f, ta), U.resolve(f, tb)
                    ua, ub = {J.unit(t) for t in ra}, {J.unit(t) for t in rb}
                    for u, v, rv in ((ua, ub, rb), (ub, ua, ra)):
                        if "u16" in u and u <= {"u16", "const"}:
                            cmps += 1
                            steps = {t[1] for t in rv if t[0] == "acc"}
                            bad = [t for t in rv if J.unit(t) in ("byte", "char", "item")]
                            if {("k", 1), ("k", 2)} <= steps:
                                bad = [t for t in bad if t[0] != "acc"]
                            rep.check(not bad, rule, f"{f.path}:{'column' if not bad else 'column with ' + J.unit(bad[0])}", f"{f.path} {'compares' if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else 'combines'} a UTF-16 column with {explain(bad[0]) if bad else ''}", f.loc(s["n"]))
                            break
    return cmps


def run(prog, rep, tier):
    rep.rule("column", "every number stored as a column of an editor position counts UTF-16 units")
    rep.rule("compare", "a column is compared and combined only with UTF-16 counts")
    rep.rule("cut", "every range that cuts text starts and ends at a character boundary")
    cs = CharSet(prog)
    U = Units(prog, {CRATE}, field_unit, skip=testing, ascii_pred=cs.ascii)
    J = Judge(prog, U)
    cols = cuts = cmps = und = 0
    fns = [f for f in prog.fns.values() if f.crate == CRATE and not testing(f)]

    def judge_col(f, x, what, line):
        nonlocal cols, und
        cols += 1
        terms = U.resolve(f, U.operand(f, x))
        bad = [t for t in terms if J.unit(t) in ("byte", "char", "cp", "line", "item", "bytev") or J.unit(t).startswith("mixed")]
        steps = {t[1] for t in terms if t[0] == "acc"}
        if {("k", 1), ("k", 2)} <= steps:
            bad = [t for t in bad if t[0] != "acc"]
        if any(J.unit(t) == "?" for t in terms):
            und += 1
        key = f"{f.path}:{what}:{'/'.join(sorted({J.unit(t) for t in bad}))}" if bad else f"{f.path}:{what}"
        rep.check(not bad, "column", key, f"{what} in {f.path} is not a UTF-16 count: it can be {explain(bad[0]) if bad else ''}", f.loc(line))

    for f in fns:
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] != "=":
                    continue
                r = s["r"]
                if r["k"] == "agg" and r["ak"] == "adt":
                    adt = bare(norm(r["adt"]))
                    for i, n in enumerate(r.get("fields") or []):
                        if POS.search(adt) and n == "character":
                            judge_col(f, r["xs"][i], "the column of a position", s["n"])
                        elif (adt.rsplit("::", 1)[-1], n) in COL_OWN:
                            judge_col(f, r["xs"][i], f"the {n} of a highlighted token", s["n"])
                e = s["p"][-1] if len(s["p"]) > 1 else None
                if e and e[0] == "f" and len(e) > 3 and e[2] == "character" and POS.search(bare(e[3])):
                    if r["k"] == "use":
                        judge_col(f, r["x"], "the column of a position", s["n"])
        cmps += mix(rep, "compare", U, J, f)
        for b, t, c in f.calls():
            if c.name == "new" and POS.search(bare(c.path)[: -len("::new")]) and len(t["args"]) == 2:
                judge_col(f, t["args"][1], "the column of a position", t["n"])
            head = c.full.split(" as ")[0].lstrip("<")
            if c.name in ("index", "index_mut") and re.match(r"(&|mut )*(str|alloc::string::String)$", head) and len(t["args"]) == 2 or c.name == "split_at" and "str" in c.path:
                cuts += 1
                x = t["args"][1]
                if c.name == "split_at":
                    bounds = [("at", U.operand(f, x))]
                else:
                    bounds = []
                    for nm, i in (("start", 0), ("end", 1)):
                        if "RangeTo<" in c.full or "RangeToInclusive<" in c.full:
                            if nm == "start":
                                continue
                            i = 0
                        if "RangeFrom<" in c.full and nm == "end" or "RangeFull" in c.full:
                            continue
                        bounds.append((nm, U.operand(f, x, (("f", i, "", ""),))))
                for nm, terms in bounds:
                    res = U.resolve(f, terms)
                    bad = [q for q in res if cut_ok(J, q) is False]
                    if bad and all(q[0] == "in" for q in bad) and any(c2.name == "is_char_boundary" and f.dominates(b2, b) for b2, t2, c2 in f.calls()):
                        bad = []
                    if any(cut_ok(J, q) is None for q in res):
                        und += 1
                    rep.check(
                        not bad,
                        "cut",
                        f"{f.path}:{nm}:{bad[0][0] if bad else 'ok'}",
                        f"{f.path} cuts text at {explain(bad[0]) if bad and bad[0][0] != 'in' else 'an offset sent by an extension that was not checked to be a character boundary' if bad else ''}, which may be inside a character",
                        f.loc(t["n"]),
                    )
    rep.floor("column", "columns", cols, 12)
    rep.floor("cut", "cuts of text", cuts, 6)
    rep.count("comparisons with a column", cmps)
    rep.count("numbers of unknown origin", und)
    rep.note(f"{cols} columns, {cmps} comparisons, {cuts} cuts; {und} have a part whose origin is not tracked")
