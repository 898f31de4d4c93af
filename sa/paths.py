"""Where file-system paths come from.

Extends the value-origin analysis with text and path composition:

  ("base", f)            a directory the user's environment defines (dirs::*, temp_dir, current_dir)
  ("join", dir, comp)    a path component appended
  ("cat", parts...)      concatenated text (format!)
  ("mapped", fns, t)     characters of t mapped one by one and collected
  ("sans", t, chars)     t with the given texts replaced or removed
  ("hex",) ("num",) ("name",)  hexadecimal digits, a number, the last component of a path
  ("doc", what)          text taken from a document
  ("txt", m, t)          text derived from t by method m (keeps whatever t contains)
  ("pushed", fn, local)  text built up piece by piece in a local
"""
import re

from .absint import Interp, State, TooBig
from .coro import bare
from .iset import ISet
from .units import Units, refs

BASES = re.compile(r"^(dirs(_sys)?::|std::env::(temp_dir|current_dir|home_dir|current_exe)|std::env::var)")
KEEP = {
    "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "strip_prefix", "strip_suffix", "to_lowercase", "to_uppercase", "to_ascii_lowercase",
    "to_ascii_uppercase", "to_string_lossy", "to_str", "display", "into_owned", "as_os_str", "into_os_string", "to_path_buf", "repeat", "concat", "into_boxed_str", "index", "to_string", "split_once", "rsplit_once",
}


class Paths(Units):
    COMPOUND = ("join", "cat", "mapped", "sans", "txt", "parent")

    def agg_of(self, fn, x, d=0):
        """operands of the aggregate an operand refers to"""
        if d > 8 or x["k"] not in ("copy", "move"):
            return None
        ds = [q for q in fn.defs().get(x["p"][0], []) if not q[2]]
        if len(ds) != 1:
            return None
        b, i, _, rv = ds[0]
        if i == -1:
            return None
        if rv["k"] == "agg":
            return rv["xs"]
        if rv["k"] in ("ref",):
            return self.agg_of(fn, {"k": "copy", "p": rv["p"][:1]}, d + 1)
        if rv["k"] in ("use",):
            return self.agg_of(fn, rv["x"], d + 1)
        if rv["k"] == "cast":
            return self.agg_of(fn, rv["a"], d + 1)
        return None

    def const_bytes(self, fn, x, d=0):
        if x["k"] == "const":
            for k in ("bytes", "mem", "ptr_bytes"):
                if k in x:
                    return bytes(x[k])
            return None
        if d > 8:
            return None
        ds = [q for q in fn.defs().get(x["p"][0], []) if not q[2]]
        if len(ds) != 1 or ds[0][1] == -1:
            return None
        rv = ds[0][3]
        if rv["k"] == "use":
            return self.const_bytes(fn, rv["x"], d + 1)
        if rv["k"] == "ref":
            return self.const_bytes(fn, {"k": "copy", "p": rv["p"][:1]}, d + 1)
        if rv["k"] == "agg":
            if all("int" in q for q in rv["xs"]):
                return bytes(q["int"] & 255 for q in rv["xs"])
        return None

    def fmt(self, fn, t):
        tmpl = self.const_bytes(fn, t["args"][0])
        arr = self.agg_of(fn, t["args"][1])
        if tmpl is None or arr is None:
            return None
        vals = []
        for a in arr:
            ds = [q for q in fn.defs().get(a["p"][0], []) if not q[2]] if a["k"] != "const" else []
            if len(ds) == 1 and ds[0][1] == -1:
                c = fn.callee(ds[0][0])
                how = c.name[4:]
                vals.append((how, self.operand(fn, ds[0][3]["args"][0]), c))
            else:
                vals.append(("?", frozenset({("top", "fmt")}), None))
        parts = [frozenset()]
        alts = [("cat",)]
        b, i, nxt = tmpl, 0, 0

        def add(xs):
            nonlocal alts
            alts = [a + (x,) for a in alts for x in xs]

        while i < len(b):
            n = b[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                add([("s", b[i : i + n].decode("utf8", "replace"))])
                i += n
            elif n == 0x80:
                ln = int.from_bytes(b[i : i + 2], "little")
                i += 2
                add([("s", b[i : i + ln].decode("utf8", "replace"))])
                i += ln
            else:
                i += (4 if n & 1 else 0) + (2 if n & 2 else 0) + (2 if n & 4 else 0)
                if n & 8:
                    nxt = int.from_bytes(b[i : i + 2], "little")
                    i += 2
                if nxt >= len(vals):
                    return None
                how, v, c = vals[nxt]
                nxt += 1
                if how in ("lower_hex", "upper_hex") or c is not None and re.search(r"<&*[iu](8|16|32|64|128|size)>", c.full):
                    add([("num",)])
                else:
                    add(list(v) or [("top", "fmt")])
            if len(alts) > 40:
                return None
        return frozenset(alts)

    def call(self, fn, b, t, proj):
        c = fn.callee(b)
        args = t["args"]
        tgt = self.prog.target(c)
        if tgt is not None and tgt.crate in self.crates:
            return super().call(fn, b, t, proj)
        A = lambda i, p=(): self.operand(fn, args[i], tuple(p)) if i < len(args) else frozenset({("top", "arg")})
        n = c.name
        base = bare(c.path)
        full = c.full
        pay = tuple(proj[2:]) if len(proj) >= 2 and proj[0][0] == "dc" and proj[0][1] in ("Some", "Ok", "Continue") else None
        if BASES.match(base):
            return frozenset({("base", base)})
        if "styx_tree::" in full.split("(")[0] and "styx_lsp" not in full:
            return frozenset({("doc", n)})
        pathy = re.search(r"path::Path(Buf)?\b", full) is not None
        if n == "join" and pathy:
            return self.product(A(0), A(1), lambda x, y: ("join", x, y))
        if n in ("with_extension",) and pathy:
            return A(0)
        if n in ("with_file_name",) and pathy:
            return self.product(A(0), A(1), lambda x, y: ("join", ("parent", x), y))
        if n == "parent" and pathy:
            return frozenset({("parent", x) for x in A(0)}) if pay is not None else frozenset({("top", "opt")})
        if n in ("file_name", "file_stem", "extension") and pathy:
            return frozenset({("name",)})
        if n in ("canonicalize",):
            return A(0)
        if base.startswith("hex::encode") or n in ("encode_hex",):
            return frozenset({("hex",)})
        if n == "to_string" and re.search(r"<[iu](8|16|32|64|128|size) as", full):
            return frozenset({("num",)})
        if base == "core::fmt::Arguments::new":
            return self.fmt(fn, t) or frozenset({("top", "fmt")})
        if n in ("from_str",) and "Arguments" in base:
            return A(0)
        if base in ("alloc::fmt::format", "core::hint::must_use"):
            return A(0)
        if n in ("replace", "replacen", "replace_range") and ("str" in base or "String" in base):
            pats = self.texts(fn, A(1), args[1])
            return frozenset({("sans", x, pats if n == "replace" else ()) for x in A(0)})
        if n in ("split", "rsplit", "components", "split_terminator", "rsplitn", "splitn") and ("str" in base or pathy):
            return frozenset({("txt", n, x) for x in A(0)})
        if n == "collect" and "String" in full:
            out = set()
            for x in A(0):
                if x[0] == "it" and x[1] == "map":
                    out.add(("mapped", x[3], ("text",)))
                elif x[0] == "it" and x[1] == "filtered":
                    out.add(("mapped", x[2], ("text",)))
                else:
                    out.add(("txt", "collect", x) if x[0] != "it" else ("top", "collect"))
            return frozenset(out)
        if n == "filter" and "Chars" in full:
            return frozenset({("it", "filtered", tuple(f.id for f in self.closure_fn(A(1))))})
        if n in KEEP and ("str" in base or "String" in base or pathy or "OsStr" in full or "Cow" in full):
            src = A(0)
            return frozenset({("txt", n, x) if x[0] not in ("hex", "num", "name", "base", "join") else x for x in src})
        if n == "new" and pathy and args:
            return A(0)
        if n in ("new", "with_capacity") and "String" in base:
            if t["d"] and len(t["d"]) == 1:
                return frozenset({("pushed", fn.id, self.home(fn, t["d"][0]))})
        return super().call(fn, b, t, proj)

    def home(self, fn, local):
        """the variable a fresh value is moved into"""
        for _ in range(4):
            nxt = [s["p"][0] for b in fn.reach for s in fn.stmts(b) if s["k"] == "=" and len(s["p"]) == 1 and s["r"]["k"] == "use" and s["r"]["x"].get("p") == [local]]
            if len(nxt) == 1 and local not in fn.lnames:
                local = nxt[0]
            else:
                break
        return local

    def product(self, a, b, f):
        return frozenset(f(x, y) for x in a for y in b) if len(a) * len(b) <= 60 else frozenset({("top", "many")})

    def texts(self, fn, terms, x):
        out = []
        for t in terms:
            if t[0] == "chr":
                out.append(chr(t[1]))
            elif t[0] == "s":
                out.append(t[1])
        xs = self.agg_of(fn, x)
        for q in xs or []:
            if "int" in q:
                out.append(chr(q["int"]))
        return tuple(sorted(set(out)))


class Safety:
    """Is a text one safe path component / a path below its base?"""

    def __init__(self, prog, P):
        self.prog = prog
        self.P = P
        self.memo = {}

    # each returns None (safe), or (certain, why)
    def path(self, t, fn=None):
        k = t[0]
        if k == "base":
            return None
        if k == "join":
            return self.path(t[1]) or self.comp(t[2])
        if k == "parent":
            return self.path(t[1])
        if k == "txt":
            return self.path(t[2])
        if k == "s":
            return None
        if k == "doc":
            return (True, f"a path taken from a document ({t[1]})")
        if k == "top":
            return (False, t[1])
        return self.comp(t)

    def comp(self, t):
        k = t[0]
        if k in ("hex", "num"):
            return None
        if k == "name":
            return None
        if k == "s":
            s = t[1]
            if s.startswith("/") or ".." in s.split("/") or "\\" in s:
                return (True, f"the literal {s!r}")
            return None
        if k == "cat":
            for x in t[1:]:
                if x[0] == "s":
                    if x[1].startswith("/") and x is t[1] or ".." in x[1]:
                        return (True, f"the literal {x[1]!r}")
                    continue
                r = self.comp(x)
                if r:
                    return r
            return None
        if k == "mapped":
            bad = self.charset(t[1])
            return bad
        if k == "sans":
            r = self.comp(t[1])
            if r is None:
                return None
            gone = self.removed(t)
            if "/" in gone and ("." in gone or ".." in gone or True):
                # without separators a text can only be "..", which removing dots excludes
                if "." in gone or ".." in gone:
                    return None
                return (True, "text in which '..' may remain")
            return (True, "text in which path separators may remain")
        if k == "doc":
            return (True, f"text taken from a document ({t[1]}) that is not sanitised")
        if k == "txt":
            return self.comp(t[2])
        if k == "pushed":
            return self.pushed(t)
        if k in ("join", "parent", "base"):
            return None if k == "base" else self.path(t)
        if k == "u" and t[1] == "cp":
            return (False, "a character")
        if k == "top" and t[1] == "entry":
            return (True, "text from the caller that is not sanitised")
        return (False, str(t[1]) if len(t) > 1 else k)

    def removed(self, t):
        out = set()
        while t[0] == "sans":
            out |= set(t[2])
            t = t[1]
        return out

    BAD = ISet.of(ord("/"), ord("\\"), 0)
    DOT = ISet.of(ord("."))

    def charset(self, fids):
        dot = False
        for fid in fids:
            r = self._chars(fid)
            if r is None:
                return (False, "characters not determined")
            bad, d = r
            if bad:
                return (True, f"text whose characters are replaced one by one, but {chr(bad.pick())!r} can remain")
            dot = dot or d
        if dot:
            return (True, "text whose characters are replaced one by one, but '..' can remain")
        return None

    def _chars(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        f = self.prog.fns[fid]
        bad, dot = ISet(()), False
        try:
            I = Interp(self.prog, unroll=1, depth=4, max_paths=4000)
            for probe in ("/", "\\", "\0", "."):
                st = State()
                ch = ("sym", "ch")
                st.facts[ch] = ISet.of(ord(probe))
                I.tyof[ch] = "char"
                arg = refs(st, ch, f.locals[f.argc].count("&"))
                isfilter = f.locals[0] == "bool"
                for p in I.run(f, [("sym", "env")] * (f.argc - 1) + [arg], st):
                    if p.kind != "ret":
                        continue
                    if isfilter:
                        if I.assume(p.st, p.ret, True):
                            keep = ISet.of(ord(probe))
                        else:
                            continue
                    else:
                        keep = I.dom(p.st, p.ret)
                    if keep & self.BAD:
                        bad = bad | (keep & self.BAD)
                    if keep & self.DOT:
                        dot = True
            # every other character must not be turned into a separator either
            if f.locals[0] != "bool":
                st = State()
                ch = ("sym", "ch")
                st.facts[ch] = ISet.rng(0, 0x10FFFF) - self.BAD - self.DOT
                I.tyof[ch] = "char"
                for p in I.run(f, [("sym", "env")] * (f.argc - 1) + [ch], st):
                    if p.kind == "ret":
                        keep = I.dom(p.st, p.ret)
                        if keep & self.BAD:
                            bad = bad | (keep & self.BAD)
                        if keep & self.DOT:
                            dot = True
        except TooBig:
            self.memo[fid] = None
            return None
        self.memo[fid] = (bad, dot)
        return self.memo[fid]

    def pushed(self, t):
        """text built with push/push_str in a local of a function: run the function and look at every piece"""
        f = self.prog.fns[t[1]]
        k = ("pushed", f.id)
        if k in self.memo:
            return self.memo[k]
        got = {"bad": ISet(()), "dot": False, "unk": False, "n": 0}

        class Rec(Interp):
            def tag(self):
                pass

        def on_call(I, st, c, args, site, *a):
            if c.name == "push" and "String" in c.path and site[0] is f:
                d = I.dom(st, args[1])
                got["n"] += 1
                if d & self.BAD:
                    got["bad"] = got["bad"] | (d & self.BAD)
                if d & self.DOT:
                    got["dot"] = True
            elif c.name in ("push_str", "extend", "write_str", "insert_str") and "String" in c.full and site[0] is f:
                got["n"] += 1
                v = args[1]
                got["unk"] = True
            return None

        try:
            I = Interp(self.prog, unroll=1, depth=4, max_paths=4000, on_call=on_call)
            for p in I.run(f, [("sym", "arg", i) for i in range(f.argc)], State()):
                pass
        except TooBig:
            got["unk"] = True
        if got["bad"]:
            r = (True, f"text built character by character, but {chr(got['bad'].pick())!r} can remain")
        elif got["dot"]:
            r = (True, "text built character by character, but '..' can remain")
        elif got["unk"] or not got["n"]:
            r = (False, "text built piece by piece")
        else:
            r = None
        self.memo[k] = r
        return r
