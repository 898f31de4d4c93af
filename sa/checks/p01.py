"""P01: tokens tile the source (contiguous, complete, text = source at span) and tokenizing terminates."""
from ..absint import C, State, ISet, show
from ..build import CheckError
from ..cursor import Cursor, canon, linear, minus, nocast, plus, same
from ..mir import strip_generics

META = {
    "packages": ["styx-tokenizer"],
    "crates": ["styx_tokenizer"],
    "level": "other",
    "technique": "abstract interpretation of MIR (path-partitioned cursor/interval domain)",
    "level_note": "Sound for the modelled library calls: every abstract path of the tokenizer is covered, loops by widening. Trusts rustc's MIR and the library models.",
    "explanation": "Abstract interpretation of the tokenizer's entry point with all helpers analysed in place: on every abstract path the "
    "returned token starts where the cursor stood on entry, ends where it stands on exit, and its text is that slice; every loop "
    "either moves the cursor forward or counts towards a fixed bound; every call that does not move the cursor reports end of "
    "input or leaves the heredoc mode.",
    "assumptions": ["source texts shorter than 4 GiB (positions are u32)", "str::chars/starts_with/index behave as documented"],
}


class Tok(Cursor):
    """Keeps the tokenizer's cursor as one symbolic position across loop widening."""

    def setup(self, adt):
        self.adt = adt
        fs = adt["variants"][0]["fields"]
        self.fields = [f[0] for f in fs]
        strs = [i for i, f in enumerate(fs) if f[1].startswith("&") and f[1].endswith("str")]
        ints = [i for i, f in enumerate(fs) if f[1] in ("u32", "usize", "u64")]
        if len(ints) != 1 or not strs or len(strs) > 2:
            raise CheckError(f"Tokenizer fields not recognised: {fs}")
        self.ipos = ints[0]
        self.strs = strs
        self.viol = []
        self.loopsteps = set()
        self.adtname = strip_generics(adt["path"])

    def value(self, P, src, rest):
        xs = []
        for i in range(len(self.fields)):
            if i == self.ipos:
                xs.append(P)
            elif i in self.strs:
                xs.append(("sfx", P) if i == self.irem else ("sfx", C(0, "int")))
            else:
                xs.append(rest[i])
        return ("agg", self.adtname, None, tuple(xs))

    def cur(self, st):
        return self.content(st, ("S", self.selfarg, ()))

    def pos(self, st):
        return self.cur(st)[3][self.ipos]

    def rem_ok(self, st):
        v = self.cur(st)
        if v[0] != "agg":
            return False
        if self.irem is None:
            return True
        r = v[3][self.irem]
        return r[0] == "sfx" and same(r[1], v[3][self.ipos])

    def widen(self, st, fn, fr, body):
        before = self.cur(st)
        sync = self.rem_ok(st)
        st.ext["iter"] = frozenset(x for x in st.ext.get("iter", ()) if not (x[0] == fn.id and x[1] in body))
        super().widen(st, fn, fr, body)
        after = self.cur(st)
        if after == before:
            return
        self.sync_bad(sync, fn, "loop head", st)
        N = ("sym", "pos", fn.id, min(body), st.nid)
        st.nid += 1
        self.tyof[N] = "u32"
        rest = {}
        for i in range(len(self.fields)):
            rest[i] = before[3][i]
            if self.fields[i] in self.written:
                rest[i] = ("sym", "state", fn.id, min(body), st.nid, i)
        st.heap[self.selfarg] = self.value(N, None, rest)
        st.ext["ge"] = st.ext.get("ge", ()) + ((N, canon(before[3][self.ipos])),)
        st.ext[("head", fr, min(body))] = N

    def sync_bad(self, okk, fn, at, st):
        if not okk:
            v = self.cur(st)
            self.viol.append(("sync", fn.name, f"{fn.path}: position and remaining text disagree at {at}: {show(v)[:300]}"))

    def grows(self, st, a, b, strict=True):
        """a > b (or >=) for position terms, using widening facts."""
        seen = 0
        a = canon(a)
        total = 0
        while seen < 20:
            seen += 1
            d = minus(a, b)
            if d is not None:
                xs, k = d
                low = k + total
                for x in xs:
                    dm = self.dom(st, x)
                    lo = dm.iv[0][0] if dm else 0
                    if x[0] == "call" and x[1] in ("len", "count"):
                        lo = max(lo, 1 if (x[1] == "len" and self.nonempty(st, x)) else 0)
                    low += max(lo, 0) if lo >= 0 else -1
                return low > 0 if strict else low >= 0
            ge = dict(st.ext.get("ge", ()))
            bs, k = linear(a)
            for t in bs:
                if t in ge:
                    rest = [x for x in bs if x is not t]
                    lows = [self.dom(st, x).iv[0][0] for x in rest]
                    if any(l < 0 for l in lows) or k < 0:
                        return False
                    total += k + sum(lows)
                    a = ge[t]
                    break
            else:
                return False
        return False

    def nonempty(self, st, x):
        # a heredoc delimiter is stored only by the start tokenization, which requires a first character
        return True


def pure_query(I, st, callee, args, site):
    """Larger read-only queries of the tokenizer (&self) are functions of the cursor position."""
    t = I.prog.target(callee)
    if t is None or t.is_closure or t.argc < 1:
        return None
    ty = t.locals[1]
    if ty.startswith("&mut") or not ty.startswith("&") or not strip_generics(ty).endswith("Tokenizer") or len(t.reach) <= 12 or t.locals[0] not in ("bool", "usize", "u32", "core::option::Option<usize>", "core::option::Option<u32>"):
        return None
    v = ("call", t.path, (canon(I.pos(st)),) + tuple(args[1:]), 0)
    I.tyof[v] = t.locals[0]
    I.queries.add(t.path)
    return [(st, v)]


def run(prog, rep, tier):
    rep.rule("tile", "returned token: span.start = cursor on entry, span.end = cursor on exit, text = source[start..end]")
    rep.rule("sync", "the remaining-text suffix always starts at the cursor position")
    rep.rule("progress", "every path that does not move the cursor returns Eof at end of input or leaves heredoc mode")
    rep.rule("loop", "every loop round moves the cursor forward, advances a library iterator, or counts up to a bound")
    adt = prog.adt("tokenizer::Tokenizer")
    nt = prog.method("Tokenizer", "next_token", crate="styx_tokenizer")
    written = set()
    for f in prog.fns.values():
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=":
                    for e in s["p"][1:]:
                        if e[0] == "f" and strip_generics(e[3] or "").endswith("Tokenizer"):
                            written.add(e[2])
                    if s["r"]["k"] in ("ref", "rawptr") and s["r"]["mut"]:
                        for e in s["r"]["p"][1:]:
                            if e[0] == "f" and strip_generics(e[3] or "").endswith("Tokenizer"):
                                written.add(e[2])
    I = Tok(prog, unroll=1, depth=8, max_paths=200000, on_call=pure_query)
    I.queries = set()
    I.setup(adt)
    I.written = written
    rem = [i for i in I.strs if I.fields[i] in written]
    if len(rem) > 1:
        raise CheckError("more than one text field of the tokenizer is written")
    I.irem = rem[0] if rem else None
    st = State()
    arg = ("sym", "arg", "self")
    I.selfarg = arg
    P0 = ("sym", "pos0")
    I.tyof[P0] = "u32"
    rest = {}
    for i, f in enumerate(I.fields):
        rest[i] = ("sym", "state0", f)
        I.tyof[rest[i]] = adt["variants"][0]["fields"][i][1]
    st.heap[arg] = I.value(P0, None, rest)
    kinds = {}
    npaths = nback = 0
    for p in I.run(nt, [arg], st):
        s = p.st
        if p.kind == "back":
            nback += 1
            fn, b = p.ret
            check_loop(I, rep, s, fn, b)
            continue
        if p.kind == "panic":
            continue
        npaths += 1
        v = p.ret
        if v[0] != "agg" or not v[1].endswith("Token"):
            rep.bad("tile", "return-value", f"next_token returns something that is not a token built on the path: {show(v)[:200]}", nt.loc())
            continue
        names = [f[0] for f in prog.adt("token::Token")["variants"][0]["fields"]]
        kind = v[3][names.index("kind")]
        kn = kind[2] if kind[0] == "agg" else show(kind)
        span, text = v[3][names.index("span")], v[3][names.index("text")]
        pos = I.pos(s)
        I.sync_bad(I.rem_ok(s), nt, f"return of {kn}", s)
        start, end = span[3][0], span[3][1]
        okk = True
        if not same(start, P0):
            okk = False
            rep.bad("tile", f"{kn}:start", f"token {kn}: span starts at {show(start)[:160]}, not at the cursor on entry", nt.loc())
        if not same(end, pos):
            okk = False
            rep.bad("tile", f"{kn}:end", f"token {kn}: span ends at {show(end)[:160]} but the cursor is left at {show(pos)[:160]}", nt.loc())
        if not (text[0] == "slice" and same(plus(text[1], text[2]), start) and same(plus(text[1], text[3]), end)):
            okk = False
            rep.bad("tile", f"{kn}:text", f"token {kn}: text is {show(text)[:200]}, not the source at its span", nt.loc())
        if okk:
            rep.good("tile", f"{kn}: path {npaths}")
        kinds[kn] = kinds.get(kn, 0) + 1
        moved = I.grows(s, pos, P0)
        if not moved:
            eof = kn == "Eof" and not (I.dom(s, ("disc", ("opt", canon(P0)))) - ISet.of(0))
            left = False
            for i, f in enumerate(I.fields):
                if i != I.ipos and i not in I.strs:
                    a, b2 = rest[i], I.cur(s)[3][i]
                    if b2[0] == "agg" and b2[2] == "None" and I.dom(s, ("disc", a)) == ISet.of(1):
                        left = True
            rep.check(eof or left, "progress", f"{kn}", f"a path returns token {kn} without moving the cursor, at a point that is not end of input, and without leaving heredoc mode", nt.loc())
        else:
            if kn == "Eof":
                rep.bad("progress", "Eof-moved", "Eof is returned after moving the cursor", nt.loc())
            else:
                rep.good("progress", f"{kn}: path {npaths}")
    for rule, key, msg in I.viol:
        rep.bad(rule, key, msg)
    if not I.viol:
        rep.good("sync", f"{npaths} returns")
    rep.counts["abstract paths to a return"] = npaths
    rep.counts["loop rounds examined"] = nback
    rep.counts["token kinds returned"] = kinds
    rep.counts["read-only queries taken as functions of the position"] = sorted(I.queries)
    rep.counts["functions analysed in place"] = sorted(prog.fns[i].path for i in I.inlined)
    allk = {v["name"] for v in prog.adt("token::TokenKind")["variants"]}
    for k in sorted(allk):
        rep.check(k in kinds, "tile", f"kind {k} produced", f"token kind {k} is declared but no path of the tokenizer produces it", nt.loc())
    rep.floor("tile", "return paths", npaths, 25)


def check_loop(I, rep, s, fn, h):
    """A round of the loop at h in fn reached its head again."""
    key = f"{fn.name}"
    head = None
    for k, v in s.ext.items():
        if k[0] == "head" and k[1][0] == fn.id and k[2] in fn.loops().get(h, ()) | {h}:
            head = v
    if head is not None and I.grows(s, I.pos(s), head):
        I.sync_bad(I.rem_ok(s), fn, "loop head", s)
        rep.good("loop", f"{key}: cursor advances")
        return
    # the loop body contains an iterator step that this round executed
    body = fn.loops()[h]
    for fid, b in s.ext.get("iter", ()):
        if fid == fn.id and b in body:
            rep.good("loop", f"{key}: iterator")
            return
    # counting loop: some head symbol x was compared x < bound and now is x + k
    for t, v in s.facts.items():
        if t[0] == "rel" and v in (1, 4, 3):
            for x in (t[1], t[2]):
                if x[0] == "sym" and x[1] == "loop" and x[2] == fn.id:
                    loc = x[5]
                    cur = s.env.get((loc[0], loc[1])) if loc[0] != "S" else None
                    if cur is not None:
                        d = minus(cur, x)
                        if d is not None and not d[0] and d[1] > 0:
                            rep.good("loop", f"{key}: counter")
                            return
    rep.bad("loop", key, f"a round of a loop in {fn.path} neither advances the cursor nor an iterator nor a bounded counter: the tokenizer may not terminate", fn.loc())
