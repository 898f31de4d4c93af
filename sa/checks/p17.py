"""P17: extension processes are started only for commands the user allowed."""
import re

from ..absint import C, State, TooBig, show
from ..coro import AsyncInterp, bare
from ..mir import norm, strip_generics
from .. import panics

META = {
    "packages": ["styx-lsp"],
    "crates": ["styx_lsp"],
    "level": "other",
    "technique": "abstract interpretation of every path to a process start (async bodies included); reachability of writers of the allow list",
    "level_note": "All abstract paths from the functions that contain a process start, followed up to their callers until the decision is found. Library code is not searched for process starts.",
    "explanation": "Every construction of a process command in the language server is found. On every abstract path to it the program name must have been found equal to an element of the allow list; "
    "the allow list is the field filled from the user's configuration, and only the explicit editor command may extend it.",
    "assumptions": ["the modules named testing are not part of the running server"],
}
SPAWN = re.compile(r"(std|tokio)::process::(Command::new|unix::|CommandExt)")
LAUNCH = re.compile(r"(libc::|nix::).*(exec|spawn|fork)")


def testing(f):
    return "::testing::" in f.path or "::tests::" in f.path


def has(t, pred, d=0):
    if not isinstance(t, tuple) or not t or d > 40:
        return False
    if pred(t):
        return True
    return any(has(x, pred, d + 1) for x in t if isinstance(x, tuple))


def list_fields(prog):
    """(struct, field name, index) of collections filled from the configuration's allowed_extensions."""
    out = set()
    built = []
    for f in prog.fns.values():
        if f.crate != "styx_lsp" or testing(f):
            continue
        reads = False
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and '"allowed_extensions"' in str(s["r"]).replace("'", '"'):
                    reads = True
        if not reads:
            continue
        for b in f.reach:
            for s in f.stmts(b):
                r = s["r"] if s["k"] == "=" else None
                if r and r["k"] == "agg" and r["ak"] == "adt":
                    a = prog.adts.get(norm(r["adt"]))
                    if not a or a["kind"] != "struct":
                        continue
                    for i, (n, t) in enumerate(a["variants"][0]["fields"]):
                        if "alloc::string::String" in t and re.search(r"Vec|Set|Map", t) and n != "allowed_extensions" and re.search(r"RwLock|Mutex|Cell|Vec<alloc::string::String>", t) and "Extension" not in t.replace(norm(r["adt"]), ""):
                            out.add((norm(r["adt"]), n, i))
                            built.append((f, b, s, i))
    return out, built


def spawns(f):
    for b, t, c in f.calls():
        if SPAWN.search(bare(c.path)) or LAUNCH.search(c.path):
            yield b, t, c


class Gate(AsyncInterp):
    def __init__(self, prog, rep, fields):
        super().__init__(prog, on_call=self.hook, depth=9, max_paths=60000, inline=lambda t, c: t.crate == "styx_lsp" and (t.id in self.keep))
        self.fields = fields
        self.keep = set()
        self.hits = []

    def hook(self, I, st, c, args, site):
        if SPAWN.search(bare(c.path)):
            self.hits.append((site, bool(args) and self.gated(st, self.deref(st, args[0])), show(self.deref(st, args[0])) if args else "?"))
        return None

    def listed(self, t):
        names = {n for _, n, _ in self.fields} | {"allowed_extensions"}
        return has(t, lambda x: x[0] == "elemof" or x[0] == "call") and has(t, lambda x: x[0] == "fld" and len(x) > 2 and x[2] in names or x[0] == "ref" and any(isinstance(p, tuple) and p[0] == "f" and p[2] in names for p in x[1][-1]))

    def gated(self, st, cmd):
        for k, d in st.facts.items():
            if k[0] == "rel" and d == 2:
                a, b = k[1], k[2]
            elif k[0] == "op" and k[1] == "Eq" and d.iv == ((1, 1),):
                a, b = k[2], k[3]
            else:
                continue
            a, b = self.deref(st, a), self.deref(st, b)
            if a == cmd and self.listed(b) or b == cmd and self.listed(a):
                return True
        return False


def callers(prog):
    up = {}
    for f in prog.fns.values():
        for g in panics.callees(prog, f):
            up.setdefault(g.id, set()).add(f.id)
    return up


def run(prog, rep, tier):
    rep.rule("gate", "on every path to a process start the program name equals an element of the allow list")
    rep.rule("allow-writers", "the allow list is extended only on the user's explicit command")
    rep.rule("allow-source", "the allow list starts as the user's configuration, or empty")
    rep.rule("no-other-start", "the other crates the language server is built from start no process")
    fields, built = list_fields(prog)
    rep.floor("allow-source", "allow-list fields", len(fields), 1)
    rep.counts["allow list"] = sorted(f"{a}.{n}" for a, n, _ in fields)
    fns = [f for f in prog.fns.values() if f.crate == "styx_lsp" and not testing(f)]
    sites = [(f, b, t, c) for f in fns for b, t, c in spawns(f)]
    rep.floor("gate", "process starts", len(sites), 1)
    up = callers(prog)
    # everything that may matter to the decision: callees of the functions on the way
    for f in {x[0] for x in sites}:
        decide(prog, rep, fields, up, f, [])
    writers(prog, rep, fields, up, fns)
    sources(prog, rep, fields, built)
    n = 0
    for f in prog.fns.values():
        if f.crate == "styx_lsp" or testing(f):
            continue
        n += 1
        for b, t, c in spawns(f):
            rep.bad("no-other-start", f.path, f"{f.path} starts a process", f.loc(t["n"]))
    rep.good("no-other-start", f"{n} functions")


def decide(prog, rep, fields, up, f, via, last=None):
    chain = [f.id] + via
    I = Gate(prog, rep, fields)
    # small helpers only: the bodies on the way down and what touches the allow list
    names = {n for _, n, _ in fields}
    I.keep = set(chain)
    for g in list(panics.reachable(prog, [f], ("styx_lsp",)).values()):
        g = g[0]
        txt = str(g.blocks)
        small = len(g.blocks) <= 60 and not testing(g)
        if any(n in txt for n in names) or small:
            I.keep.add(g.id)
    try:
        I.run(f)
    except TooBig:
        rep.bad("gate", f"{f.path}:size", f"{f.path}: too many paths to decide", f.loc())
        return
    own = I.hits
    if own and all(h[1] for h in own):
        rep.good("gate", f"{f.path}")
        return
    ups = [prog.fns[u] for u in up.get(f.id, ()) if u in prog.fns and u != f.id]
    # a public function that is not a trait method may be called by anyone
    if not ups or (f.pub and not f.is_closure and not f.coroutine) or len(via) > 8:
        h = next((h for h in own if not h[1]), None) or last
        if h:
            s = h[0]
            rep.bad("gate", f"{f.path}", f"{f.path} reaches the start of process {h[2]} without having found the command equal to an allow-list entry", s[0].loc(s[2]))
        return
    if f.is_closure and not f.coroutine:
        ups = [prog.fns[f.parent]] if f.parent in prog.fns else ups
    for u in ups:
        if testing(u):
            continue
        decide(prog, rep, fields, up, u, chain, next((h for h in own if not h[1]), None) or last)


def writers(prog, rep, fields, up, fns):
    names = {n for _, n, _ in fields}
    w = []
    for f in fns:
        # a writing access: the lock's write side (or a plain &mut) taken on the field
        refs = set()
        for b in f.reach:
            for s in f.stmts(b):
                if s["k"] == "=" and s["r"]["k"] == "ref" and any(isinstance(e, list) and e[0] == "f" and e[2] in names for e in s["r"]["p"][1:]):
                    if s["r"].get("mut"):
                        w.append(f)
                    refs.add(s["p"][0])
        for b, t, c in f.calls():
            if c.name in ("write", "write_owned", "blocking_write", "lock", "blocking_lock", "get_mut", "try_write", "borrow_mut", "blocking_lock_owned"):
                for x in t["args"][:1]:
                    if x["k"] in ("copy", "move") and x["p"][0] in refs:
                        w.append(f)
    w = list({f.id: f for f in w}.values())
    rep.floor("allow-writers", "functions that extend the allow list", len(w), 1)
    for f in w:
        seen, todo, roots = set(), [f.id], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            g = prog.fns[x]
            if g.impl_trait and "LanguageServer" in g.impl_trait or any(s in g.path for s in ("LanguageServer>::", "StyxLspHost")):
                roots.add(g.path)
                continue
            todo += [u for u in up.get(x, ()) if not testing(prog.fns[u])]
        for r in roots:
            rep.check("::execute_command" in r, "allow-writers", f"{f.path}<-{r}", f"{r} can extend the allow list through {f.path} without the user's command", f.loc())
        rep.check(bool(roots), "allow-writers", f"{f.path}:roots", f"no handler reaches {f.path}: the entry point of the user's decision is unknown", f.loc())


def sources(prog, rep, fields, built):
    """The values the list field is constructed from."""
    from ..absint import Interp

    for f in {x[0].id: x[0] for x in built}.values():
        I = AsyncInterp(prog, depth=2, inline=lambda t, c: t.crate == "styx_lsp" and len(t.blocks) < 20)
        for p in I.run(f):
            if p.kind != "ret" or p.ret[0] != "agg":
                continue
            for a, n, i in fields:
                if p.ret[1] != a:
                    continue
                v = p.ret[3][i]
                cfg = has(v, lambda x: x[0] == "fld" and len(x) > 2 and x[2] == "allowed_extensions")
                leaf = has(v, lambda x: x[0] == "call" and bare(str(x[1])).endswith(("Vec::new", "HashSet::new", "::default", "Vec::default", "BTreeSet::new")))
                lit = has(v, lambda x: x[0] == "c" and len(x) > 2 and isinstance(x[2], str))
                rep.check((cfg or leaf) and not lit, "allow-source", f"{f.path}", f"{f.path} initialises the allow list from {show(v)}", f.loc())
