"""P44: files are replaced in one step."""
import re

from ..absint import NONE, UNIT, Interp, State, TooBig, err, ok, some
from ..coro import bare
from ..paths import Paths
from .p17 import testing

META = {
    "packages": ["styx-lsp", "styx-cli"],
    "crates": ["styx_lsp", "styx"],
    "level": "other",
    "technique": "value-origin analysis of every written path, with a typestate (staged, complete, renamed) over all paths of the functions that replace files",
    "level_note": "Every writing file-system call of the command line and the language server; every path through the functions that rename.",
    "explanation": "Every call that creates or truncates a file or writes into it is found and its path traced back to where it came from, through every caller. A path is protected when the command line also reads it (formatting in place), "
    "or when it lies in a directory of the user the programs keep data in (cache, configuration). A protected path may be written only through a staged file: the functions that call rename are run over all their paths with the helpers they call, "
    "and every staged file must be in the directory of its destination, must be written without an ignored error and without data left in a buffer, and must then be renamed onto the destination, which nothing may remove or move away before.",
    "assumptions": ["rename within a directory is atomic", "only the death of the process is considered, not a power failure", "files written below a temporary directory, and files the user names as an output, are not protected"],
}
FS = r"^(std|tokio)::fs::"
OPEN = re.compile(FS + r"(write|File::create|File::create_new|file::File::create\w*|OpenOptions::open|open_options::OpenOptions::open|write::write|copy|copy::copy|hard_link)$")
READ = re.compile(FS + r"(read|read_to_string|read::read|read_to_string::read_to_string|File::open|file::File::open)$")
RENAME = re.compile(FS + r"(rename|rename::rename)$")
REMOVE = re.compile(FS + r"(remove_file|remove_file::remove_file|remove_dir_all)$")
SAME = {"clone", "from", "into", "as_path", "as_ref", "deref", "borrow", "to_path_buf", "into_os_string", "as_os_str", "to_owned", "as_mut_os_string", "into_path_buf", "new", "into_boxed_path", "as_str", "to_string", "to_string_lossy", "display", "as_mut_os_str", "as_os_string"}
WRITES = {"write_all", "write_fmt", "write", "flush", "sync_all", "sync_data", "set_permissions", "set_len", "write_vectored", "write_all_vectored"}
BUF = re.compile(r"(BufWriter|LineWriter)")


def strip(t):
    while isinstance(t, tuple) and t and t[0] == "txt" and t[1] in ("into_os_string", "to_path_buf", "to_string", "to_str", "into_owned", "as_os_str"):
        t = t[2]
    return t


def base(t):
    t = strip(t)
    while isinstance(t, tuple) and t and t[0] in ("join", "parent"):
        t = strip(t[1])
    return t


class Stage(Interp):
    def __init__(self, prog, **k):
        k.setdefault("merging", False)
        super().__init__(prog, on_call=self.hook, **k)
        self.seen = set()

    def path(self, st, v):
        n = 0
        while n < 16:
            n += 1
            if v[0] == "ref":
                v = self.content(st, v[1])
            elif v[0] == "mem" and isinstance(v[1], tuple):
                v = v[1]
            elif v[0] == "call" and v[1] in ("canonicalize", "absolute"):
                v = v[2][0]
            else:
                break
        return v

    def file(self, st, v):
        v = self.path(st, v)
        return v if v[0] == "call" and v[1] in ("file", "buffered") else None

    def fails(self, st, what, okv):
        """The outcomes of a call: success, or an error noted as `what`."""
        s = st.copy()
        if what:
            s.note(what)
        return [(st, ok(okv)), (s, err(s.fresh("e")))]

    def hook(self, I, st, c, args, site):
        f, b, _ = site
        self.seen.add(f.id)
        n, p = c.name, bare(c.path)
        A = lambda i: self.path(st, args[i])
        at = (f.id, b)
        if OPEN.match(p):
            i = 1 if n in ("open", "copy", "hard_link") else 0
            to = A(i)
            st.note(("open", to, at))
            if n in ("write", "copy", "hard_link"):
                return self.fails(st, ("failed", to), UNIT)
            s = st.copy()
            s.note(("failed", to))
            return [(st, ok(("call", "file", (to,)))), (s, err(s.fresh("e")))]
        if RENAME.match(p):
            st.note(("rename", A(0), A(1), at))
            return self.fails(st, None, UNIT)
        if REMOVE.match(p):
            st.note(("remove", A(0), at))
            return self.fails(st, None, UNIT)
        if not args:
            return None
        w = self.file(st, args[0])
        if w is not None:
            to = w[2][0]
            if n in WRITES:
                if n.startswith("write") or n == "set_len":
                    st.note(("wrote", to))
                if w[1] == "buffered":
                    st.note(("pending", to) if n != "flush" else ("flushed", to))
                if n in ("write", "write_vectored"):
                    st.note(("failed", to))
                return self.fails(st, ("failed", to), UNIT if n != "write" else st.fresh("n"))
            if n in ("new", "with_capacity") and BUF.search(c.full):
                return [(st, ("call", "buffered", (to,)))]
            if n == "into_inner":
                s = st.copy()
                s.note(("failed", to))
                st.note(("flushed", to))
                return [(st, ok(("call", "file", (to,)))), (s, err(s.fresh("e")))]
            if n in ("get_ref", "get_mut", "by_ref", "as_ref", "deref", "deref_mut", "borrow", "borrow_mut", "clone"):
                return [(st, ("call", "file", (to,)))]
        if n == "with_capacity" and BUF.search(c.full) and len(args) == 2 and self.file(st, args[1]) is not None:
            return [(st, ("call", "buffered", self.file(st, args[1])[2]))]
        pathy = re.search(r"path::Path|OsStr|PathBuf", c.full) is not None
        if n in ("canonicalize", "absolute") and len(args) == 1:
            return self.fails(st, None, A(0))
        if pathy:
            if n in SAME and len(args) == 1:
                return [(st, A(0))]
            if n == "parent":
                s = st.copy()
                return [(st, some(("call", "parent", (A(0),)))), (s, NONE)]
            if n in ("file_name", "file_stem", "extension"):
                s = st.copy()
                return [(st, some(("call", n, (A(0),)))), (s, NONE)]
            if n in ("join", "with_extension", "with_file_name", "with_added_extension"):
                return [(st, ("call", n, (A(0), A(1))))]
            if n in ("push", "set_extension", "set_file_name", "add_extension") and args[0][0] == "ref":
                op = {"set_extension": "with_extension", "set_file_name": "with_file_name", "add_extension": "with_extension"}.get(n)
                if op is None:
                    op = "pushed" if "OsString" in c.full else "join"
                self.store(st, args[0][1], ("call", op, (A(0), A(1))))
                return [(st, UNIT)]
        return None


def folder(p):
    """The directory a path is in."""
    if p[0] == "call":
        if p[1] in ("pushed", "with_extension", "with_file_name", "with_added_extension"):
            return folder(p[2][0])
        if p[1] == "join":
            c = p[2][1]
            if not (c[0] == "c" and isinstance(c[2], str) and "/" in c[2]):
                d = p[2][0]
                return folder(d[2][0]) if d[0] == "call" and d[1] == "parent" else d
    return ("call", "parent", (p,))


def whole(d):
    return d[0] == "c" and d[2] in ("", ".")


def run(prog, rep, tier):
    rep.rule("staged", "a staged file is complete, lies beside its destination, and takes its place by a rename")
    rep.rule("replaced", "a file the program has read, or keeps for the user, is written only through a staged file")
    own = {"styx_lsp", "styx"}
    fields = lambda adt, name: ("doc", f"{adt.rsplit('::', 1)[-1]}.{name}") if adt.startswith("styx::") else None
    P = Paths(prog, own, fields, skip=testing)
    fns = [f for f in prog.fns.values() if f.crate in own and not testing(f)]
    top = lambda f: prog.fns.get(f.root, f) if f.is_closure else f
    calls = {}
    fs = set()
    renames = set()
    for f in fns:
        for b, t, c in f.calls():
            g = prog.target(c)
            if g is not None and g.crate in own:
                calls.setdefault(top(g).id, set()).add(top(f).id)
            p = bare(c.path)
            if OPEN.match(p) or RENAME.match(p) or REMOVE.match(p):
                fs.add(top(f).id)
            if RENAME.match(p):
                renames.add(top(f).id)
    # helpers whose file operations are looked into from their callers
    helpers, todo = set(fs), list(fs)
    cand, new = set(renames), set(renames)
    for _ in range(2):
        new = {x for i in new for x in calls.get(i, ())}
        cand |= new
    good, wrong, runs = set(), {}, 0
    for i in sorted(cand):
        R = prog.fns[i]
        I = Stage(prog, inline=lambda t, c: top(t).id in helpers or t.is_closure, max_paths=4000, max_steps=200000)
        st = State()
        args = []
        for k in range(1, R.argc + 1):
            a = ("sym", "arg", k)
            I.tyof[a] = R.locals[k]
            args.append(a)
        try:
            paths = list(I.run(R, args, st))
        except TooBig:
            continue
        runs += 1
        sites = {}
        for q in paths:
            if q.kind != "ret":
                continue
            ev = q.st.trace()
            for x, e in enumerate(ev):
                if e[0] == "open":
                    later = ev[x + 1:]
                    ren = next((j for j, y in enumerate(later) if y[0] == "rename" and y[1] == e[1]), None)
                    broke = ("failed", e[1]) in later
                    if ren is None:
                        sites.setdefault(e[2], set()).add("left" if broke else "raw")
                        continue
                    sites.setdefault(e[2], set()).add("renamed")
                    dest, before = later[ren][2], later[:ren]
                    name = R.path
                    if ("failed", e[1]) in before:
                        wrong[f"{name} incomplete"] = (f"{name} renames a file after writing it failed or may have been cut short", R)
                    if ("wrote", e[1]) in later[ren:]:
                        wrong[f"{name} early"] = (f"{name} renames a file before its contents are written", R)
                    last = [y[0] for y in before if y[0] in ("pending", "flushed") and y[1] == e[1]]
                    if last and last[-1] == "pending":
                        wrong[f"{name} buffered"] = (f"{name} renames a file while part of its contents may still be in a buffer", R)
                    d1, d2 = folder(e[1]), folder(dest)
                    if e[1] == dest:
                        sites[e[2]].add("raw")
                    elif d1 != d2 and not whole(d1):
                        wrong[f"{name} elsewhere"] = (f"{name} stages a file outside the directory of its destination: the rename copies or fails", R)
                    if any(y[0] == "remove" and y[1] == dest or y[0] == "rename" and y[1] == dest for y in ev[: x + 1 + ren]):
                        wrong[f"{name} gap"] = (f"{name} removes the destination before the staged file takes its place", R)
        inl = {top(prog.fns[x]).id for x in I.seen} | {R.id}
        for at, how in sites.items():
            if "raw" in how or "renamed" not in how:
                continue
            # every way to reach the site goes through this function
            up, bad = {top(prog.fns[at[0]]).id}, False
            todo = list(up)
            while todo and not bad:
                x = todo.pop()
                if x == R.id:
                    continue
                cs = calls.get(x, set())
                bad = not cs
                for y in cs:
                    if y not in inl:
                        bad = True
                    elif y not in up:
                        up.add(y)
                        todo.append(y)
            if not bad:
                good.add(at)
                rep.good("staged", f"{R.path}:{at[1]}")
    for k, (why, R) in sorted(wrong.items()):
        rep.bad("staged", k, why, R.loc())
    reads = set()
    for f in fns:
        if f.crate == "styx":
            for b, t, c in f.calls():
                if READ.match(bare(c.path)):
                    reads |= {strip(x) for x in P.resolve(f, P.operand(f, t["args"][0]))}
    reads = {r for r in reads if r[0] == "doc"}
    sinks = prot = 0
    for f in fns:
        for b, t, c in f.calls():
            p = bare(c.path)
            if not OPEN.match(p) or p.endswith("OpenOptions::open") and not any(g.name in ("write", "append", "truncate", "create", "create_new") and "OpenOptions" in g.full for _, _, g in f.calls()):
                continue
            sinks += 1
            x = t["args"][1 if c.name in ("open", "copy", "hard_link") else 0]
            terms = {strip(q) for q in P.resolve(f, P.operand(f, x))}
            for q in sorted(terms, key=repr):
                d = base(q)
                why = "which the same program reads" if q in reads else "which it keeps for the user" if d[0] == "base" and d[1].startswith("dirs") else None
                if why is None:
                    continue
                prot += 1
                rep.check((f.id, b) in good, "replaced", f"{f.path}:{c.name} {show(q)}", f"{f.path} writes directly into {show(q)}, {why}: if the process is killed the file is left cut short", f.loc(t["n"]))
    rep.floor("replaced", "writing calls", sinks, 4)
    rep.floor("replaced", "protected files", prot, 2)
    rep.floor("staged", "functions that rename", runs, 1)
    rep.count("paths read by the command line", len(reads))


def show(t):
    t = strip(t)
    if t[0] == "join":
        return show(t[1]) + "/" + show(t[2])
    if t[0] in ("base", "doc", "s"):
        return str(t[1]).rsplit("::", 1)[-1]
    return t[0]
