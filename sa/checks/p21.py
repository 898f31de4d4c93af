"""P21: reading embedded schemas."""
import re

from .. import panics
from ..absint import C, Interp, State, show
from ..bounds import Bounds, addf
from .p09 import testing

META = {
    "packages": ["styx-embed", "styx-embed-macros"],
    "crates": ["styx_embed", "styx_embed_macros"],
    "level": "other",
    "technique": "relational (linear-inequality) dataflow over the reader's MIR proving every index, slice and arithmetic check; dominance of the length and hash tests over every use of decompressed data; layout comparison of writers and reader",
    "level_note": "Every place of the reader that can panic, all abstract paths from its public functions, any file content.",
    "explanation": "bounds: every index, slice, overflow check and unwrap of the reader is proved from the branches before it. trusted: decompressed data is used only where its length and its hash were found equal to the recorded ones. hidden: a reader fails only if it found nothing. layout: reader and both writers agree on magic, offsets, section names and compression.",
    "assumptions": ["goblin, lz4_flex and blake3 report malformed data as errors", "64-bit usize"],
}


def run(prog, rep, tier):
    rep.rule("bounds", "every place of the reader that can panic is shown not to")
    rep.rule("trusted", "decompressed data reaches the result only after its length and hash were compared with the header")
    rep.rule("hidden", "a malformed blob does not hide the others: readers of several fail only with NotFound")
    rep.rule("layout", "what is written is laid out as it is read")
    rep.rule("sections", "the section names the macro writes are the ones the reader looks for")
    roots = [f for f in prog.fns.values() if f.crate == "styx_embed" and f.pub and not f.is_closure and not f.impl_trait and not testing(f) and reads(prog, f)]
    rep.floor("bounds", "public functions that read", len(roots), 3)
    I = Bounds(prog, inline=lambda t, c: t.crate == "styx_embed", depth=8, max_paths=60000)
    res = I.settle(sorted(roots, key=lambda f: f.path))
    reach = [f for f, via in panics.reachable(prog, roots, crates={"styx_embed"}).values()]
    # closures the library calls are analysed on their own
    rest = [f for f in reach if f.id not in I.visited]
    if rest:
        J = Bounds(prog, inline=lambda t, c: t.crate == "styx_embed", depth=8, max_paths=60000)
        J.settle(rest)
        I.ob.update(J.ob)
    for (path, line, kind), (good, why, f) in sorted(I.ob.items(), key=lambda x: (x[0][0], x[0][1] or 0, x[0][2])):
        rep.check(good, "bounds", f"{path}:{kind}", f"{path}: {kind}: {why}", f.loc(line))
    rep.floor("bounds", "places that can panic", len(I.ob), 25)
    rep.counts["functions"] = len(reach)
    rep.counts["paths"] = sum(len(x) for x in res.values())
    lay = trusted(prog, rep, I, res)
    hidden(rep, I, res)
    layout(prog, rep, lay)
    sections(prog, rep)


def reads(prog, f):
    return bool(f.argc) and ("Result<" in f.locals[0] or "Option<" in f.locals[0])


def inside(t, want, d=0):
    """Sub-terms for which want holds."""
    if not isinstance(t, tuple) or d > 30:
        return
    if t and isinstance(t[0], str) and want(t):
        yield t
    for x in t:
        if isinstance(x, tuple):
            yield from inside(x, want, d + 1)


PACKED = lambda t: t[0] == "call" and re.search(r"lz4_flex.*decompress", t[1]) is not None
HASH = lambda t: t[0] == "call" and re.search(r"blake3::hash$|blake3::Hasher", t[1]) is not None


def bytes_of(I, st, t):
    """(base, from, to) forms of the piece of data a term is."""
    t = I.base(st, t)
    n = 0
    while t[0] in ("cast", "bytes") and n < 9:
        t = I.base(st, t[2] if t[0] == "cast" else t[1])
        n += 1
    if t[0] == "call" and len(t[2]) == 1 and re.search(r"^from_le_bytes$|::(from_bytes|from|into|as_bytes|as_ref|as_slice|to_vec|to_owned|clone)$", t[1]):
        return bytes_of(I, st, t[2][0])
    if t[0] == "slice":
        return t[1], I.lin(st, t[2]), I.lin(st, t[3])
    if t[0] == "agg" and t[3] and all(x[0] == "elem" for x in t[3]):
        fs = []
        for x in t[3]:
            b = I.base(st, x[1][1] if x[1][0] == "mem" else x[1])
            i = (x[2][1], ()) if x[2][0] == "ci" else I.lin(st, x[2][1])
            if b[0] == "slice":
                i, b = addf(i, I.lin(st, b[2])), b[1]
            fs.append((b, i))
        if all(b == fs[0][0] and addf(i, fs[0][1], -1) == (k, ()) for k, (b, i) in enumerate(fs)):
            return fs[0][0], fs[0][1], addf(fs[-1][1], (1, ()))
    return None


def equalities(st):
    for t, v in st.facts.items():
        if t[0] == "op" and t[1] == "Eq" and v.iv == ((1, 1),):
            yield t[2], t[3]
            yield t[3], t[2]
        if t[0] == "rel" and v == 2:
            yield t[1], t[2]
            yield t[2], t[1]


def trusted(prog, rep, I, res):
    found = []
    n = 0
    for f, paths in res.items():
        for p in paths:
            if p.kind == "panic":
                continue
            used = []
            if p.kind == "ret" and p.ret is not None:
                v = I.deref(p.st, p.ret)
                if v[0] == "agg" and v[2] in ("Ok", "Some"):
                    used.append(v)
            for e in p.st.trace():
                if e[0] == "use" and e[1] in ("push", "extend", "append", "insert"):
                    used += list(e[2][1:])
            for u in used:
                for d in {x for x in inside(u, PACKED)}:
                    n += 1
                    got = judge(I, p.st, d)
                    where = f.loc()
                    for what in ("length", "hash"):
                        rep.check(what in got, "trusted", f"{f.path} {what}", f"{f.path} yields decompressed data whose {what} was not compared with the header", where)
                    if len(got) == 2:
                        found.append((d, got, p.st))
    rep.floor("trusted", "uses of decompressed data", n, 3)
    return found


def hidden(rep, I, res):
    """A reader of several blobs fails only if there is none."""
    n = 0
    for f, paths in sorted(res.items(), key=lambda x: x[0].path):
        if "Vec<" not in f.locals[0]:
            continue
        for p in paths:
            if p.kind != "ret" or p.ret is None:
                continue
            for s, var, e in I.res(p.st.copy(), p.ret):
                if var != "Err" or not e:
                    continue
                e = I.deref(s, e[0])
                if e[0] == "agg" and "ExtractError" in e[1]:
                    n += 1
                    rep.check(e[2] == "NotFound", "hidden", f"{f.path} {e[2]}", f"{f.path} gives up with {e[2]} at the first malformed blob", f.loc())
    rep.floor("hidden", "failures of readers", n, 1)


def content(d):
    return lambda t: t == d


def judge(I, st, d):
    """Where in the data the compared length and hash of d were found."""
    got = {}
    for a, b in equalities(st):
        if any(any(True for y in inside(h, content(d))) for h in inside(a, HASH)):
            w = bytes_of(I, st, b)
            if w is not None and addf(w[2], w[1], -1) == (32, ()):
                got["hash"] = w
        x = a
        while x[0] == "cast":
            x = x[2]
        if x[0] == "len" and any(True for y in inside(x[1], content(d))):
            w = bytes_of(I, st, b)
            if w is not None:
                got["length"] = w
    return got


def layout(prog, rep, found):
    """Offsets of the fields from the start of the magic, per magic."""
    I = Bounds(prog)
    writers = {}
    for f in prog.fns.values():
        if testing(f) or f.is_closure or not any(re.search(r"lz4_flex.*compress_prepend_size|lz4_flex.*compress", c.path) and "decompress" not in c.name for b, t, c in f.calls()):
            continue
        writers[f.path] = (f, written(prog, f))
    rep.floor("layout", "writers", len(writers), 2)
    readers = {}
    for d, got, st in found:
        for a, b in equalities(st):
            w = bytes_of(I, st, a)
            k = const_bytes(b)
            if w is None or k is None or addf(w[2], w[1], -1) != (len(k), ()):
                continue
            rel = lambda x: addf(x, w[1], -1)
            src = bytes_of(I, st, d[2][0])
            if src is None or rel(got["hash"][1])[1]:
                continue
            size = addf(src[2], src[1], -1)
            fields = [bytes_of(I, st, t) for t, c in size[1] if c == 1] if len(size[1]) == 1 and not size[0] else []
            o = {"magic": k, "length": (rel(got["length"][1])[0], addf(got["length"][2], got["length"][1], -1)[0]), "hash": rel(got["hash"][1])[0], "data": rel(src[1])[0],
                 "size": (rel(fields[0][1])[0], addf(fields[0][2], fields[0][1], -1)[0]) if fields and fields[0] else None,
                 "how": re.sub(r"<.*?>", "", d[1]).rsplit("::", 1)[-1]}
            readers.setdefault(k, []).append(o)
    rep.counts["magics read"] = [k.decode("latin1") for k in sorted(readers)]
    rep.floor("layout", "readers whose layout is known", len(readers), 1)
    PAIR = {"compress_prepend_size": "decompress_size_prepended", "compress": "decompress"}
    for path, (f, w) in sorted(writers.items()):
        if w is None:
            rep.bad("layout", path, f"{path}: what it writes is not understood", f.loc())
            continue
        rs = readers.get(w["magic"])
        rep.check(bool(rs), "layout", f"{path} magic", f"{path} writes the magic {w['magic']!r}, which no reader looks for", f.loc())
        for k in ("hash", "length"):
            rep.check(w[k + " of"], "layout", f"{path} {k} of", f"{path} does not record the {k} of what it packs", f.loc())
        for o in rs or ():
            for k in ("length", "size", "hash", "data"):
                rep.check(o[k] == w[k], "layout", f"{path} {k}", f"{path} writes the {k} at {w[k]}, the reader takes it from {o[k]}", f.loc())
            rep.check(PAIR.get(w["how"]) == o["how"], "layout", f"{path} packing", f"{path} packs with {w['how']}, the reader unpacks with {o['how']}", f.loc())


def const_bytes(t):
    if t[0] == "c" and isinstance(t[2], (bytes, tuple)):
        return bytes(t[2])
    if t[0] == "agg" and t[3] and all(x[0] == "c" and isinstance(x[2], int) for x in t[3]):
        return bytes(x[2] & 255 for x in t[3])
    return None


class Put(Bounds):
    def hook(self, I, st, c, args, site):
        n = c.name
        if n in ("extend_from_slice", "extend", "push", "append", "write_all", "put_slice") and len(args) == 2:
            st.note(("put", self.base(st, args[1])))
            return [(st, C(0, "unit"))]
        if n == "concat" and len(args) == 1:
            v = self.base(st, args[0])
            if v[0] == "agg":
                for x in v[3]:
                    st.note(("put", self.base(st, x)))
        if n == "to_le_bytes":
            return [(st, ("call", n, (self.deref(st, args[0]),), 0))]
        if n in ("as_bytes", "as_slice", "to_vec", "as_ref", "deref") and len(args) == 1 and ("str" in c.path or "Vec" in c.full or "slice" in c.path):
            return [(st, self.base(st, args[0]))]
        return super().hook(I, st, c, args, site)


def written(prog, f):
    I = Put(prog, inline=lambda t, c: t.crate == f.crate, depth=4)
    outs = []
    for p in I.settle([f])[f]:
        if p.kind != "ret":
            continue
        puts = [e[1] for e in p.st.trace() if e[0] == "put"]
        o = {"magic": None, "length": None, "size": None, "hash": None, "data": None, "how": None}
        of = {}
        at = 0
        for x in puts:
            k = const_bytes(x)
            while x[0] == "call" and len(x[2]) == 1 and x[1].rsplit("::", 1)[-1] in ("as_bytes", "as_slice", "into", "from", "as_ref", "deref"):
                x = x[2][0]
            if k is not None and o["magic"] is None:
                o["magic"] = k
                at += len(k)
            elif x[0] == "call" and x[1] == "to_le_bytes":
                y, width = x[2][0], {"u16": 2, "u32": 4, "u64": 8, "usize": 8}.get(x[2][0][1] if x[2][0][0] == "cast" else I.tyof.get(x[2][0], "u32"), 4)
                while y[0] == "cast":
                    y = y[2]
                comp = y[0] == "len" and any(True for _ in inside(y[1], lambda t: t[0] == "call" and "compress" in t[1]))
                o["size" if comp else "length"] = (at, width)
                if not comp:
                    of["length"] = I.base(p.st, y[1]) if y[0] == "len" else y
                at += width
            elif any(True for _ in inside(x, HASH)):
                of["hash"] = [I.base(p.st, a) for h in inside(x, HASH) for a in h[2]]
                o["hash"] = at
                at += 32
            elif x[0] == "call" and "compress" in x[1]:
                of["data"] = I.base(p.st, x[2][0])
                o["data"] = at
                o["how"] = re.sub(r"<.*?>", "", x[1]).rsplit("::", 1)[-1]
            else:
                o = None
                break
        if o is None:
            continue
        o["hash of"] = of.get("data") in of.get("hash", ())
        o["length of"] = of.get("data") == of.get("length")
        outs.append(o)
    return outs[0] if outs and all(o == outs[0] for o in outs) else None


def strings(prog, f):
    """String constants of a function, its promoted constants included."""
    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "const":
                for k in ("str", "bytes", "ptr_bytes"):
                    v = x.get(k)
                    if isinstance(v, str):
                        yield v
                    elif isinstance(v, list):
                        yield bytes(b & 255 for b in v).decode("latin1")
                if "promoted" in x:
                    q = prog.promoted(f, x["promoted"])
                    if q is not None:
                        yield from strings(prog, q)
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    for b in f.reach:
        yield from walk(f.stmts(b))
        yield from walk(f.term(b))


def sections(prog, rep):
    names, looked, written = {}, set(), []
    for f in prog.fns.values():
        if testing(f):
            continue
        for s in strings(prog, f):
            if f.crate == "styx_embed_macros":
                written.append(s)
                for m in re.finditer(r'target_os = "(\w+)", unsafe\(link_section = "([^"]+)"', s):
                    names[m.group(1)] = (m.group(2), f)
            else:
                looked.add(s)
    rep.counts["section names"] = len(names)
    if not names:
        # put together from pieces: the reader's names have to be among them
        for s in sorted(x for x in looked if re.fullmatch(r"(\.|__)\w+", x)):
            rep.check(any(s in w for w in written), "sections", s, f"the reader looks for the section {s!r}, which the macro does not write", "")
        return
    for os_, (s, f) in sorted(names.items()):
        for part in s.split(","):
            rep.check(part in looked, "sections", f"{os_} {part}", f"the macro puts schemas into section {s!r} on {os_}, the reader does not look for {part!r}", f.loc())
