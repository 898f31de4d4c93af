"""P25: semantic highlighting is well encoded: legend, order, overlap, units."""
import re

from ..absint import C, NONE, State, TooBig, UNIT, show, some
from ..coro import AsyncInterp, bare
from ..iset import ISet
from ..mir import norm
from ..units import Units
from .. import panics
from . import p16

META = {
    "packages": ["styx-lsp"],
    "crates": ["styx_lsp"],
    "level": "other",
    "technique": "abstract interpretation of the encoder and of every tree-walking routine; table comparison of the legend with the enum discriminants; unit inference for lengths and columns",
    "level_note": "The encoder is interpreted for up to three tokens with symbolic contents; every walking routine is interpreted with one symbolic child per loop, all node and token kinds at once.",
    "explanation": "The advertised legend is compared with the enum whose discriminants are sent. The encoder's deltas are computed symbolically and must be relative to the token sent before. In every walking routine, no child of a syntax node is "
    "highlighted or descended into twice on one path. Lengths and columns must be UTF-16 counts.",
    "assumptions": ["tokens of the syntax tree do not overlap (P05)", "sorting by line and column yields document order"],
}
CRATE = "styx_lsp"


def camel(s):
    return s[:1].lower() + s[1:]


class Str(AsyncInterp):
    pass


def names_of(prog, ctor):
    """literal or as_str(variant) names handed to `ctor`, in the order of evaluation, per function"""
    out = {}
    for f in prog.fns.values():
        if f.crate != CRATE or p16.testing(f):
            continue
        got = []
        for b, t, c in f.calls():
            if bare(c.path).endswith(ctor + "::new"):
                got.append((b, t))
        if got:
            out[f] = got
    return out


def text_of(prog, f, x):
    """the constant text of an operand (a literal, or a function applied to a constant variant)"""
    for _ in range(8):
        if x["k"] == "const":
            return x.get("str")
        ds = [d for d in f.defs().get(x["p"][0], []) if not d[2]]
        if len(ds) != 1:
            return None
        b, i, _, rv = ds[0]
        if i == -1:
            if rv["k"] != "call":
                return None
            c = f.callee(b)
            g = prog.target(c)
            if g is None:
                if c.name in ("into", "from", "to_string", "to_owned", "as_ref", "deref") and rv["args"]:
                    x = rv["args"][0]
                    continue
                return None
            if len(rv["args"]) != 1:
                return None
            v = variant_of(prog, f, rv["args"][0])
            if v is None:
                return None
            I = AsyncInterp(prog, unroll=1, depth=3, max_paths=200)
            outs = {p.ret for p in I.run(g, [v], State()) if p.kind == "ret"}
            if len(outs) == 1:
                r = outs.pop()
                if r[0] == "c":
                    return r[2] if isinstance(r[2], str) else None
            return None
        if rv["k"] in ("use", "cast"):
            x = rv.get("x") or rv.get("a")
        elif rv["k"] == "ref":
            x = {"k": "copy", "p": rv["p"][:1]}
        else:
            return None
    return None


def variant_of(prog, f, x):
    for _ in range(6):
        if x["k"] == "const":
            return None
        ds = [d for d in f.defs().get(x["p"][0], []) if not d[2]]
        if len(ds) != 1 or ds[0][1] == -1:
            return None
        rv = ds[0][3]
        if rv["k"] == "agg" and rv["ak"] == "adt" and not rv["xs"]:
            return ("agg", norm(rv["adt"]), rv["variant"], ())
        if rv["k"] == "use":
            x = rv["x"]
        elif rv["k"] == "ref":
            x = {"k": "copy", "p": rv["p"][:1]}
        else:
            return None
    return None


def legend(prog, rep):
    sizes = {}
    for ctor, enum in (("SemanticTokenType", "TokenType"), ("SemanticTokenModifier", "TokenModifier")):
        try:
            adt = prog.adt(f"semantic_tokens::{enum}")
        except Exception:
            adt = None
        fs = names_of(prog, ctor)
        got = None
        for f, calls in fs.items():
            # the array literal fixes the positions
            for b in f.reach:
                for s in f.stmts(b):
                    r = s.get("r") if s["k"] == "=" else None
                    if r and r["k"] == "agg" and r["ak"] == "array" and r["xs"]:
                        items = []
                        for x in r["xs"]:
                            ds = [d for d in f.defs().get(x["p"][0], []) if not d[2]] if x["k"] != "const" else []
                            if len(ds) == 1 and ds[0][1] == -1 and bare(f.callee(ds[0][0]).path).endswith(ctor + "::new"):
                                items.append(text_of(prog, f, ds[0][3]["args"][0]))
                            else:
                                items = None
                                break
                        if items:
                            got = (f, items)
        if adt is None or got is None or any(x is None for x in got[1]):
            rep.note(f"the {ctor} table is not a literal table of names: not compared")
            rep.good("legend", f"{ctor}:undecided")
            sizes[ctor] = None
            continue
        f, items = got
        sizes[ctor] = len(items)
        for v in adt["variants"]:
            d = v["discr"]
            ok = 0 <= d < len(items) and items[d] == camel(v["name"])
            rep.check(ok, "legend", f"{enum}::{v['name']}", f"{enum}::{v['name']} is sent as index {d}, but the advertised table has {items[d]!r} there" if d < len(items) else f"{enum}::{v['name']} is sent as index {d}, beyond the advertised table of {len(items)}", f.loc())
    return sizes


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def toks(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "sym" and t[1] == "tok":
            out.add(t)
        else:
            for x in t:
                toks(x, out)
    return out


def encoder(prog, rep):
    fns = []
    for f in prog.fns.values():
        if f.crate == CRATE and not p16.testing(f):
            if any(s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "adt" and bare(norm(s["r"]["adt"])).endswith("SemanticToken") for b in f.reach for s in f.stmts(b)):
                fns.append(f)
    rep.floor("delta", "functions that build highlighted tokens", len(fns), 1)
    pairs = 0
    fields = {}
    for f in fns:

        def on_call(I, st, c, args, site, *a):
            if c.name == "next" and (c.trait or "").endswith("iterator::Iterator"):
                k = st.ext.get("k", 0)
                if k >= 3:
                    return [(st, NONE)]
                s2 = st.copy()
                s2.ext["k"] = k + 1
                return [(s2, some(("sym", "tok", k))), (st, NONE)]
            if c.name == "push" and "Vec" in c.path and len(args) == 2:
                v = I.deref(st, args[1])
                if v[0] == "agg" and bare(v[1]).endswith("SemanticToken"):
                    st.ext["out"] = st.ext.get("out", ()) + (tuple(I.deref(st, x) for x in v[3]),)
                    z = I.assume(st.copy(), I.eq(st, v[3][0], C(0, "u32")), True)
                    nz = I.assume(st.copy(), I.eq(st, v[3][0], C(0, "u32")), False)
                    d = I.deref(st, v[3][0])
                    if d[0] == "op" and d[1] == "Sub":
                        z = z and I.assume(st.copy(), I.eq(st, d[2], d[3]), True)
                        nz = nz and I.assume(st.copy(), I.eq(st, d[2], d[3]), False)
                    st.ext["same"] = st.ext.get("same", ()) + ((bool(z), bool(nz)),)
                return [(st, UNIT)]
            return None

        I = AsyncInterp(prog, on_call=on_call, unroll=3, depth=3, max_paths=5000, merging=False)
        paths = list(I.run(f, [("sym", "arg", i) for i in range(f.argc)], State()))
        for p in paths:
            outs = p.st.ext.get("out", ())
            same = p.st.ext.get("same", ())
            prev = None
            for i, v in enumerate(outs):
                line, start = v[0], v[1]
                ts = toks((line, start, v[2]), set())
                if not ts:
                    continue
                cur = max(ts, key=lambda t: t[2])
                if prev is None:
                    prev = (cur, None)
                    prev = cur
                    continue
                pairs += 1
                key = f.path

                def diff(t):
                    """t == cur.x - prev.x -> x, else None"""
                    if t[0] == "cast":
                        t = t[2]
                    if t[0] == "op" and t[1] == "Sub" and subst(t[2], cur, prev) == t[3] and toks(t[2], set()) == {cur}:
                        return t[2]
                    if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("saturating_sub", "wrapping_sub") and len(t[2]) == 2 and subst(t[2][0], cur, prev) == t[2][1]:
                        return t[2][0]
                    return None

                dl = diff(line)
                rep.check(dl is not None, "delta", f"{key}:line", f"the line delta of a token is {show(line)}, not the distance from the token sent before it", f.loc())
                z, nz = same[i]
                if z and not nz:
                    ds = diff(start)
                    rep.check(ds is not None and ds != dl, "delta", f"{key}:column-same-line", f"the column delta of a token on the same line is {show(start)}, not the distance from the token before it", f.loc())
                    fields["start"] = ds
                elif nz and not z:
                    ok = toks(start, set()) == {cur} and start[0] not in ("op",)
                    rep.check(ok, "delta", f"{key}:column-new-line", f"the column of a token on a new line is sent as {show(start)}, not as its own column", f.loc())
                else:
                    rep.check(False, "delta", f"{key}:column", f"the column delta {show(start)} is the same whether or not the token is on the line of the one before it", f.loc())
                if dl is not None:
                    fields["line"] = dl
                prev = cur
    rep.floor("delta", "pairs of consecutive tokens", pairs, 2)
    return fields


def leaf(t):
    """name of the field a term reads"""
    while isinstance(t, tuple):
        if t[0] in ("fld", "fieldof") and len(t) > 2:
            return t[2] if isinstance(t[2], (str, int)) else None
        t = t[1] if len(t) > 1 else None
    return None


def sorting(prog, rep, fields):
    """comparators of sorts over the tokens compare line first, then column, ascending"""
    n = 0
    adt = None
    for f in prog.fns.values():
        if f.crate != CRATE or p16.testing(f):
            continue
        for b, t, c in f.calls():
            if not re.match(r"sort(_unstable)?(_by|_by_key|_by_cached_key)$", c.name) or "RawToken" not in c.full and "SemanticToken" not in c.full:
                continue
            n += 1
            cl = [g for g in prog.children.get(f.id, []) if g.id in str(t["args"]) or True]
            # the closure value handed over
            cid = None
            x = t["args"][1]
            for _ in range(4):
                if x["k"] == "const":
                    cid = x.get("closure")
                    break
                ds = [d for d in f.defs().get(x["p"][0], []) if not d[2]]
                if len(ds) != 1 or ds[0][1] == -1:
                    break
                rv = ds[0][3]
                if rv["k"] == "agg":
                    cid = rv.get("closure")
                    break
                x = rv.get("x", x)
            g = prog.fns.get(cid) if cid else None
            if g is None:
                continue
            reads = []
            order = [g]
            for h in order:
                for bb in h.reach:
                    for s in h.stmts(bb):
                        r = s.get("r") if s["k"] == "=" else None
                        if not r:
                            continue
                        pl = r.get("p") if r["k"] == "ref" else (r.get("x") or {}).get("p") if r["k"] == "use" else None
                        if pl:
                            for e in pl[1:]:
                                if e[0] == "f" and len(e) > 3 and ("RawToken" in (e[3] or "") or "SemanticToken" in (e[3] or "")):
                                    reads.append((pl[0], e[2]))
                    if h.term(bb)["k"] == "call" and h.callee(bb).name == "reverse":
                        reads.append((0, "reversed"))
                order += [k for k in prog.children.get(h.id, []) if k not in order]
            names = []
            for _, nme in reads:
                if nme not in names:
                    names.append(nme)
            ok = names[:2] in (["line", "start_char"],) or not {"line", "start_char"} & set(names)
            if names[:1] == ["line"] and "start_char" not in names:
                ok = c.name.startswith("sort_by") and not c.name.startswith("sort_unstable")  # stable, left in walking order within a line
            swapped = c.name.endswith("_by") and reads and g.argc == 3 and reads[0][0] == 3
            rep.check(ok and not swapped and "reversed" not in names, "order", f.path, f"{f.path} sorts the tokens by {', '.join(names)}{' in reverse' if swapped or 'reversed' in names else ''}, not by line and column", f.loc(t["n"]))
    rep.count("sorts of tokens", n)
    return n


SYN = re.compile(r"rowan::api::Syntax(Node|Token|Element)")


def walks(prog, rep, roots, sink):
    """every walking routine: no child handled twice on one path"""
    fns = panics.reachable(prog, roots, {CRATE}) if roots else []
    fns = [f for f in (prog.fns[x] if isinstance(x, str) else x for x in fns)]
    fns = [f for f in fns if any(re.match(r"&?rowan::api::SyntaxNode", f.locals[i].replace("mut ", "")) for i in range(1, f.argc + 1)) and f.crate == CRATE]
    kinds = prog.adts.get("styx_cst::syntax_kind::SyntaxKind")
    total = 0
    for f in fns:

        def on_call(I, st, c, args, site, *a):
            n, p = c.name, bare(c.path)
            g = prog.target(c)
            if g is not None and g.crate == CRATE:
                for i in range(1, g.argc + 1):
                    ty = g.locals[i].replace("mut ", "")
                    m = re.match(r"&?rowan::api::Syntax(Node|Token)\b", ty)
                    if m and i <= len(args):
                        st.ext["ev"] = st.ext.get("ev", ()) + ((m.group(1), I.deref(st, args[i - 1]), site, g.path, kindset(I, st, I.deref(st, args[i - 1]))),)
                        st.nid += 1
                        return [(st, UNIT if g.locals[0] == "()" else ("sym", "walked", st.nid))]
                return None
            if n in ("children_with_tokens", "children", "descendants", "descendants_with_tokens", "tokens") and args:
                return [(st, ("kids", n, I.deref(st, args[0])))]
            if n in ("into_iter", "by_ref", "peekable") and args and I.deref(st, args[0])[0] == "kids":
                return [(st, I.deref(st, args[0]))]
            if n in ("filter_map", "filter", "rev", "skip", "take", "skip_while", "take_while", "map") and args and I.deref(st, args[0])[0] == "kids":
                return [(st, ("kids", n, I.deref(st, args[0])))]
            if n == "next" and args and I.deref(st, args[0])[0] == "kids":
                k = I.deref(st, args[0])
                st.nid += 1
                s2 = st.copy()
                e = ("kid", k, s2.nid)
                return [(s2, some(e)), (st, NONE)]
            if n in ("as_token", "as_node", "into_token", "into_node") and args:
                v = I.deref(st, args[0])
                if v[0] == "kid":
                    which = n.split("_")[1]
                    key = ("isnode", v)
                    want = 1 if which == "node" else 0
                    out = []
                    known = st.facts.get(key)
                    for val in (0, 1):
                        if known is not None and val not in known:
                            continue
                        s2 = st.copy()
                        s2.facts[key] = ISet.of(val)
                        out.append((s2, some((which, v)) if val == want else NONE))
                    return out
            if n == "kind" and args and "Syntax" in c.full:
                t = ("kind", I.deref(st, args[0]))
                I.tyof[t] = "styx_cst::syntax_kind::SyntaxKind"
                return [(st, t)]
            return None

        def kindset(I, st, x):
            return st.facts.get(("disc", ("kind", x)))

        I = AsyncInterp(prog, on_call=on_call, unroll=1, depth=3, max_paths=60000, merging=False)
        try:
            ps = list(I.run(f, [("node", ("root",)) if re.match(r"&?rowan::api::SyntaxNode", f.locals[i + 1].replace("mut ", "")) else ("sym", "arg", i) for i in range(f.argc)], State()))
        except TooBig:
            rep.note(f"{f.path}: too many paths, not decided")
            continue
        bad = None
        nev = 0
        for p in ps:
            ev = p.st.ext.get("ev", ())
            nev += len(ev)
            for i, a in enumerate(ev):
                if "is_" in a[3].rsplit("::", 1)[-1][:3]:
                    continue
                for b2 in ev[i + 1 :]:
                    if sink is not None and a[0] == "Token" and (a[3] not in sink or b2[3] not in sink and b2[0] == "Token"):
                        continue
                    if a[0] == "Node" and a[3] not in walkers or b2[0] == "Node" and b2[3] not in walkers:
                        continue
                    if clash(a, b2):
                        bad = (a, b2)
        total += nev
        rep.check(bad is None, "once", f.path, f"{f.path} handles the same part of the syntax tree twice on one path: {bad[0][3].rsplit('::', 1)[-1]} and then {bad[1][3].rsplit('::', 1)[-1]}" if bad else "", f"{bad[1][2][0].file}:{bad[1][2][2]}" if bad else f.loc())
    rep.floor("once", "walking routines", len(fns), 2)
    rep.count("highlighting events on the paths", total)


walkers = set()


def origin(x):
    """(kid, parent node) of a node/token term"""
    if x[0] in ("node", "token") and len(x) == 2 and isinstance(x[1], tuple) and x[1][0] == "kid":
        return x[1], x[1][1]
    return None, None


def ancestors(x):
    out = []
    for _ in range(10):
        kid, kids = origin(x)
        if kid is None:
            break
        while kids[0] == "kids" and isinstance(kids[2], tuple) and kids[2][0] == "kids":
            kids = kids[2]
        x = kids[2]
        out.append(x)
    return out


def clash(a, b):
    if a[1] == b[1]:
        return True
    if b[0] == "Node" and b[1] in ancestors(a[1]) or a[0] == "Node" and a[1] in ancestors(b[1]):
        return True
    # two loops over the children of one node
    ka, kb = origin(a[1]), origin(b[1])
    if ka[0] and kb[0] and a[0] == b[0] and ka[0] != kb[0] and ancestors(a[1])[:1] == ancestors(b[1])[:1]:
        if a[4] is not None and b[4] is not None and not (a[4] & b[4]):
            return False
        if a[4] is None and b[4] is None or a[4] is not None and b[4] is not None and (a[4] & b[4]):
            return True
    return False


def run(prog, rep, tier):
    rep.rule("legend", "every token type and modifier is sent as the index of its own name in the advertised legend")
    rep.rule("delta", "each token is sent relative to the token sent before it; the column is relative only on the same line")
    rep.rule("order", "tokens are sorted by line and then column before they are encoded")
    rep.rule("once", "no routine highlights or descends into the same part of the syntax tree twice on one path")
    rep.rule("unit", "lengths and columns of tokens count UTF-16 units")
    rep.rule("modifier", "modifier bits lie within the advertised legend")
    sizes = legend(prog, rep)
    fields = encoder(prog, rep)
    sorting(prog, rep, fields)
    # roots: functions that lead to an encoder
    enc = [f for f in prog.fns.values() if f.crate == CRATE and not p16.testing(f) and any(s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "adt" and bare(norm(s["r"]["adt"])).endswith("SemanticToken") for b in f.reach for s in f.stmts(b))]
    callers = {}
    for f in prog.fns.values():
        if f.crate == CRATE and not p16.testing(f):
            for b, t, c in f.calls():
                g = prog.target(c)
                if g is not None:
                    callers.setdefault(g.id, set()).add(f)
    roots = set()
    for e in enc:
        roots.add(e)
        roots |= callers.get(e.id, set())
    roots = [r for r in roots if not r.coroutine]
    # sinks: functions through which a token of the tree becomes a highlighted token
    makes = {f.id for f in prog.fns.values() if f.crate == CRATE and any(s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "adt" and re.search(r"RawToken|SemanticToken$", norm(s["r"]["adt"])) for b in f.reach for s in f.stmts(b))}
    reachers = set(makes)
    ch = True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f.crate == CRATE and f.id not in reachers:
                if any((prog.target(c) is not None and prog.target(c).id in reachers) for b, t, c in f.calls()):
                    reachers.add(f.id)
                    ch = True
    sink = {prog.fns[i].path for i in reachers}
    walkers.clear()
    walkers.update(sink)
    walks(prog, rep, roots, sink)
    # units and modifier bits
    cs = p16.CharSet(prog)
    U = Units(prog, {CRATE}, p16.field_unit, skip=p16.testing, ascii_pred=cs.ascii)
    J = p16.Judge(prog, U)
    # every function the highlighting routines reach
    todo, near = list(roots), {}
    while todo:
        f = todo.pop()
        if f.id in near or f.crate != CRATE or p16.testing(f):
            continue
        near[f.id] = f
        todo += prog.children.get(f.id, [])
        todo += [g for b, t, c in f.calls() if (g := prog.target(c)) is not None]
    n = sum(p16.mix(rep, "unit", U, J, f) for f in near.values())
    rep.count("columns compared or combined", n)
    for f in enc:
        for b in f.reach:
            for s in f.stmts(b):
                r = s.get("r") if s["k"] == "=" else None
                if not (r and r["k"] == "agg" and r["ak"] == "adt" and bare(norm(r["adt"])).endswith("SemanticToken")):
                    continue
                for n, x in zip(r["fields"], r["xs"]):
                    terms = U.resolve(f, U.operand(f, x))
                    if n in ("length", "delta_start"):
                        steps = {t[1] for t in terms if t[0] == "acc"}
                        bad = [t for t in terms if J.unit(t) in ("byte", "char", "cp", "item") or J.unit(t).startswith("mixed")]
                        if {("k", 1), ("k", 2)} <= steps:
                            bad = [t for t in bad if t[0] != "acc"]
                        rep.check(not bad, "unit", f"{f.path}:{n}", f"the {n} of a highlighted token can be {p16.explain(bad[0]) if bad else ''}", f.loc(s["n"]))
                    elif n == "token_modifiers_bitset" and sizes.get("SemanticTokenModifier"):
                        top = 1 << sizes["SemanticTokenModifier"]
                        for t in terms:
                            v = t[1] if t[0] == "k" else None
                            if v is not None:
                                rep.check(0 <= v < top, "modifier", f"bits {v}", f"a token is sent with modifier bits {v:#b}, but the legend has {sizes['SemanticTokenModifier']} modifiers", f.loc(s["n"]))
