"""P28: recursion in the readers is limited."""
import re

from ..mir import strip_generics

META = {
    "packages": ["styx-parse", "styx-cst", "styx-tree", "serde_styx", "facet-styx"],
    "crates": ["styx_tokenizer", "styx_parse", "styx_cst", "styx_tree", "serde_styx", "facet_styx"],
    "level": "other",
    "technique": "strongly connected components of the readers' call graph, with a depth-limit rule for every cycle",
    "level_note": "Every function the readers can reach, including calls back into this code from serde and from closures.",
    "explanation": "The call graph below every reading entry point (tokenizer, lexer, event parser, CST parser and its validation, tree builder, the deserializers) is built, with the calls foreign generic code makes back into the types handed to it. "
    "Each cycle in it must pass a depth limit: a comparison of a depth counter with a bound, which every recursive call of that function comes after, where the counter is raised (or a remaining depth lowered) on the cycle. A cycle without one nests as deeply as the document, or recurses once for each token of it.",
    "assumptions": ["destructors of nested values and recursion inside foreign crates are not followed", "a limit, where there is one, is small enough for the stack"],
}
ENTRY_CRATES = ("styx_tokenizer", "styx_parse", "styx_cst", "styx_tree", "serde_styx", "facet_styx")
# the function a cycle is named after when it is among its members
NAMES = ("parse_atom", "build_tag_chain", "emit_atom_as_value", "from_atom", "to_key_string", "validate_node", "push_value", "skip_value", "deserialize_any", "next_event")


def entries(prog, crates):
    """Readers: methods that drive the token source, and public functions that take the source text or a tree of it."""
    out = []
    for f in prog.fns.values():
        if f.crate not in crates or f.is_closure:
            continue
        ty = strip_generics(f.self_ty or "")
        if re.search(r"::(Tokenizer|Lexer|Parser|CstParser|TreeBuilder|Deserializer|StyxParser|InnerParser)\b", ty) and not re.search(r"(Debug|Clone|Display)$", f.impl_trait or ""):
            out.append(f)
        elif f.pub and f.argc and re.match(r"&('\w+ )?str$", f.locals[1]) and not f.impl_trait and re.search(r"(parse|from_str|validate)", f.path.rsplit("::", 1)[-1]):
            out.append(f)
        elif f.pub and re.search(r"validat\w*$", f.path.rsplit("::", 1)[-1]) and f.crate == "styx_cst":
            out.append(f)
    return out


def callbacks(prog, crates):
    """type path -> methods foreign code may call on it through a trait it implements."""
    out = {}
    for f in prog.fns.values():
        if f.crate in crates and f.impl_trait and not f.is_closure and re.match(r"^(serde|serde_core|facet_format)\b", f.impl_trait):
            out.setdefault(bare(f.self_ty or ""), set()).add(f.id)
    return out


def bare(t):
    t = strip_generics(t)
    while True:
        u = re.sub(r"^(&('\w+ )?(mut )?)", "", t)
        if u == t:
            return t
        t = u


def graph(prog, crates):
    cb = callbacks(prog, crates)
    G, direct, sites = {}, {}, {}
    for f in prog.fns.values():
        if f.crate not in crates:
            continue
        direct[f.id] = set()
        out = G.setdefault(f.id, set())
        for k in prog.children.get(f.id, ()):
            k = getattr(k, "id", k)
            if k in prog.fns:
                out.add(k)
                direct[f.id].add(k)
        for b, t, c in f.calls():
            g = prog.target(c)
            if g is not None:
                if g.crate in crates:
                    out.add(g.id)
                    direct[f.id].add(g.id)
                    sites.setdefault((f.id, b), set()).add(g.id)
                continue
            if not re.match(r"^<?(serde|serde_core|facet_format)\b", c.path):
                continue
            for a in t.get("args", ()):
                if a.get("k") in ("copy", "move") and len(a["p"]) == 1:
                    back = cb.get(bare(f.locals[a["p"][0]]), set())
                    out |= back
                    sites.setdefault((f.id, b), set()).update(back)
    return G, direct, sites


def components(G):
    idx, low, st, on, out = {}, {}, [], set(), []
    for root in sorted(G):
        if root in idx:
            continue
        work = [(root, iter(sorted(G.get(root, ()))))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(G.get(w, ())))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in G.get(v, ()):
                        out.append(c)
    return out


def below(G, roots):
    seen, todo = set(roots), list(roots)
    while todo:
        for w in G.get(todo.pop(), ()):
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def origin(f, x, d=0):
    """('field', name) / ('param', i) / None of an integer operand."""
    if x.get("k") not in ("copy", "move") or d > 8:
        return None
    p = x["p"]
    if len(p) > 1:
        fields = [str(e) for e in p[1:] if e != "*"]
        if p[0] > f.argc and fields:
            # the overflow pair of a checked addition
            o = origin(f, {"k": "copy", "p": [p[0]]}, d + 1)
            if o:
                return o
        return ("field", fields[-1]) if fields else None
    l = p[0]
    if 1 <= l <= f.argc:
        return ("param", l)
    for _, i, proj, r in f.defs().get(l, []):
        if proj or i < 0:
            continue
        if r["k"] in ("use", "cast") and "x" in r:
            return origin(f, r["x"], d + 1)
        if r["k"] == "bin" and r["op"][:3] in ("Add", "Sub"):
            return origin(f, r["a"], d + 1)
    return None


def steps(f):
    """Counters raised or lowered by a constant in f."""
    out = set()
    for b in range(len(f.blocks)):
        for s in f.stmts(b):
            if s["k"] == "=" and s["r"]["k"] == "bin" and s["r"]["op"][:3] in ("Add", "Sub") and s["r"]["b"].get("k") == "const" and s["r"]["b"].get("int"):
                o = origin(f, s["r"]["a"])
                if o:
                    out.add(o)
        t = f.term(b)
        if t["k"] == "call" and re.search(r"(saturating|checked|wrapping)_(add|sub)$", t["f"].get("path", "")):
            o = origin(f, t["args"][0])
            if o:
                out.add(o)
    return out


def onward(f, b):
    seen, todo = {b}, [b]
    while todo:
        for s in f.succ(todo.pop()):
            if s not in seen:
                seen.add(s)
                todo.append(s)
    return seen


def limited(prog, f, sites, comp):
    """f compares a depth with a bound before each of its calls into the cycle."""
    tests = []
    for b in range(len(f.blocks)):
        if f.term(b)["k"] != "switch":
            continue
        for s in f.stmts(b):
            if s["k"] == "=" and s["r"]["k"] == "bin" and s["r"]["op"] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                for x in (s["r"]["a"], s["r"]["b"]):
                    o = origin(f, x)
                    if o:
                        tests.append((b, o))
    if not tests:
        return False
    raised = set()
    for i in comp:
        raised |= steps(prog.fns[i])
    calls = [b for (i, b), ts in sites.items() if i == f.id and ts & comp]
    if not calls:
        return False
    for b, o in tests:
        if o not in raised:
            continue
        if all(f.dominates(b, cb) for cb in calls) and any(not any(cb in onward(f, s) for cb in calls) for s in f.succ(b)):
            return True
    return False


def run(prog, rep, tier):
    crates = [c for c in META["crates"]]
    G, direct, sites = graph(prog, crates)
    roots = entries(prog, crates)
    live = below(G, [f.id for f in roots])
    sub = {v: {w for w in ws if w in live} for v, ws in G.items() if v in live}
    comps = components(sub)
    RULE = "depth"
    rep.rule(RULE, "every cycle in the readers' call graph passes a comparison of a depth counter with a bound")
    for v in sorted(live):
        if not any(v in c for c in comps):
            rep.good(RULE, f"{prog.fns[v].path}: not recursive")
    todo = list(comps)
    while todo:
        c = todo.pop()
        inner = {v: {w for w in sub[v] if w in c} for v in c}
        guards = {i for i in c if limited(prog, prog.fns[i], sites, c)}
        if guards:
            rep.good(RULE, "depth limited: " + ", ".join(sorted(prog.fns[i].path for i in guards)))
            todo += components({v: ws - guards for v, ws in inner.items() if v not in guards})
            continue
        fs = sorted((prog.fns[i] for i in c), key=lambda f: f.path)
        top = [f for f in fs if not f.is_closure] or fs
        own = {v: ws & direct[v] for v, ws in inner.items()}
        if c not in components(own):
            # closed only by foreign code calling back
            rep.bad(RULE, fs[0].crate + ": through visitors", "recursion through foreign code without a depth limit: " + ", ".join(sorted({f.path.rsplit("::", 1)[-1] for f in top})), top[0].loc(top[0].term(0).get("n", 0)))
            todo += components(own)
            continue
        name = next((f for k in NAMES for f in top if f.path.rsplit("::", 1)[-1] == k), top[0])
        rep.bad(RULE, re.sub(r"^<|>|&mut ", "", name.path).replace(" as ", "/"), "recursion without a depth limit: " + ", ".join(f.path.rsplit("::", 1)[-1] if not f.is_closure else f.path for f in top[:8]) + (" …" if len(top) > 8 else ""), name.loc(name.term(0).get("n", 0)))
        # the cycles that do not pass this function are cycles of their own
        todo += components({v: ws - {name.id} for v, ws in inner.items() if v != name.id})
    rep.count("functions_below_readers", len(live))
    rep.count("reader_entry_points", len(roots))
    rep.count("recursive_cycles", len(comps))
    rep.floor(RULE, "reader entry points", len(roots), 100)
    rep.floor(RULE, "functions below the readers", len(live), 200)
