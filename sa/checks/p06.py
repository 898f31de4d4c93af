"""P06: building the syntax tree never unbalances its nodes."""
from ..absint import C, State
from ..cstream import KIND
from ..mir import strip_generics
from .. import absstr
from . import p05

META = {
    "packages": ["styx-cst"],
    "crates": ["styx_tokenizer", "styx_cst"],
    "level": "other",
    "technique": "typestate analysis of the tree builder's open-node depth over all paths (abstract interpretation with summaries); exhaustive evaluation of the kind conversions",
    "level_note": "Every path of every function that starts or finishes nodes, for any token stream; loops must keep the depth from head to head; all node kinds and all raw values.",
    "explanation": "Starting a node adds one to the depth of open nodes, finishing one takes one away. No function may finish a node it did not start, every return leaves the "
    "depth of its entry, every loop round keeps the depth, text is only added inside a node, and the entry function starts exactly one outermost node before it finishes the tree. "
    "Conversions between numeric and named kinds are evaluated for every value.",
    "assumptions": ["rowan's GreenNodeBuilder panics only on unbalanced use"],
}
SK = "styx_cst::syntax_kind::SyntaxKind"


def run(prog, rep, tier):
    rep.rule("balance", "nodes are started and finished in pairs on every path of every function and every round of every loop; text is added inside nodes only")
    rep.rule("root", "the entry function starts one outermost node and finishes the tree once, with no node open")
    rep.rule("kinds", "numeric and named node kinds convert into each other without loss")
    m, rs, sums, res = p05.analyse(prog, False)
    rep.floor("balance", "parser functions analysed", len({k[0] for k in res}), 9)
    rep.floor("balance", "places that start a node", len({at for f, I, ps in res.values() for (k, at) in I.seen if k == "node"}), 10)
    p05.report(prog, rep, m, res, {"node", "close"}, "balance")
    for r in rs:
        f, I, ps = res[r]
        for p in ps:
            if p.kind == "ret":
                e = p.st.ext
                rep.check(e.get("finished", 0) == 1, "root", f"{f.path}:finish", f"{f.path} finishes the tree {e.get('finished', 0)} times", f.loc())
                rep.check(e.get("tops", 0) == 1, "root", f"{f.path}:tops", f"{f.path} starts {e.get('tops', 0)} outermost nodes, the builder needs exactly one", f.loc())
    # outside the entry functions nothing finishes the tree
    for key, (f, I, ps) in res.items():
        if key not in rs:
            rep.check(not any(k == "finish" for k, at in I.seen), "root", f"{f.path}:nofinish", f"{f.path} finishes the tree inside the recursive part", f.loc())
    conversions(prog, rep, m)


def conversions(prog, rep, m):
    adt = prog.adts[SK]
    names = {v["name"]: v["discr"] for v in adt["variants"]}
    I = absstr.AbsStr(prog, depth=5)
    to_raw, from_raw, of_token = [], [], []
    for f in m.fns.values():
        if f.argc != 1 or f.is_closure:
            continue
        a, r = strip_generics(f.locals[1]), strip_generics(f.locals[0])
        raw = lambda t: t == "u16" or t.endswith("SyntaxKind") and t != SK and "&" not in t
        if f.crate == "styx_cst" and a == SK and raw(r):
            to_raw.append(f)
        if f.crate == "styx_cst" and raw(a) and SK in f.locals[0]:
            from_raw.append(f)
        if a == KIND and r == SK:
            of_token.append(f)
    rep.floor("kinds", "conversions to numbers", len(to_raw), 2)
    rep.floor("kinds", "conversions from numbers", len(from_raw), 2)
    rep.floor("kinds", "conversions from token kinds", len(of_token), 1)

    def num(v, p):
        v = I.deref(p.st, v)
        while v[0] == "agg" and v[3]:
            v = I.deref(p.st, v[3][0])
        if v[0] == "cast":
            v = v[-1]
        return v[2] if v[0] == "c" else None

    used = {}
    for key in names:
        used[key] = key.startswith("__")
    for f in to_raw:
        for n, d in names.items():
            if used[n]:
                continue
            ps = [p for p in I.run(f, [("agg", SK, n, ())]) if p.kind == "ret"]
            got = {num(p.ret, p) for p in ps}
            rep.check(got == {d}, "kinds", f"{f.path}:{n}", f"{f.path} turns {n} into {sorted(map(str, got))}, its number is {d}", f.loc())
    for f in from_raw:
        wrap = strip_generics(f.locals[1]) != "u16"
        for n, d in names.items():
            if used[n]:
                continue
            x = C(d, "u16")
            if wrap:
                x = ("agg", strip_generics(f.locals[1]), None, (x,))
            ps = I.run(f, [x])
            got = set()
            for p in ps:
                v = I.deref(p.st, p.ret) if p.kind == "ret" else None
                if v is not None and v[0] == "agg" and v[2] == "Some":
                    v = I.deref(p.st, v[3][0])
                got.add(v[2] if v is not None and v[0] == "agg" else p.kind)
            rep.check(got == {n}, "kinds", f"{f.path}:{d}", f"{f.path} turns {d} into {sorted(map(str, got))}, the kind with that number is {n}", f.loc())
        # numbers of no kind must be refused, not mapped to a kind
        for d in [max(names.values()) + 1, 65535] + [names[n] for n in names if used[n]]:
            if d in [names[n] for n in names if not used[n]]:
                continue
            x = C(d, "u16")
            if wrap:
                continue
            for p in I.run(f, [x]):
                v = I.deref(p.st, p.ret) if p.kind == "ret" else None
                rep.check(v is None or v[0] == "agg" and v[2] == "None", "kinds", f"{f.path}:refuse {d}", f"{f.path} accepts {d}, which is no kind", f.loc())
    for f in of_token:
        seen = {}
        for n in m.K:
            ps = [p for p in I.run(f, [("agg", KIND, n, ())]) if p.kind == "ret"]
            got = {I.deref(p.st, p.ret)[2] for p in ps}
            one = got.pop() if len(got) == 1 else None
            rep.check(one is not None and not used.get(one, True), "kinds", f"{f.path}:{n}", f"{f.path} has no kind for token {n}", f.loc())
            rep.check(one not in seen, "kinds", f"{f.path}:{n}:own", f"{f.path} gives tokens {seen.get(one)} and {n} the same kind {one}", f.loc())
            seen[one] = n
