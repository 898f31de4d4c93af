"""P05: the syntax tree's text is the source, byte for byte."""
from .. import cstream
from ..absint import C, NONE, State, some, show
from ..cstream import KIND, TOKEN, Model
from ..iset import ISet
from ..mir import strip_generics

META = {
    "packages": ["styx-cst"],
    "crates": ["styx_tokenizer", "styx_cst"],
    "level": "other",
    "technique": "typestate analysis of the tree-building parser over an arbitrary token stream (abstract interpretation with least summaries of the recursive functions)",
    "level_note": "Every function that takes tokens, for every sequence of token kinds; loops by an inductive state at their head, recursion by least summaries. "
    "Tag tokens are split by the parser: their text is followed for tags of up to four segments with arbitrary characters.",
    "explanation": "The parser is interpreted with a current token of unknown kind. Taking a token leaves its text owing; adding text to the tree pays it. Before the next "
    "token is taken, another parser function is called, a loop goes round or the function returns, exactly the text of the token taken must have been added. "
    "The entry function may only return at the end of the input. The token iterator must hand on every token up to and including the end of input.",
    "assumptions": ["tokens tile the source (P01)", "a tag token is '@' and a name, further '@' names joined by '/' (P02)"],
}


def roots(m):
    called = {j for i in m.active for j in m.calls[i]}
    return [(i, tuple(None for _ in m.fns[i].locals[2 : m.fns[i].argc + 1])) for i in sorted(m.active) if i not in called and m.fns[i].argc]


def analyse(prog, tagtext):
    m = Model(prog, "styx_cst")
    m.tagtext = tagtext
    rs = [r for r in roots(m)]
    sums, res = cstream.solve(m, rs)
    return m, rs, sums, res


def ctxname(m, key):
    a = [show(v) for v in key[1] if v is not None]
    return m.fns[key[0]].path + (f"({', '.join(a)})" if a else "")


def blockname(prog, at):
    f = prog.fns.get(at[0])
    return (f.path if f else at[0]) + f" bb{at[1]}"


def where(prog, at):
    f = prog.fns.get(at[0])
    return f.loc() if f else None


def report(prog, rep, m, res, kinds, rule):
    for key, (f, I, ps) in sorted(res.items(), key=lambda x: repr(x[0])):
        bad = 0
        for (k, at), text in sorted(I.faults.items(), key=repr):
            if k in kinds:
                bad += 1
                g = prog.fns.get(at[0])
                rep.bad(rule, f"{ctxname(m, key)}:{g.name if g else at[0]}:{text}", f"{text} (in {g.path if g else at[0]}, analysing {ctxname(m, key)})", where(prog, at))
        for (k, at), n in sorted(I.seen.items(), key=repr):
            if k in kinds:
                rep.good(rule, f"{ctxname(m, key)} {blockname(prog, at)}")
        if not bad:
            rep.good(rule, ctxname(m, key))
        rep.count("abstract paths", len(ps))


def run(prog, rep, tier):
    rep.rule("text", "between taking a token and taking the next, calling another parser function, going round a loop or returning, the texts added to the tree are exactly the token's text")
    rep.rule("end", "the parser returns only at the end of the input")
    rep.rule("stream", "the token iterator passes on every token of the tokenizer, which reads the whole source")
    m, rs, sums, res = analyse(prog, True)
    rep.floor("text", "parser functions analysed", len({k[0] for k in res}), 9)
    rep.floor("text", "entry points", len(rs), 1)
    rep.floor("text", "places that add text", len({at for f, I, ps in res.values() for (k, at) in I.seen if k == "tok"}), 3)
    report(prog, rep, m, res, {"text", "tok"}, "text")
    for r in rs:
        f, I, ps = res[r]
        n = sum(1 for p in ps if p.kind == "ret")
        rep.check(n > 0, "end", f.path, f"{f.path} never returns")
        for (k, at), c in I.seen.items():
            if k == "end":
                rep.good("end", blockname(prog, at))
    stream(prog, rep, m)


def stream(prog, rep, m):
    news = 0
    iters = 0
    for f in sorted(m.fns.values(), key=lambda f: f.id):
        for b, t, c in f.calls():
            full = strip_generics(c.full)
            if c.name == "new" and "Tokenizer" in full:
                news += 1
                source(prog, rep, f)
            if c.name == "next_token" and "Tokenizer" in full and f.argc and f.locals[1].startswith("&mut"):
                iters += 1
                iterator(prog, rep, m, f)
                break
    rep.floor("stream", "tokenizers created", news, 1)
    rep.floor("stream", "token iterators", iters, 1)


def source(prog, rep, f):
    I = cstream.Vecs(prog, depth=6)

    def hook(J, st, c, args, site):
        if c.name == "new" and "Tokenizer" in strip_generics(c.full):
            v = J.deref(st, args[0])
            ok = v[0] == "sym" and v[1] == "arg" or v == ("sfx", ("txt", v[1][1])) if v[0] == "sfx" and v[1][0] == "txt" and v[1][1][:2] == ("sym", "arg") else v[0] == "sym" and v[1] == "arg"
            rep.check(ok, "stream", f"{f.path}:source", f"{f.path} tokenizes {show(v)}, not the whole source it was given", f.loc())
            return [(st, st.fresh("tokenizer"))]
        return None

    I.on_call = hook
    I.run(f)


def iterator(prog, rep, m, f):
    """f: &mut self -> Option<Token> (or Token), reads from the tokenizer."""
    I = cstream.Vecs(prog, depth=6)
    K = m.K

    def hook(J, st, c, args, site):
        if c.name == "next_token" and "Tokenizer" in strip_generics(c.full):
            n = st.ext.get("n", 0)
            st.ext["n"] = n + 1
            k = ("sym", ("t", n), "kind")
            J.tyof[k] = KIND
            fs = []
            for nm, ty in prog.adts[TOKEN]["variants"][0]["fields"]:
                if strip_generics(ty) == KIND:
                    fs.append(k)
                else:
                    x = ("sym", ("t", n), nm)
                    J.tyof[x] = ty
                    fs.append(x)
            return [(st, ("agg", TOKEN, None, tuple(fs)))]
        return None

    I.on_call = hook
    allk = m.all
    for fl in (True, False):
        st = State()
        SELF = ("top", 0, 0)
        adt = prog.adts.get(strip_generics(f.locals[1].replace("&mut ", "").replace("&", "")))
        fs = []
        flags = 0
        for nm, ty in adt["variants"][0]["fields"]:
            if ty == "bool":
                fs.append(C(int(fl), "bool"))
                flags += 1
            else:
                x = ("sym", "self", nm)
                I.tyof[x] = ty
                fs.append(x)
        st.env[(SELF, 0)] = ("agg", adt["path"] if "path" in adt else strip_generics(f.locals[1]), None, tuple(fs))
        for p in I.run(f, [("ref", ("L", SELF, 0, ()))], st):
            if p.kind != "ret":
                continue
            n = p.st.ext.get("n", 0)
            r = I.deref(p.st, p.ret)
            after = I.deref(p.st, p.st.env[(SELF, 0)])
            done = any(ty == "bool" and I.deref(p.st, v) == C(1, "bool") for (nm, ty), v in zip(adt["variants"][0]["fields"], after[3]))
            what = f"{f.path}:{'finished' if fl and flags else 'running'}"
            if fl and flags:
                # the iterator has already handed out the end of input
                rep.check(n == 0 or done, "stream", what + ":over", f"{f.path} reads on after the end of input", f.loc())
                continue
            rep.check(n == 1, "stream", what + ":reads", f"{f.path} reads {n} tokens to hand out one", f.loc())
            given = r[3][0] if r[0] == "agg" and r[2] == "Some" else r if r[0] == "agg" and strip_generics(r[1]) == TOKEN else None
            given = I.deref(p.st, given) if given is not None else None
            ok = given is not None and given[0] == "agg" and all(I.deref(p.st, a)[:2] == ("sym", ("t", 0)) for a in given[3])
            rep.check(ok, "stream", what + ":gives", f"{f.path} does not hand out the token it read", f.loc())
            ks = I.dom(p.st, ("disc", ("sym", ("t", 0), "kind"))) & allk
            rep.check(not done or ks == ISet.of(K["Eof"]), "stream", what + ":done", f"{f.path} stops before the end of input", f.loc())
