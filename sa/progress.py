"""Structural progress of loops: every way round a loop passes a step that uses something up."""
from .mir import strip_generics

PULL = {"next", "next_back", "nth", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "drain", "next_if", "next_if_eq", "next_token", "next_node"}


def pulls(prog, c):
    """An iterator step or removal from a collection."""
    if c.name in PULL and ("Iterator" in c.full or "Chars" in c.full or "Peekable" in c.full or "Vec" in c.full or "String" in c.full or "BTree" in c.full or "Heap" in c.full):
        return True
    t = prog.target(c)
    if t is not None and t.argc >= 1 and t.locals[1].startswith("&mut") and strip_generics(t.locals[0]).startswith("core::option::Option") and "Event" in t.locals[0]:
        return True
    # parent / sibling walks of a finite tree
    if c.name in ("parent", "next_sibling", "prev_sibling", "next_sibling_or_token", "prev_sibling_or_token", "source"):
        return True
    return False


def counters(f, body):
    """Blocks in which a local compared in the loop grows or shrinks by a constant."""
    compared, steps = set(), {}
    copies = {}
    for b in body:
        for s in f.stmts(b):
            if s["k"] != "=" or len(s["p"]) != 1:
                continue
            r = s["r"]
            if r["k"] == "use" and r["x"].get("k") in ("copy", "move") and len(r["x"]["p"]) == 1:
                copies.setdefault(s["p"][0], set()).add(r["x"]["p"][0])

    def root(x, d=0):
        out = {x}
        for y in copies.get(x, ()):
            if d < 4:
                out |= root(y, d + 1)
        return out

    for b in body:
        for s in f.stmts(b):
            if s["k"] != "=":
                continue
            r = s["r"]
            if r["k"] == "bin":
                ops = [r["a"], r["b"]]
                ls = [o["p"][0] for o in ops if o.get("k") in ("copy", "move") and o.get("p")]
                if r["op"] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
                    for x in ls:
                        compared |= root(x)
                if r["op"].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub") and not any(o.get("k") == "const" and o.get("v") in (0, "0") for o in ops) and len(s["p"]) == 1:
                    for x in ls:
                        steps.setdefault(b, set()).update(root(x))
    return {b for b, xs in steps.items() if xs & compared}


def dry(f, b, body):
    """Where the loop goes on when the step at block b yields nothing."""
    t = f.term(b)
    d = t.get("d")
    if not d or len(d) != 1:
        return []
    out = []
    for x in body:
        u = f.term(x)
        if u is None or u["k"] != "switch" or u["x"].get("k") not in ("copy", "move") or len(u["x"]["p"]) != 1:
            continue
        v = u["x"]["p"][0]
        for s in f.stmts(x):
            if s["k"] == "=" and s["p"] == [v] and s["r"]["k"] == "discr" and s["r"]["p"] == d and "Option" in s["r"].get("adt", s["r"].get("ty", "")):
                none = [to for val, to in u["arms"] if val == 0]
                out += none or [u["else"]]
    return [x for x in out if x in body]


def stuck(prog, f, h, body):
    """A cycle through the loop head on which nothing is used up (list of blocks), or None."""
    good = {b: [] for b in counters(f, body)}
    for b, t, c in f.calls():
        if b in body and pulls(prog, c):
            good[b] = dry(f, b, body)
    on = lambda b: good[b] if b in good else [s for s in f.succ(b) if s in body]
    seen, todo = set(), list(on(h))
    while todo:
        b = todo.pop()
        if b == h:
            return [h]
        if b in seen:
            continue
        seen.add(b)
        todo += on(b)
    return None
