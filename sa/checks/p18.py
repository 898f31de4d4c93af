"""P18: document locks are not held while waiting for extensions or the editor."""
import re

from ..coro import bare
from ..mir import norm, strip_generics
from .. import panics
from .p17 import testing

META = {
    "packages": ["styx-lsp"],
    "crates": ["styx_lsp"],
    "level": "other",
    "technique": "forward dataflow of live lock guards over the MIR of every async body; lock-order graph over the call graph",
    "level_note": "Every await of every async body of the language server, on all paths. Guards are recognised by their type, wherever they are stored in locals.",
    "explanation": "A guard is live from the statement that produces it until it is moved away or dropped. At every suspension point the live guards are compared with what is awaited; "
    "acquisitions under a live guard, directly or through awaited local functions, give the lock-order graph.",
    "assumptions": ["guards are not leaked or hidden behind type-erased boxes"],
}
GUARD = re.compile(r"(RwLock\w*Guard|Mutex\w*Guard|MappedMutexGuard|RwLockMapped\w*|dashmap::mapref\S*Ref\w*|SemaphorePermit\w*)<")
FUT = re.compile(r"^(impl |\{async|core::pin::Pin|&|\{closure|\{coroutine|core::future)|dyn .*Future")


def locks_of(ty, prog, d=0):
    """Lock contents named by the guard types inside ty."""
    if FUT.search(ty):
        return set()
    out = set()
    for m in GUARD.finditer(ty):
        depth, i = 1, m.end()
        while i < len(ty) and depth:
            depth += {"<": 1, ">": -1}.get(ty[i], 0)
            i += 1
        out.add(norm(ty[m.end() : i - 1]))
    if d < 3 and not out:
        a = prog.adts.get(strip_generics(ty))
        if a and a["path"].startswith("styx"):
            for v in a["variants"]:
                for n, t in v["fields"]:
                    out |= locks_of(norm(t), prog, d + 1)
    return out


def moves(x, out):
    """Locals moved out of by an operand tree."""
    if isinstance(x, dict):
        if x.get("k") == "move":
            out.add(x["p"][0])
        for k, v in x.items():
            if not k.startswith("_") and isinstance(v, (dict, list)):
                moves(v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                moves(v, out)


class Flow:
    """live guard locals at the entry of each block"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.g = {i: locks_of(t, prog) for i, t in enumerate(f.locals) if i}
        self.g = {i: s for i, s in self.g.items() if s}
        self.at = {}
        self.term_live = {}
        todo = [(0, frozenset())]
        while todo:
            b, live = todo.pop()
            old = self.at.get(b)
            new = live if old is None else old | live
            if old is not None and new == old:
                continue
            self.at[b] = new
            out = self.block(b, set(new))
            for s in f.succ(b):
                todo.append((s, frozenset(out)))

    def block(self, b, live):
        f = self.f
        for s in f.stmts(b):
            if s["k"] == "=":
                mv = set()
                moves(s["r"], mv)
                live -= mv
                if s["p"][0] in self.g and len(s["p"]) == 1 and s["r"]["k"] in ("use", "agg", "cast", "repeat"):
                    live.add(s["p"][0])
            elif s["k"] == "dead":
                live.discard(s["l"])
        t = f.term(b)
        if t["k"] == "call":
            mv = set()
            moves(t["args"], mv)
            live -= mv
        self.term_live[b] = frozenset(live)
        if t["k"] == "call" and t["d"][0] in self.g and len(t["d"]) == 1:
            live.add(t["d"][0])
        if t["k"] == "drop" and len(t["p"]) == 1:
            live.discard(t["p"][0])
        return live


def awaited(f, y):
    """The call that made the future a suspension point waits for: (callee, block) of the
    nearest dominating into_future, and the call whose result it was given."""
    best = None
    for b, t, c in f.calls():
        if c.name == "into_future" and f.dominates(b, y):
            if best is None or f.dominates(best[0], b):
                best = (b, t, c)
    if best is None:
        return None, None, ""
    b, t, c = best
    x = t["args"][0]
    src = x["p"][0] if x["k"] in ("copy", "move") else None
    seen = set()
    while src is not None and src not in seen:
        seen.add(src)
        for db, i, proj, r in f.defs().get(src, []):
            if i == -1 and r.get("k") == "call":
                return f.callee(db), db, f.locals[x["p"][0]]
            if i >= 0 and r["k"] == "use" and r["x"]["k"] in ("copy", "move"):
                src = r["x"]["p"][0]
                break
            if i >= 0 and r["k"] == "agg":
                return None, db, f.locals[x["p"][0]]
    return None, None, f.locals[x["p"][0]] if src is not None else ""


ACQ = re.compile(r"(RwLock|Mutex|Semaphore)(::<.*>)?::(read|write|lock|read_owned|write_owned|lock_owned|acquire|upgradable_read)$")


def acquires(prog, c, fut):
    """Lock contents acquired by awaiting this call, or None."""
    if c is not None and ACQ.search(bare(c.path)) and "sync" in c.path:
        m = re.search(r"(RwLock|Mutex)::<(.*)>::", c.full)
        return norm(m.group(2)) if m else "?"
    return None


def run(prog, rep, tier):
    rep.rule("await", "no document guard is live where the handler waits for anything but another lock")
    rep.rule("await-other", "no other guard is live where the handler waits for an extension or the editor")
    rep.rule("order", "locks are acquired in one global order, and never again while held")
    rep.rule("blocking", "no async body blocks its thread on a lock or a future")
    fns = [f for f in prog.fns.values() if f.crate == "styx_lsp" and not testing(f)]
    cor = [f for f in fns if f.coroutine]
    direct = {}  # fn id -> locks acquired in it
    waits = {}  # fn id -> True when it awaits a foreign future other than a lock
    edges = {}
    info = []
    nguard = ny = 0
    for f in cor:
        fl = Flow(prog, f)
        nguard += len(fl.g)
        for y in f.reach:
            if f.term(y)["k"] != "yield":
                continue
            ny += 1
            c, cb, fut = awaited(f, y)
            lock = acquires(prog, c, fut)
            tgt = prog.target(c) if c is not None else None
            if lock:
                direct.setdefault(f.id, set()).add(lock)
            elif tgt is None:
                waits[f.id] = True
            live = set()
            for l in fl.term_live.get(y, ()):
                live |= fl.g[l]
            info.append((f, y, c, lock, tgt, live, [f.lnames.get(l, f"_{l}") for l in fl.term_live.get(y, ())]))
    rep.floor("await", "async bodies", len(cor), 20)
    rep.floor("await", "suspension points", ny, 30)
    rep.floor("await", "guard variables", nguard, 20)
    # transitive closure over local calls
    call = {f.id: {g.id for g in panics.callees(prog, f) if g.crate == "styx_lsp"} for f in fns}
    acq = {f.id: set(direct.get(f.id, ())) for f in fns}
    wt = {f.id: waits.get(f.id, False) for f in fns}
    for f in fns:
        for b, t, c in f.calls():
            if re.search(r"(RwLock|Mutex)::(blocking_\w+|try_\w+)$", bare(c.path)) or re.search(r"std::sync::.*(RwLock|Mutex)::(read|write|lock)$", bare(c.path)):
                m = re.search(r"(RwLock|Mutex)::<(.*)>::", c.full)
                acq[f.id].add(norm(m.group(2)) if m else "?")
    ch = True
    while ch:
        ch = False
        for f in fns:
            for g in call[f.id]:
                if g in acq and not acq[g] <= acq[f.id]:
                    acq[f.id] |= acq[g]
                    ch = True
                if wt.get(g) and not wt[f.id]:
                    wt[f.id] = ch = True
    for f, y, c, lock, tgt, live, names in info:
        where = f.loc(f.term(y)["n"])
        what = c.path if c is not None else "a future"
        key = f"{f.path}:{what}"
        docs = {l for l in live if "DocumentState" in l}
        got = {lock} if lock else (acq.get(tgt.id, set()) if tgt is not None else set())
        for l in live:
            for g in got:
                edges.setdefault((l, g), (f, where))
        ok = not docs or bool(lock) or tgt is not None and not wt.get(tgt.id)
        rep.check(ok, "await", key, f"{f.path} holds the document lock ({', '.join(names)}) while waiting for {what}: a slow extension or editor blocks every other request, and an extension that asks for a document deadlocks", where)
        rest = live - docs
        slow = not lock and (tgt is None or wt.get(tgt.id)) and not re.search(r"process::Child::(kill|wait)|Child::kill", bare(what))
        rep.check(not rest or not slow, "await-other", key, f"{f.path} holds a lock on {sorted(rest)} while waiting for {what}", where)
    # acquisitions without suspension (blocking variants) under a guard
    for f in fns:
        fl = None
        for b, t, c in f.calls():
            tg = prog.target(c)
            got = set()
            if tg is not None and not f.coroutine:
                got = acq.get(tg.id, set())
            if not got:
                continue
            fl = fl or Flow(prog, f)
            live = set()
            for l in fl.term_live.get(b, ()):
                live |= fl.g[l]
            for l in live:
                for g in got:
                    edges.setdefault((l, g), (f, f.loc(t["n"])))
        if f.coroutine:
            for b, t, c in f.calls():
                p = bare(c.path)
                bad = re.search(r"::(blocking_read|blocking_write|blocking_lock|block_on)$", p)
                if bad:
                    rep.bad("blocking", f"{f.path}:{c.name}", f"{f.path} calls {c.name} inside an async body", f.loc(t["n"]))
    rep.good("blocking", "async bodies")
    for (a, b), (f, where) in sorted(edges.items(), key=lambda e: str(e[0])):
        # a path from b back to a closes a cycle
        seen, todo = set(), [b]
        cyc = a == b
        while todo and not cyc:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for (u, v) in edges:
                if u == x:
                    cyc |= v == a
                    todo.append(v)
        rep.check(not cyc, "order", f"{short(a)}->{short(b)}", f"{f.path} acquires the lock on {short(b)} while holding {short(a)}, which elsewhere happens in the other order (or is the same lock): a waiting writer deadlocks both", where)
    rep.good("order", "lock-order graph")
    rep.counts["lock order"] = [f"{short(a)} -> {short(b)}" for a, b in sorted(edges)]


def short(t):
    return re.sub(r"\b[\w:]+::", "", t)
