"""Abstract interpretation of a recursive-descent tree builder over a stream of tokens of unknown kind.

The functions that take tokens or drive the tree builder are analysed one at a time (per constant arguments). A call to another such
function that may recurse stands for any outcome its own summary allows: it takes nothing (and leaves the current token, of the kinds its
summary names), or takes at least one token and leaves a token of the kinds its summary names. Summaries are the least solution.

Events noted on a path: ('take', token), ('node', kind), ('tok', kind, text), ('close',), ('call', context, took), ('head', frame, block).
"""
from .absint import C, NONE, State, TooBig, UNIT, some
from .absvec import Vecs
from .iset import ISet
from .mir import strip_generics

TOKEN = "styx_tokenizer::token::Token"
KIND = "styx_tokenizer::token::TokenKind"
SPAN = "styx_tokenizer::span::Span"
BUILDER = "GreenNodeBuilder"


def kinds(prog):
    return {v["name"]: v["discr"] for v in prog.adts[KIND]["variants"]}


class Model:
    def __init__(self, prog, crate):
        self.prog = prog
        self.crate = crate
        self.K = kinds(prog)
        self.all = self.iset(self.K.values())
        self.tagtext = False
        self.moving = {}
        self.roots = set()
        self.entry = {}
        fs = {f.id: f for f in prog.fns.values() if f.crate == crate and "::tests" not in f.id}
        self.takes, self.builds, calls = set(), set(), {}
        for f in fs.values():
            cs = set()
            for b, t, c in f.calls():
                if self.is_next(c):
                    self.takes.add(f.id)
                if BUILDER in c.full and c.name in ("token", "start_node", "finish_node", "start_node_at", "checkpoint"):
                    self.builds.add(f.id)
                g = prog.target(c)
                if g is not None and g.id in fs:
                    cs.add(g.id)
            calls[f.id] = cs
        self.calls = calls
        closure = lambda s: self.close(calls, s)
        self.taker = closure(self.takes)
        self.builder = closure(self.builds)
        self.active = self.taker | self.builder
        # functions on a cycle of calls
        self.rec = {i for i in self.active if i in self.reach(calls, i)}
        self.fns = fs

    @staticmethod
    def iset(vals):
        s = ISet(())
        for v in vals:
            s = s | ISet.of(v)
        return s

    @staticmethod
    def close(calls, s):
        out = set(s)
        while True:
            n = {i for i, cs in calls.items() if i not in out and cs & out}
            if not n:
                return out
            out |= n

    @staticmethod
    def reach(calls, i):
        seen, todo = set(), list(calls.get(i, ()))
        while todo:
            j = todo.pop()
            if j not in seen:
                seen.add(j)
                todo += calls.get(j, ())
        return seen

    def is_next(self, c):
        return ("Peekable" in c.full or "as core::iter::traits::iterator::Iterator>::next" in c.full) and c.name in ("next", "next_if", "next_if_eq") and self.tokeny(c.full)

    def is_peek(self, c):
        return "Peekable" in c.full and c.name in ("peek", "peek_mut") and self.tokeny(c.full)

    def tokeny(self, full):
        return "Peekable::<" + self.crate in full or "Peekable<" + self.crate in full or "Peekable<styx_tokenizer" in full or "Peekable::<styx_tokenizer" in full

    def simple(self, f):
        """Arguments by which a summary can be told apart: no text, no slices."""
        return all("str" not in t.replace(self.crate, "").split("::")[-1] and "[" not in t and "Vec" not in t for t in f.locals[2 : f.argc + 1])


class Run(Vecs):
    """What happened on a path is folded into a small state, so that paths agreeing in it are joined:
    ext['took'] a token was taken since entry; ext['depth'] nodes open since entry; ext['pend'] the token taken and not yet fully added
    to the tree with the texts added for it; ext[('hd', frame, block)] = (progress since that loop head, depth there)."""

    def __init__(self, m, ctx, sums, **k):
        self.m = m
        self.ctx = ctx
        self.sums = sums
        self.wanted = set()
        self.edges = {}  # (callee context) -> set of (took since entry, shrinks)
        self.faults = {}  # (kind, site) -> text
        self.seen = {}  # obligation -> count
        k.setdefault("unroll", 1)
        k.setdefault("depth", 24)
        k.setdefault("max_paths", 60000)
        k.setdefault("max_steps", 1500000)
        super().__init__(m.prog, **k)
        self.merging = True
        self.on_call = self.hook
        self.inline = lambda t, c: t.crate == m.crate or t.crate == "styx_tokenizer" and not t.loops() and t.argc <= 2

    def factkey(self, st):
        # kinds of the current token and answers of predicates keep paths apart
        cur = st.ext.get("cur")
        if cur is None or isinstance(cur, str):
            return (cur,)
        return (self.kindset(st, cur),)

    def join(self, states, fn=None, fr=None, b=None):
        if fn is not None:
            live = fn.live_in().get(b)
            loops = fn.loops()
            inside = {h for h in loops if b in loops[h]}
            for s in states:
                for k in [k for k in s.env if k[0] == fr and k[1] not in live]:
                    del s.env[k]
                frs = set(s.frames)
                for k in [k for k in s.visits if self.stale(k[1] if k[0] == "u" else k, frs, fr, inside)]:
                    del s.visits[k]
                for k in [k for k in s.ext if isinstance(k, tuple) and k[0] == "hd" and self.stale(k[1:], frs, fr, inside)]:
                    del s.ext[k]
        for s in states:
            self.gc(s)
        return super().join(states)

    def merge(self, results):
        results = list(results)
        for s, v, kind, where in results:
            if kind == "ret":
                self.gc(s, v)
        return super().merge(results)

    def gc(self, s, ret=None):
        """Forget what nothing on the stack refers to any more."""
        frs = set(s.frames)
        keep = {k for k in s.env if k[0] in frs}
        todo = [s.env[k] for k in keep] + list(s.heap.values()) + [v for v in s.ext.values() if isinstance(v, tuple)]
        if isinstance(ret, tuple):
            todo.append(ret)
        cells = {}
        for k in s.env:
            cells.setdefault(k[0], []).append(k)
        while todo:
            v = todo.pop()
            if v and v[0] == "L" and len(v) == 4:
                k = (v[1], v[2])
                if k in s.env and k not in keep:
                    keep.add(k)
                    todo.append(s.env[k])
            todo += [x for x in v if isinstance(x, tuple) and x]
        if len(keep) < len(s.env):
            s.env = {k: v for k, v in s.env.items() if k in keep}
        for k in [k for k in s.visits if (k[1] if k[0] == "u" else k)[0] not in frs]:
            del s.visits[k]
        for k in [k for k in s.ext if isinstance(k, tuple) and k[0] == "hd" and k[1] not in frs]:
            del s.ext[k]

    @staticmethod
    def stale(k, frs, fr, inside):
        return k[0] not in frs or k[0] == fr and k[1] not in inside

    def note_fault(self, kind, site, text):
        self.faults.setdefault((kind, site), text)

    def oblige(self, kind, site):
        k = (kind, site)
        self.seen[k] = self.seen.get(k, 0) + 1

    def on_back(self, st, fn, fr, b):
        v = st.ext.get(("hd", fr, b))
        if v is None:
            return
        self.settled(st, (fn, b), "the loop goes round")
        self.oblige("round", (fn.id, b))
        if not v[0]:
            self.note_fault("round", (fn.id, b), "a round of this loop may take no token")
        if v[1] != st.ext.get("depth", 0):
            self.note_fault("node", (fn.id, b), "a round of this loop leaves a node open or finishes one too many")

    # ---- what happens on a path
    def progress(self, st):
        for k, v in list(st.ext.items()):
            if isinstance(k, tuple) and k[0] == "hd" and not v[0]:
                st.ext[k] = (True, v[1])

    def on_take(self, st, tok, site):
        self.settled(st, site, "the next token is taken")
        st.ext["pend"] = (tok, ())
        st.ext["took"] = True
        self.progress(st)

    def on_tok(self, st, kind, text, site):
        if st.ext.get("depth", 0) <= 0 and self.ctx in self.m.roots:
            self.note_fault("node", self.at(site), "a token is added outside every node")
        self.oblige("tok", self.at(site))
        p = st.ext.get("pend")
        if p is None:
            self.note_fault("text", self.at(site), "text is added to the tree that no token was taken for")
            return
        if len(p[1]) > 8:
            self.note_fault("text", self.at(site), "more text is added than the token has")
            return
        st.ext["pend"] = (p[0], p[1] + (text,))
        if self.covered(st):
            st.ext["pend"] = None

    def covered(self, st):
        p = st.ext.get("pend")
        if p is None:
            return True
        want = self.field(p[0], "text")
        got = p[1]
        if got == (want,):
            return True
        if not self.m.tagtext:
            # the texts of a tag that is split are compared with literal and symbolic texts separately
            return bool(got) and self.kindset(st, p[0]) == ISet.of(self.m.K["Tag"]) and want not in got
        if want[0] in ("chs", "lit") or want[0] == "agg":
            if not got:
                return want in (("chs", ()),)
            try:
                cs = [c for g in got for c in self.charlist(st, g)]
            except TypeError:
                return False
            return tuple(cs) == tuple(self.charlist(st, want))
        if not got and self.kindset(st, p[0]) == ISet.of(self.m.K["Eof"]):
            return True
        return False

    def charlist(self, st, v):
        v = self.chs(st, v)
        if v is None:
            raise TypeError(v)
        return v[1]

    def settled(self, st, site, when):
        if st.ext.get("pend") is not None:
            if not self.covered(st):
                p = st.ext["pend"]
                k = self.field(p[0], "kind")
                self.note_fault("text", self.at(site), f"a token ({self.kindnames(self.kindset(st, p[0]))}) is taken and its text is {'not added to the tree' if not p[1] else 'only partly added'} before {when}")
            st.ext["pend"] = None

    def kindnames(self, ks):
        n = [a for a, d in self.m.K.items() if d in ks]
        return "any kind" if len(n) > 14 else ", ".join(n)

    @staticmethod
    def at(site):
        return (site[0].id, site[1])

    # ---- the stream
    def newtok(self, st, kinds=None):
        st.nid += 1
        i = st.nid
        # tokens are named by the smallest number not in use, so that equal states can be joined
        used = set()
        for v in st.env.values():
            self.names(v, used)
        for v in st.heap.values():
            self.names(v, used)
        for v in st.ext.values():
            if isinstance(v, tuple):
                self.names(v, used)
        i = next(n for n in range(999) if n not in used)
        k = ("sym", ("tok", i), "kind")
        for t in [t for t in st.facts if self.mentions(t, ("tok", i))]:
            del st.facts[t]
        self.tyof[k] = KIND
        if kinds is not None:
            st.facts[("disc", k)] = kinds
        adt = self.prog.adts[TOKEN]["variants"][0]["fields"]
        fs = []
        for nm, ty in adt:
            if strip_generics(ty) == KIND:
                fs.append(k)
            else:
                x = ("sym", ("tok", i), nm)
                self.tyof[x] = ty
                fs.append(x)
        return ("agg", TOKEN, None, tuple(fs))

    def names(self, v, out):
        if len(v) == 3 and v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "tok":
            out.add(v[1][1])
            return
        for x in v:
            if isinstance(x, tuple) and x:
                self.names(x, out)

    def mentions(self, t, n):
        if t == n:
            return True
        return isinstance(t, tuple) and any(self.mentions(x, n) for x in t if isinstance(x, tuple))

    def field(self, tok, what):
        for (nm, ty), v in zip(self.prog.adts[TOKEN]["variants"][0]["fields"], tok[3]):
            if what == "kind" and strip_generics(ty) == KIND or what == "text" and "str" in ty and "&" in ty:
                return v
        return None

    def kindset(self, st, tok):
        k = self.field(tok, "kind")
        if k[0] == "agg":
            return ISet.of(self.m.K[k[2]])
        return self.dom(st, ("disc", k)) & self.m.all

    def cur(self, st):
        c = st.ext.get("cur")
        if c is None:
            c = self.newtok(st)
            st.ext["cur"] = c
        return c

    def take(self, st, site):
        """Outcomes of taking the current token: (state, token or None at the end)."""
        c = self.cur(st)
        if c == "end":
            return [(st, None)]
        eof = ISet.of(self.m.K["Eof"])
        out = []
        for s, last in ((st.copy(), True), (st, False)):
            ks = self.kindset(s, c)
            r = ks & eof if last else ks - eof
            if not r:
                continue
            k = self.field(c, "kind")
            if k[0] != "agg":
                s.facts[("disc", k)] = r
            tok = c
            tag = ISet.of(self.m.K["Tag"])
            pieces = [(s, tok)]
            if not last and r & tag and self.m.tagtext:
                pieces = []
                if r - tag:
                    z = s.copy()
                    z.facts[("disc", k)] = r - tag
                    pieces.append((z, tok))
                for text, cls in self.tagtexts():
                    z = s.copy()
                    for x, v in cls.items():
                        z.facts[x] = v
                    z.facts[("disc", k)] = tag
                    pieces.append((z, self.settext(tok, text)))
            for z, t in pieces:
                z.ext["cur"] = None
                self.on_take(z, t, site)
                z.ext["cur"] = "end" if last else self.newtok(z)
                for q in [q for q in z.ext if isinstance(q, tuple) and q[0] == "q"]:
                    del z.ext[q]
                out.append((z, t))
        return out

    def tagtexts(self):
        """Texts of tag tokens: '@', a letter or '_', letters, digits, '_' and '-'; further segments after '/'."""
        first = ISet.rng(65, 90) | ISet.rng(97, 122) | ISet.of(95)
        rest = first | ISet.rng(48, 57) | ISet.of(45)
        out = []
        for shape in ((1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (1, 1, 1, 1)):
            cs, cls = (), {}
            for k, n in enumerate(shape):
                cs += ((C(47, "char"),) if k else ()) + (C(64, "char"),)
                for j in range(n):
                    x = self.sym(f"t{k}{j}")
                    cls[x] = rest if j else first
                    cs += (x,)
            out.append((("chs", cs), cls))
        return out

    def settext(self, tok, text):
        fs = list(tok[3])
        for k, (nm, ty) in enumerate(self.prog.adts[TOKEN]["variants"][0]["fields"]):
            if "str" in ty and "&" in ty:
                fs[k] = text
        return ("agg", TOKEN, None, tuple(fs))

    def widen(self, st, fn, fr, body):
        heap = dict(st.heap)
        super().widen(st, fn, fr, body)
        for k, v in list(st.heap.items()):
            if heap.get(k) != v and v[:2] == ("sym", "loop"):
                n = ("sym", "loop", fn.id, min(body), k)
                for t in [t for t in st.facts if self.mentions(t, n)]:
                    del st.facts[t]
                st.heap[k] = n
        if not self.moves(fn, body):
            return
        st.ext["cur"] = "maybe"
        z = tuple(k for k in st.ext if isinstance(k, tuple) and k[0] == "q")
        for k in z:
            del st.ext[k]
        st.ext["headed"] = True
        self.settled(st, (fn, min(body), None), "a loop goes round")
        st.ext[("hd", fr, min(body))] = (False, st.ext.get("depth", 0))

    reclimit = 6

    def moves(self, fn, body):
        """Whether a round of the loop may take a token or build something."""
        key = (fn.id, min(body))
        if key not in self.m.moving:
            hit = False
            for b, t, c in fn.calls():
                if b in body:
                    g = self.prog.target(c)
                    if self.m.is_next(c) or BUILDER in c.full or g is not None and g.id in self.m.active:
                        hit = True
            self.m.moving[key] = hit
        return self.m.moving[key]

    def definite(self, st):
        """The current position made definite: a token, or the end of the stream."""
        if st.ext.get("cur") != "maybe":
            return [st]
        z = st.copy()
        z.ext["cur"] = "end"
        st.ext["cur"] = self.newtok(st)
        return [st, z]

    # ---- calls
    def hook(self, I, st, c, args, site):
        m = self.m
        if m.is_peek(c):
            out = []
            for s in self.definite(st):
                t = self.cur(s)
                out.append((s, NONE if t == "end" else some(self.ref(s, t))))
            return out
        if m.is_next(c):
            if c.name != "next":
                return [x for s in self.definite(st) for x in self.next_if(s, c, args, site)]
            return [(s, NONE if t is None else some(t)) for y in self.definite(st) for s, t in self.take(y, site)]
        if BUILDER in c.full:
            n = c.name
            if n in ("start_node", "start_node_at"):
                if not st.ext.get("depth", 0):
                    st.ext["tops"] = min(3, st.ext.get("tops", 0) + 1)
                st.ext["depth"] = st.ext.get("depth", 0) + 1
                self.oblige("node", self.at(site))
                if st.ext["depth"] > 40:
                    self.note_fault("node", self.at(site), "nodes are started without bound")
                    return []
                return [(st, UNIT)]
            if n == "token":
                self.on_tok(st, self.deref(st, args[1]), self.deref(st, args[2]), site)
                return [(st, UNIT)]
            if n == "finish_node":
                st.ext["depth"] = st.ext.get("depth", 0) - 1
                self.oblige("close", self.at(site))
                if st.ext["depth"] < 0:
                    self.note_fault("node", self.at(site), "a node is finished that this function did not start")
                    return []
                return [(st, UNIT)]
            if n == "finish":
                self.oblige("finish", self.at(site))
                st.ext["finished"] = st.ext.get("finished", 0) + 1
                if st.ext.get("depth", 0):
                    self.note_fault("node", self.at(site), "the tree is finished while a node is open")
                return [(st, st.fresh("green"))]
            if n in ("new", "default", "with_cache", "checkpoint"):
                return [(st, st.fresh("builder"))]
            self.note_fault("node", self.at(site), f"the tree builder is used in a way the analysis does not know ({n})")
            return [(st, st.fresh(n))]
        t = self.prog.target(c)
        if t is not None and t.crate == m.crate:
            if t.id in m.active and t.id in m.rec and (m.simple(t) or not m.tagtext):
                return [x for s in self.definite(st) for x in self.summary(s, t, args, site)]
            if t.id not in m.active and t.locals[0] == "bool" and self.predicate(t) and not st.ext.get("inq"):
                return [x for s in self.definite(st) for x in self.query(s, t, args, site)]
        if c.name == "next" and "Peekable" not in c.full and "Iterator" in c.full:
            self.progress(st)
        return None

    def unknown(self, st, callee, args, site, rty=None):
        """A call with an unknown result; the result is named by its site so that equal states can be joined."""
        v = ("call", callee.full, tuple(args), (site[0].id, site[1]))
        for t in [t for t in st.facts if self.within(t, v)]:
            del st.facts[t]
        if rty:
            self.tyof[v] = rty
        n = st.nid
        st.nid = 0
        self.quiet = (site[0].id, site[1])
        self.havoc_args(st, callee, args, site)
        st.nid = n
        return [(st, v)]

    def within(self, t, v):
        if t == v:
            return True
        return isinstance(t, tuple) and any(self.within(x, v) for x in t if isinstance(x, tuple))

    def next_if(self, st, c, args, site):
        t = self.cur(st)
        if t == "end":
            return [(st, NONE)]
        a = st.copy()
        return [(st, NONE)] + [(s, some(x)) for s, x in self.take(a, site) if x is not None]

    def predicate(self, t):
        return t.argc >= 1 and t.id not in self.m.active

    def query(self, st, t, args, site):
        """A side-effect-free question about the input has one answer per position."""
        key = ("q", t.id, tuple(self.deref(st, a) if self.deref(st, a)[0] in ("agg", "c") else None for a in args[1:]))
        if key in st.ext:
            return [(st, st.ext[key])]
        env, heap, ext, visits = dict(st.env), dict(st.heap), dict(st.ext), dict(st.visits)
        st.ext["inq"] = True
        out = []
        seen = set()
        for s, v in self.enter(st, t, list(args), 0):
            if v is None or not isinstance(v, tuple) or v[0] == "__back__":
                continue
            # it only looks: everything but what was learnt about the token is as before
            s.env, s.heap, s.ext, s.visits = dict(env), dict(heap), dict(ext), dict(visits)
            for b in (True, False):
                for y in self.assume(s.copy(), v, b):
                    y.ext[key] = C(int(b), "bool")
                    cur = y.ext.get("cur")
                    sig = (b, self.kindset(y, cur) if isinstance(cur, tuple) else cur)
                    if sig not in seen:
                        seen.add(sig)
                        out.append((y, y.ext[key]))
        return out

    def argkey(self, st, args):
        out = []
        for a in args[1:]:
            v = self.deref(st, a)
            out.append(v if self.const(st, v) else None)
        return tuple(out)

    def const(self, st, v, *r):
        if r:
            return super().const(st, v, *r)
        return v[0] == "c" or v[0] == "agg" and all(self.const(st, self.deref(st, x)) for x in v[3])

    def shrinks(self, st, args):
        """An argument is a strictly shorter piece of one of this function's own arguments."""
        return any(self.shorter(st, self.deref(st, a)) for a in args)

    def shorter(self, st, v):
        if v[0] != "call" or "Index" not in v[1] or len(v[2]) != 2:
            return False
        r = self.deref(st, v[2][1])
        base = self.deref(st, v[2][0])
        return r[0] == "agg" and r[1].endswith("RangeFrom") and r[3][0][0] == "c" and r[3][0][2] >= 1 and base[0] == "sym" and base[1] == "arg"

    def enters(self, st, key):
        """Record in which situations the function is called: token kinds, end of stream, answers known."""
        cur = self.cur(st)
        qs = frozenset((k, v) for k, v in st.ext.items() if isinstance(k, tuple) and k[0] == "q")
        ks, end, q0 = self.m.entry.get(key, (ISet(()), False, None))
        if cur == "end":
            end = True
        else:
            ks = ks | self.kindset(st, cur)
        q0 = qs if q0 is None else q0 & qs
        self.m.entry[key] = (ks, end, q0)

    def summary(self, st, t, args, site):
        key = (t.id, self.argkey(st, args))
        self.wanted.add(key)
        self.enters(st, key)
        self.settled(st, site, f"{t.name} is called")
        self.edges.setdefault(key, set()).add((bool(st.ext.get("took")), self.shrinks(st, args), self.at(site)))
        S = self.sums.get(key)
        if S is None:
            return []  # no outcome known yet
        out = []
        cur = self.cur(st)
        for ks, qs in S["zero"]:
            z = st.copy()
            if cur == "end":
                if ks is not None:
                    continue
            else:
                if ks is None:
                    continue
                r = self.kindset(z, cur) & ks
                if not r:
                    continue
                k = self.field(cur, "kind")
                if k[0] != "agg":
                    z.facts[("disc", k)] = r
            if any(z.ext.get(q, v) != v for q, v in qs):
                continue
            for q, v in qs:
                z.ext[q] = v
            out.append((z, UNIT))
        if cur != "end":
            for end in (False, True):
                if end and not S["end"] or not end and not S["exit"]:
                    continue
                z = st.copy()
                for q in [q for q in z.ext if isinstance(q, tuple) and q[0] == "q"]:
                    del z.ext[q]
                z.ext["cur"] = "end" if end else self.newtok(z, S["exit"])
                z.ext["took"] = True
                self.progress(z)
                out.append((z, UNIT))
        return out


def solve(m, roots, tier="quick", cls=None):
    """Least summaries of every context reachable from the roots; returns {context: (fn, Run, paths)}."""
    sums = {}
    todo = set(roots)
    res = {}
    used = {}
    m.roots = set(roots)
    for key in roots:
        m.entry[key] = (m.all, False, frozenset())
    for rnd in range(30):
        changed = False
        wanted = set(todo)
        for key in sorted(todo, key=repr):
            f = m.fns[key[0]]
            if key in used and all((m.entry.get(k) if k == key else sums.get(k[1:])) == v for k, v in used[key].items()):
                continue
            entry = m.entry[key]
            I = (cls or Run)(m, key, sums)
            sums0 = dict(sums)
            st = State()
            sts = []
            if entry[0]:
                z = st.copy()
                z.ext["cur"] = I.newtok(z, entry[0])
                sts.append(z)
            if entry[1]:
                z = st.copy()
                z.ext["cur"] = "end"
                sts.append(z)
            for z in sts:
                for q, v in entry[2]:
                    z.ext[q] = v
            self_ = ("sym", "arg", "self")
            I.tyof[self_] = f.locals[1] if f.argc else "()"
            args = [self_] if f.argc else []
            for q, v in enumerate(key[1]):
                if v is None:
                    v = ("sym", "arg", f.lnames.get(q + 2, q + 2))
                    I.tyof[v] = f.locals[q + 2]
                args.append(v)
            ps = [p for z in sts for p in I.run(f, args, z)]
            res[key] = (f, I, ps)
            used[key] = {("s",) + k: sums0.get(k) for k in I.wanted}
            used[key][key] = entry
            S = {"zero": set(), "exit": ISet(()), "end": False}
            root = key in roots
            for p in ps:
                e = p.st.ext
                w = (f, p.where[1], None) if p.where[0] is f else (p.where[0], p.where[1], None)
                if p.kind != "ret":
                    continue
                I.settled(p.st, w, "the function returns")
                if e.get("depth", 0):
                    I.note_fault("node", I.at(w), "a node is left open at the return")
                cur = e.get("cur")
                took = bool(e.get("took"))
                if root:
                    I.oblige("end", I.at(w))
                    if not (cur == "end" or not isinstance(cur, str) and I.kindset(p.st, cur) == ISet.of(m.K["Eof"])):
                        I.note_fault("text", I.at(w), "the parser may stop before the end of the input")
                qs = tuple(sorted(((k, v) for k, v in e.items() if isinstance(k, tuple) and k[0] == "q"), key=repr))
                if cur == "maybe":
                    if not took:
                        S["zero"].add((m.all, ()))
                        S["zero"].add((None, ()))
                    S["end"] = True
                    S["exit"] = m.all
                elif cur == "end":
                    S["end"] = True
                    if not took:
                        S["zero"].add((None, ()))
                elif not took:
                    S["zero"].add((I.kindset(p.st, cur), qs))
                    if e.get("headed"):
                        S["exit"] = S["exit"] | I.kindset(p.st, cur)
                else:
                    S["exit"] = S["exit"] | I.kindset(p.st, cur)
            old = sums.get(key)
            if old is None or old != S:
                changed = True
            sums[key] = S
            if m.entry[key] != entry:
                changed = True
        for u in used.values():
            wanted |= {k[1:] for k in u if k[0] == "s"}
        if any(used[k][k] != m.entry[k] for k in used):
            changed = True
        if wanted != todo:
            changed = True
        todo = wanted
        if not changed:
            return sums, res
    raise TooBig("summaries do not settle")


class LexModel(Model):
    """Token stream read through accessor methods (`&mut self` -> token, or -> &token)."""

    def __init__(self, prog, crate, item, ty):
        self.item = item  # last path component of the element type
        self.ty = ty
        super().__init__(prog, crate)

    def accessor(self, c):
        t = self.prog.target(c)
        if t is None or t.crate != self.crate or t.argc != 1 or not t.locals[1].startswith("&mut") or "closure" in t.id:
            return None
        r = strip_generics(t.locals[0])
        if r == self.ty:
            return "next"
        if r.lstrip("&") == self.ty:
            return "peek"
        return None

    def is_next(self, c):
        return self.accessor(c) == "next"

    def is_peek(self, c):
        return self.accessor(c) == "peek"


class LexRun(Run):
    """The token stream never ends: after the last token it repeats the end-of-input token."""

    def take(self, st, site):
        c = self.cur(st)
        eof = ISet.of(self.m.K["Eof"])
        out = []
        for s, last in ((st.copy(), True), (st, False)):
            r = self.kindset(s, c) & eof if last else self.kindset(s, c) - eof
            if not r:
                continue
            k = self.field(c, "kind")
            if k[0] != "agg":
                s.facts[("disc", k)] = r
            if not last:
                s.ext["took"] = True
                self.progress(s)
                s.ext["cur"] = None
                # the token just read stays in use under its name
                s.ext["held"] = c
                s.ext["cur"] = self.newtok(s)
                del s.ext["held"]
            self.oblige("take", self.at(site))
            out.append((s, c))
        return out

    def definite(self, st):
        if st.ext.get("cur") == "maybe":
            st.ext["cur"] = self.newtok(st)
        return [st]

    def hook(self, I, st, c, args, site):
        a = self.m.accessor(c)
        if a:
            out = []
            for s in self.definite(st):
                if a == "peek":
                    out.append((s, self.ref(s, self.cur(s))))
                else:
                    out += self.take(s, site)
            return out
        if c.name == "next" and "Iterator" in c.full:
            self.progress(st)
        return None

    def settled(self, st, site, when):
        pass


class NetModel:
    """Functions that read elements of one type from a source with a put-back slot."""

    def __init__(self, prog, crate, ty):
        self.prog, self.crate, self.ty = prog, crate, ty
        self.fns = {f.id: f for f in prog.fns.values() if f.crate == crate and "::tests" not in f.id}
        self.takes = {i for i, f in self.fns.items() if f.argc == 1 and f.locals[1].startswith("&mut") and "closure" not in i and strip_generics(f.locals[0]) == ty}
        self.puts = {i for i, f in self.fns.items() if f.argc == 2 and f.locals[1].startswith("&mut") and f.locals[0] == "()" and strip_generics(f.locals[2]) == ty}
        calls = {i: {g.id for b, t, c in f.calls() for g in [prog.target(c)] if g is not None and g.id in self.fns} for i, f in self.fns.items()}
        self.calls = calls
        low = Model.close(calls, {i for i in self.takes})
        self.active = low - self.takes
        self.rec = {i for i in self.active if i in Model.reach(calls, i)}
        self.moving = {}
        adt = prog.adts[ty]["variants"]
        self.K = {v["name"]: v["discr"] for v in adt}
        self.end = "Eof"


class NetRun(Run):
    """Counts elements read and not put back: ext['net'] since entry, ext[('hd', frame, block)] = net at that loop head."""

    CAP = 3

    def __init__(self, m, ctx, sums, **k):
        super().__init__(m, ctx, sums, **k)
        # nothing but the reading matters: helpers that read nothing are not looked into
        self.inline = lambda t, c: t.crate == m.crate and (t.id in m.active or "closure" in t.id or t.locals[0] == "bool" and not t.loops() or self.restates(t))

    def factkey(self, st):
        return ()

    def moves(self, fn, body):
        key = (fn.id, min(body))
        if key not in self.m.moving:
            self.m.moving[key] = any(g is not None and (g.id in self.m.active or g.id in self.m.takes) for b, t, c in fn.calls() if b in body for g in [self.prog.target(c)])
        return self.m.moving[key]

    def widen(self, st, fn, fr, body):
        keep = dict(st.ext)
        super().widen(st, fn, fr, body)
        st.ext.pop("cur", None)
        st.ext.pop("headed", None)
        st.ext["net"] = keep.get("net", 0)
        if self.moves(fn, body):
            st.ext[("hd", fr, min(body))] = 0

    def on_back(self, st, fn, fr, b):
        v = st.ext.get(("hd", fr, b))
        if v is None:
            return
        self.oblige("round", (fn.id, b))
        if v <= 0:
            self.note_fault("round", (fn.id, b), "a round of this loop may read nothing that it does not put back")

    def bump(self, st, n):
        for k in list(st.ext):
            if isinstance(k, tuple) and k[0] == "hd":
                st.ext[k] = max(-self.CAP, min(self.CAP, st.ext[k] + n))
        st.ext["net"] = max(-self.CAP, min(self.CAP, st.ext.get("net", 0) + n))

    def hook(self, I, st, c, args, site):
        m = self.m
        t = self.prog.target(c)
        if t is not None and t.id in m.takes:
            self.oblige("take", self.at(site))
            z = st.copy()
            self.bump(z, 1)
            i = self.free(z)
            x = ("sym", ("tok", i), "elem")
            for q in [q for q in z.facts if self.mentions(q, ("tok", i))]:
                del z.facts[q]
            self.tyof[x] = m.ty
            z.facts[("disc", x)] = Model.iset(m.K.values()) - ISet.of(m.K[m.end])
            return [(st, ("agg", m.ty, m.end, ())), (z, x)]
        if t is not None and t.id in m.puts:
            self.oblige("put", self.at(site))
            v = self.deref(st, args[1])
            if not (v[0] == "agg" and v[2] == m.end):
                if v[0] == "agg" or not self.dom(st, ("disc", v)) & ISet.of(m.K[m.end]):
                    self.bump(st, -1)
                    return [(st, UNIT)]
                z = st.copy()
                self.bump(z, -1)
                return [(z, UNIT)]
            return [(st, UNIT)]
        if t is not None and t.id in m.rec:
            key = (t.id, self.elems(st, args))
            self.wanted.add(key)
            self.edges.setdefault(key, set()).add((st.ext.get("net", 0) > 0, False, self.at(site)))
            S = self.sums.get(key)
            if S is None:
                return []
            self.bump(st, S)
            return [(st, ("sym", "res", t.name))]
        if c.name == "next" and "Iterator" in c.full:
            return None
        return None

    def elems(self, st, args):
        """What is known of the elements handed over: the end, not the end, or nothing."""
        out = []
        for a in args:
            v = self.deref(st, a)
            t = "?"
            if v[0] == "agg" and v[1] == self.m.ty:
                t = "end" if v[2] == self.m.end else "some"
            elif strip_generics(self.tyof.get(v, "")) == self.m.ty and not self.dom(st, ("disc", v)) & ISet.of(self.m.K[self.m.end]):
                t = "some"
            out.append(t)
        return tuple(out)

    def restates(self, t):
        """The function itself replaces an enum-valued field of the parser."""
        for b in t.reach:
            for s in t.stmts(b):
                if s["k"] == "=" and len(s["p"]) > 1 and isinstance(s["p"][-1], list) and s["p"][-1][0] == "f" and t.locals[s["p"][0]].startswith("&mut"):
                    owner = self.prog.adts.get(strip_generics(t.locals[s["p"][0]]).replace("&mut ", ""))
                    ty = dict((n, x) for n, x in owner["variants"][0]["fields"]).get(s["p"][-1][2]) if owner else None
                    a = self.prog.adts.get(strip_generics(ty)) if ty else None
                    if a and a["kind"] == "enum":
                        return True
        return False

    def free(self, st):
        used = set()
        for d in (st.env, st.heap, st.ext):
            for v in d.values():
                if isinstance(v, tuple):
                    self.names(v, used)
        return next(n for n in range(999) if n not in used)

    def settled(self, st, site, when):
        pass


def solve_net(m, roots, init=None):
    """Least number of elements a function reads and does not put back, for every recursive function; obligations of all active ones."""
    sums = {}
    todo = [(i, ()) for i in roots]
    res = {}
    for rnd in range(20):
        changed = False
        for key in list(todo):
            f = m.fns[key[0]]
            I = NetRun(m, key, sums)
            args = []
            st = State()
            for q in range(1, f.argc + 1):
                v = ("sym", "arg", f.lnames.get(q, q))
                I.tyof[v] = f.locals[q]
                if key[1] and key[1][q - 1] == "end":
                    v = ("agg", m.ty, m.end, ())
                elif key[1] and key[1][q - 1] == "some":
                    st.facts[("disc", v)] = Model.iset(m.K.values()) - ISet.of(m.K[m.end])
                args.append(v)
            ps = I.run(f, args, st)
            res[key] = (f, I, ps)
            nets = [p.st.ext.get("net", 0) for p in ps if p.kind == "ret"]
            if nets:
                n = min(nets)
                if sums.get(key) != n:
                    if key in sums and n > sums[key]:
                        n = sums[key]
                    if sums.get(key) != n:
                        sums[key] = n
                        changed = True
            for k in I.wanted:
                if k not in todo:
                    todo.append(k)
                    changed = True
        if not changed:
            return sums, res
    raise TooBig("summaries do not settle")
