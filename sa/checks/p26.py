"""P26: files are written only below the cache and configuration directories."""
import re

from ..coro import bare
from ..paths import Paths, Safety
from .p17 import testing

META = {
    "packages": ["styx-lsp"],
    "crates": ["styx_lsp"],
    "level": "other",
    "technique": "value-origin (taint) analysis of every path handed to a writing file-system call, with exact character sets for the sanitising closures",
    "level_note": "Flow-insensitive within a function, interprocedural. A path part of unknown origin is counted as undecided, not as a violation.",
    "explanation": "Every file-system call that creates, writes or removes something is found; its path is decomposed into base directory and components. The base must come from the environment (never from a document) and "
    "each component must be a literal, a hash, a number, or text from which separators and '..' are provably removed.",
    "assumptions": ["the directories reported by the dirs crate are the user's", "the modules named testing are not part of the running server"],
}
WRITE = re.compile(r"^(std|tokio)::fs::(write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|set_permissions|File::create|File::create_new|file::File::create\w*|OpenOptions::open|open_options::OpenOptions::open|DirBuilder::create)$")


def run(prog, rep, tier):
    rep.rule("below", "the path of every writing file-system call stays below a directory of the user's environment")
    fields = lambda adt, name: ("doc", f"{adt.rsplit('::', 1)[-1]}.{name}") if adt.endswith("SchemaRef") or adt.endswith("SchemaRef::Embedded") else None
    P = Paths(prog, {"styx_lsp"}, fields, skip=testing)
    S = Safety(prog, P)
    sinks = und = parts = 0
    for f in prog.fns.values():
        if f.crate != "styx_lsp" or testing(f):
            continue
        for b, t, c in f.calls():
            if not WRITE.match(bare(c.path)):
                continue
            sinks += 1
            xs = t["args"]
            if c.name in ("open",):
                xs = xs[1:]
            if c.name in ("write", "set_permissions"):
                xs = xs[:1]
            for x in xs[:2]:
                terms = P.resolve(f, P.operand(f, x))
                parts += len(terms)
                why = None
                for q in sorted(terms, key=repr):
                    r = S.path(q)
                    if r and r[0]:
                        why = r[1]
                        break
                    if r:
                        und += 1
                rep.check(why is None, "below", f"{f.path}:{c.name}", f"{f.path} calls {bare(c.path)} on a path that contains {why}", f.loc(t["n"]))
    rep.floor("below", "writing file-system calls", sinks, 4)
    rep.count("path forms", parts)
    rep.count("path forms with a part of unknown origin", und)
    rep.note(f"{sinks} writing calls, {parts} path forms, {und} with parts of unknown origin")
