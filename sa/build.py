"""Build the MIR dumper and dump the type-checked program of /repo's current tree."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STYX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class CheckError(Exception):
    """The check could not be carried out (not a verdict)."""


def _env():
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    return e


def _run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise CheckError(f"{what} failed (exit {p.returncode})")
    return p.stdout


def driver():
    env = _env()
    tgt = os.path.join(CACHE, "driver")
    env["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "+nightly", "build", "--offline", "--quiet"], os.path.join(VERIF, "driver"), env, "building the MIR driver")
    return os.path.join(tgt, "debug", "mirdump")


def dump(packages):
    """Type-check `packages` (cargo package names) of REPO with the driver; returns the dump dir."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        env = _env()
        sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], env=env, text=True).strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        # dumps and target directory live and die together: a crate cargo calls fresh has its dump.
        # The driver's own build is part of the key.
        tag = format(abs(hash_file(drv)) % (1 << 48), "x") + "-" + REPO.strip("/").replace("/", "_")
        base = os.path.join(CACHE, "mir-" + tag)
        out = os.path.join(base, "json")
        if not os.path.isdir(base):
            for d in os.listdir(CACHE):
                if d.startswith("mir-") and d.endswith(REPO.strip("/").replace("/", "_")):
                    shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        env["CARGO_TARGET_DIR"] = os.path.join(base, "target")
        env["MIRDUMP_OUT"] = out
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        forget_changed(base, env)
        # /repo/Cargo.lock is never rewritten: --locked
        cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--all-features", "-Zchecksum-freshness", "--message-format=json-render-diagnostics"]
        if packages is None:
            cmd.append("--workspace")
        else:
            for p in packages:
                cmd += ["-p", p]
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            sys.stderr.write(p.stderr[-6000:])
            raise CheckError(f"type-checking /repo failed (exit {p.returncode})")
        return select(base, out, packages, p.stdout)


def select(base, out, packages, messages):
    """The dumps that belong to the units of this very build (a crate may also have been built with other features)."""
    import hashlib

    hashes = set()
    for line in messages.splitlines():
        if line.startswith("{"):
            j = json.loads(line)
            if j.get("reason") == "compiler-artifact":
                for f in j["filenames"]:
                    hashes.add(os.path.basename(f).rsplit(".", 1)[0].rsplit("-", 1)[-1])
    sel = os.path.join(base, "sel-" + hashlib.sha256(repr(packages).encode()).hexdigest()[:12])
    shutil.rmtree(sel, ignore_errors=True)
    os.makedirs(sel)
    best = {}
    for f in sorted(os.listdir(out)):
        m = re.fullmatch(r"(.+\.(?:lib|bin))-([0-9a-f]+)\.json", f)
        if m and m.group(2) in hashes:
            size = os.path.getsize(os.path.join(out, f))
            if best.get(m.group(1), ("", -1))[1] < size:
                best[m.group(1)] = (f, size)
    if not best:
        raise CheckError("no dump was written")
    for n, (f, size) in best.items():
        os.symlink(os.path.join(out, f), os.path.join(sel, n + ".json"))
    return sel


def forget_changed(base, env):
    """Cargo judges freshness by modification time; packages whose contents differ from the last dump are rebuilt whatever their times."""
    import hashlib

    meta = json.loads(subprocess.check_output(["cargo", "+nightly", "metadata", "--offline", "--locked", "--no-deps", "--format-version", "1"], cwd=REPO, env=env, stderr=subprocess.DEVNULL))
    stamp = os.path.join(base, "stamp.json")
    old = json.load(open(stamp)) if os.path.exists(stamp) else {}
    new = {}
    for p in meta["packages"]:
        h = hashlib.sha256()
        root = os.path.dirname(p["manifest_path"])
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.isfile(q):
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        new[p["name"]] = h.hexdigest()
        if old.get(p["name"]) != new[p["name"]]:
            dbg = os.path.join(base, "target", "debug")
            for sub in ("build", ".fingerprint"):
                w = os.path.join(dbg, sub)
                if os.path.isdir(w):
                    for x in os.listdir(w):
                        if x == p["name"] or x.startswith(p["name"] + "-") and len(x) == len(p["name"]) + 17:
                            shutil.rmtree(os.path.join(w, x), ignore_errors=True)
    with open(stamp, "w") as f:
        json.dump(new, f)


def hash_file(p):
    import hashlib

    with open(p, "rb") as f:
        return int(hashlib.sha256(f.read()).hexdigest()[:15], 16)


if __name__ == "__main__":
    print(dump(None))
