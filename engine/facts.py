"""Produce the MIR facts of /repo's current working tree (cached by content hash under /verif/.cache)."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(VERIF, ".cache"))
PKGS = ["litcheck", "litcheck-core", "litcheck-lit", "litcheck-filecheck"]


class FactsError(Exception):
    pass


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FactsError("%s failed (%d):\n%s" % (what, p.returncode, p.stdout[-4000:]))
    return p.stdout


def tree_hash(root, skip=("target", ".git", ".cache")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode())
            h.update(b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def sysroot(env):
    return run(["rustc", "+nightly", "--print", "sysroot"], "/", env, "rustc --print sysroot").strip()


def build_driver(env):
    src = os.path.join(VERIF, "driver")
    tag = tree_hash(src)
    tgt = os.path.join(CACHE, "driver-" + tag)
    exe = os.path.join(tgt, "release", "mirfacts")
    if not os.path.exists(exe):
        run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", tgt], src, env, "building the MIR driver")
    if not os.path.exists(exe):
        raise FactsError("driver was not built")
    return exe, tag


def ensure():
    """Directory with the facts of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTC_WRAPPER", None)
    env["CARGO_NET_OFFLINE"] = "true"
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, tag = build_driver(env)
        th = tree_hash(REPO)
        out = os.path.join(CACHE, "facts-%s-%s" % (th, tag[:8]))
        stamp = os.path.join(out, "OK")
        if os.path.exists(stamp):
            return out
        for d in sorted(os.listdir(CACHE)):
            if d.startswith("facts-"):
                shutil.rmtree(os.path.join(CACHE, d))
        os.makedirs(out)
        tgt = os.path.join(CACHE, "target")
        env["CARGO_TARGET_DIR"] = tgt
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(env), "lib")
        cl = ["cargo", "+nightly", "clean", "--offline"]
        for p in PKGS:
            cl += ["-p", p]
        if os.path.isdir(tgt):
            run(cl, REPO, env, "cargo clean")
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["MIRFACTS_OUT"] = out
        run(["cargo", "+nightly", "check", "--workspace", "--locked", "--offline"], REPO, env, "cargo check with the MIR driver")
        from prog import CRATES
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + ".json")):
                raise FactsError("no facts were written for crate %s" % c)
        open(stamp, "w").close()
        return out


if __name__ == "__main__":
    print(ensure())
