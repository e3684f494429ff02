"""Building circom, the simulator and generated C++ from the current tree."""
import fcntl
import hashlib
import os
import subprocess
import sys
from .simrun import BUILD, VERIF

REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(BUILD, "target")
READER = os.path.join(BUILD, "reader", "debug", "vp_reader")
CIRCOM = os.path.join(TARGET, "debug", "circom")


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "mkdocs"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b"?")
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def env():
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": TARGET,
              "CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "0"})
    for k in ("LD_PRELOAD", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-6000:])
        sys.stderr.write("build failed: %s\n" % " ".join(cmd))
        raise SystemExit(6)
    return r


def workspace_crates():
    import json
    r = sh(["cargo", "metadata", "--offline", "--locked", "--no-deps", "--format-version", "1"], cwd=REPO, env=env())
    return [p["name"] for p in json.loads(r.stdout)["packages"]]


def build_sim():
    src = os.path.join(VERIF, "sim", "libsim.c")
    out = os.path.join(BUILD, "libsim.so")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()
    st = out + ".stamp"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h:
        return
    sh(["gcc", "-O2", "-g", "-U_FORTIFY_SOURCE", "-fno-builtin", "-shared", "-fPIC", "-fvisibility=hidden",
        "-ftls-model=initial-exec", "-Wno-stringop-truncation", src, "-o", out + ".tmp", "-ldl"])
    os.replace(out + ".tmp", out)
    with open(st, "w") as f:
        f.write(h)


def build_circom(extra=()):
    """the compiler, from the working tree. Decided by content, never by time stamps."""
    st = os.path.join(BUILD, "circom.stamp")
    h = tree_hash()
    if os.path.exists(CIRCOM) and os.path.exists(st) and open(st).read() == h:
        return h
    e = env()
    if os.path.isdir(TARGET):
        cmd = ["cargo", "clean", "--offline", "--locked"]
        for c in workspace_crates():
            cmd += ["-p", c]
        subprocess.run(cmd, cwd=REPO, env=e, capture_output=True)
    sh(["cargo", "build", "--offline", "--locked", "--bin", "circom"], cwd=REPO, env=e)
    with open(st, "w") as f:
        f.write(h)
    return h


def build_reader():
    """the program around the library's constraint file reader"""
    with Lock():
        return build_reader_()


def build_reader_():
    st = os.path.join(BUILD, "reader.stamp")
    h = tree_hash()
    for f in ("Cargo.toml", "Cargo.lock", "src/main.rs"):
        with open(os.path.join(VERIF, "reader", f), "rb") as fh:
            h += hashlib.sha256(fh.read()).hexdigest()
    if os.path.exists(READER) and os.path.exists(st) and open(st).read() == h:
        return
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "reader")
    d = os.path.join(VERIF, "reader")
    for c in ("constraint_writers", "circom_algebra", "vp_reader"):
        subprocess.run(["cargo", "clean", "--offline", "-p", c], cwd=d, env=e, capture_output=True)
    e["RUSTFLAGS"] = "--cfg vp_hooks"
    r = subprocess.run(["cargo", "build", "--offline"], cwd=d, env=e, capture_output=True)
    if r.returncode:
        e["RUSTFLAGS"] = ""
        sh(["cargo", "build", "--offline"], cwd=d, env=e)
    with open(st, "w") as f:
        f.write(h)


def build_all():
    with Lock():
        build_sim()
        return build_circom()


if __name__ == "__main__":
    print(build_all())
