"""Building generated C++ witness programs so that they run under the simulator, and running them.

The circuit, the run-time files and (without assembly) the field library are the generated ones, compiled unchanged with
-fsanitize=thread, whose run-time interface is provided by the simulator: every memory access is a scheduling point. The
one edit is that the number NMUTEXES of calcwit.hpp (the thread limit) is asked of the simulator, so that it can vary
without recompiling; should that line ever be written differently the shipped limit is used.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
from .simrun import BUILD, LIBSIM, HarnessError, run

CC = os.path.join(BUILD, "cc")
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__memcpy_chk"
KEEP = 400


class NotCompilable(Exception):
    """The generated code is rejected by the C++ compiler."""


def tool(cmd, **kw):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C", "TMPDIR": kw.pop("tmp", "/tmp")}
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, **kw)
    return r


def limited(text):
    """calcwit.hpp with the thread limit taken from the simulator"""
    return re.subn(r"(?m)^(\s*#\s*define\s+NMUTEXES)\s+(\d+)", r'extern "C" int sim_limit(int);\n\1 sim_limit(\2)', text, count=1)


def cached(key, suffix, make):
    """a file made once per content; `make(path)` writes it"""
    os.makedirs(CC, exist_ok=True)
    p = os.path.join(CC, key + suffix)
    if os.path.exists(p):
        try:
            os.utime(p)
        except OSError:
            pass
        return p
    lock = open(p + ".lock", "w")
    try:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(p):
            make(p + ".tmp")
            os.replace(p + ".tmp", p)
    finally:
        lock.close()
        try:
            os.unlink(p + ".lock")
        except OSError:
            pass
    return p


def purge():
    """keep only the most recent programs"""
    try:
        fs = sorted((os.path.getmtime(os.path.join(CC, f)), f) for f in os.listdir(CC) if f.endswith(".exe"))
    except OSError:
        return
    for _, f in fs[:-KEEP]:
        try:
            os.unlink(os.path.join(CC, f))
        except OSError:
            pass


def has_error(r):
    return r.returncode == 1 and ("error" in r.stderr)


def compile_one(d, src, opt, out, tmp, instrument=True):
    cmd = ["g++", "-std=c++11", "-w", "-O%d" % opt, "-I", ".", "-c", src, "-o", out] + (
        ["-fsanitize=thread"] if instrument else [])
    r = tool(cmd, tmp=tmp, cwd=d)  # relative names: __FILE__ must not tell where this happened
    if r.returncode:
        if has_error(r):
            raise NotCompilable("%s: %s" % (src, next((l for l in r.stderr.split("\n") if "error" in l), "")[:400]))
        raise HarnessError("g++ failed: rc=%d %s" % (r.returncode, r.stderr[-400:]))


def build(w, cppdir, name, opt=0, instrument=True):
    """path of the program; cppdir holds what `circom --c` wrote"""
    d = w.sub("cpp")
    texts = {}
    for f in sorted(os.listdir(cppdir)):
        with open(os.path.join(cppdir, f), "rb") as h:
            texts[f] = h.read()
    hdr = texts.get("calcwit.hpp", b"").decode("utf-8", "replace")
    new, n = limited(hdr)
    if n and "calcwit.hpp" in texts:
        texts["calcwit.hpp"] = new.encode()
    for f, b in texts.items():
        with open(os.path.join(d, f), "wb") as h:
            h.write(b)
    tmp = w.sub("cctmp")
    headers = hashlib.sha256()
    for f in sorted(texts):
        if f.endswith(".hpp"):
            headers.update(f.encode() + b"\0" + texts[f] + b"\0")
    flags = "%d/%d" % (opt, instrument)
    srcs = [f for f in sorted(texts) if f.endswith(".cpp") and f != "json2bin64.cpp"]
    objs, keys = [], []
    for s in srcs:
        k = hashlib.sha256(headers.digest() + texts[s] + flags.encode()).hexdigest()[:32]
        keys.append(k)
        objs.append((s, k))
    asm = None
    if "fr.asm" in texts:
        asm = hashlib.sha256(texts["fr.asm"]).hexdigest()[:32]
        keys.append(asm)
    with open(LIBSIM + ".stamp") as f:
        stamp = f.read()
    key = hashlib.sha256((" ".join(keys) + flags + stamp).encode()).hexdigest()[:32]

    def link(out):
        os_ = []
        for s, k in objs:
            if s == name + ".cpp":
                o = os.path.join(tmp, "circuit.o")
                compile_one(d, s, opt, o, tmp, instrument)
            else:
                o = cached(k, ".o", lambda p, s=s: compile_one(d, s, opt, p, tmp, instrument))
            os_.append(o)
        if asm:
            def as_(p):
                r = tool(["nasm", "-felf64", os.path.join(d, "fr.asm"), "-o", p], tmp=tmp)
                if r.returncode:
                    raise NotCompilable("fr.asm: " + r.stderr[:300])
            os_.append(cached(asm, ".o", as_))
        r = tool(["g++"] + os_ + ["-o", out, "-lgmp", "-pthread", LIBSIM, "-Wl,-rpath," + BUILD] + ([WRAP] if instrument else []), tmp=tmp)
        if r.returncode:
            if "undefined reference" in r.stderr or "multiple definition" in r.stderr:
                raise NotCompilable(r.stderr[-400:])
            raise HarnessError("link failed: " + r.stderr[-400:])
    try:
        return cached(key, ".exe", link)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def external(cppdir, prog):
    """the C++ functions of the program's extern_c templates (all compute a*b[0]*b[1]+n), as their author writes them"""
    ts = [n for n in sorted(prog.templates) if prog.templates[n].get("extern")]
    if not ts:
        return
    out = ['#include <stdio.h>', '#include <stdlib.h>', '#include <iostream>', '#include "circom.hpp"', '#include "calcwit.hpp"', '#include "fr.hpp"']
    for n in ts:
        if prog.prime == "goldilocks":
            out.append("void %s(uint64_t n, uint64_t* c, uint* sc, uint64_t* a, uint* sa, uint64_t* b, uint* sb) {" % n)
            calc = "*c = Fr_add(Fr_mul(Fr_mul(*a, b[0]), b[1]), n);"
        else:
            out.append("void %s(FrElement* n, FrElement* c, uint* sc, FrElement* a, uint* sa, FrElement* b, uint* sb) {" % n)
            calc = "FrElement t, u; Fr_mul(&t, a, &b[0]); Fr_mul(&u, &t, &b[1]); Fr_add(c, &u, n);"
        out += ["    if (sb[0] != 2) { abort(); }", "    " + calc, "}"]
    with open(os.path.join(cppdir, "external.cpp"), "w") as f:
        f.write("\n".join(out) + "\n")


def place(w, exe, dat, name="p"):
    """a directory with the program and its data file beside it"""
    root = w.sub("wit")
    shutil.copy(exe, os.path.join(root, name))
    if dat is not None:
        shutil.copy(dat, os.path.join(root, name + ".dat"))
    return root


def execute(w, root, conf, args=("in.json", "w.wtns"), name="p", timeout=120):
    return run([os.path.join(root, name)] + list(args), {**conf, "root": root}, w, root, timeout=timeout)


def symbol(exe, pc):
    try:
        r = subprocess.run(["addr2line", "-f", "-C", "-e", exe, "0x" + pc], capture_output=True, text=True, timeout=20)
        return re.sub(r"\(.*", "", r.stdout.split("\n")[0])[:80]
    except Exception:
        return pc
