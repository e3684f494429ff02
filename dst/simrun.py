"""Running a program under the simulator, and reading back what it did."""
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LIBSIM = os.path.join(BUILD, "libsim.so")

HDR = struct.Struct("<32Q")
NAMES = ["magic", "verdict", "steps", "nops", "nswitch", "nthreads", "ndev", "ileave", "simtime", "nclk", "nalloc",
         "nraces", "nuaf", "nescape", "nfault", "logpos", "devover", "maxlive", "nsync", "nspur", "nlocks", "nwaits",
         "npoints", "nstall"]
MAXDEV = 1 << 19
VERDICTS = {0: "ended", 1: "deadlock", 2: "stepcap", 3: "crash", 4: "limit"}


class HarnessError(Exception):
    pass


class Res:
    """One simulated execution."""
    def __init__(self):
        self.rc = None
        self.timeout = False

    @property
    def verdict(self):
        return "timeout" if self.timeout else VERDICTS[self.h["verdict"]]

    def lines(self, word):
        return [l for l in self.log if l.startswith(word)]

    @property
    def faults(self):
        return self.lines("FAULT ")

    @property
    def ops(self):
        """[(index, kind, path, bytes, class)]"""
        r = []
        for l in self.log:
            if l.startswith("OP "):
                f = l.split(" ")
                r.append((int(f[1]), f[2], " ".join(f[3:-2]), int(f[-2]), f[-1]))
        return r

    def fingerprint(self):
        """everything observable about the run, for determinism checks"""
        return (self.rc, self.out, self.err, tuple(self.h[n] for n in NAMES if n not in ("magic",)), tuple(self.log))


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > 3 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return "/tmp"


def sweep():
    """removes what checks that were killed have left"""
    for d in ("/dev/shm", "/tmp"):
        for x in os.listdir(d) if os.access(d, os.W_OK) else ():
            m = re.fullmatch(r"vsim-\w+-(\d+)-\w+", x)
            if m and not os.path.exists("/proc/%d" % int(m.group(1))):
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)


def limits():
    """a program that writes without end is stopped before it fills the memory"""
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))


class Work:
    """A scratch directory, removed at the end."""
    def __init__(self, tag="w"):
        self.dir = tempfile.mkdtemp(prefix="vsim-%s-%07d-" % (tag, os.getpid()), dir=scratch_base())
        self.n = 0

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def sub(self, name, clean=True):
        d = self.path(name)
        if clean and os.path.lexists(d):
            shutil.rmtree(d)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        assert "/vsim-" in self.dir
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def conf_text(conf):
    out = []
    for k, v in conf.items():
        if v is None:
            continue
        if isinstance(v, (list, tuple)):
            for x in v:
                out.append("%s=%s" % (k, ":".join(map(str, x)) if isinstance(x, (list, tuple)) else x))
        else:
            out.append("%s=%s" % (k, v))
    return "\n".join(out) + "\n"


NOASLR = None


def prefix():
    """address-space randomisation off where the kernel lets us (nothing relies on it)"""
    global NOASLR
    if NOASLR is None:
        try:
            NOASLR = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0 else []
        except OSError:
            NOASLR = []
    return NOASLR


def run(cmd, conf, work, cwd, timeout=60, env=None, preload=True, stdin=None):
    lf = work.path("sim.log")
    cf = work.path("sim.conf")
    conf = dict(conf)
    conf = {"log": lf, **conf}
    try:
        os.unlink(lf)
    except FileNotFoundError:
        pass
    with open(cf, "w") as f:
        f.write(conf_text(conf))
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": work.dir, "LANG": "C",
         "SIM_CONF": cf}
    if preload:
        e["LD_PRELOAD"] = LIBSIM
    if env:
        e.update(env)
    r = Res()
    # `setarch` must not run under the simulator: only the program gets the preload
    full = prefix() + ["env"] + ["%s=%s" % kv for kv in e.items()] + cmd
    p = subprocess.Popen(full, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env={"PATH": e["PATH"]}, start_new_session=True)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    wd = work.dir.encode()
    # a panic message names the thread by its number in the operating system
    r.out, r.err = r.out.replace(wd, b"$W"), re.sub(rb"(thread .*?) \(\d+\) (panicked|has overflowed)", rb"\1 \2", r.err.replace(wd, b"$W"))
    try:
        with open(lf, "rb") as f:
            b = f.read(HDR.size)
            if len(b) < HDR.size:
                raise HarnessError("simulator log is missing: %r" % r.err[-400:])
            r.h = dict(zip(NAMES, HDR.unpack(b)))
            nd = min(r.h["ndev"], MAXDEV)
            d = f.read(16 * nd)
            r.dev = [struct.unpack_from("<QII", d, 16 * i) for i in range(nd)]
            f.seek(HDR.size + 16 * MAXDEV)
            r.log = f.read(r.h["logpos"]).decode("utf-8", "replace").replace(work.dir, "$W").split("\n")[:-1]
    except FileNotFoundError:
        raise HarnessError("no simulator log; rc=%s stderr=%r" % (r.rc, r.err[-400:]))
    if not conf.get("sched"):
        r.h["nalloc"] = 0  # unscheduled threads (Node.js) allocate as they please
    if r.h["magic"] != 0x73696d6c6f673031:
        raise HarnessError("simulator log is damaged")
    if r.rc in (96, 97):
        raise HarnessError("simulator limit: rc=%d log=%r" % (r.rc, r.log[-3:]))
    return r
