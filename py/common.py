"""Shared machinery: building the tools, running things, evidence, findings."""
import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", str(max(2, min(8, os.cpu_count() or 4)))))
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env(extra=None):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    for d in ("/root/.cargo/bin",):
        if d not in e.get("PATH", ""):
            e["PATH"] = d + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CFLAGS", "CXXFLAGS",
              "LD_LIBRARY_PATH", "LD_PRELOAD", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    if extra:
        e.update(extra)
    return e


class Result:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, cwd=None, timeout=300, extra_env=None, input=None, text=True):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             env=env(extra_env), start_new_session=True)
    except OSError as e:
        return Result(127, "", str(e))
    try:
        o, e = p.communicate(input, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        to = True
    if text:
        o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    return Result(p.returncode, o, e, to)


class HarnessError(Exception):
    pass


def tree_hash(root, exts=(".rs", ".toml", ".lock", ".pest", ".hpp", ".h", ".c", ".cpp")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_idlc(release=False):
    """idlc from the current working tree of the repository."""
    kind = "release" if release else "debug"
    target = os.path.join(BUILD, "idlc-target")
    with Lock("idlc"):
        h = tree_hash(REPO)
        stamp = os.path.join(target, "stamp-" + kind)
        exe = os.path.join(BUILD, "idlc-" + kind + "-" + h[:16])
        if os.path.exists(exe):
            return exe
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old and old != h:
            # never trust time stamps of a tree that was swapped under us
            for pkg in workspace_packages():
                run(["cargo", "clean", "--offline", "-p", pkg] + (["--release"] if release else []), cwd=REPO, extra_env={"CARGO_TARGET_DIR": target})
        r = run(["cargo", "build", "--offline", "--locked", "-p", "idlc"] + (["--release"] if release else []), cwd=REPO, timeout=700,
                extra_env={"CARGO_TARGET_DIR": target, "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "0"})
        if r.rc:
            raise HarnessError("idlc does not build:\n" + r.err[-3000:])
        for f in os.listdir(BUILD):
            if f.startswith("idlc-" + kind + "-"):
                os.unlink(os.path.join(BUILD, f))
        shutil.copy2(os.path.join(target, kind, "idlc"), exe)
        with open(stamp, "w") as f:
            f.write(h)
        return exe


def workspace_packages():
    r = run(["cargo", "metadata", "--offline", "--no-deps", "--format-version", "1"], cwd=REPO)
    try:
        return [p["name"] for p in json.loads(r.out)["packages"]]
    except ValueError:
        return []


def build_cxx(src, name, flags=("-O1", "-std=c++17"), libs=("-ldl",), shared=False):
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read() + repr(flags).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s" % (name, h) + (".so" if shared else ""))
    with Lock(name):
        if not os.path.exists(exe):
            r = run(["g++" if src.endswith(".cpp") else "gcc"] + list(flags) + (["-shared", "-fPIC"] if shared else []) + ["-o", exe + ".tmp", src] + list(libs), timeout=300)
            if r.rc:
                raise HarnessError("%s does not build:\n%s" % (src, r.err[-3000:]))
            os.rename(exe + ".tmp", exe)
    return exe


_work = None


def workdir():
    """Scratch directory of this process, removed at exit."""
    global _work
    if _work is None:
        base = os.path.join(BUILD, "work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w%d-" % os.getpid(), dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def seed_from_env():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_findings():
    """[(property, finding id, text)] of the entries that are still open."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> key=<key> <text>
                w = line.split(None, 3)
                out.append((w[1].split("=", 1)[1], w[2].split("=", 1)[1], w[3] if len(w) > 3 else ""))
    return out


def write_evidence(prop, tier, seed, level, coverage, violations, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "assumptions": assumptions,
          "wall_s": round(time.time() - T0, 2), "violations": violations}
    tmp = os.path.join(d, ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.rename(tmp, os.path.join(d, prop + ".json"))


def write_replay(prop, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(data, indent=1, sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(txt.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(txt + "\n")
    return p
