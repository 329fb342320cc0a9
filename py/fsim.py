"""Simulated operating system for idlc processes.

Real idlc processes run one at a time: every call they make on files, the
clock or the random source arrives here (sim/fs/shim.c) and waits until the
seeded scheduler grants, delays, fails, shortens or ends it.  One plan (hash
seeds, schedule, faults keyed by process and ordinal of the call) is one
exactly repeatable execution.
"""
import copy
import errno
import hashlib
import os
import random
import resource
import signal
import socket
import struct
import time

import common

SIMFD = 198
GO, FAIL, LIMIT, DIE, DATA = range(5)
READ_ERR = {"open-r": (errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOMEM), "read": (errno.EIO, errno.ENOMEM),
            "realpath": (errno.EIO, errno.EACCES, errno.ENOMEM), "stat": (errno.EIO, errno.EACCES), "lstat": (errno.EIO,), "readlink": (errno.EIO,),
            "getcwd": (errno.ENOENT, errno.EACCES), "opendir": (errno.EIO, errno.EACCES, errno.EMFILE)}
WRITE_ERR = {"open-w": (errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EDQUOT, errno.EMFILE, errno.EIO),
             "write": (errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG), "mkdir": (errno.ENOSPC, errno.EROFS), "rename": (errno.EIO, errno.ENOSPC, errno.EACCES),
             "truncate": (errno.EIO, errno.ENOSPC), "link": (errno.EIO,), "symlink": (errno.EIO,)}
# calls that may be interrupted or cut short without the caller being entitled to notice
EINTR_OK = ("open-r", "open-w", "read", "write")
SHORT_OK = ("read", "write")
# errors a caller may ignore: the size hint of a file, closing what was read
HINT_ERR = {"fstat": (errno.EIO,), "close-r": (errno.EIO, errno.EINTR)}


def shim():
    return common.build_cxx(os.path.join(common.VERIF, "sim", "fs", "shim.c"), "shim", flags=("-O1", "-Wno-nonnull-compare", "-fno-delete-null-pointer-checks"), shared=True)


class Cmd:
    """One idlc process: argv, cwd and what the simulator presents to it."""

    def __init__(self, argv, cwd, hseed=0, env=None, clock=(1600000000, 1000), cpu=20, mem=64 << 30, stack=0, heap=True):
        self.argv, self.cwd, self.hseed, self.env, self.clock, self.cpu, self.mem, self.stack = argv, cwd, hseed, env or {}, clock, cpu, mem, stack
        # where allocations lie, drawn from the same seed as the hashes; 0: as libc places them
        self.heap = hseed if heap and hseed & 8 else 0


class Done:
    """How a process ended."""

    def __init__(self):
        self.rc = self.sig = None
        self.err = self.out = b""
        self.killed = False  # by the simulator
        self.hang = False
        self.ops = 0
        self.trace = []

    @property
    def ok(self):
        return self.rc == 0

    def how(self):
        if self.hang:
            return "did not terminate"
        if self.killed:
            return "was killed by the simulator"
        if self.sig is not None:
            return "was ended by signal %d (%s)" % (self.sig, signal.Signals(self.sig).name)
        return "exited with %s" % self.rc


def kind_of(op, a, path):
    if op == "open":
        return "open-w" if (a & os.O_ACCMODE) != os.O_RDONLY or a & (os.O_CREAT | os.O_TRUNC) else "open-r"
    if op == "close":
        return "close-" + (path[:1] or "r")
    return op


class Plan:
    """Decides every call. Either draws decisions (and records them) or repeats
    recorded ones."""

    def __init__(self, seed, faults=None, sched=None, policy=None):
        self.rng = random.Random(seed)
        self.fixed = faults
        self.sched_in = list(sched) if sched is not None else None
        self.policy = copy.deepcopy(policy) if policy else {}
        self.faults = {}
        self.sched = []
        self.counts = {}
        self.budget = dict(self.policy.get("hard", {}))

    def pick(self, ready):
        if len(ready) == 1:
            return ready[0]
        if self.sched_in is not None:
            c = self.sched_in.pop(0) if self.sched_in else ready[0]
            c = c if c in ready else ready[0]
        else:
            # bursts: mostly continue with the same process
            last = self.sched[-1] if self.sched else None
            c = last if last in ready and self.rng.random() < self.policy.get("burst", 0.5) else self.rng.choice(ready)
        self.sched.append(c)
        return c

    def decide(self, p, k, kind, n, rel):
        """(action, argument) for call k of process p."""
        if self.fixed is not None:
            f = self.fixed.get("%d:%d" % (p, k))
            # a fault only applies to the kind of call it was drawn for
            if not f or f[0] != kind:
                return GO, 0
            f = tuple(f[1:])
        else:
            f = self.draw(p, k, kind, n, rel)
            if not f:
                return GO, 0
        self.faults["%d:%d" % (p, k)] = [kind, f[0], f[1]]
        name = {FAIL: errno.errorcode.get(f[1], f[1]), LIMIT: "short", DIE: "crash"}[f[0]]
        key = "%s %s" % (kind, name)
        self.counts[key] = self.counts.get(key, 0) + 1
        return f

    def draw(self, p, k, kind, n, rel):
        r, pol = self.rng, self.policy
        h = pol.get("at", {}).get(p)
        if h and k >= h[0] and p not in self.done_hard():
            mode = h[1]
            if mode == "crash":
                self._hard.add(p)
                return DIE, 0
            if len(h) > 2 and (kind in WRITE_ERR or kind == "close-w"):
                # the fault is for a later call of those that change files
                h[2] -= 1
                if h[2] >= 0:
                    return None
            if mode == "crash-w" and (kind in WRITE_ERR or kind == "close-w"):
                self._hard.add(p)
                return DIE, 0
            table = {"read": READ_ERR, "write": WRITE_ERR}.get(mode, ())
            if kind in table and kind not in pol.get("never", ()):
                self._hard.add(p)
                return FAIL, r.choice(table[kind])
        if kind in EINTR_OK and r.random() < pol.get("eintr", 0):
            return FAIL, errno.EINTR
        if kind in SHORT_OK and n > 1 and r.random() < pol.get("short", 0):
            return LIMIT, r.choice((1, r.randrange(1, n), max(1, n // 2)))
        if kind in HINT_ERR and r.random() < pol.get("hint", 0):
            return FAIL, r.choice(HINT_ERR[kind])
        return None

    def done_hard(self):
        if not hasattr(self, "_hard"):
            self._hard = set()
        return self._hard


def hash_bytes(hseed, k, n):
    return hashlib.sha256(b"%d/%d" % (hseed, k)).digest()[:32]


_cpu_dir = None


def simulate(cmds, plan, root, wall=60):
    """Runs the processes to their end. Returns ([Done], trace)."""
    so = shim()
    procs = []
    trace = []
    rootb = os.fsencode(os.path.realpath(root))

    def start(i, c):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        err = os.path.join(common.workdir(), "stderr%d" % i)
        e = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": so, "SIM_ON": "1", "SIM_CWD": c.cwd, "SIM_CPU": str(c.cpu), "SIM_AS": str(c.mem),
             "SIM_CLOCK": "%d,%d" % (c.clock[0] * 10**9, c.clock[1]), "SIM_DIRSEED": str(c.hseed)}
        e["SIM_PID"] = str(1000 + (c.hseed * 7 + i * 101) % 30000)
        if c.heap:
            e["SIM_HEAP"] = str(c.heap)
        if c.stack:
            e["SIM_STACK"] = str(c.stack)
        e.update(c.env)
        acts = [(os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0), (os.POSIX_SPAWN_OPEN, 1, err + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600),
                (os.POSIX_SPAWN_OPEN, 2, err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600), (os.POSIX_SPAWN_DUP2, b.fileno(), SIMFD)]
        pid = os.posix_spawn(c.argv[0], [os.fsencode(x) for x in c.argv], e, file_actions=acts)
        b.close()
        a.settimeout(wall)
        procs.append({"pid": pid, "sock": a, "k": 0, "rnd": 0, "msg": None, "done": Done(), "err": err, "cmd": c, "open": True, "exit": False})
        advance(i)

    def advance(i):
        """Lets process i run until its next call or its end."""
        p = procs[i]
        try:
            m = p["sock"].recv(9000)
        except socket.timeout:
            os.kill(p["pid"], signal.SIGKILL)
            p["done"].hang = True
            m = b""
        except ConnectionResetError:
            m = b""
        if m:
            p["msg"] = m
            return
        p["sock"].close()
        p["open"] = False
        p["msg"] = None
        _, st = os.waitpid(p["pid"], 0)
        d = p["done"]
        if os.WIFEXITED(st):
            d.rc = os.WEXITSTATUS(st)
        else:
            d.sig = os.WTERMSIG(st)
            if d.sig in (signal.SIGXCPU,) or (d.sig == signal.SIGKILL and not d.killed):
                d.hang = True
        with open(p["err"], "rb") as f:
            d.err = f.read(200000)
        with open(p["err"] + ".out", "rb") as f:
            d.out = f.read()
        d.ops = p["k"]

    for i, c in enumerate(cmds):
        start(i, c)
    while True:
        ready = [i for i, p in enumerate(procs) if p["open"]]
        if not ready:
            break
        i = plan.pick(ready)
        p = procs[i]
        op, fd, a, b, path = p["msg"].split(b"|", 4)
        op, a = op.decode(), int(a)
        if op == "random":
            rep = struct.pack("=iiq64s", DATA, 32, 0, hash_bytes(p["cmd"].hseed, p["rnd"], a))
            p["rnd"] += 1
            what = "random"
        elif op in ("exit", "readdir"):
            rep = struct.pack("=iiq64s", GO, 0, 0, b"")
            what = op
        else:
            ps = path.decode("utf-8", "surrogateescape")
            kind = kind_of(op, a, ps)
            if op in ("read", "write", "close", "fstat", "fsync") and ps:
                ps = ps[1:]
                path = path[1:]
            act, arg = plan.decide(i, p["k"], kind, a if op in ("read", "write") else 0, ps)
            if act == DIE:
                p["done"].killed = True
            rep = struct.pack("=iiq64s", act, 0, arg, b"")
            what = "%s %s%s" % (kind, path.replace(rootb, b"~").decode("utf-8", "replace"), "" if act == GO else " -> " + {FAIL: errno.errorcode.get(arg, str(arg)), LIMIT: "only %d" % arg, DIE: "crash"}[act])
            if op == "write":
                what += " [%d]" % a
        trace.append((i, p["k"], what))
        p["k"] += 1
        try:
            p["sock"].send(rep)
        except OSError:
            pass
        advance(i)
    return [p["done"] for p in procs], trace


def trace_digest(trace):
    h = hashlib.sha256()
    for t in trace:
        h.update(repr(t).encode())
    return h.hexdigest()[:16]


def snapshot(top):
    """Everything below top: {relative path: (kind, content or target, mtime, inode)}."""
    out = {}
    top = os.fsencode(top)

    def walk(d, rel):
        for e in sorted(os.scandir(d), key=lambda x: x.name):
            r = rel + e.name
            st = e.stat(follow_symlinks=False)
            if e.is_symlink():
                out[r] = ("link", os.readlink(e.path), st.st_mtime_ns, st.st_ino)
            elif e.is_dir():
                out[r] = ("dir", b"", 0, st.st_ino)
                walk(e.path, r + b"/")
            else:
                with open(e.path, "rb") as f:
                    out[r] = ("file", f.read(), st.st_mtime_ns, st.st_ino)
    walk(top, b"")
    return out
