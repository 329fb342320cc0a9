"""Driver of the Java simulator (sim/java/Sim.java): generated Java proxies and
skeletons as clients and servers of one simulated system."""
import concurrent.futures as cf
import hashlib
import json
import os
import queue
import random
import select
import shutil
import signal
import subprocess
import threading
import time

import common
import idlgen
import ipc
from common import BUILD, JOBS, HarnessError, log, run

SRC = os.path.join(common.VERIF, "sim", "java")
FAULTS = ("drop_request", "drop_reply", "duplicate_request", "duplicate_reply", "slow_request", "slow_reply", "crash_restart", "impl_error", "nested_call")


def classes():
    """The simulator and the stand-in runtime, compiled."""
    files = []
    for d, _, fs in sorted(os.walk(SRC)):
        files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".java")]
    h = hashlib.sha256()
    for f in files:
        h.update(open(f, "rb").read() + b"\0")
    out = os.path.join(BUILD, "javasim-" + h.hexdigest()[:16])
    with common.Lock("javasim"):
        if not os.path.exists(out):
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            r = run(["javac", "-nowarn", "-d", tmp] + files, timeout=300)
            if r.rc:
                raise HarnessError("the Java simulator does not build:\n" + r.err[-3000:])
            os.rename(tmp, out)
    return out


def descriptor(prog):
    """The model of a program, for Sim.java."""
    structs, ifs = prog.structs(), prog.interfaces()
    o = []
    for s in structs:
        o.append("struct %s %s %d %d" % (s.name, s.file, s.size, len(s.fields)))
        for n, kind, ty, count in s.fields:
            o.append("f %s %s %s %d" % (n, kind, ty if kind == "prim" else structs.index(ty), count))
    for it in ifs:
        ms = it.methods()
        o.append("iface %s %d %d" % (it.name, ifs.index(it.base) if it.base else -1, len(ms)))
        for _, e, v in it.errors():
            o.append("err %s %d" % (e, v))
        for op, (decl, m) in enumerate(ms):
            o.append("meth %s %d %d %s %d %d %d %d %d" % ((m.name, op, int(m.optional), decl.name, len(m.params)) + m.counts()))
            for p in m.params:
                ty = "-" if p.kind in ("buffer", "obj", "objs") else p.ty if p.kind.startswith("prim") else structs.index(p.ty)
                o.append("p %s %s %s %d %s" % ("o" if p.out else "i", p.kind, ty, p.count, p.name))
            for tag, out in (("bi", False), ("bo", True)):
                o.append(" ".join([tag] + list(map(str, m.bundle(out)))))
    return "\n".join(o) + "\n"


class Jvm:
    """One simulator process; it stays alive for many worlds."""

    def __init__(self, cp):
        self.cp, self.p = cp, None

    def start(self):
        self.p = subprocess.Popen(["java", "-Xmx700m", "-Xss512k", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-Xshare:auto", "-cp", self.cp, "Sim"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=common.env(), start_new_session=True, cwd=common.workdir())
        self.buf = b""

    def ask(self, d, seed, runs, keep=None, nofault=(), trace=None, prop="C18", timeout=240):
        if self.p is None or self.p.poll() is not None:
            self.start()
        line = "run %s %d %d %s %s %s %s\n" % (d, seed, runs, "*" if keep is None else ",".join(map(str, keep)) or ",", ",".join(nofault) or "-", trace or "-", prop)
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except OSError:
            self.kill()
            raise HarnessError("the Java simulator ended")
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.kill()
                raise HarnessError("the Java simulator does not answer")
            x = os.read(self.p.stdout.fileno(), 65536)
            if not x:
                rc = self.p.wait()
                self.kill()
                raise HarnessError("the Java simulator ended with %s" % rc)
            self.buf += x
        l, _, self.buf = self.buf.partition(b"\n")
        return json.loads(l)

    def kill(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None


def program(spec):
    return idlgen.Gen(spec["idl_seed"], spec["profile"], java=True).program()


def build(idlc, spec, d):
    """Writes program, description and generated code; returns (program, failure)."""
    prog = program(spec)
    fails = []
    shutil.rmtree(d, ignore_errors=True)
    ok = ipc.gen_code(idlc, prog, d, ("java",), fails, spec["idl_seed"])
    with open(os.path.join(d, "world.jdesc"), "w") as f:
        f.write(descriptor(prog))
    return prog, None if ok["java"] else fails[0]


def accepted(idlc, prog, d):
    """True if the C and C++ backends accept the program."""
    fails = []
    return all(ipc.gen_code(idlc, prog, d, ("c", "cpp"), fails).values())


def minimise(jvm, d, prop, v, planned, budget=40.0):
    t0 = time.time()

    def fails(keep, off):
        if time.time() - t0 > budget:
            return None
        for w in jvm.ask(d, v["seed"], 1, keep, off, prop=prop, timeout=60)["violations"]:
            if w["kind"] == v["kind"] and prop in w["tags"]:
                return w
        return None

    keep = list(range(planned))
    best = fails(keep, [])
    if best is None:
        return keep, [], v
    g = 2
    while len(keep) >= 2:
        size = max(1, len(keep) // g)
        for i in range(0, len(keep), size):
            cand = keep[:i] + keep[i + size:]
            w = fails(cand, [])
            if w:
                keep, best, g = cand, w, max(g - 1, 2)
                break
        else:
            if size == 1 or time.time() - t0 > budget:
                break
            g = min(len(keep), g * 2)
    off = []
    for k in FAULTS:
        w = fails(keep, off + [k])
        if w:
            off, best = off + [k], w
    return keep, off, best


class Session:
    def __init__(self, prop, tier, seed, profiles, nworlds, runs, budget):
        self.prop, self.tier, self.seed, self.profiles = prop, tier, seed, profiles
        self.nworlds, self.runs, self.budget = nworlds, runs, budget
        self.stats, self.violations, self.others, self.samples = {}, [], {}, []
        self.worlds = self.rejected = self.methods = self.determinism = 0
        self.lock = threading.Lock()
        self.stop = False

    def spec(self, i):
        return {"idl_seed": self.seed * 700001 + i, "profile": self.profiles[i % len(self.profiles)]}

    def found(self, spec, prog, kind, detail, **more):
        with self.lock:
            if self.stop:
                return
            self.stop = True
            self.violations.append(dict({"property": self.prop, "machinery": "javasim", "world": spec, "idl": [{f: prog.text(f) for f in prog.files}]},
                                        **dict({"violation": {"kind": kind, "detail": detail}}, **more)))

    def one(self, i):
        if self.stop or time.time() - self.t0 > self.budget:
            return
        spec = self.spec(i)
        d = os.path.join(common.workdir(), "jworld%d" % i)
        jvm = self.jvms.get()
        try:
            prog, fail = build(self.idlc, spec, d)
            with self.lock:
                self.worlds += 1
                self.methods += sum(len(it.methods()) for it in prog.interfaces())
            if fail:
                if accepted(self.idlc, prog, os.path.join(d, "other")):
                    if self.prop == "C18":
                        self.found(spec, prog, "the Java backend refuses a program the others accept", fail.msg)
                    else:
                        self.other("refused by the Java backend")
                else:
                    with self.lock:
                        self.rejected += 1
                return
            base = self.seed * 1000003 + i * 100000 + 1
            o = jvm.ask(d, base, self.runs, prop=self.prop)
            if o["build_error"] and all("code too large" in x for x in o["build_error"].split("; ") if x.strip()):
                self.other("method beyond the 64 KiB a class file admits (skipped)")
                return
            if o["build_error"]:
                if self.prop == "C18":
                    self.found(spec, prog, "generated Java code of an accepted program does not build", o["build_error"])
                else:
                    self.other("generated Java code does not build")
                return
            with self.lock:
                ipc.merge(self.stats, o["stats"])
                ipc.merge(self.stats.setdefault("faults", {}), o["faults"])
                ipc.merge(self.stats.setdefault("links", {}), o["links"])
                if len(self.samples) < 3:
                    self.samples.append({"world": spec, "first_run_seed": base, "runs": o["stats"]["runs"], "faults": o["faults"]})
            for v in o["violations"]:
                if v["tags"] == "harness":
                    raise HarnessError("Java simulator: %s" % v)
                if self.prop not in v["tags"]:
                    self.other(v["kind"] + " [" + v["tags"] + "]")
                    continue
                if self.stop:
                    break
                keep, off, best, trace = None, [], v, []
                if v["kind"] not in ("generated code does not return", "no progress") and v["digest"] != "0":
                    one = jvm.ask(d, v["seed"], 1, prop=self.prop)
                    keep, off, best = minimise(jvm, d, self.prop, v, one["planned"])
                    tr = os.path.join(d, "trace")
                    jvm.ask(d, v["seed"], 1, keep, off, tr, self.prop)
                    trace = open(tr, errors="replace").read().splitlines()[-120:]
                self.found(spec, prog, "", "", violation=best, first_seen=v, run_seed=v["seed"], kept_operations=keep, disabled_faults=off, trace=trace)
                return
            if i % 16 == 1:
                a = jvm.ask(d, base + 7, 3, prop=self.prop)
                b = jvm.ask(d, base + 7, 3, prop=self.prop)
                if a["digests"] != b["digests"] or not a["digests"]:
                    raise HarnessError("the Java simulation is not deterministic: %s %s" % (a["digests"], b["digests"]))
                with self.lock:
                    self.determinism += 1
        finally:
            self.jvms.put(jvm)
            shutil.rmtree(d, ignore_errors=True)

    def other(self, k):
        with self.lock:
            self.others[k] = self.others.get(k, 0) + 1

    def run(self):
        self.idlc, cp = common.build_idlc(), classes()
        self.t0 = time.time()
        self.jvms = queue.Queue()
        all_ = [Jvm(cp) for _ in range(JOBS)]
        for j in all_:
            self.jvms.put(j)
        try:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for f in [ex.submit(self.one, i) for i in range(self.nworlds)]:
                    f.result()
        finally:
            for j in all_:
                j.kill()
        self.seconds = time.time() - self.t0
        return self

    def coverage(self):
        st = self.stats
        h = max(1e-9, self.seconds / 3600)
        return {
            "evaluations": st.get("runs", 0), "distinct_nontrivial": st.get("interleavings", 0),
            "rule": "one evaluation is one simulated run (a seeded schedule of clients, servers, objects and faults over one generated Java program); distinct by the digest of its scheduling decisions and events within its world",
            "samples": self.samples or ["no run completed"],
            "worlds": self.worlds, "worlds_rejected_by_every_backend": self.rejected, "methods_generated": self.methods, "methods_called": st.get("methods_called", 0),
            "runs_per_hour": int(st.get("runs", 0) / h), "seeds_per_hour": int(st.get("runs", 0) / h), "simulated_seconds": round(st.get("sim_us", 0) / 1e6, 3),
            "calls": st.get("calls", 0), "envelopes_checked": st.get("envelopes", 0), "deliveries": st.get("deliveries", 0), "implementation_runs": st.get("impl_runs", 0),
            "inputs_compared": st.get("inputs", 0), "outputs_compared": st.get("outputs", 0), "objects_compared": st.get("objects", 0), "answered": st.get("answered", 0),
            "replies_checked": st.get("replies_checked", 0), "missing_optional_refused": st.get("optional_refused", 0), "malformed_envelopes_refused": st.get("misfit_refused", 0), "foreign_opcodes_refused": st.get("foreign_refused", 0), "scheduler_steps": st.get("steps", 0),
            "faults_injected": st.get("faults", {}), "links": st.get("links", {}), "violations_of_other_properties_seen": self.others, "determinism_self_checks": self.determinism,
            "components": "generated Java interfaces, proxies and skeletons (from /repo's current idlc, compiled by javac): real; Mink Java runtime API: stand-in (sim/java/com/qualcomm/...); transport, clients, implementations, clock and scheduler: simulated",
        }


BOUNDS = {"quick": (420, 300, 170), "thorough": (4000, 1000, 2400)}


def check(prop, tier, seed):
    n, runs, budget = BOUNDS[tier]
    s = Session(prop, tier, seed, ["java", "java", "bundles", "java", "data", "deep", "objects", "wide"], n, runs, budget).run()
    log("worlds done: %d" % s.worlds)
    if not s.violations and not s.stats.get("impl_runs"):
        raise HarnessError("nothing was explored: worlds=%d rejected=%d" % (s.worlds, s.rejected))
    return s.coverage(), s.violations, [
        "the stand-in for the Mink Java runtime (invoke, InvokeException, error codes) behaves like the one the generated classes import",
        "the reference model (py/idlgen.py) states the marshalling rule; it shares no code with the compiler",
        "callers pass holders of the length the proxy documents; objects inside structs are out of scope (unsupported by the backend)",
    ], "exploration"


def replay(data):
    idlc, jvm = common.build_idlc(), Jvm(classes())
    d = os.path.join(common.workdir(), "replay")
    try:
        prog, fail = build(idlc, data["world"], d)
        if fail:
            print("idlc: %s" % fail.msg)
            return 1
        tr = os.path.join(d, "trace")
        o = jvm.ask(d, data.get("run_seed", 1), 1 if "run_seed" in data else 0, data.get("kept_operations"), data.get("disabled_faults", ()), tr, data["property"])
        if o["build_error"]:
            print("does not build: %s" % o["build_error"])
            return 1
        print(open(tr, errors="replace").read() if os.path.exists(tr) else "")
        for v in o["violations"]:
            if data["property"] in v["tags"]:
                w = data["violation"]
                same = v["digest"] == w.get("digest") and v["kind"] == w["kind"]
                print("reproduced%s: %s" % (" exactly" if same else " (another digest)", json.dumps(v)))
                return 1
        print("no violation on this tree")
        return 0
    finally:
        jvm.kill()
