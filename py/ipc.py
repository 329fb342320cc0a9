"""Driver of the deterministic IPC simulator (sim/ipc/core.cpp)."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import threading
import time

import common
import glue
import idlgen
from common import BUILD, JOBS, REPO, HarnessError, log, run

CORE_SRC = os.path.join(common.VERIF, "sim", "ipc", "core.cpp")
BACKENDS = ("c", "cpp", "rs")


def core_exe():
    return common.build_cxx(CORE_SRC, "core")


# ------------------------------------------------------------------ worlds --
class WorldSpec:
    """Everything needed to rebuild a world: program(s), options."""

    def __init__(self, seed, profile, revs=1, langs=BACKENDS):
        self.seed, self.profile, self.revs, self.langs = seed, profile, revs, tuple(langs)

    def as_dict(self):
        return {"idl_seed": self.seed, "profile": self.profile, "revisions": self.revs, "langs": list(self.langs)}

    @staticmethod
    def of(d):
        return WorldSpec(d["idl_seed"], d["profile"], d["revisions"], d["langs"])

    def programs(self):
        p = idlgen.Gen(self.seed, self.profile).program()
        ps = [p]
        if self.revs > 1:
            ps.append(idlgen.extend(p, self.seed))
        return ps


class Failure:
    """Generated code (or the compiler) failed before anything could run."""

    def __init__(self, lang, stage, msg):
        self.lang, self.stage, self.msg = lang, stage, msg


class Built:
    def __init__(self):
        self.libs = []        # (so, descriptor)
        self.failures = []    # of any revision
        self.rejected = False
        self.langs = []
        self.nmethods = 0


def gen_code(idlc, prog, d, langs, fails, seed=0):
    """Runs idlc for every file and backend, with flags that must not change the
    meaning of what is generated; returns the backends that worked."""
    os.makedirs(d, exist_ok=True)
    prog.write(d)
    ok = {}
    r = random.Random("flags-%s" % seed)
    flags = []
    if r.random() < .2:
        with open(os.path.join(d, "mark.txt"), "w") as f:
            f.write("Copyright\nAll rights\n")
        flags += ["--marking", "mark.txt"]
    if r.random() < .2:
        flags.append("--allow-undefined-behavior")
    untyped = [["--no-typed-objects"] if r.random() < .35 else [] for _ in range(2)]
    for lang in langs:
        good = True
        for f in prog.files:
            if lang == "c":
                jobs = [["--c", "-o", "%s.h" % f] + untyped[0], ["--c", "--skel", "-o", "%s_invoke.h" % f] + untyped[1]]
            elif lang == "cpp":
                jobs = [["--cpp", "-o", "%s.hpp" % f], ["--cpp", "--skel", "-o", "%s_invoke.hpp" % f]]
            elif lang == "rs":
                os.makedirs(os.path.join(d, "rs"), exist_ok=True)
                jobs = [["--rust", "-o", "rs"]]
            else:
                os.makedirs(os.path.join(d, "java"), exist_ok=True)
                jobs = [["--java", "-o", "java"]]
            for j in jobs:
                r = run([idlc, "%s.idl" % f] + j + flags, cwd=d, timeout=60)
                if r.rc or r.timeout:
                    fails.append(Failure(lang, "idlc", "%s.idl: exit %s%s %s" % (f, r.rc, " (timeout)" if r.timeout else "", (r.err or r.out)[-600:])))
                    good = False
                    break
            if not good:
                break
        ok[lang] = good
    return ok


def compile_world(prog, d, ok, seed, fails):
    """Compiles the generated code of the backends that worked into one shared object."""
    r = random.Random("cc-%s" % seed)
    inc = ["-I" + d, "-I" + os.path.join(REPO, "tests/c"), "-I" + os.path.join(REPO, "tests/cpp")]
    objs, have = [], set()
    cc = r.choice(["gcc", "clang"])
    cxx = r.choice(["g++", "clang++"])
    opt = r.choice(["-O0", "-O1", "-O2", "-Os"])
    if any(len(i.methods()) > 4000 for i in prog.interfaces()):
        cc, cxx, opt = "clang", "clang++", "-O0"
    base = ["-w", "-fPIC", "-fvisibility=hidden", opt]
    pre_cxx = ["-include", "cstdint", "-include", "atomic", "-std=c++17", "-fno-exceptions"]
    for lang, comp, src, text, extra in (("c", cc, "glue.c", glue.c_glue, ["-std=gnu11"]), ("cpp", cxx, "glue.cpp", glue.cpp_glue, pre_cxx)):
        if not ok.get(lang):
            continue
        with open(os.path.join(d, src), "w") as f:
            f.write(text(prog))
        o = os.path.join(d, src + ".o")
        x = run([comp] + base + extra + inc + ["-c", src, "-o", o], cwd=d, timeout=300)
        if x.rc:
            fails.append(Failure(lang, "compile", x.err[:1500]))
        else:
            objs.append(o)
            have.add(lang)
    so = os.path.join(d, "world.so")
    done = False
    if ok.get("rs"):
        with open(os.path.join(d, "lib.rs"), "w") as f:
            f.write(glue.rs_glue(prog, os.path.join(REPO, "tests/src/object"), have))
        cfgs = []
        for f in prog.files:
            if os.path.exists(os.path.join(d, "rs", f + ".rs")):
                cfgs += ["--cfg", "have_" + f]
        x = run(["rustc", "--edition", "2021", "--crate-type", "cdylib", "--crate-name", "world", "--cap-lints", "allow", "-C", "debuginfo=0",
                 "-C", "opt-level=%s" % r.choice(["0", "0", "1", "2"]), "-C", "codegen-units=1", "--cfg", 'feature="std"'] + cfgs + ["lib.rs", "-o", so]
                + sum((["-C", "link-arg=" + o] for o in objs), []) + ["-C", "link-arg=-Wl,-Bsymbolic", "-C", "link-arg=-lstdc++"],
                cwd=d, timeout=600)
        if x.rc:
            msg = x.err
            m = re.search(r"^error.*", msg, re.M)
            fails.append(Failure("rs", "compile", msg[m.start() if m else 0:][:1500]))
        else:
            done = True
            have.add("rs")
    if not done and objs:
        with open(os.path.join(d, "init.c"), "w") as f:
            f.write("#define EX __attribute__((visibility(\"default\")))\n")
            for l in sorted(have):
                f.write("void sim_%s_init(const void*); void sim_tab_%s(const void**,const void**,const void**,void**);\n" % (l, l))
                f.write("EX void sim_get_%s(const void**a,const void**b,const void**c,void**e){sim_tab_%s(a,b,c,e);}\n" % (l, l))
            f.write("EX void sim_init(const void*cb){%s}\n" % "".join("sim_%s_init(cb);" % l for l in sorted(have)))
        x = run(["gcc", "-shared", "-fPIC", "-o", so, "init.c"] + objs + ["-Wl,-Bsymbolic", "-lstdc++"], cwd=d)
        if x.rc:
            raise HarnessError("cannot link C/C++ world: " + x.err[:1000])
        done = True
    if not done:
        return None, have
    desc = os.path.join(d, "world.desc")
    with open(desc, "w") as f:
        f.write(glue.descriptor(prog))
    return so, have


def build_world(idlc, spec, d):
    b = Built()
    langs = None
    for i, prog in enumerate(spec.programs()):
        dd = os.path.join(d, "rev%d" % i)
        fails = []
        ok = gen_code(idlc, prog, dd, spec.langs, fails, spec.seed)
        for f in fails:
            f.rev = i
        if not any(ok.values()):
            b.rejected = True
            b.failures += fails
            return b
        so, have = compile_world(prog, dd, ok, spec.seed * 3 + i, fails)
        for f in fails:
            f.rev = i
        b.failures += fails
        if so is None:
            return b
        b.libs.append((so, os.path.join(dd, "world.desc")))
        b.langs.append(sorted(have))
        b.nmethods += sum(len(it.methods()) for it in prog.interfaces())
    return b


# ------------------------------------------------- text of two revisions --
def method_lines(text, names):
    """Per method: the lines of the declarations and blocks that bear its name."""
    lines = text.split("\n")
    word = re.compile(r"(?<![A-Za-z0-9])(?:\w*_)?(%s)(?![A-Za-z0-9])" % "|".join(sorted(map(re.escape, names), key=len, reverse=True)))
    out, i = [], 0
    while i < len(lines):
        m = word.search(lines[i])
        if not m:
            i += 1
            continue
        j, depth = i, 0
        while j < len(lines):
            depth += sum(lines[j].count(c) for c in "{([") - sum(lines[j].count(c) for c in "})]")
            if depth <= 0:
                break
            j += 1
        out.append((m.group(1), lines[i:j + 1]))
        i = j + 1
    return out


def revised_text(progs, dirs):
    """The generated code of a method that both revisions have must be the same.
    Returns (number of blocks compared, problem)."""
    # (not the names that are words of the generated code itself)
    names = {m.name for it in progs[0].interfaces() for m in it.own_methods} - set(idlgen.METHODS)
    n = 0
    if not names:
        return 0, None
    for top, _, fs in sorted(os.walk(dirs[0])):
        for f in sorted(fs):
            if f.endswith(".idl"):
                continue
            q = os.path.join(dirs[1], os.path.relpath(os.path.join(top, f), dirs[0]))
            if not os.path.exists(q):
                continue
            with open(os.path.join(top, f), errors="replace") as a, open(q, errors="replace") as b:
                old, new = method_lines(a.read(), names), method_lines(b.read(), names)
            have = {}
            for name, ls in new:
                have.setdefault(name, []).append(ls)
            for name, ls in old:
                n += 1
                if ls not in have.get(name, []):
                    near = have.get(name, [[]])[0] if len(have.get(name, [])) == 1 else []
                    diff = [x for x in ls if x not in near] if near else ls
                    return n, "%s: method %s: %r is not in the later revision's output" % (os.path.relpath(q, dirs[1]), name, "\n".join(diff or ls)[:400])
    return n, None


# --------------------------------------------------------------- simulator --
class Out:
    def __init__(self):
        self.V, self.O, self.D, self.S, self.X, self.rc, self.timeout, self.err = [], [], [], None, None, None, False, ""


def core(core_bin, libs, prop, seed, runs=1, keep=None, nofault=(), trace=None, timeout=240, extra=()):
    cmd = [core_bin, "--prop", prop, "--seed", str(seed), "--runs", str(runs)]
    for so, desc in libs:
        cmd += ["--lib", so, desc]
    if keep is not None:
        cmd += ["--keep", ",".join(map(str, keep)) or ","]
    for f in nofault:
        cmd += ["--nofault", f]
    if trace:
        cmd += ["--trace", trace]
    r = run(cmd + list(extra), timeout=timeout)
    o = Out()
    o.rc, o.timeout, o.err = r.rc, r.timeout, r.err
    for line in r.out.splitlines():
        t, _, rest = line.partition(" ")
        try:
            if t == "V":
                o.V.append(json.loads(rest))
            elif t == "O":
                o.O.append(json.loads(rest))
            elif t == "D":
                o.D.append(rest)
            elif t == "S":
                o.S = json.loads(rest)
            elif t == "X":
                o.X = int(rest)
            elif t == "P":
                o.S = int(rest)
        except ValueError:
            pass
    if not o.timeout and o.rc not in (0, 1, 9):
        raise HarnessError("simulator ended with %s: %s" % (o.rc, r.err[-800:]))
    return o


def signature(v):
    return v["kind"]


def minimise(core_bin, libs, prop, v, budget=40.0):
    """ddmin over the operations of the run, then over the kinds of faults."""
    t0 = time.time()
    seed = v["seed"]
    n = core(core_bin, libs, prop, seed, extra=["--plan"]).S or 0

    def fails(keep, nofault):
        if time.time() - t0 > budget:
            return None
        o = core(core_bin, libs, prop, seed, keep=keep, nofault=nofault, timeout=60)
        for w in o.V:
            if signature(w) == signature(v):
                return w
        return None

    keep = list(range(n))
    best = fails(keep, [])
    if best is None:
        return keep, [], v
    w = fails([], [])
    if w:
        keep, best = [], w
    # nothing after the failing operation matters
    g = 2
    while len(keep) >= 2:
        size = max(1, len(keep) // g)
        for i in range(0, len(keep), size):
            cand = keep[:i] + keep[i + size:]
            w = fails(cand, [])
            if w:
                keep, best = cand, w
                g = max(g - 1, 2)
                break
        else:
            if size == 1 or time.time() - t0 > budget:
                break
            g = min(len(keep), g * 2)
    off = []
    for k in ("drop_request", "drop_reply", "duplicate_request", "late_reply_after_timeout", "hostile_before_call", "garbage_in_failed_slots", "impl_error",
              "nested_call", "crash_restart"):
        w = fails(keep, off + [k])
        if w:
            off, best = off + [k], w
    return keep, off, best


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        else:
            a[k] = a.get(k, 0) + v


class Session:
    """Explores worlds for one property until the budget is used up."""

    def __init__(self, prop, tier, seed, profiles, revs=1, langs=BACKENDS, runs=400, nworlds=24, budget=150.0, fail_tags=("C01",)):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.profiles, self.revs, self.langs = profiles, revs, langs
        self.runs, self.nworlds, self.budget = runs, nworlds, budget
        self.fail_tags = fail_tags
        self.stats, self.worlds, self.violations, self.others = {}, 0, [], {}
        self.rejected, self.failures, self.methods = 0, [], 0
        self.runs_done = 0
        self.samples = []
        self.lang_worlds = {}
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.stop = False

    def spec(self, i):
        return WorldSpec(self.seed * 100003 + i, self.profiles[i % len(self.profiles)], self.revs, self.langs)

    def one(self, i):
        if self.stop or time.time() - self.t0 > self.budget:
            return
        spec = self.spec(i)
        d = os.path.join(common.workdir(), "world%d" % i)
        try:
            b = build_world(self.idlc, spec, d)
            with self.lock:
                self.worlds += 1
                self.methods += b.nmethods
                if b.rejected:
                    self.rejected += 1
                for f in b.failures:
                    self.failures.append((spec, f, b.rejected))
                for ls in b.langs:
                    for l in ls:
                        self.lang_worlds[l] = self.lang_worlds.get(l, 0) + 1
            want = self.revs
            if want > 1:
                self.texts(spec, d, b)
            if len(b.libs) < want or self.stop:
                return
            self.explore(spec, b, i)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def texts(self, spec, d, b):
        progs = spec.programs()
        dirs = [os.path.join(d, "text%d" % k) for k in range(len(progs))]
        for x, p in zip(dirs, progs):
            gen_code(self.idlc, p, x, self.langs + ("java",), [], spec.seed)
        n, bad = revised_text(progs, dirs)
        with self.lock:
            self.stats["method_texts_compared"] = self.stats.get("method_texts_compared", 0) + n
            if bad and not self.stop:
                self.stop = True
                self.violations.append({"property": self.prop, "machinery": "ipc-text", "world": spec.as_dict(), "violation": {"kind": "appending changed the generated code of an existing method", "detail": bad},
                                        "idl": [{f: p.text(f) for f in p.files} for p in progs]})

    def explore(self, spec, b, i):
        base = self.seed * 1000003 + i * 100000 + 1
        end = base + self.runs
        chunk_end = end
        while base < end and not self.stop:
            o = core(self.core, b.libs, self.prop, base, chunk_end - base)
            if o.timeout:
                if chunk_end - base == 1:
                    with self.lock:
                        self.others["timeout"] = self.others.get("timeout", 0) + 1
                    if "C01" == self.prop:
                        self.report(spec, b, {"seed": base, "kind": "call never returned", "tags": "C01", "detail": "the run does not end", "op": -1, "digest": ""}, no_min=True)
                        return
                    base, chunk_end = base + 1, end
                    continue
                chunk_end = base + max(1, (chunk_end - base) // 8)
                continue
            with self.lock:
                if o.S:
                    merge(self.stats, o.S)
                for v in o.O:
                    self.others[v["kind"] + " [" + v["tags"] + "]"] = self.others.get(v["kind"] + " [" + v["tags"] + "]", 0) + 1
                if len(self.samples) < 3 and o.S and o.S["runs"]:
                    self.samples.append({"world": spec.as_dict(), "first_run_seed": base, "runs": o.S["runs"], "calls": o.S["calls"], "pairs": o.S["pairs"], "faults": o.S["faults"]})
            if o.V:
                self.report(spec, b, o.V[0])
                return
            if o.rc == 9 and o.X is not None:
                base = o.X + 1
                continue
            base, chunk_end = chunk_end, end

    def report(self, spec, b, v, no_min=False):
        with self.lock:
            if self.stop:
                return
            self.stop = True
        keep, off, best = (None, [], v) if no_min else minimise(self.core, b.libs, self.prop, v)
        tr = os.path.join(common.workdir(), "trace")
        trace = []
        if not no_min:
            core(self.core, b.libs, self.prop, v["seed"], keep=keep, nofault=off, trace=tr)
            if os.path.exists(tr):
                trace = open(tr, errors="replace").read().splitlines()[-120:]
        idl = [{f: p.text(f) for f in p.files} for p in spec.programs()]
        self.violations.append({"property": self.prop, "machinery": "ipc", "world": spec.as_dict(), "run_seed": v["seed"], "violation": best, "first_seen": v,
                                "kept_operations": keep, "disabled_faults": off, "trace": trace, "idl": idl, "langs_built": b.langs})

    def run(self):
        with cf.ThreadPoolExecutor(2) as ex:
            a, c = ex.submit(common.build_idlc), ex.submit(core_exe)
            self.idlc, self.core = a.result(), c.result()
        log("tools built")
        self.t0 = time.time()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(self.one, i) for i in range(self.nworlds)]:
                f.result()
        return self


def self_check(session):
    """The same seed must give the same execution: run some runs twice."""
    spec = session.spec(1)
    d = os.path.join(common.workdir(), "det")
    b = build_world(session.idlc, spec, d)
    n = 0
    if len(b.libs) == session.revs:
        for s in range(3):
            x = core(session.core, b.libs, session.prop, 77 + s)
            y = core(session.core, b.libs, session.prop, 77 + s)
            if x.D != y.D:
                raise HarnessError("the simulation is not deterministic: %s %s" % (x.D, y.D))
            n += 1
    shutil.rmtree(d, ignore_errors=True)
    return n
