"""bin/check <property> [quick|thorough] | bin/check --replay FILE"""
import concurrent.futures as cf
import json
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import fscheck  # noqa: E402
import idlgen  # noqa: E402
import ipc  # noqa: E402
import javasim  # noqa: E402
import rsthreads  # noqa: E402
from common import HarnessError, log  # noqa: E402

ALL = ["mixed", "data", "bundles", "objects", "wide", "deep"]
# property -> profiles, revisions, (worlds, runs, budget) quick, thorough
IPC = {
    "C01": (ALL, 1, (130, 300, 320), (1500, 800, 2700)),
    "C02": (["wide", "mixed", "objects", "wide", "data", "deep"], 1, (120, 250, 320), (1500, 600, 2400)),
    "C03": (["bundles", "data", "bundles", "mixed", "objects", "wide"], 1, (130, 250, 320), (1500, 600, 2400)),
    "C04": (ALL, 1, (120, 250, 320), (1500, 700, 2700)),
    "C05": (["objects", "mixed", "objects", "wide"], 1, (120, 300, 320), (1500, 800, 2700)),
    "C07": (["deep", "deep", "mixed"], 1, (100, 250, 320), (1200, 600, 2400)),
    "C08": (["deep", "deep", "mixed"], 1, (100, 250, 320), (1200, 600, 2400)),
    "C15": (["deep", "mixed", "objects", "data"], 2, (72, 300, 320), (900, 700, 2700)),
}
IPC_ASSUME = [
    "the object runtime of the repository's tests (tests/c/object.h, tests/cpp, tests/src/object) is the Mink runtime the generated code is linked with",
    "the reference model (py/idlgen.py) states the marshalling rule of the property; it shares no code with the compiler",
    "host is 64-bit little-endian Linux: pointers and padding of other targets are not executed",
]
REAL = "generated C/C++/Rust stubs and skeletons (compiled from /repo's current idlc), tests/c/object.h, tests/cpp runtime, tests/src/object runtime: real; transport, remote handles, clients, implementations, clock and scheduler: simulated"


def fails_as_violations(s, prop):
    """Generated code that does not build breaks the round trip (C01)."""
    out = []
    for spec, f, rejected in s.failures:
        kind = None
        if prop == "C01" and not rejected:
            kind = "generated code of an accepted interface does not build" if f.stage == "compile" else "backend refuses an interface the others accept"
        elif prop == "C07" and f.stage == "compile" and ("duplicate case" in f.msg):
            kind = "two methods of an interface share an op-code"
        elif prop == "C15" and f.rev == 1 and not any(s2 is spec and f2.rev == 0 and f2.lang == f.lang for s2, f2, _ in s.failures):
            kind = "appending to an accepted file set made a backend's code fail to build"
        if kind:
            out.append({"property": prop, "machinery": "ipc-build", "world": spec.as_dict(), "violation": {"kind": kind, "detail": "%s: %s" % (f.lang, f.msg)},
                        "idl": [{x: p.text(x) for x in p.files} for p in spec.programs()] if spec.profile != "giant" else []})
            break
    return out


def must_reject(idlc, prop, name, prog, why, flags_list=None):
    """Every backend has to refuse the program. Returns a violation or None."""
    d = os.path.join(common.workdir(), name)
    os.makedirs(d, exist_ok=True)
    n = 0
    try:
        prog.write(d)
        for lang, fl in (("c", ["--c"]), ("c skeleton", ["--c", "--skel"]), ("cpp", ["--cpp"]), ("cpp skeleton", ["--cpp", "--skel"]), ("rust", ["--rust"]), ("java", ["--java"])):
            out = os.path.join(d, "out")
            if lang in ("rust", "java"):
                os.makedirs(out + lang, exist_ok=True)
                out += lang
            r = common.run([idlc, prog.files[-1] + ".idl"] + fl + ["-o", out], cwd=d, timeout=120)
            n += 1
            if r.rc == 0:
                return n, {"property": prop, "machinery": "idlc-reject", "idl": [{x: prog.text(x)[:200000] for x in prog.files}], "flags": fl,
                           "violation": {"kind": "accepted: " + why, "detail": "idlc %s exits 0" % " ".join(fl)}}
        return n, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def extra_c02(idlc, seed, tier, viols):
    """Methods that do not fit the counts word have to be rejected."""
    n, evals = (40 if tier == "quick" else 600), 0

    def one(i):
        prog, m = idlgen.overfull(seed * 7919 + i)
        return must_reject(idlc, "C02", "over%d" % i, prog, "a method with counts %s" % (m.counts(),))
    with cf.ThreadPoolExecutor(common.JOBS) as ex:
        for k, v in ex.map(one, range(n)):
            evals += k
            if v and len(viols) < 3:
                viols.append(v)
    return {"overfull_programs": n, "overfull_compiler_runs": evals}


def extra_c07(idlc, seed, tier, viols):
    """Interfaces that need an op-code beyond 0x3FFF have to be rejected."""
    n, evals = (3 if tier == "quick" else 12), 0

    def one(i):
        k = 1 if i == 0 else random.Random(seed * 31 + i).choice([1, 2, 7, 100, 0x4000])
        return must_reject(idlc, "C07", "many%d" % i, idlgen.giant(seed * 7919 + i, idlgen.MAXMETHODS + k, i % 3 == 2), "an interface with %d methods" % (idlgen.MAXMETHODS + k))
    with cf.ThreadPoolExecutor(common.JOBS) as ex:
        for k, v in ex.map(one, range(n)):
            evals += k
            if v and len(viols) < 3:
                viols.append(v)
    return {"too_many_methods_programs": n, "too_many_methods_compiler_runs": evals}


# Java proxies and skeletons, in the Java simulator: (worlds, runs, budget) quick, thorough
JAVA = {"C04": ((80, 60, 60), (1000, 300, 400)), "C07": ((120, 60, 60), (1500, 300, 400)), "C08": ((120, 60, 60), (1500, 300, 400))}
JAVA_PROFILES = {"C04": ["deep", "java", "deep", "objects"]}
EXTRAS = {"C02": extra_c02, "C07": extra_c07}


class GiantSession(ipc.Session):
    """C07: the first world has an interface that uses every op-code."""

    def spec(self, i):
        if i == 0:
            return ipc.WorldSpec(self.seed, "giant", 1, ("c",) if self.tier == "quick" else ("c", "cpp"))
        return super().spec(i)


def check_ipc(prop, tier, seed):
    profiles, revs, quick, thorough = IPC[prop]
    nworlds, runs, budget = quick if tier == "quick" else thorough
    cls = GiantSession if prop == "C07" else ipc.Session
    s = cls(prop, tier, seed, profiles, revs, runs=runs, nworlds=nworlds, budget=budget).run()
    log("worlds done: %d" % s.worlds)
    viols = list(s.violations) + fails_as_violations(s, prop)
    extra = {}
    if prop in EXTRAS:
        extra = EXTRAS[prop](s.idlc, seed, tier, viols)
        log("extras done")
    det = 0
    if not viols:
        det = ipc.self_check(s)
    st = s.stats
    if not viols and not st.get("impl_runs"):
        raise HarnessError("nothing was explored: worlds=%d rejected=%d failures=%s" % (s.worlds, s.rejected, [(f.lang, f.msg[:200]) for _, f, _ in s.failures[:3]]))
    hours = max(1e-9, (common.time.time() - s.t0) / 3600)
    cov = {
        "evaluations": st.get("runs", 0),
        "distinct_nontrivial": st.get("interleavings", 0),
        "rule": "one evaluation is one simulated run (a seeded schedule of clients, servers, objects and faults over one generated program); counted as distinct by the digest of its sequence of scheduling decisions within its world, non-trivial when at least one implementation method was reached",
        "samples": s.samples or ["no run completed"],
        "worlds": s.worlds, "worlds_rejected_by_every_backend": s.rejected, "build_failures": len(s.failures), "worlds_per_backend": s.lang_worlds,
        "methods_generated": s.methods,
        "runs_per_hour": int(st.get("runs", 0) / hours), "seeds_per_hour": int(st.get("runs", 0) / hours),
        "simulated_seconds": round(st.get("sim_us", 0) / 1e6, 3),
        "calls": st.get("calls", 0), "implementation_runs": st.get("impl_runs", 0), "envelopes_checked": st.get("envelopes", 0), "deliveries": st.get("deliveries", 0),
        "malformed_deliveries": st.get("hostile", 0), "malformed_refused": st.get("hostile_refused", 0), "missing_optional_refused": st.get("optional_refused", 0),
        "unknown_to_old_revision_refused": st.get("rev_refused", 0), "objects_passed": st.get("objects", 0), "reference_releases_checked": st.get("drops", 0),
        "fiber_switches": st.get("switches", 0), "events": st.get("events", 0),
        "faults_injected": st.get("faults", {}), "malformations": st.get("muts", {}), "backend_pairings": st.get("pairs", {}), "links": st.get("links", {}),
        "distinct_method_pairings": st.get("method_pairs", 0),
        "violations_of_other_properties_seen": s.others,
        "determinism_self_checks": det, "components": REAL,
    }
    cov.update(extra)
    if revs > 1:
        cov["method_texts_compared"] = st.get("method_texts_compared", 0)
    if prop in JAVA and not viols:
        n, jr, jb = JAVA[prop][tier != "quick"]
        j = javasim.Session(prop, tier, seed, JAVA_PROFILES.get(prop, ["deep"]), n, jr, jb).run()
        viols += j.violations
        cov["java"] = {k: v for k, v in j.coverage().items() if k not in ("rule", "samples")}
        log("Java done: %d worlds" % j.worlds)
    return cov, viols, IPC_ASSUME, "exploration"


def replay(path):
    data = json.load(open(path))
    mach = data["machinery"]
    if mach == "ipc":
        idlc, core = common.build_idlc(), ipc.core_exe()
        spec = ipc.WorldSpec.of(data["world"])
        b = ipc.build_world(idlc, spec, os.path.join(common.workdir(), "replay"))
        if len(b.libs) < spec.revs:
            print("the world does not build on this tree: %s" % [(f.lang, f.msg[:300]) for f in b.failures])
            return 2
        tr = os.path.join(common.workdir(), "trace")
        o = ipc.core(core, b.libs, data["property"], data["run_seed"], keep=data["kept_operations"], nofault=data["disabled_faults"], trace=tr)
        print(open(tr, errors="replace").read() if os.path.exists(tr) else "")
        if o.V:
            same = o.V[0]["digest"] == data["violation"]["digest"] and o.V[0]["kind"] == data["violation"]["kind"]
            print("reproduced%s: %s" % (" exactly" if same else " (another digest)", json.dumps(o.V[0])))
            return 1
        print("no violation on this tree")
        return 0
    if mach == "ipc-build":
        b = ipc.build_world(common.build_idlc(), ipc.WorldSpec.of(data["world"]), os.path.join(common.workdir(), "replay"))
        for f in b.failures:
            print(f.lang, f.stage, f.msg)
        return 1 if b.failures else 0
    if mach == "ipc-text":
        idlc, spec = common.build_idlc(), ipc.WorldSpec.of(data["world"])
        dirs = []
        for k, prog in enumerate(spec.programs()):
            dirs.append(os.path.join(common.workdir(), "rev%d" % k))
            ipc.gen_code(idlc, prog, dirs[-1], spec.langs + ("java",), [], spec.seed)
        bad = ipc.revised_text(spec.programs(), dirs)[1]
        print(bad or "no violation on this tree")
        return 1 if bad else 0
    if mach == "idlc-reject":
        idlc = common.build_idlc()
        d = common.workdir()
        names = list(data["idl"][0])
        for n in names:
            with open(os.path.join(d, n + ".idl"), "w") as f:
                f.write(data["idl"][0][n])
        r = common.run([idlc, names[-1] + ".idl"] + data["flags"] + ["-o", os.path.join(d, "out")], cwd=d)
        print("idlc exits %s" % r.rc)
        return 1 if r.rc == 0 else 0
    mod = __import__(mach)
    return mod.replay(data)


CHECKS = {p: check_ipc for p in IPC}
CHECKS["C20"] = rsthreads.check
CHECKS["C18"] = javasim.check
for _p in fscheck.MACH:
    CHECKS[_p] = fscheck.check


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = common.seed_from_env()
    known = {(p, k): t for p, k, t in common.known_findings()}
    try:
        cov, viols, assume, level = CHECKS[prop](prop, tier, seed)
    except HarnessError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    fresh = [v for v in viols if (prop, v.get("known_key")) not in known]
    for v in viols:
        if (prop, v.get("known_key")) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, v["known_key"])]))
    common.write_evidence(prop, tier, seed, level, cov, len(fresh), assume)
    for v in fresh:
        p = common.write_replay(prop, v)
        log("violation: %s: %s" % (v["violation"]["kind"], v["violation"].get("detail", "")[:800]))
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    log("%s %s: %d evaluations, %d violations" % (prop, tier, cov.get("evaluations", 0), len(fresh)))
    sys.stdout.flush()
    sys.exit(1 if fresh else 0)


if __name__ == "__main__":
    main()
