"""C12, C13, C16 and C19: idlc processes in a simulated operating system.

Every scenario is plain data (file tree, history of steps, plans of the
simulator), drawn from one seed, and is executed by execute(scenario): the same
data gives the same execution, call by call.  Violations are minimised by
deleting atoms of the scenario and re-executing it.
"""
import collections
import concurrent.futures as cf
import copy
import errno
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import sys
import time

import common
import fsgen
import fsim
import reffront
from common import HarnessError, log

EXES = {}


def exe(kind="debug"):
    if kind not in EXES:
        EXES[kind] = common.build_idlc(release=kind == "release")
    return EXES[kind]


# ---------------------------------------------------------------- plumbing

class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def count(self, k, sub, n=1):
        d = self.setdefault(k, {})
        d[sub] = d.get(sub, 0) + n

    def merge(self, o):
        for k, v in o.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    self.count(k, a, b)
            elif isinstance(v, set):
                self.setdefault(k, set()).update(v)
            else:
                self.add(k, v)


class Violation(Exception):
    def __init__(self, kind, detail, **more):
        super().__init__(kind)
        self.kind, self.detail, self.more = kind, detail, more


def fresh(name):
    d = os.path.join(common.workdir(), name)
    wipe(d)
    os.makedirs(d)
    return d


def wipe(d):
    assert os.path.realpath(d).startswith(os.path.realpath(common.workdir()) + os.sep)
    shutil.rmtree(d, ignore_errors=True)


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))


def run_sim(cmds, step, root, stats, replaying):
    """One simulated execution. step["plan"] holds seed and policy, and after the
    first execution also the recorded faults and schedule."""
    p = step["plan"]
    plan = fsim.Plan(p["seed"], p.get("faults"), p.get("sched"), policy_of(p.get("policy", {})))
    done, trace = fsim.simulate(cmds, plan, root)
    if "faults" not in p:
        p["faults"], p["sched"] = plan.faults, plan.sched
    for d in done:
        # Whatever the simulator refused is not the compiler's own doing
        d.hard_write = d.hard_read = False
    for key, f in plan.faults.items():
        d = done[int(key.split(":")[0])]
        if f[1] == fsim.DIE or (f[1] == fsim.FAIL and f[2] != errno.EINTR and f[0] in fsim.WRITE_ERR):
            d.hard_write = True
        elif f[1] == fsim.FAIL and f[2] != errno.EINTR and f[0] in fsim.READ_ERR:
            d.hard_read = True
    stats.add("runs", len(cmds))
    stats.add("executions")
    stats.add("calls", len(trace))
    stats.add("switches", len(plan.sched))
    for k, n in plan.counts.items():
        stats.count("faults", k, n)
    stats.setdefault("digests", set()).add(fsim.trace_digest(trace))
    if len(cmds) > 1:
        stats.add("concurrent_executions")
        stats.setdefault("schedules", set()).add(hashlib.sha256(repr(plan.sched).encode()).hexdigest()[:16])
    step["digest"] = fsim.trace_digest(trace)
    step["trace"] = ["%d.%d %s" % t for t in trace] if replaying else []
    for d in done:
        if d.rc == 121:
            raise HarnessError("scenario without its working directory")
    return done


def policy_of(p):
    q = dict(p)
    if "at" in q:
        q["at"] = {int(k): v for k, v in q["at"].items()}
    return q


def benign(r, p=0.5):
    return {"eintr": r.choice((0.05, 0.2)), "short": r.choice((0.05, 0.3)), "hint": 0.1, "burst": r.choice((0.2, 0.6, 0.95))} if r.random() < p else {"burst": r.choice((0.2, 0.6))}


def crashed(d):
    """Ends no compiler may come to by itself."""
    if d.hang:
        return "did not terminate"
    if d.sig is not None and not d.killed:
        return "was ended by %s" % signal.Signals(d.sig).name
    return None


def cmd_of(c, root, kind="debug"):
    return fsim.Cmd([exe(kind)] + [a.replace("@", root) for a in c["args"]], os.path.join(root, c["cwd"]), hseed=c["hseed"], env=c.get("env"),
                    clock=tuple(c.get("clock", (1600000000, 1000))), cpu=c.get("cpu", 20))


# ---------------------------------------------------------------- C12

NAMES = ["n0", "n1", "n2", "n3", "Zeta", "with space", "ü", "n0.v2", "-dash"]
DIRS = ["a", "b", "inc", "sp ace", "é", "c-d"]


def dir_walk(ents):
    return [""] + [e[1] for e in ents if e[0] == "dir"]


class C12:
    prop = "C12"
    quick, thorough = (3600, 130), (60000, 2400)

    # ents: ["dir", path] | ["file", path, uid, includes, extras] | ["link", path, target]
    @staticmethod
    def gen(r):
        x = r.random()
        if x < 0.012:
            return C12.gen_big(r)
        ents = []
        for _ in range(r.choice((1, 2, 2, 3, 4))):
            up = r.choice(dir_walk(ents))
            p = fsgen.os_join(up, r.choice(DIRS))
            if p.count("/") < 3 and not any(e[1] == p for e in ents):
                ents.append(["dir", p])
        ds = dir_walk(ents)
        for _ in range(r.choice((0, 0, 1, 2))):
            p = fsgen.os_join(r.choice(ds), r.choice(("ln", "ln2", "a")))
            if not any(e[1] == p for e in ents):
                ents.append(["link", p, fsgen.relative(os.path.dirname(p), r.choice([d for d in ds if d] or ["."]) + "/.")])
        pool = r.sample(NAMES, r.choice((2, 3, 4, 5)))
        uid, files = 0, []
        for _ in range(r.choice((2, 3, 4, 5, 6, 8, 10))):
            p = fsgen.os_join(r.choice(ds), r.choice(pool) + ".idl")
            if not any(e[1] == p for e in ents):
                e = ["file", p, uid, [], r.randrange(1 << 16)]
                uid += 1
                files.append(e)
                ents.append(e)
        # decoys: a directory or a dangling link of the same name
        if r.random() < 0.3:
            p = fsgen.os_join(r.choice(ds), r.choice(pool) + ".idl")
            if not any(e[1] == p for e in ents):
                ents.append(r.choice((["dir", p], ["link", p, "nowhere.idl"])))
        # a file known by a second name
        if r.random() < 0.25 and files:
            t = r.choice(files)
            p = fsgen.os_join(r.choice(ds), r.choice(pool) + ".idl")
            if not any(e[1] == p for e in ents):
                t.append("leaf")
                ents.append(["link", p, fsgen.relative(os.path.dirname(p), t[1])])
        order = files[:]
        r.shuffle(order)
        cyclic = r.random() < 0.3
        for i, f in enumerate(order):
            if len(f) > 5:
                continue  # the target of a file link must not depend on where it is seen from
            for _ in range(r.choice((0, 1, 1, 2, 3))):
                later = order[i + 1:]
                t = r.choice(order) if cyclic and r.random() < 0.5 else (r.choice(later) if later else None)
                if t:
                    f[3].append(C12.spell(r, ents, f, t))
            if r.random() < 0.04:
                f[3].append(r.choice(("missing.idl", "./missing.idl", "nodir/" + pool[0] + ".idl", "../" * 9 + "none.idl")))
            if r.random() < 0.1 and f[3]:
                f[3].append(r.choice(f[3]))
            r.shuffle(f[3])
        scn = {"prop": "C12", "ents": ents, "main": order[0][2], "steps": []}
        for k in range(r.choice((2, 3, 4))):
            if k and r.random() < 0.5:
                scn["steps"].append({"op": "mutate", "seed": r.randrange(1 << 30)})
            scn["steps"].append(C12.gen_run(r, ents))
        return scn

    @staticmethod
    def gen_big(r):
        """Chains, ladders and stars that no walk per path and no recursion survives."""
        shape = r.choice(("chain", "ladder", "star", "ladder"))
        n = {"chain": r.choice((400, 3000, 12000)), "ladder": r.choice((18, 30, 60)), "star": 400}[shape]
        end = r.choice(("ok", "ok", "cycle", "missing"))
        scn = {"prop": "C12", "big": [shape, n, end, r.choice((0, 1, n // 2, n - 2)), r.choice(("bare", "dot"))], "ents": [], "main": 0,
               "steps": [C12.gen_run(r, [])]}
        for c in scn["steps"][0]["cmds"]:
            c["I"], c["cwd"], c["cpu"] = [], [0, 0], 60
        scn["steps"][0]["cmds"] = scn["steps"][0]["cmds"][:1]
        scn["steps"][0]["plan"]["policy"] = {}
        return scn

    @staticmethod
    def big_ents(scn):
        shape, n, end, at, sp = scn["big"]
        s = "./" if sp == "dot" else ""
        ents = []
        tail = {"ok": [], "cycle": [at], "missing": ["none"]}[end]

        def inc(xs):
            return ["%sf%s.idl" % (s, x) for x in xs]
        if shape == "chain":
            for i in range(n):
                ents.append(["file", "f%d.idl" % i, i, inc([i + 1] if i < n - 1 else tail), 0])
        elif shape == "ladder":
            for i in range(2 * n):
                nxt = [2 * (i // 2) + 2, 2 * (i // 2) + 3]
                ents.append(["file", "f%d.idl" % i, i, inc(nxt if i < 2 * n - 2 else tail), 0])
        else:
            ents.append(["file", "f0.idl", 0, inc(range(1, n)), 0])
            for i in range(1, n):
                ents.append(["file", "f%d.idl" % i, i, inc([n - 1] if i < n - 1 else tail), 0])
        return ents

    @staticmethod
    def spell(r, ents, f, t):
        """How f includes t: by bare name, or by some path from f's directory."""
        if r.random() < 0.5:
            return os.path.basename(t[1])
        d, p = os.path.dirname(f[1]), t[1]
        s = fsgen.relative(d, p)
        links = [e for e in ents if e[0] == "link" and not e[1].endswith(".idl")]
        if links and r.random() < 0.4:
            e = r.choice(links)
            tgt = os.path.normpath(os.path.join(os.path.dirname(e[1]), e[2]))
            tgt = "" if tgt == "." else tgt
            if tgt == "" or p.startswith(tgt + "/"):
                s = fsgen.relative(d, e[1] + "/" + p[len(tgt) + 1 if tgt else 0:])
        x = r.random()
        if x < 0.25:
            s = "./" + s
        elif x < 0.4:
            s = s.replace("/", "//", 1)
        elif x < 0.55:
            subs = [os.path.basename(e[1]) for e in ents if e[0] == "dir" and os.path.dirname(e[1]) == d and ".idl" not in e[1]]
            if subs:
                s = r.choice(subs) + "/../" + s
        elif x < 0.6:
            s = s.replace("/", "/./", 1)
        elif x < 0.72 and links:
            # ".." behind a link leads to the parent of its target
            e = r.choice(links)
            tgt = os.path.normpath(os.path.join(os.path.dirname(e[1]), e[2]))
            up = os.path.dirname("" if tgt == "." else tgt)
            if tgt != ".":
                s = fsgen.relative(d, e[1]) + "/../" + re.sub(r"^\./", "", fsgen.relative(up, p))
        return s

    @staticmethod
    def gen_run(r, ents):
        cmds = []
        for i in range(r.choice((1, 1, 2, 3))):
            k = r.choice((0, 0, 1, 2, 3, 4))
            cmds.append({"I": [[r.randrange(1 << 16), r.randrange(1 << 16)] for _ in range(k)], "cwd": [r.randrange(1 << 16), 0], "main": r.randrange(1 << 16),
                         "hseed": r.randrange(1 << 40), "lang": r.choice(("--c", "--cpp", "--rust", "--java"))})
        pol = benign(r)
        if r.random() < 0.2:
            # never stat: hiding a candidate moves the search on to the next one
            pol["at"], pol["never"] = {"0": [r.randrange(2, 40), "read"]}, ["stat", "lstat"]
        return {"op": "run", "probe": r.choice(("all", "all", "all+1", "all+1", "none", "some")), "pseed": r.randrange(1 << 30), "cmds": cmds,
                "plan": {"seed": r.randrange(1 << 40), "policy": pol}}

    @staticmethod
    def file_text(e, probes=None):
        uid, x = e[2], e[4]
        q = random.Random(x)
        out = []
        if x & 1:
            out.append('// include "nothing.idl"')
        if x & 2:
            out.append('/* include "nothing.idl"\n   include "./n0.idl" */')
        for i in e[3]:
            out.append('include%s"%s"%s' % (q.choice((" ", "  ", "\n", "\t")), i, q.choice(("", " // why", " /* include \"n1.idl\" */"))))
        out.append("struct U%d { uint32 a; };" % uid)
        out.append("interface I%d { method m(in uint32 x); };" % uid)
        if x & 4:
            out.append("const uint32 K%d = %d;" % (uid, uid))
        if probes is not None:
            own = ["interface Q%d : I%d { };" % (i, u) for i, (u, k) in enumerate(probes) if k == 2]
            own += ["struct QS%d { U%d u; };" % (i, u) for i, (u, k) in enumerate(probes) if k == 3]
            ms = ["  method q%d(%s p);" % (i, ("in U%d", "out I%d")[k] % u) for i, (u, k) in enumerate(probes) if k < 2]
            out += own + ["interface Q {"] + ms + ["};"]
        return "\n".join(out) + "\n"

    @staticmethod
    def lay(ents, root):
        for e in ents:
            p = os.path.join(root, e[1])
            if e[0] == "dir":
                os.makedirs(p, exist_ok=True)
        for e in ents:
            p = os.path.join(root, e[1])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if e[0] == "file":
                put(p, C12.file_text(e))
            elif e[0] == "link" and not os.path.lexists(p):
                os.symlink(e[2], p)

    @staticmethod
    def resolve(ents, root, main, search):
        """The reference resolver. Returns (reachable uids or None, reason)."""
        by_real = {os.path.realpath(os.path.join(root, e[1])): e for e in ents if e[0] == "file"}
        start = os.path.realpath(os.path.join(root, main[1]))
        edges, todo, why = {}, [start], None
        while todo:
            f = todo.pop()
            if f in edges:
                continue
            edges[f] = []
            for inc in by_real[f][3]:
                hit = None
                if "/" in inc:
                    c = os.path.join(os.path.dirname(f), inc)
                    hit = c if os.path.exists(c) else None
                else:
                    for d in search:
                        c = os.path.join(d, inc)
                        if os.path.isfile(c):
                            hit = c
                            break
                if hit is None:
                    why = why or "include %r of %s cannot be resolved" % (inc, os.path.relpath(f, root))
                    continue
                hit = os.path.realpath(hit)
                if hit not in by_real:
                    why = why or "include %r of %s is no file" % (inc, os.path.relpath(f, root))
                    continue
                edges[f].append(hit)
                todo.append(hit)
        if why:
            return None, why
        # a cycle: files that never become free of unfinished includes
        left = {f: set(v) for f, v in edges.items()}
        users = collections.defaultdict(list)
        for f, v in left.items():
            for t in v:
                users[t].append(f)
        free = [f for f, v in left.items() if not v]
        done = 0
        while free:
            t = free.pop()
            done += 1
            for f in users[t]:
                if t in left[f]:
                    left[f].discard(t)
                    if not left[f]:
                        free.append(f)
        if done < len(left):
            return None, "include cycle among %s" % sorted(os.path.relpath(f, root) for f, v in left.items() if v)[:6]
        return {by_real[f][2] for f in edges}, ""

    @staticmethod
    def mutate(ents, main, seed, root):
        r = random.Random(seed)
        files = [e for e in ents if e[0] == "file"]
        uid = 1 + max(e[2] for e in files)
        ds = dir_walk([e for e in ents if not e[1].endswith(".idl")])
        ents = copy.deepcopy(ents)
        files = [e for e in ents if e[0] == "file"]
        x = r.choice(("shadow", "remove", "include", "drop", "swap", "relink"))
        if x == "shadow":
            t = r.choice(files)
            p = fsgen.os_join(r.choice(ds), os.path.basename(t[1]))
            if not any(e[1] == p for e in ents):
                ents.append(["file", p, uid, [], r.randrange(1 << 16)])
        elif x == "remove":
            t = r.choice(files)
            if t[2] != main:
                ents.remove(t)
        elif x == "include":
            f, t = r.choice(files), r.choice(files)
            if len(f) == 5:
                f[3].append(C12.spell(r, ents, f, t))
        elif x == "drop":
            f = r.choice(files)
            if f[3]:
                f[3].pop(r.randrange(len(f[3])))
        elif x == "swap":
            a, b = r.choice(files), r.choice(files)
            if len(a) == len(b) == 5:
                a[2], b[2] = b[2], a[2]
                a[3], b[3] = b[3], a[3]
        else:
            ls = [e for e in ents if e[0] == "link" and not e[1].endswith(".idl")]
            if ls:
                e = r.choice(ls)
                e[2] = fsgen.relative(os.path.dirname(e[1]), r.choice([d for d in ds if d] or ["."]) + "/.")
        if not any(e[0] == "file" and e[2] == main for e in ents):
            return None
        return ents

    @staticmethod
    def dirs_of(ents):
        ds = dir_walk(ents)
        return ds, [e[1] for e in ents if e[0] == "link" and not e[1].endswith(".idl")]

    @staticmethod
    def path_spelling(x, ds, links, cwd, p, root):
        """p as it may be written on the command line from cwd."""
        q = random.Random(x)
        k = q.randrange(6)
        rel = os.path.relpath(os.path.join(root, p), os.path.join(root, cwd)) if p != cwd else "."
        if k == 0:
            return "@/" + p
        if k == 1:
            return "./" + rel
        if k == 2:
            return rel + "/" if not p.endswith(".idl") else rel
        if k == 3 and cwd:
            return "../" + os.path.basename(cwd) + "/" + rel
        if k == 4:
            return "@//" + p.replace("/", "/./")
        return rel

    @staticmethod
    def execute(scn, stats, replaying=False):
        root = fresh("c12")
        ents = C12.big_ents(scn) if "big" in scn else copy.deepcopy(scn["ents"])
        outs = fresh("c12out")
        C12.lay(ents, root)
        for si, st in enumerate(scn["steps"]):
            if st["op"] == "mutate":
                new = C12.mutate(ents, scn["main"], st["seed"], root)
                if new:
                    ents = new
                    root = fresh("c12")
                    C12.lay(ents, root)
                    stats.add("tree_mutations")
                continue
            main = next(e for e in ents if e[0] == "file" and e[2] == scn["main"])
            ds, links = C12.dirs_of(ents)
            links = [l for l in links if os.path.isdir(os.path.join(root, l))]
            cmds, searches = [], []
            for ci, c in enumerate(st["cmds"]):
                cwd = ds[c["cwd"][0] % len(ds)]
                search, args = [], []
                for a, b in c["I"]:
                    cand = ds + links + ["nonexistent/dir"]
                    d = cand[a % len(cand)]
                    search.append(os.path.join(root, d))
                    args += random.Random(b).choice((["-I", None], ["--include", None], ["-I", None]))
                    args[-1] = C12.path_spelling(b, ds, links, cwd, d, root)
                    args[-1] = "./" + args[-1] if args[-1].startswith("-") else args[-1]
                search.append(os.path.dirname(os.path.realpath(os.path.join(root, main[1]))))
                o = os.path.join(outs, "%d" % ci)
                wipe(o)
                os.makedirs(o)
                lang = c["lang"] if c["lang"] != "--rust" or all(re.fullmatch(r"[a-z]\w*\.idl", os.path.basename(e[1])) for e in ents if e[0] == "file") else "--cpp"
                target = o if lang in ("--rust", "--java") else o + "/x"
                mainarg = C12.path_spelling(c["main"], ds, links, cwd, main[1], root)
                mainarg = "./" + mainarg if mainarg.startswith("-") else mainarg
                cmds.append(fsim.Cmd([exe()] + [lang, "-o", target] + [a.replace("@", root) for a in args] + ["--", mainarg.replace("@", root)],
                                     os.path.join(root, cwd), hseed=c["hseed"], cpu=c.get("cpu", 20)))
                searches.append(search)
            models = [C12.resolve(ents, root, main, s) for s in searches]
            q = random.Random(st["pseed"])
            reach = sorted(models[0][0] or ())
            others = sorted({e[2] for e in ents if e[0] == "file"} - set(reach))
            probe = st["probe"]
            pick = [] if probe == "none" else reach if probe != "some" else [u for u in reach if q.random() < 0.5]
            pick = pick if len(pick) < 60 else q.sample(pick, 60)
            probes = [(u, q.randrange(4)) for u in pick]
            if probe == "all+1" and others:
                probes.append((q.choice(others), q.randrange(4)))
            q.shuffle(probes)
            if [e for e in ents if e[0] == "file" and e[2] == scn["main"]]:
                put(os.path.join(root, main[1]), C12.file_text(main, probes))
            done = run_sim(cmds, st, root, stats, replaying)
            put(os.path.join(root, main[1]), C12.file_text(main))
            for ci, d in enumerate(done):
                reachable, why = models[ci]
                want = reachable is not None and {u for u, _ in probes} <= reachable
                stats.count("expected", "accept" if want else "reject: cycle" if "cycle" in why else "reject: unresolved" if why else "reject: not visible")
                where = "step %d, process %d: idlc %s" % (si, ci, " ".join(cmds[ci].argv[1:]).replace(root, "~"))
                bad = crashed(d)
                if bad:
                    raise Violation("the compiler %s" % bad, where)
                if d.ok and not want:
                    raise Violation("accepted: %s" % (re.sub(r"of .*|among .*", "", why) or "a declaration of a file that is not reachable is visible"),
                                    "%s; %s; probed %s, reachable %s" % (where, why, sorted(u for u, _ in probes)[:40], sorted(reachable or ())[:40]))
                if not d.ok and want and not d.hard_read and not d.hard_write:
                    raise Violation("rejected although every include resolves, there is no cycle, and only visible declarations are used",
                                    "%s; probed %s, reachable %s; %s" % (where, sorted(u for u, _ in probes)[:40], sorted(reachable)[:40], last_error(d)))

    @staticmethod
    def atoms(scn):
        for i in range(len(scn["steps"])):
            yield ("steps", i)
        for i, e in enumerate(scn["ents"]):
            if not (e[0] == "file" and e[2] == scn["main"]):
                yield ("ents", i)
            if e[0] == "file":
                for j in range(len(e[3])):
                    yield ("ents", i, 3, j)
        for i, s in enumerate(scn["steps"]):
            if s["op"] == "run":
                if len(s["cmds"]) > 1:
                    for j in range(len(s["cmds"])):
                        yield ("steps", i, "cmds", j)
                for j, c in enumerate(s["cmds"]):
                    for k in range(len(c["I"])):
                        yield ("steps", i, "cmds", j, "I", k)
                for k in s["plan"].get("faults", {}):
                    yield ("steps", i, "plan", "faults", k)


def last_error(d):
    t = d.err.decode("utf-8", "replace").split("stack backtrace")[0].strip()
    return t[-400:]


# ---------------------------------------------------------------- compiler options

MODES = [("c", ["--c"]), ("c", ["--c", "--skel"]), ("c", ["--c", "--no-typed-objects"]), ("c", ["--c", "--skel", "--no-typed-objects"]), ("c", []), ("c", ["--skel"]),
         ("cpp", ["--cpp"]), ("cpp", ["--cpp", "--skel"]), ("rust", ["--rust"]), ("rust", ["--rust"]), ("rust", ["--rust"]), ("java", ["--java"]), ("java", ["--java"]), ("java", ["--java"])]
BANNER = "// AUTOGENERATED FILE: DO NOT EDIT (idlc v"


def marking_prefix(raw, lang):
    """What a marking file turns into in front of the banner."""
    if raw is None or raw == b"":
        return ""
    t = raw.decode()
    lines = t.split("\n")
    if lines[-1] == "":
        lines.pop()
    lines = [x[:-1] if x.endswith("\r") else x for x in lines]
    if lang == "java":
        return "/*\n" + "".join("* %s\n" % x for x in lines) + "*/\n\n"
    return "".join("// %s\n" % x for x in lines) + "\n"


def expected_names(files, lang, stem):
    """(required, allowed) names of the files of a multi-file backend."""
    main = files[-1]
    ifaces = [d["name"] for d in main["decls"] if d["k"] == "iface"]
    content = any(d["k"] != "iface" for d in main["decls"])
    if lang == "rust":
        req = {n.lower() + ".rs" for n in ifaces}
        base = set_ext(stem.lower(), "rs")
    else:
        req = {n + ".java" for n in ifaces}
        base = set_ext(stem, "java")
    if content:
        req.add(base)
    # A file-level module without constants and structs may or may not count as having content in Java
    return req, req | ({base} if lang == "java" else set())


def set_ext(stem, ext):
    return stem + "." + ext


def missing_names(files, lang, name, text, skel, stem):
    """Declarations that a complete output must mention but does not."""
    low = text.lower().replace("_", "")

    def has(x):
        return x.lower().replace("_", "") in low
    want = []
    for d in files[-1]["decls"]:
        if d["k"] == "iface":
            if (lang == "rust" and name != d["name"].lower() + ".rs") or (lang == "java" and name != d["name"] + ".java"):
                continue
            want += [d["name"]] if lang in ("rust", "java") else []
            want += [m for m in d.get("methods", ())]
            if not skel:
                want += d["names"][1:] + d["errors"]
        elif not skel and (lang in ("c", "cpp") or name in (set_ext(stem.lower(), "rs"), set_ext(stem, "java"))):
            want += d["names"] + d.get("fields", [])
    return [w for w in want if not has(w)]


def out_files(d):
    return {k.decode("utf-8", "surrogateescape"): v[1] for k, v in fsim.snapshot(d).items() if v[0] == "file"}


def lay_program(files, idirs, root):
    for d in idirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for f in files:
        put(os.path.join(root, f["path"]), fsgen.text(f))


def diff_outputs(a, b):
    """First difference of two output sets."""
    if set(a) != set(b):
        return "files %s versus %s" % (sorted(a), sorted(b))
    for k in sorted(a):
        if a[k] != b[k]:
            la, lb = a[k].split(b"\n"), b[k].split(b"\n")
            for i, (x, y) in enumerate(zip(la, lb)):
                if x != y:
                    return "%s line %d: %r versus %r" % (k, i + 1, x[:160].decode("utf-8", "replace"), y[:160].decode("utf-8", "replace"))
            return "%s: %d versus %d lines" % (k, len(la), len(lb))
    return None


# ---------------------------------------------------------------- C13

PLACES = ["p", "deep/er/dir", "UPPER/include", "with space/ü", "x.idl/y", "{}/%s", "src/src", "interface/struct", "a'b$c"]
ENVS = [{}, {"LANG": "C"}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8"}, {"HOME": "/nonexistent", "USER": "someone"}, {"RUST_LOG": "trace"}, {"RUST_BACKTRACE": "0"},
        {"SOURCE_DATE_EPOCH": "1"}, {"TZ": "Asia/Tokyo", "HOSTNAME": "h"}, {"PWD": "/wrong/place"}, {"TMPDIR": "/nowhere", "TERM": "xterm", "COLUMNS": "7"}]


class C13:
    prop = "C13"
    quick, thorough = (900, 130), (20000, 2400)

    @staticmethod
    def gen(r):
        files, idirs = fsgen.file_set(r)
        lang, flags = r.choice(MODES)
        scn = {"prop": "C13", "files": files, "idirs": idirs, "lang": lang, "flags": flags, "steps": [],
               "marking": r.choice((None, None, None, "Copyright\nAll rights\n", "one line"))}
        for _ in range(r.choice((3, 4, 5, 6))):
            v = {"op": "run", "place": r.choice([0, 0] + list(range(1, len(PLACES)))), "cmds": [], "plan": {"seed": r.randrange(1 << 40), "policy": benign(r)},
                 "same_out": r.random() < 0.3, "touch": r.randrange(1 << 30)}
            for _ in range(r.choice((1, 1, 2, 3))):
                v["cmds"].append({"spell": r.randrange(1 << 40), "hseed": r.randrange(1 << 40), "env": r.choice(ENVS), "clock": [r.randrange(0, 1 << 33), r.choice((0, 1, 1000, 10**9))]})
            scn["steps"].append(v)
        return scn

    @staticmethod
    def spell(q, base, cwd, rel, links):
        """Some way to write base/rel, seen from cwd."""
        p = os.path.join(base, rel)
        k = q.randrange(9)
        if k == 0:
            return p
        if k == 1:
            return os.path.relpath(p, os.path.realpath(cwd))
        if k == 2:
            return "./" + os.path.relpath(p, os.path.realpath(cwd))
        if k == 3:
            d = os.path.dirname(p)
            return "%s/../%s/%s" % (d, os.path.basename(d), os.path.basename(p))
        if k == 4:
            return base + "//./" + rel.replace("/", "/./")
        if k in (5, 6) and links:
            l, target = q.choice(links)
            if rel == target or rel.startswith(target + "/") or target == "":
                x = os.path.join(l, rel[len(target):].lstrip("/")) if target else os.path.join(l, rel)
                x = x.rstrip("/")
                return q.choice((x, os.path.relpath(x, os.path.realpath(cwd))))
        if k == 7:
            return base + "/../" * 0 + "/" + rel
        return os.path.relpath(p, os.path.realpath(cwd))

    @staticmethod
    def prepare(scn, place, touch):
        area = fresh("c13")
        base = os.path.join(area, PLACES[place])
        lay_program(scn["files"], scn["idirs"], base)
        links = []
        main = scn["files"][-1]["path"]
        os.makedirs(os.path.join(area, "L"))

        def link(name, target, rel):
            p = os.path.join(area, "L", name)
            os.symlink(target, p)
            links.append((p, rel))
        link("whole", base, "")
        link("relative", os.path.relpath(base, os.path.join(area, "L")), "")
        link("Other Name.idl", os.path.join(base, main), main)
        for i, d in enumerate(scn["idirs"]):
            link("inc%d" % i, os.path.join(base, d), d)
        if os.path.dirname(main):
            link("srcdir", os.path.join(base, os.path.dirname(main)), os.path.dirname(main))
        q = random.Random(touch)
        for f in scn["files"]:
            t = q.randrange(0, 1 << 31)
            os.utime(os.path.join(base, f["path"]), (t, t))
        if scn["marking"] is not None:
            put(os.path.join(base, "mark.txt"), scn["marking"])
        return area, base, links

    @staticmethod
    def execute(scn, stats, replaying=False):
        main = scn["files"][-1]["path"]
        multi = scn["lang"] in ("rust", "java")
        ref = None
        ref_step = {"op": "run", "place": 0, "touch": 0, "same_out": False, "cmds": [{"spell": None, "hseed": 1, "env": {}, "clock": [1600000000, 1000]}], "plan": {"seed": 0, "faults": {}, "sched": []}}
        for si, st in enumerate([ref_step] + scn["steps"]):
            area, base, links = C13.prepare(scn, st["place"], st["touch"])
            cmds, outs = [], []
            for ci, c in enumerate(st["cmds"]):
                q = random.Random(c["spell"])
                cwds = [base, area, os.path.join(area, "L")] + [os.path.join(base, d) for d in scn["idirs"]] + [l for l, t in links if os.path.isdir(l)]
                cwd = base if c["spell"] is None else q.choice(cwds)
                o = os.path.join(area, "out" if st["same_out"] else "out%d" % ci)
                os.makedirs(o, exist_ok=True)
                outs.append(o)

                def sp(rel):
                    return rel if c["spell"] is None else C13.spell(q, base, cwd, rel, links)
                args = list(scn["flags"])
                for d in scn["idirs"]:
                    args += ["-I", sp(d)]
                if c["spell"] is not None and q.random() < 0.2:
                    args += ["-I", sp(q.choice(scn["idirs"]))]  # named twice
                if scn["marking"] is not None:
                    args += ["--marking", sp("mark.txt")]
                tgt = o if multi else os.path.join(o, "gen.h")
                if multi and c["spell"] is not None and q.random() < 0.15:
                    # no -o: the working directory is the output directory
                    cwd = o
                    args = [a if i == 0 or args[i - 1] not in ("-I", "--marking") else None for i, a in enumerate(args)]
                    it = iter(scn["idirs"] + ["mark.txt"])
                    k = 0
                    for i, a in enumerate(args):
                        if a is None:
                            rel = "mark.txt" if args[i - 1] == "--marking" else scn["idirs"][min(k, len(scn["idirs"]) - 1)]
                            k += 1
                            args[i] = C13.spell(q, base, cwd, rel, links)
                    margs = [C13.spell(q, base, cwd, main, links)]
                else:
                    if c["spell"] is not None and q.random() < 0.5:
                        tgt = os.path.relpath(tgt, os.path.realpath(cwd))
                    args += ["-o", tgt]
                    margs = [sp(main)]
                args = args + ["--"] + margs if margs[0].startswith("-") or (c["spell"] is not None and q.random() < 0.3) else margs + args
                cmds.append(fsim.Cmd([exe()] + args, cwd, hseed=c["hseed"], env=c["env"], clock=tuple(c["clock"])))
            done = run_sim(cmds, st, area, stats, replaying)
            for ci, d in enumerate(done):
                where = "step %d, process %d: (in %s) idlc %s" % (si, ci, cmds[ci].cwd.replace(area, "~"), " ".join(cmds[ci].argv[1:]).replace(area, "~"))
                bad = crashed(d)
                if bad:
                    raise Violation("the compiler %s" % bad, where)
                got = (d.ok, out_files(outs[ci]) if d.ok else None)
                if ref is None:
                    ref = got
                    stats.count("reference", "accepted" if d.ok else "rejected")
                    continue
                if got[0] != ref[0]:
                    raise Violation("one run accepts, another rejects the same file set", "%s; %s" % (where, last_error(d)))
                if d.ok:
                    df = diff_outputs(ref[1], got[1])
                    if df:
                        raise Violation("two runs over the same file set write different output", "%s: %s" % (where, df))
                    stats.add("outputs_compared", len(got[1]))

    @staticmethod
    def atoms(scn):
        yield from program_atoms(scn)
        for i in range(len(scn["steps"])):
            yield ("steps", i)
        for i, s in enumerate(scn["steps"]):
            if len(s["cmds"]) > 1:
                for j in range(len(s["cmds"])):
                    yield ("steps", i, "cmds", j)
            for k in s["plan"].get("faults", {}):
                yield ("steps", i, "plan", "faults", k)


def program_atoms(scn):
    for i, f in enumerate(scn["files"]):
        if i < len(scn["files"]) - 1:
            yield ("files", i)
        for j in range(len(f.get("decls", ()))):
            yield ("files", i, "decls", j)
        for j in range(len(f.get("includes", ()))):
            yield ("files", i, "includes", j)
    if len(scn["idirs"]) > 1:
        for i in range(len(scn["idirs"])):
            yield ("idirs", i)


# ---------------------------------------------------------------- C19

def spoil(r, files):
    """Something the compiler has to refuse, at some stage. Returns a name."""
    main = files[-1]
    ds = main["decls"]
    ifs = [d for d in ds if d["k"] == "iface"]
    sts = [d for d in ds if d["k"] == "struct"]
    x = r.choice(("garbage", "cut", "missing include", "include cycle", "duplicate symbol", "unknown type", "struct cycle", "interface cycle", "misaligned", "unknown base",
                  "duplicate parameter", "duplicate method", "mixed objects", "const range", "java struct object", "rust keyword", "rust collision", "zero array", "utf8",
                  "wide", "bounded array", "empty", "duplicate error", "included garbage", "rust collision"))

    def add(text, k="raw"):
        ds.insert(r.randrange(len(ds) + 1), {"k": k, "name": "", "names": [], "text": text, "errors": []})
    if x == "garbage":
        add(r.choice(("struct {", "interface ;", "@", "method x();", "const uint32 = 1;", "struct Zq { uint7 x; };")))
    elif x == "cut":
        t = fsgen.text(main).encode()
        main["raw"] = t[:r.randrange(1, max(2, len(t)))].decode("utf-8", "ignore")
    elif x == "empty":
        main["raw"] = r.choice(("", "\n", "// nothing\n"))
    elif x == "missing include":
        f = r.choice(files)
        f["includes"].insert(r.randrange(len(f["includes"]) + 1), r.choice(("nothere.idl", "./nothere.idl")))
    elif x == "include cycle":
        f = r.choice(files)
        f["includes"].append("./" + os.path.basename(f["path"]))
    elif x == "duplicate symbol":
        if sts:
            add(r.choice(sts)["text"])
        else:
            add("struct Dq { uint8 a; };\nstruct Dq { uint8 b; };")
    elif x == "unknown type":
        add(r.choice(("interface Iuq { method m(in Nowhere x); };", "struct Suq { Nowhere x; };", "interface Iuq { method m(out Nowhere[] x); };")))
    elif x == "struct cycle":
        add("struct Aq { Bq b; };\nstruct Bq { Aq a; };")
    elif x == "interface cycle":
        add("interface Aq : Bq { };\ninterface Bq : Aq { };")
    elif x == "misaligned":
        add("struct Mq { uint8 a; uint32 b; };")
    elif x == "unknown base":
        add("interface Iuq : INowhere { };")
    elif x == "duplicate parameter":
        add("interface Idq { method m(in uint8 a, out uint8 a); };")
    elif x == "duplicate method":
        add("interface Idq { method m(in uint8 a); method m(); };")
    elif x == "duplicate error":
        add("interface Idq { error E1; error E1; };")
    elif x == "mixed objects":
        add("interface Imq { method m(in interface a, in interface[2] b); };")
    elif x == "bounded array":
        add("interface Imq { method m(in uint32[4] a); };")
    elif x == "const range":
        add("const uint8 CQ = 256;")
    elif x == "zero array":
        add("struct Zq { uint8[0] a; };")
    elif x == "wide":
        add("interface Iwq { method m(%s); };" % ", ".join("in buffer b%d" % i for i in range(17)))
    elif x == "java struct object":
        add("struct Joq { interface o; };")
    elif x == "rust keyword":
        kw = r.choice(("fn", "match", "self", "type", "impl"))
        ds.append({"k": "iface", "name": "Ikq", "names": ["Ikq", kw], "errors": [], "base": None, "text": "interface Ikq { method m(in uint32 %s); };" % kw})
    elif x == "rust collision":
        n = "ICollide%d" % r.randrange(100)
        for v, m in ((n, "first_of_two"), (r.choice((n.lower(), n.upper(), n.swapcase())), "second_of_two")):
            ds.insert(r.randrange(len(ds) + 1), {"k": "iface", "name": v, "names": [v, m], "errors": [], "base": None, "text": "interface %s { method %s(); };" % (v, m)})
    elif x == "utf8":
        main["raw"] = fsgen.text(main) + "// \udcff\udcfe\n"
    elif x == "included garbage" and len(files) > 1:
        files[0]["raw"] = "struct {"
    return x


def sibling(r, files):
    """Another program with outputs of the same length, most likely."""
    text = fsgen.text(files[-1])
    cand = [d for d in files[-1]["decls"] if d["k"] == "const" and re.search(r"= -?[0-9]+;", d["text"]) and "float" not in d["text"]]
    if cand and r.random() < 0.6:
        d = r.choice(cand)
        # the last digit changed: mostly still in range
        d["text"] = re.sub(r"([0-9])(?=;)", lambda m: str((int(m.group(1)) + r.choice((1, 2, 3))) % 8), d["text"])
    else:
        names = sorted({n for d in files[-1]["decls"] for n in d["names"] + d.get("fields", [])})
        if not names:
            return False
        n = r.choice(names)
        m = n[:-1] + ("x" if n[-1] != "x" else "y")
        if any(m in fsgen.text(f) for f in files) or sum(len(re.findall(r"\b%s\b" % re.escape(n), fsgen.text(f))) for f in files[:-1]):
            return False
        for d in files[-1]["decls"]:
            d["text"] = re.sub(r"\b%s\b" % re.escape(n), m, d["text"])
            for k in ("names", "errors", "fields", "methods"):
                if k in d:
                    d[k] = [m if x == n else x for x in d[k]]
            d["name"] = m if d["name"] == n else d["name"]
            d["base"] = m if d.get("base") == n else d.get("base")
    return text != fsgen.text(files[-1])


class C19:
    prop = "C19"
    quick, thorough = (1000, 130), (20000, 2400)

    @staticmethod
    def gen(r):
        files, idirs = fsgen.file_set(r, max_files=3)
        progs = [files]
        spoils = [""]
        for _ in range(r.choice((1, 2, 2, 3))):
            f = copy.deepcopy(files)
            x = r.random()
            if x < 0.25:
                # a shorter edition
                ds = f[-1]["decls"]
                while len(ds) > 1 and r.random() < 0.8:
                    ds.pop()
                spoils.append("shorter")
            elif x < 0.35:
                # constants and structs only, or interfaces only
                keep = r.choice(("iface", "other"))
                ds = [d for d in f[-1]["decls"] if (d["k"] == "iface") == (keep == "iface")]
                if ds:
                    f[-1]["decls"] = ds
                spoils.append("shorter")
            elif x < 0.5:
                spoils.append("sibling" if sibling(r, f) else "")
            else:
                spoils.append(spoil(r, f))
            progs.append(f)
        scn = {"prop": "C19", "progs": progs, "spoils": spoils, "idirs": idirs, "steps": [], "pre": []}
        # what is there before: files in the way of the outputs and files that are none of the compiler's business
        for _ in range(r.choice((0, 1, 2, 4))):
            scn["pre"].append([r.choice(("old", "old", "decoy", "input")), r.randrange(1 << 30)])
        cur = r.randrange(len(progs))
        for _ in range(r.choice((2, 3, 4, 5))):
            if r.random() < 0.5:
                cur = r.randrange(len(progs))
            pol = benign(r, 0.4)
            x = r.random()
            if x < 0.15:
                pol["at"] = {"0": [r.randrange(0, 45), "read"]}
            elif x < 0.32:
                pol["at"] = {"0": [0, "write", r.choice((0, 1, 1, 2, 3, 4, 5, 7, 9))]}
            elif x < 0.4:
                pol["at"] = {"0": [r.randrange(0, 50), "crash"]}
            elif x < 0.47:
                pol["at"] = {"0": [0, "crash-w", r.choice((0, 1, 1, 2, 3, 4, 5, 7, 9))]}
            cmds = []
            for _ in range(r.choice((1, 1, 1, 2, 2, 3))):
                lang, flags = r.choice(MODES)
                cmds.append({"lang": lang, "flags": flags, "hseed": r.randrange(1 << 40), "dump": r.choice((None,) * 14 + ("pst", "ast", "mir")), "o": r.randrange(1 << 30),
                             "mark": r.choice((None, None, None, "Copyright A\nAll rights reserved.\n", "no newline", "", "crlf\r\nline\r\n\r\n", "missing!", "bad utf8!", "dir!", "// nested */ { } \\\n"))})
            scn["steps"].append({"op": "run", "prog": cur, "cmds": cmds, "plan": {"seed": r.randrange(1 << 40), "policy": pol}})
            if r.random() < 0.35:
                # someone edits an output; mostly the same command comes again
                scn["steps"].append({"op": "tamper", "seed": r.randrange(1 << 30)})
                if r.random() < 0.7:
                    again = copy.deepcopy(cmds)
                    for c in again:
                        c["hseed"] = r.randrange(1 << 40)
                    scn["steps"].append({"op": "run", "prog": cur, "cmds": again, "plan": {"seed": r.randrange(1 << 40), "policy": benign(r, 0.3)}})
        return scn

    @staticmethod
    def tamper(area, seed, stats):
        """Damage to files that are there, as an editor, a merge or a disk would do."""
        q = random.Random(seed)
        outs = []
        for d in ("out0", "out1", "out2", "out0/sub"):
            outs += [os.path.join(d, n) for n in sorted(os.listdir(os.path.join(area, d))) if os.path.isfile(os.path.join(area, d, n))]
        outs = [o for o in sorted(set(outs)) if os.path.basename(o) not in ("unrelated.txt", "Keep.java", "keep.rs")]
        for o in q.sample(outs, min(len(outs), q.choice((1, 1, 2, 5)))):
            p = os.path.join(area, o)
            b = bytearray(open(p, "rb").read())
            k = q.choice(("byte", "byte", "byte", "tail", "cut", "grow", "blank", "head", "lines"))
            stats.count("tampered", k)
            if not b:
                b = bytearray(b"x")
            elif k == "byte":
                i = q.choice((0, len(b) - 1, q.randrange(len(b)), q.randrange(len(b))))
                b[i] ^= q.choice((1, 2, 32))
            elif k == "tail":
                b[-min(len(b), 20):] = b"z" * min(len(b), 20)
            elif k == "cut":
                del b[q.randrange(len(b)):]
            elif k == "grow":
                b += q.choice((b"\n", b"// old\n", b"tail of an older edition\n" * 5000))
            elif k == "blank":
                b = bytearray(b"\n" * len(b))
            elif k == "head":
                b[:0] = b"// edited by hand\n"
            else:
                ls = bytes(b).split(b"\n")
                q.shuffle(ls)
                b = bytearray(b"\n".join(ls))
            with open(p, "wb") as f:
                f.write(b)

    @staticmethod
    def reference(scn, prog, c, cache, stats):
        """Output of a run without faults in an empty directory, None if rejected."""
        key = (prog, c["lang"], tuple(c["flags"]), c["mark"], c["dump"])
        if key not in cache:
            area = fresh("c19ref")
            files = scn["progs"][prog]
            lay_program(files, scn["idirs"], area)
            C19.lay_marks(area, [c["mark"]])
            out = os.path.join(area, "out")
            os.makedirs(out)
            tgt = out if c["lang"] in ("rust", "java") else os.path.join(out, "gen.h")
            args = C19.args(scn, files, c, tgt)
            d = fsim.simulate([fsim.Cmd([exe()] + args, area, hseed=7)], fsim.Plan(0, {}, []), area)[0][0]
            stats.add("runs")
            stats.count("reference", "accepted" if d.ok else "rejected (%s)" % (scn["spoils"][prog] or "backend"))
            cache[key] = out_files(out) if d.ok else None
        return cache[key]

    @staticmethod
    def lay_marks(area, marks):
        os.makedirs(os.path.join(area, "marks", "dir!"))
        put(os.path.join(area, "marks", "bad utf8!"), b"text \xff\xfe\n")
        for m in marks:
            if m is not None and not m.endswith("!"):
                put(os.path.join(area, "marks", "m%s" % hashlib.sha256(m.encode()).hexdigest()[:6]), m)

    @staticmethod
    def args(scn, files, c, tgt):
        a = [files[-1]["path"]] + list(c["flags"])
        for d in scn["idirs"]:
            a += ["-I", d]
        if c["dump"]:
            a += ["--dump", c["dump"]]
        if c["mark"] is not None:
            a += ["--marking", "marks/" + (c["mark"] if c["mark"].endswith("!") else "m%s" % hashlib.sha256(c["mark"].encode()).hexdigest()[:6])]
        return a + (["-o", tgt] if tgt else [])

    @staticmethod
    def execute(scn, stats, replaying=False):
        area = fresh("c19")
        cache = {}
        for d in ("out0", "out1", "out2", "out0/sub"):
            os.makedirs(os.path.join(area, d))
        C19.lay_marks(area, sorted({c["mark"] for s in scn["steps"] for c in s.get("cmds", ()) if c["mark"] is not None}))
        put(os.path.join(area, "out0", "unrelated.txt"), "mine\n")
        put(os.path.join(area, "out1", "Keep.java"), "mine\n")
        put(os.path.join(area, "out2", "keep.rs"), "mine\n")
        old = []
        for i, (kind, x) in enumerate(scn["pre"]):
            q = random.Random(x)
            names = ["gen.h", "sub/gen.h"]
            for f in scn["progs"]:
                stem = os.path.basename(f[-1]["path"])[:-4]
                names += [d["name"].lower() + ".rs" for d in f[-1]["decls"] if d["k"] == "iface"] + [d["name"] + ".java" for d in f[-1]["decls"] if d["k"] == "iface"]
                names += [stem.lower() + ".rs", stem + ".java"]
            n = q.choice(names) if kind == "old" else "decoy%d.%s" % (i, q.choice(("rs", "java", "h", "idl", "tmp")))
            data = {0: "", 1: "old\n", 2: "o" * 200000 + "\nold tail\n", 3: "// AUTOGENERATED FILE: DO NOT EDIT (idlc v0.0.0)\nold\n" * 300}[q.randrange(4)]
            old.append((os.path.join("out%d" % q.randrange(3), n), data))
        for p, data in old:
            if not os.path.isdir(os.path.join(area, p)):
                put(os.path.join(area, p), data)
        laid = None
        for si, st in enumerate(scn["steps"]):
            if st["op"] == "tamper":
                C19.tamper(area, st["seed"], stats)
                continue
            files = scn["progs"][st["prog"]]
            if laid != st["prog"]:
                for f in scn["progs"][laid] if laid is not None else ():
                    os.unlink(os.path.join(area, f["path"]))
                lay_program(files, scn["idirs"], area)
                laid = st["prog"]
            stem = os.path.basename(files[-1]["path"])[:-4]
            # ancient time stamps, so that a touched file shows
            for dp, dn, fn in os.walk(area):
                for n in fn:
                    os.utime(os.path.join(dp, n), (1000000000, 1000000000), follow_symlinks=False)
            cmds, targets = [], []
            for ci, c in enumerate(st["cmds"]):
                q = random.Random(c["o"])
                multi = c["lang"] in ("rust", "java")
                out = "out%d" % ci
                x = q.random()
                if x < 0.05:
                    out = "missing%d" % ci
                elif x < 0.15 and ci == 0:
                    out = "out0/sub"
                elif x < 0.2 and multi and ci == 0:
                    out = "."
                tgt = out if multi else os.path.join(out, "gen.h") if x < 0.97 else out  # a directory in place of a file
                arg = os.path.join(area, tgt) if q.random() < 0.3 else tgt
                if not multi and x > 0.95:
                    arg = None  # without -o a C header cannot be written
                cmds.append(fsim.Cmd([exe()] + C19.args(scn, files, c, arg), area, hseed=c["hseed"]))
                targets.append(out if multi else (tgt if arg is not None else "."))
            before = fsim.snapshot(area)
            done = run_sim(cmds, st, area, stats, replaying)
            after = fsim.snapshot(area)
            free, exact = set(), {}
            crash = False
            for ci, (c, d) in enumerate(zip(st["cmds"], done)):
                where = "step %d, process %d: idlc %s [%s]" % (si, ci, " ".join(cmds[ci].argv[1:]).replace(area, "~"), scn["spoils"][st["prog"]])
                multi = c["lang"] in ("rust", "java")
                bad = crashed(d)
                if bad:
                    raise Violation("the compiler %s" % bad, where)
                crash = crash or d.hard_write
                ref = C19.reference(scn, st["prog"], c, cache, stats)
                mine = {os.path.normpath(os.path.join(targets[ci], n)) for n in (ref or {})} if multi else {os.path.normpath(targets[ci])}
                stats.count("outcomes", "accepted" if d.ok else "crashed" if d.killed else "write error" if d.hard_write else "read error" if d.hard_read else "rejected")
                if not d.ok:
                    if d.hard_write and ref is not None and not c["dump"]:
                        free |= mine
                    continue
                if c["dump"]:
                    continue
                if ref is None:
                    raise Violation("accepts only under faults", where)
                if multi:
                    req, allowed = expected_names(files, c["lang"], stem)
                    if "raw" not in files[-1] and not (req <= set(ref) <= allowed):
                        raise Violation("the set of output files is not the expected one", "%s: expected %s, wrote %s" % (where, sorted(req), sorted(ref)))
                names = {os.path.normpath(os.path.join(targets[ci], n)): n for n in ref} if multi else {os.path.normpath(targets[ci]): "gen.h"}
                pre = marking_prefix(None if c["mark"] is None else c["mark"].encode(), c["lang"]) + BANNER
                for p, n in names.items():
                    exact[p] = (ref[n], where)
                    t = ref[n].decode("utf-8", "replace")
                    if not t.startswith(pre):
                        raise Violation("an output does not start with the marking and the banner", "%s: %s starts with %r" % (where, p, t[:160]))
                    if "raw" not in files[-1]:
                        miss = missing_names(files, c["lang"], n, t, "--skel" in c["flags"], stem)
                        if miss:
                            raise Violation("an output is incomplete", "%s: %s lacks %s" % (where, p, miss[:8]))
            for p, (want, where) in exact.items():
                got = after.get(os.fsencode(p))
                if got is None or got[0] != "file":
                    raise Violation("accepted, but an output file is missing", "%s: %s" % (where, p))
                if got[1] != want and p not in free:
                    raise Violation("accepted, but an output file is not what a run without faults and without old files writes",
                                    "%s: %s: %s" % (where, p, diff_outputs({p: want}, {p: got[1]})))
                stats.add("outputs_compared")
            for k in sorted(set(before) | set(after)):
                p = k.decode("utf-8", "surrogateescape")
                if p in exact or p in free:
                    continue
                b, a = before.get(k), after.get(k)
                if b == a:
                    continue
                how = "created" if b is None else "removed" if a is None else "replaced" if b[0] != a[0] or b[3] != a[3] else "truncated" if b[0] == "file" and len(a[1]) < len(b[1]) else "modified"
                if b is None and crash:
                    continue  # a process that was killed, or whose write failed, may leave a temporary file
                if b is not None and a is not None and b[0] == "dir" == a[0]:
                    continue
                ends = "; ".join("process %d %s" % (i, d.how()) for i, d in enumerate(done))
                if any(d.ok for d in done) and not any(not d.ok for d in done):
                    raise Violation("accepted, but a file that is none of the outputs was %s" % how, "step %d: %s; %s" % (si, p, ends))
                raise Violation("a file was %s although the input was rejected" % how, "step %d: %s (%s); %s" % (si, p, scn["spoils"][st["prog"]], ends))
            stats.add("states_compared", len(after))

    @staticmethod
    def atoms(scn):
        for i in range(len(scn["steps"])):
            yield ("steps", i)
        for i, s in enumerate(scn["steps"]):
            if s["op"] != "run":
                continue
            if len(s["cmds"]) > 1:
                for j in range(len(s["cmds"])):
                    yield ("steps", i, "cmds", j)
            for k in s["plan"].get("faults", {}):
                yield ("steps", i, "plan", "faults", k)
        for i in range(len(scn["pre"])):
            yield ("pre", i)
        for pi, files in enumerate(scn["progs"]):
            for i, f in enumerate(files):
                if i < len(files) - 1:
                    yield ("progs", pi, i)
                for j in range(len(f["decls"])):
                    yield ("progs", pi, i, "decls", j)
                for j in range(len(f["includes"])):
                    yield ("progs", pi, i, "includes", j)


# ---------------------------------------------------------------- C16

TOKEN = re.compile(r'//[^\n\r]*|/\*.*?\*/|"[^"]*"|[A-Za-z_][A-Za-z0-9_]*|-?0x[0-9A-Fa-f]+|-?[0-9]+(?:\.[0-9]+)?|\};|\);|\s+|.', re.S)
NUMERALS = ["0", "00", "1", "01", "255", "256", "65534", "65535", "65536", "65537", "131072", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615",
            "18446744073709551616", "9" * 40, "0" * 30 + "4", "-1", "-0", "0x0", "0xFFFF", "0x10000", "0xFFFFFFFFFFFFFFFFF", "-0x1", "1.5", "-128", "-129", "127", "128", "1" * 400, "1.7976931348623157",
            "340282350000000000000000000000000000000", "1" + "0" * 310]
WORDS = ["interface", "struct", "const", "error", "method", "in", "out", "buffer", "include", "optional", "uint8", "uint64", "int16", "float32", "float64", "uint", "int", "self", "fn", "type",
         "this", "class", "int32_t", "size_t", "uint8x", "union", "x" * 300, "Object", "new", "a", "I", "_x", "9z", "é"]
SPACES = ["/* c */", "/**/", "/***/", "// line\n", "/** doc */", "/**\n doc\n*/", "/**\n*/", "\r", "\r\n", "\t", "\n\n", " ", "\v", "\f", "\u00a0", "\ufeff", "/*", "*/", "//", "/* /* */", "\u2028", "\0",
          "/**\r\n * doc é\r\n */", "/**\n\n\n*/", "/**\n\t@brief \"x\" */ "]
PUNCT = ["{", "}", "};", ";", "(", ")", ");", "[", "]", "[]", "[0]", "[1]", "[65536]", "[ 2 ]", "[2/* c */]", ",", ":", "=", "#[optional]", "#[optional] #[optional]", "#", "\"", "'", "\\", "$", "%s", "{}", "-"]


def mutate_tokens(r, text, others):
    toks = TOKEN.findall(text)
    what = []
    for _ in range(r.choice((1, 1, 1, 2, 3, 6))):
        if not toks:
            break
        i = r.randrange(len(toks))
        k = r.choice(("delete", "double", "swap", "space", "space", "space", "number", "number", "word", "word", "ident", "ident", "punct", "punct", "array", "splice", "move"))
        idents = [t for t in toks if re.match(r"[A-Za-z_]\w*$", t)]
        if k in ("number", "ident", "array"):
            rx = {"number": r"-?[0-9]", "ident": r"[A-Za-z_]", "array": r"[A-Za-z_]"}[k]
            c = [j for j, t in enumerate(toks) if re.match(rx, t)]
            if not c:
                continue
            i = r.choice(c)
        what.append(k)
        if k == "delete":
            del toks[i:i + r.choice((1, 1, 2, 5))]
        elif k == "double":
            toks[i:i] = toks[i:i + r.choice((1, 2, 4, 30))]
        elif k == "swap":
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == "space":
            toks.insert(i, r.choice(SPACES))
        elif k == "number":
            toks[i] = r.choice(NUMERALS)
        elif k == "word":
            toks[i:i + r.choice((0, 1))] = [r.choice(WORDS)]
        elif k == "ident":
            toks[i] = r.choice(idents)
        elif k == "punct":
            toks[i:i + r.choice((0, 1))] = [r.choice(PUNCT)]
        elif k == "array":
            toks.insert(i + 1, "[%s]" % r.choice(("", "0", "1", "2", "3", "16", "65535", "65536", "4294967297", " 5 ", "2 /* n */", "/**/2", "007")))
        elif k == "splice":
            o = TOKEN.findall(r.choice(others))
            j = r.randrange(len(o) + 1)
            toks[i:i] = o[j:j + r.choice((1, 3, 10, 40))]
        elif k == "move":
            j, n = r.randrange(len(toks)), r.choice((1, 3, 10))
            part = toks[i:i + n]
            del toks[i:i + n]
            toks[j:j] = part
    return "".join(toks), what


def damage(r, b, other):
    """What storage does to a file."""
    k = r.choice(("flip", "flip", "flip", "cut", "zero", "torn", "stale tail", "repeat", "bad utf8", "nul", "bom", "crlf", "cr", "lost block", "no end", "empty", "noise"))
    b = bytearray(b)
    n = len(b)
    i = r.randrange(n) if n else 0
    blk = r.choice((16, 64, 512))
    if k == "empty" or not n:
        return b"", "empty"
    if k == "flip":
        for _ in range(r.choice((1, 1, 2, 8))):
            b[r.randrange(n)] ^= 1 << r.randrange(8)
    elif k == "cut":
        del b[i:]
    elif k == "zero":
        j = i // blk * blk
        b[j:j + blk] = b"\0" * len(b[j:j + blk])
    elif k == "torn":
        j = i // blk * blk
        b = b[:j] + bytearray(other[j:])
    elif k == "stale tail":
        b += other[-r.randrange(1, 200):]
    elif k == "repeat":
        j = i // blk * blk
        b[j:j] = b[j:j + blk]
    elif k == "bad utf8":
        b[i:i + r.choice((0, 1))] = r.choice((b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80", b"\xe2\x82", b"\xc0\x80"))
    elif k == "nul":
        b.insert(i, 0)
    elif k == "bom":
        b[:0] = b"\xef\xbb\xbf"
    elif k == "crlf":
        b = bytearray(bytes(b).replace(b"\n", b"\r\n"))
    elif k == "cr":
        b = bytearray(bytes(b).replace(b"\n", b"\r"))
    elif k == "lost block":
        j = i // blk * blk
        del b[j:j + blk]
    elif k == "no end":
        while b and b[-1:] in (b"\n", b" "):
            del b[-1:]
    elif k == "noise":
        b[i:i] = bytes(r.randrange(256) for _ in range(r.choice((1, 4, 64))))
    return bytes(b), k


def template(r):
    """Programs at the limits: (files, name); the files are lists of lines."""
    k = r.choice(("array", "array", "product", "product", "params", "params", "objects", "objects", "long names", "long file", "many interfaces", "inherit", "nest", "double", "consts", "cycle", "docs",
                  "comments", "attributes", "errors", "wide struct", "names"))
    n = r.choice(NUMERALS[:23])
    L = []
    if k == "array":
        L = r.choice((["struct S { uint8[%s] a; };" % n], ["struct S { interface[%s] a; };" % n], ["interface I { method m(in interface[%s] a); };" % n], ["interface I { method m(out I[%s] a); };" % n],
                      ["interface I { method m(in uint8[%s] a); };" % n], ["struct T { uint8 a; };", "struct S { T[%s] a; };" % n, "interface I { method m(in S s, out S[] t); };"]))
    elif k == "product":
        depth = r.choice((2, 3, 4, 4, 5, 5, 6))
        c = r.choice((65535, 65535, 65535, 32768, 40000, 65536))
        ty = r.choice(("uint8", "uint64", "uint64", "uint32", "interface"))
        L = ["struct P0 { %s[%d] a; };" % (ty, c)] + ["struct P%d { P%d[%d] a; };" % (i, i - 1, c) for i in range(1, depth)]
        if r.random() < 0.5:
            L.append("struct Q { %s };" % " ".join("P%d f%d;" % (depth - 1, i) for i in range(r.choice((1, 2, 3)))))
        if r.random() < 0.6:
            L.append("interface I { method m(%s %s p); };" % (r.choice(("in", "out")), r.choice(("P%d", "P%d[]")) % (depth - 1)))
        if r.random() < 0.3:
            # the structs come from elsewhere
            return [["lib.idl", L[:-1]], ["main.idl", ['include "lib.idl"'] + L[-1:] if depth > 2 else ['include "lib.idl"']]], k
    elif k in ("params", "objects"):
        m = r.choice((0, 1, 14, 15, 16, 17, 63, 255, 256, 257, 300))
        tys = {"params": ("uint8", "uint64", "buffer", "uint32[]", "B", "B[]", "S"), "objects": ("interface", "I", "O", "interface[15]", "interface[16]", "I[255]", "I[256]", "O2", "I[65535]")}[k]
        L = ["struct S { uint64 a; uint64 b; };", "struct B { uint64[3] a; };", "struct O { interface o; };", "struct O2 { O[%d] o; interface p; };" % r.choice((1, 7, 14, 15, 255, 256)),
             "interface I { method m(%s); };" % ", ".join("%s %s p%d" % (r.choice(("in", "out")) if r.random() < 0.2 else "in" if m % 2 else "out", r.choice(tys), i) for i in range(m))]
    elif k == "long names":
        w = "N" + "a" * r.choice((200, 255, 256, 300, 5000, 100000))
        L = r.choice((["interface %s { method m(in uint32 x); };" % w], ["interface I { method %s(in uint32 x); };" % w], ["interface I { method m(in uint32 %s, out buffer b); };" % w],
                      ["struct %s { uint32 a; };" % w, "interface I { method m(in %s s, out %s[] t); };" % (w, w)], ["const uint32 %s = 1;" % w], ["interface I { error %s; };" % w]))
    elif k == "long file":
        m = r.choice((500, 2000, 5000))
        L = r.choice((["const uint32 K%d = %d;" % (i, i) for i in range(m)], ["struct S%d { uint32 a; uint32[%d] b; };" % (i, i % 9 + 1) for i in range(m // 2)],
                      ["interface I {"] + ["  method m%d(in uint32 x, out uint64 y);" % i for i in range(m // 2)] + ["};"],
                      ["// " + "x" * 100] * m + ["const uint8 A = 1;"], ["/* " + "long " * m * 20 + "*/", "const uint8 A = 1;"], [" " * 1000] * (m // 10) + ["const uint8 A = 1;"]))
    elif k == "many interfaces":
        L = ["interface I%d%s { method m%d(); error E%d; };" % (i, " : I%d" % r.randrange(i) if i and r.random() < 0.3 else "", i, i) for i in range(r.choice((50, 200)))]
        r.shuffle(L)
    elif k == "inherit":
        m = r.choice((10, 30, 60))
        L = ["interface I%d%s { method m%d(in uint32 x); error E%d; };" % (i, " : I%d" % (i - 1) if i else "", i, i) for i in range(m)]
        if r.random() < 0.5:
            L.reverse()
        if r.random() < 0.2:
            L.append("interface J : I%d { method m%d(); };" % (m - 1, r.randrange(m)))
    elif k == "nest":
        m = r.choice((10, 50, 100))
        L = ["struct S0 { uint32 a; };"] + ["struct S%d { S%d a; };" % (i, i - 1) for i in range(1, m)] + ["interface I { method m(in S%d a, out S%d[] b); };" % (m - 1, m - 1)]
        if r.random() < 0.5:
            L.reverse()
        if r.random() < 0.2:
            L.append("struct S0 { S%d a; };" % (m - 1))
            L.remove("struct S0 { uint32 a; };")
    elif k == "double":
        m = r.choice((4, 8, 11))
        L = ["struct S0 { uint32 a; };"] + ["struct S%d { S%d a; S%d b; };" % (i, i - 1, i - 1) for i in range(1, m)] + ["interface I { method m(in S%d a); };" % (m - 1)]
    elif k == "consts":
        L = ["const %s K%d = %s;" % (r.choice(list(fsgen.PRIM)), i, r.choice(NUMERALS)) for i in range(r.choice((1, 1, 2)))]
        if r.random() < 0.4:
            L = ["interface I {"] + L + ["};"]
    elif k == "cycle":
        m = r.choice((1, 2, 3, 40))
        L = r.choice((["struct S%d { %sS%d a; };" % (i, r.choice(("", "uint64 z; ")), (i + 1) % m) for i in range(m)], ["interface I%d : I%d { };" % (i, (i + 1) % m) for i in range(m)],
                      ["struct S%d { S%d[3] a; };" % (i, (i + 1) % m) for i in range(m)] + ["interface I { method m(in S0 x); };"]))
        if r.random() < 0.4:
            # the cycle stands in an included file
            return [["lib.idl", L], ["main.idl", ['include "lib.idl"'] + r.choice((["interface M : I0 { };"], ["interface M { method m(in S0 s); };"], ["struct M { S0 s; };"], ["interface M { };"]))]], k
    elif k == "docs":
        L = ["interface I {", r.choice(("/**\n*/", "/**\n é ü\n*/", "/**\r\n a\r\n*/", "/**\n" + "x\n" * 500 + "*/", "/**\n\t\n  \n*/", "/** */", "/***/", "/**\n @param[in] x {a} */", "/**\r x */")),
             r.choice(("method m(in uint32 x);", "error E;", "const uint8 K = 1;", "#[optional] method m();", "#[optional]\n/** a */\n method m();", "")), r.choice(("/**\n end\n*/", "")), "};"]
    elif k == "comments":
        words = ["interface", "I", ":", "B", "{", "const", "uint32", "K", "=", "1", ";", "error", "E", ";", "method", "m", "(", "in", "uint32", "x", ",", "out", "S", "[", "]", "y", ",", "in", "interface", "[", "2", "]", "o", ");", "};"]
        c = r.choice(("/* c */", "/**/", "// c\n", "/**\n doc\n*/"))
        at = {r.randrange(len(words) + 1) for _ in range(r.choice((1, 1, 2, 5)))}
        x = " ".join((c + " " if i in at else "") + w for i, w in enumerate(words)) + (c if len(words) in at else "")
        s = "struct S { uint32 [ 2 ] a ; T t ; };".split()
        at = {r.randrange(len(s) + 1) for _ in range(r.choice((0, 0, 1, 2)))}
        L = ["struct T { uint32 a; };", " ".join((c + " " if i in at else "") + w for i, w in enumerate(s)), "interface B { };", x]
    elif k == "attributes":
        L = ["interface I { %s method m(); };" % r.choice(("#[optional]", "#[optional] #[optional]", "#[optional]\n\n#[optional]\n", "#[Optional]", "#[]", "#[optional,optional]", "#[ optional ]", "#[optional] /* */", "#[optional] // x\n"))]
    elif k == "errors":
        L = ["interface I {"] + ["  error E%d;" % i for i in range(r.choice((1, 200, 2000)))] + [r.choice(("error E0;", "const int32 E0 = 3;", "const uint8 C = 1;", "error OK;"))] + ["};"]
    elif k == "wide struct":
        m = r.choice((1, 16, 17, 255, 256, 1000))
        L = ["struct S { %s };" % " ".join("%s f%d;" % (r.choice(("uint8", "uint8", "int8")) if r.random() < 0.999 else "uint16", i) for i in range(m)), "interface I { method m(in S s, out S t, in S[] u); };"]
    elif k == "names":
        w = r.choice(("I", "S", "Object", "self", "fn", "in", "out", "interface", "uint8", "buffer", "method", "int", "a", "A__b", "E", "Box", "std", "None", "String", "main"))
        v = r.choice((w, w.lower(), w.upper(), w + "_"))
        L = r.choice((["struct %s { uint32 a; };" % w, "interface %s { };" % v], ["interface %s { method m(in %s x); };" % (w, v)], ["interface I { method %s(in uint32 %s, out uint32 %s); };" % (w, v, w)],
                      ["struct S { uint32 %s; uint32 %s; };" % (w, v)], ["interface I { const uint32 %s = 1; error %s; };" % (w, v)], ["const uint8 %s = 1;" % w, "const uint8 %s = 2;" % v],
                      ["interface %s { method m(); };" % w, "interface B : %s { method m2(out %s x); };" % (w, v)]))
    return [["main.idl", L]], k


class C16:
    prop = "C16"
    quick, thorough = (9000, 150), (200000, 2400)
    FLAGS = [m[1] for m in MODES] + [["--allow-undefined-behavior"], ["--cpp", "--allow-undefined-behavior"], ["--rust", "--allow-undefined-behavior"], ["--java", "--allow-undefined-behavior"]]
    ODD = [["--skel", "--rust"], ["--c", "--cpp"], ["--nonsense"], ["-I"], ["--dump", "pst"], ["--dump", "ast"], ["--dump", "mir"], ["--dump", "all"], ["--marking", "nothere"], ["--marking", "src"], ["extra.idl"], ["--version"],
           ["-I", "nowhere"], ["-I", ""], ["-o", "x", "-o", "y"], ["--dump", "pst"], ["--dump", "mir", "--rust"]]

    @staticmethod
    def gen(r):
        scn = {"prop": "C16", "idirs": ["src"], "steps": [], "what": []}
        x = r.random()
        if x < 0.3:
            fs, k = template(r)
            files = [["src/" + p, "\n".join(ls) + "\n"] for p, ls in fs]
            scn["what"].append("limit: " + k)
        else:
            prog, scn["idirs"] = fsgen.file_set(r, max_files=3)
            files = [[f["path"], fsgen.text(f)] for f in prog]
            if x > 0.97:
                scn["what"].append("spoilt: " + spoil(r, prog))
                files = [[f["path"], fsgen.text(f)] for f in prog]
        texts = [t for _, t in files]
        raw = [[p, t.encode("utf-8", "surrogateescape")] for p, t in files]
        if r.random() < (0.25 if x < 0.3 else 0.95):
            i = r.randrange(len(raw)) if r.random() < 0.35 else len(raw) - 1
            y = r.random()
            if y < 0.65:
                t, w = mutate_tokens(r, texts[i], texts)
                raw[i][1] = t.encode("utf-8", "surrogateescape")
                scn["what"] += ["token: " + k for k in w]
            if y > 0.6:
                raw[i][1], k = damage(r, raw[i][1], r.choice(raw)[1])
                scn["what"].append("storage: " + k)
        # content as lines, so that a replay can be reduced line by line
        scn["files"] = [[p, [l.decode("latin-1") for l in re.findall(rb"[^\n]*\n|[^\n]+$", b)]] for p, b in raw]
        for _ in range(r.choice((1, 2, 2, 3))):
            flags = list(r.choice(C16.FLAGS))
            if r.random() < 0.1:
                flags += r.choice(C16.ODD)
            pol = benign(r, 0.5)
            z = r.random()
            if z < 0.1:
                pol["at"] = {str(p): [k, m] for k, m in [(r.randrange(0, 45), "read")] for p in (0, 1)}
            elif z < 0.16:
                k = r.choice((0, 1, 2, 3))
                pol["at"] = {"0": [0, "write", k], "1": [0, "write", k]}
            scn["steps"].append({"op": "run", "flags": flags, "o": r.choice((0, 0, 0, 0, 0, 1, 2)), "hseed": r.randrange(1 << 40), "mark": r.choice((None,) * 6 + ("text\n", "", "\xff\n")),
                                 "main": r.choice((0,) * 30 + (1, 2)), "plan": {"seed": r.randrange(1 << 40), "policy": pol}})
        return scn

    @staticmethod
    def execute(scn, stats, replaying=False):
        area = fresh("c16")
        for d in scn["idirs"] + ["src"]:
            os.makedirs(os.path.join(area, d), exist_ok=True)
        for p, ls in scn["files"]:
            put(os.path.join(area, p), "".join(ls).encode("latin-1"))
        main = scn["files"][-1][0]
        for k in scn["what"]:
            stats.count("inputs", k)
        verdict = {}
        for si, st in enumerate(scn["steps"]):
            flags = st["flags"]
            dump = "--dump" in flags
            multi = "--rust" in flags or "--java" in flags
            if st["mark"] is not None:
                put(os.path.join(area, "mark.txt"), st["mark"].encode("latin-1"))
            cmds, outs = [], []
            for i, kind in enumerate(("debug", "release")):
                o = os.path.join(area, "o%d" % i)
                wipe(o)
                os.makedirs(o)
                outs.append(o)
                tgt = o if multi else os.path.join(o, "gen.h")
                args = [[main, "nothere.idl", "src"][st["main"]]] + flags
                for d in scn["idirs"]:
                    args += ["-I", os.path.join(area, d)]
                if st["mark"] is not None:
                    args += ["--marking", os.path.join(area, "mark.txt")]
                if st["o"] != 1:
                    args += ["-o", tgt if st["o"] == 0 else os.path.join(area, "missing", "dir")]
                cmds.append(fsim.Cmd([exe(kind)] + args, area, hseed=st["hseed"] + i, cpu=20, mem=6 << 30, heap=False))
            before = set(os.listdir(area))
            done = run_sim(cmds, st, area, stats, replaying)
            where = "step %d: idlc %s [%s]" % (si, " ".join(cmds[0].argv[1:]).replace(area, "~"), ", ".join(scn["what"])[:120])
            stray = sorted(set(os.listdir(area)) - before)
            texts = []
            for i, d in enumerate(done):
                kind = ("debug", "release")[i]
                bad = crashed(d)
                if bad:
                    raise Violation("the compiler %s" % bad, "%s build, %s; %s" % (kind, where, last_error(d)))
                if not d.ok and not d.err.strip():
                    raise Violation("rejected without a diagnostic on standard error", "%s build, %s: %s" % (kind, where, d.how()))
                texts.append(out_files(outs[i]))
            for p in stray:
                # without -o the interfaces are written to the working directory: the debug build's files meet the release build's
                wipe(os.path.join(area, p)) if os.path.isdir(os.path.join(area, p)) else os.unlink(os.path.join(area, p))
            hard = any(d.hard_read or d.hard_write for d in done)
            stats.count("decisions", "accepted" if done[0].ok else "faulted" if hard else "rejected")
            if not hard and done[0].ok != done[1].ok:
                raise Violation("the debug build %s what the release build %s" % (("rejects", "accepts") if done[1].ok else ("accepts", "rejects")), "%s; debug: %s; release: %s" % (
                    where, last_error(done[0]) or done[0].how(), last_error(done[1]) or done[1].how()))
            for i, d in enumerate(done):
                if not d.ok or "--version" in flags:
                    continue
                kind = ("debug", "release")[i]
                if dump:
                    stage = flags[flags.index("--dump") + 1]
                else:
                    stage = "all"
                    if st["o"] == 0 and not multi and "gen.h" not in texts[i] and "-o" not in flags:
                        raise Violation("exit status 0, but no output was written", "%s build, %s" % (kind, where))
                key = (stage, "--allow-undefined-behavior" in flags)
                if key not in verdict:
                    verdict[key] = C16.verdict(scn, area, *key)
                if verdict[key] and st["main"] == 0:
                    raise Violation("accepted what has to be refused", "%s build, %s: %s" % (kind, where, "; ".join(sorted(set(verdict[key]))[:5])))
            if done[0].ok and done[1].ok:
                df = diff_outputs(texts[0], texts[1]) or diff_outputs({"stdout": done[0].out.replace(outs[0].encode(), b"~")}, {"stdout": done[1].out.replace(outs[1].encode(), b"~")})
                if df:
                    raise Violation("debug and release build write different output", "%s: %s" % (where, df))
                stats.add("outputs_compared", len(texts[0]))

    @staticmethod
    def verdict(scn, area, stage, ub):
        main = os.path.join(area, scn["files"][-1][0])

        def read(p):
            with open(p, "rb") as f:
                return f.read()
        if stage in ("pst", "ast"):
            _, bad = reffront.parse(read(main))
            return [bad] if bad else []
        why = reffront.refusals(read, main, [os.path.join(area, d) for d in scn["idirs"]] + [os.path.dirname(main)], ub)
        # a dump does not reach the checks of interfaces and the generators
        return [w for w in why if stage == "all" or w not in reffront.NOT_IN_MIR]

    @staticmethod
    def atoms(scn):
        for i in range(len(scn["steps"])):
            yield ("steps", i)
        for i, s in enumerate(scn["steps"]):
            for j in range(len(s["flags"])):
                yield ("steps", i, "flags", j)
            for k in s["plan"].get("faults", {}):
                yield ("steps", i, "plan", "faults", k)
        if len(scn["idirs"]) > 1:
            for i in range(len(scn["idirs"])):
                yield ("idirs", i)
        for i, (_, ls) in enumerate(scn["files"]):
            if i < len(scn["files"]) - 1:
                yield ("files", i)
            n = len(ls) // 2
            while n > 1:
                for j in range(0, len(ls), n):
                    yield ("files", i, 1, (j, j + n))
                n //= 2
            for j in range(len(ls)):
                yield ("files", i, 1, j)


# ---------------------------------------------------------------- search

MACH = {"C12": C12, "C13": C13, "C16": C16, "C19": C19}


def attempt(prop, scn, stats=None, replaying=False):
    """Violation or None."""
    try:
        MACH[prop].execute(scn, stats if stats is not None else Stats(), replaying)
    except Violation as v:
        return v
    return None


def remove(scn, path):
    s = copy.deepcopy(scn)
    x = s
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    if isinstance(k, tuple):
        if k[0] >= len(x):
            raise IndexError()
        del x[k[0]:k[1]]
    else:
        del x[k]
    return s


def strip(scn):
    """Scenario with explicit faults instead of a policy."""
    for s in scn["steps"]:
        s.pop("trace", None)
        s.pop("digest", None)
    return scn


def minimise(prop, scn, kind, budget=60):
    """Deletes atoms while the same violation remains."""
    t0, tries = time.time(), 0
    best = strip(copy.deepcopy(scn))
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        atoms = list(MACH[prop].atoms(best))
        # later elements first, so that the indices of earlier ones stay valid
        slices = [a for a in atoms if isinstance(a[-1], tuple)]
        single = [a for a in atoms if not isinstance(a[-1], tuple)]
        for a in slices + sorted(single, key=lambda a: (len(a), [str(x).zfill(6) for x in a]), reverse=True):
            if time.time() - t0 > budget:
                break
            try:
                cand = remove(best, a)
            except (KeyError, IndexError):
                continue
            tries += 1
            try:
                v = attempt(prop, cand)
            except Exception:
                continue
            if v and v.kind == kind:
                best = strip(cand)
                progress = True
    return best, tries


def explore(arg):
    """Worlds lo..hi of a property in one worker process."""
    prop, seed, ids, deadline = arg
    stats, viols = Stats(), []
    for i in ids:
        if time.time() > deadline:
            break
        r = random.Random("%s/%d/%d" % (prop, seed, i))
        scn = MACH[prop].gen(r)
        stats.add("scenarios")
        v = attempt(prop, scn, stats)
        if v:
            viols.append((i, scn, v.kind, v.detail))
            if len(viols) >= 2:
                break
    return dict(stats), viols


def worker_init(base):
    common._work = os.path.join(base, "p%d" % os.getpid())
    os.makedirs(common._work, exist_ok=True)
    signal.signal(signal.SIGINT, signal.SIG_DFL)


def check(prop, tier, seed):
    exe()
    fsim.shim()
    if prop == "C16":
        exe("release")
    n, budget = MACH[prop].quick if tier == "quick" else MACH[prop].thorough
    t0 = time.time()
    chunk = 10 if tier == "quick" else 40
    jobs = [(prop, seed, range(i, min(n, i + chunk)), t0 + budget) for i in range(0, n, chunk)]
    stats, found = Stats(), []
    with cf.ProcessPoolExecutor(common.JOBS, mp_context=multiprocessing.get_context("fork"), initializer=worker_init, initargs=(common.workdir(),)) as ex:
        fs = [ex.submit(explore, j) for j in jobs]
        for f in cf.as_completed(fs):
            if f.cancelled():
                continue
            s, v = f.result()
            stats.merge(s)
            found += v
            if len(found) >= 3:
                for g in fs:
                    g.cancel()
    log("%d scenarios, %d runs" % (stats.get("scenarios", 0), stats.get("runs", 0)))
    viols, seen = [], set()
    for i, scn, kind, detail in sorted(found, key=lambda x: x[0]):
        if kind in seen:
            continue
        seen.add(kind)
        small, tries = minimise(prop, scn, kind, 40 if len(seen) == 1 else 15)
        v = attempt(prop, small, replaying=True)
        if not v or v.kind != kind:  # cannot happen unless the execution depends on something that is not simulated
            small = strip(copy.deepcopy(scn))
            v = attempt(prop, small, replaying=True)
        viols.append({"property": prop, "machinery": "fscheck", "world": i, "seed": seed, "scenario": small, "minimisation_runs": tries,
                      "violation": {"kind": kind, "detail": v.detail if v else detail}})
    det = 0
    if not viols:
        # the same seed must give the same execution, call by call
        for i in range(3):
            dig = []
            for _ in range(2):
                scn = MACH[prop].gen(random.Random("%s/%d/%d" % (prop, seed, i)))
                attempt(prop, scn)
                dig.append([s.get("digest") for s in scn["steps"]])
            if dig[0] != dig[1]:
                raise HarnessError("scenario %d does not repeat" % i)
            det += 1
    if not viols and not stats.get("runs"):
        raise HarnessError("nothing was explored")
    hours = max(1e-9, (time.time() - t0) / 3600)
    cov = {
        "evaluations": stats.get("executions", 0),
        "distinct_nontrivial": len(stats.get("digests", ())),
        "rule": "one evaluation is one simulated execution: one to three real idlc processes from start to end under a seeded plan of hash seeds, schedule and faults; distinct by the digest of its sequence of system calls with process, path and decision",
        "samples": samples(prop, seed),
        "scenarios": stats.get("scenarios", 0), "compiler_processes": stats.get("runs", 0), "runs_per_hour": int(stats.get("runs", 0) / hours),
        "seeds_per_hour": int(stats.get("scenarios", 0) / hours), "system_calls_decided": stats.get("calls", 0),
        "simulated_seconds": 0, "concurrent_executions": stats.get("concurrent_executions", 0), "distinct_schedules": len(stats.get("schedules", ())),
        "faults_injected": stats.get("faults", {}), "determinism_self_checks": det,
        "components": "idlc: real process of /repo's current tree; scheduler, fault decisions, hash seeds, clock and directory order: simulated behind libc (sim/fs/shim.c); the files themselves are real, in a scratch directory",
    }
    for k in ("expected", "reference", "outcomes", "outputs_compared", "states_compared", "tree_mutations", "inputs", "decisions", "tampered"):
        if k in stats:
            cov[k] = stats[k]
    assume = ["idlc reaches the operating system through libc (dynamic symbols), which is where the simulator stands",
              "stdio and what the dynamic loader and libc do internally are not simulated"]
    return cov, viols, assume, "exploration"


def samples(prop, seed):
    out = []
    for i in range(3):
        scn = MACH[prop].gen(random.Random("%s/%d/%d" % (prop, seed, i)))
        out.append(("scenario %d: " % i + json.dumps(scn.get("ents") or scn.get("spoils") or scn.get("what") or [f["path"] if isinstance(f, dict) else f[0] for f in scn.get("files", [])] or scn.get("big") or "", ensure_ascii=True))[:400])
    return out


def replay(data):
    prop = data["property"]
    exe()
    if prop == "C16":
        exe("release")
    scn = copy.deepcopy(data["scenario"])
    v = attempt(prop, scn, replaying=True)
    for si, s in enumerate(scn["steps"]):
        for t in s.get("trace", ()):
            print("step %d: %s" % (si, t))
    if not v:
        print("no violation on this tree")
        return 0
    same = v.kind == data["violation"]["kind"]
    print("reproduced%s: %s: %s" % ("" if same else " (another kind)", v.kind, v.detail))
    return 1
