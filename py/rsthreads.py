"""C20: generated Rust objects under a seeded thread scheduler.

A world is one generated program compiled to Rust by the current idlc, with
implementations and clients in generated code (this file) and a runtime
(sim/threads/rt.rs). It runs in two simulators:
 * every thread is a task of a seeded scheduler (sim/threads/sched.rs on the
   shuttle engine); std's threads, locks and atomics are replaced by the
   scheduled ones underneath the unmodified generated code and object runtime;
 * under Miri, whose seeded scheduler preempts at any basic block and whose
   memory model and race detector see plain memory accesses as well.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import time

import common
import glue
import idlgen
from common import HarnessError, log, run

SIM = os.path.join(common.VERIF, "sim", "threads")


def world_source(prog, seed):
    r = random.Random("thr-%s" % seed)
    ifs = prog.interfaces()
    idx = {it.name: i for i, it in enumerate(ifs)}
    RAWP = len(ifs)
    mods = []
    for f in prog.files:
        mods.append('    #[cfg(have_%s)] pub mod %s { include!("rs/%s.rs"); }' % (f, f, f))
    for it in ifs:
        n = it.name.lower()
        mods.append('    pub mod %s { include!("rs/%s.rs"); }' % (n, n))
    objdir = os.path.join(common.REPO, "tests/src/object")
    o = ["#![allow(warnings)]",
         "#[cfg(sim)] extern crate simstd as std;", "#[cfg(sim)] extern crate simstd as core;", "#[cfg(sim)] extern crate simstd;",
         "#[cfg(sim)] pub use simstd::real;", "#[cfg(not(sim))] pub use std as real;",
         '#[path = "%s/mod.rs"] pub mod object;' % objdir,
         '#[allow(unused, nonstandard_style)] pub mod interfaces {', "\n".join(mods), "}",
         '#[path = "%s/rt.rs"] pub mod rt;' % SIM,
         '#[cfg(sim)] #[path = "%s/sched.rs"] pub mod sched;' % SIM,
         "#[cfg(sim)] #[global_allocator] static ALLOC: sched::alloc::Q = sched::alloc::Q;",
         "use rt::{H, Core, Rng, Op}; use object::Object; use real::mem::{MaybeUninit, ManuallyDrop, transmute, transmute_copy};",
         "static SEED: real::sync::atomic::AtomicU64 = real::sync::atomic::AtomicU64::new(0);",
         "pub fn seed() -> u64 { SEED.load(real::sync::atomic::Ordering::Relaxed) }",
         "pub fn set_seed(s: u64) { SEED.store(s, real::sync::atomic::Ordering::Relaxed) }",
         "pub fn max_instances() -> usize { if rt::SIM { 120 } else { 24 } }",
         "fn z<T>() -> T { unsafe { MaybeUninit::<T>::zeroed().assume_init() } }",
         "fn shareable<T: Send + Sync + Clone>() {}",
         "unsafe fn slots<T>(v: &mut T, offs: &[usize], p: &mut Pools, r: &mut Rng) { for o in offs { if r.chance(50) { if let Some(h) = p.pick%d(r) {"
         " rt::cnt(&rt::OBJECTS_PASSED); real::ptr::write((v as *mut T as *mut u8).add(*o) as *mut Option<Object>, Some(h.into_inner())); } } } }" % RAWP,
         "unsafe fn borrowed<T>(v: &T, offs: &[usize], p: &mut Pools, r: &mut Rng, owner: usize) { for o in offs { let s = &*((v as *const T as *const u8).add(*o) as *const Option<Object>);"
         " if let Some(x) = s { if r.chance(40) { let c = H::wrap(x.clone()); if owner == rt::NOID || (c.id != rt::NOID && c.id > owner) { p.put%d(c, r); } } } } }" % RAWP]
    T = ["interfaces::%s::%s" % (it.name.lower(), it.name) for it in ifs] + ["Object"]
    n = len(T)
    o.append("#[derive(Default)] pub struct Pools { %s }" % ", ".join("p%d: Vec<H<%s>>" % (i, T[i]) for i in range(n)))
    o.append("unsafe impl Send for Pools {}")
    o.append("impl Pools {")
    o.append("  pub fn duplicate(&self) -> Pools { Pools { %s } }" % ", ".join("p%d: self.p%d.clone()" % (i, i) for i in range(n)))
    for i in range(n):
        o.append("  fn put%d(&mut self, h: H<%s>, r: &mut Rng) { let cap = if rt::SIM { 6 } else { 3 }; if self.p%d.len() >= cap { let k = r.below(cap as u64) as usize; let old = real::mem::replace(&mut self.p%d[k], h); drop(old); } else { self.p%d.push(h) } }" % (i, T[i], i, i, i))
        o.append("  fn pick%d(&mut self, r: &mut Rng) -> Option<H<%s>> { let l = self.p%d.len() as u64; if l == 0 || r.chance(10) { None } else { Some(self.p%d[r.below(l) as usize].clone()) } }" % (i, T[i], i, i))
        new = "None" if i == RAWP else "if Core::full() { None } else { Some(new%d()) }" % i
        o.append("  fn give%d(&mut self, r: &mut Rng) -> Option<H<%s>> { match r.below(4) { 0 => None, 1 => %s, 2 => { let l = self.p%d.len() as u64; if l == 0 { None } else { Some(self.p%d.swap_remove(r.below(l) as usize)) } }, _ => self.pick%d(r) } }" % (i, T[i], new, i, i, i))
    o.append("}")
    # shared slots: references move between threads through them
    for i in range(n):
        o.append("static SH%d: real::sync::Mutex<Vec<Snd<H<%s>>>> = real::sync::Mutex::new(Vec::new());" % (i, T[i]))
    o.append("pub struct Snd<T>(T); unsafe impl<T> Send for Snd<T> {}")
    o.append("pub fn shared_clear() { %s }" % " ".join("let v = real::mem::take(&mut *SH%d.lock().unwrap()); drop(v);" % i for i in range(n)))
    # implementations
    for ii, it in enumerate(ifs):
        var = r.random() < .5 and any(m.optional for _, m in it.methods())
        S = "Im%d" % ii
        o.append("pub struct %s { core: Core } impl Drop for %s { fn drop(&mut self) { self.core.dropped() } }" % (S, S))
        mi = 0
        for anc in it.chain():
            M = "crate::interfaces::%s" % anc.name.lower()
            o.append("impl %s::I%s for %s {" % (M, anc.name, S))
            for m in anc.own_methods:
                op = mi
                mi += 1
                if var and m.optional:
                    continue
                sig, body, outs = ["&mut self"], ["self.core.enter(%d);" % op], []
                post = []
                body.append("let mut r = self.core.rng.clone(); self.core.rng.next();")
                for k, p in enumerate(m.params):
                    ty = glue.rs_type(prog, p, prog.files)
                    v = "x%d" % k
                    j = RAWP if p.ty is None else idx.get(p.ty, 0) if p.kind in ("obj", "objs") else None
                    if not p.out:
                        sig.append("%s: %s" % (v, {"prim": ty, "struct": "&" + ty, "obj": "Option<&%s>" % ty,
                                                   "objs": "&[Option<%s>; %d]" % (ty, p.count)}.get(p.kind, "&[%s]" % ty)))
                        if p.kind == "obj":
                            body.append("if let Some(o) = %s { if r.chance(60) { let c = H::wrap(o.clone()); if self.core.may_keep(c.id) { self.core.pools.put%d(c, &mut r); } } }" % (v, j))
                        elif p.kind == "objs":
                            body.append("for o in %s.iter().flatten() { if r.chance(40) { let c = H::wrap(o.clone()); if self.core.may_keep(c.id) { self.core.pools.put%d(c, &mut r); } } }" % (v, j))
                        elif p.kind == "struct" and p.objs:
                            body.append("unsafe { borrowed(%s, &%s, &mut self.core.pools, &mut r, self.core.id); }" % (v, list(p.objs)))
                    elif p.kind in ("buffer", "prims", "structs"):
                        sig.append("%s: &mut [%s], l%d: &mut usize" % (v, ty, k))
                        body.append("*l%d = r.below(1 + %s.len() as u64) as usize;" % (k, v))
                    else:
                        t = {"obj": "Option<%s>" % ty, "objs": "[Option<%s>; %d]" % (ty, p.count)}.get(p.kind, ty)
                        outs.append((k, t))
                        if p.kind == "obj":
                            post.append("let t%d = self.core.pools.give%d(&mut r).map(|h| h.into_inner());" % (k, j))
                        elif p.kind == "objs":
                            post.append("let t%d: %s = real::array::from_fn(|_| if r.chance(70) { self.core.pools.give%d(&mut r).map(|h| h.into_inner()) } else { None });" % (k, t, j))
                        else:
                            post.append("let mut t%d: %s = z();" % (k, t))
                            if p.kind == "struct" and p.objs:
                                post.append("unsafe { slots(&mut t%d, &%s, &mut self.core.pools, &mut r); }" % (k, list(p.objs)))
                body.append("self.core.work();")
                ret = "()" if not outs else (outs[0][1] if len(outs) == 1 else "(%s)" % ", ".join(t for _, t in outs))
                val = "()" if not outs else ("t%d" % outs[0][0] if len(outs) == 1 else "(%s)" % ", ".join("t%d" % k for k, _ in outs))
                o.append("  fn r#%s(%s) -> Result<%s, %s::Error> { %s %s if self.core.leave() { return Err(crate::object::Error::from(5i32).into()); } Ok(%s) }"
                         % (m.name, ", ".join(sig), ret, M, " ".join(body), " ".join(post), val))
            o.append("}")
        o.append("pub fn new%d() -> H<%s> { let core = Core::new(%d); let id = core.id; H::fresh(%s::from(%s { core }), id) }" % (ii, T[ii], ii, T[ii], S))
    # calls
    for ii, it in enumerate(ifs):
        o.append("pub fn call%d(h: &%s, m: usize, r: &mut Rng, p: &mut Pools) -> bool { rt::cnt(&rt::CALLS); match m {" % (ii, T[ii]))
        for mi, (_, m) in enumerate(it.methods()):
            pre, args, outs, post = [], [], [], []
            for k, p in enumerate(m.params):
                ty = glue.rs_type(prog, p, prog.files)
                j = RAWP if p.ty is None else idx.get(p.ty, 0) if p.kind in ("obj", "objs") else None
                if not p.out:
                    if p.kind == "prim":
                        args.append("z::<%s>()" % ty)
                    elif p.kind == "struct":
                        pre.append("let mut v%d: %s = z();" % (k, ty))
                        if p.objs:
                            pre.append("unsafe { slots(&mut v%d, &%s, p, r); }" % (k, list(p.objs)))
                        args.append("&v%d" % k)
                    elif p.kind == "obj":
                        pre.append("let v%d = p.pick%d(r); if v%d.is_some() { rt::cnt(&rt::OBJECTS_PASSED); }" % (k, j, k))
                        args.append("v%d.as_ref().map(|h| h.get())" % k)
                    elif p.kind == "objs":
                        pre.append("let v%d: [Option<%s>; %d] = real::array::from_fn(|_| if r.chance(60) { p.pick%d(r).map(|h| h.into_inner()) } else { None });" % (k, ty, p.count, j))
                        args.append("&v%d" % k)
                    else:
                        pre.append("let v%d: Vec<%s> = (0..r.below(4)).map(|_| z()).collect();" % (k, ty))
                        args.append("&v%d" % k)
                elif p.kind in ("buffer", "prims", "structs"):
                    pre.append("let mut v%d: Vec<%s> = (0..r.below(4)).map(|_| z()).collect(); let mut l%d = 0usize;" % (k, ty, k))
                    args += ["&mut v%d" % k, "&mut l%d" % k]
                else:
                    outs.append(k)
                    if p.kind == "obj":
                        post.append("if let Some(o) = w%d { let h = H::wrap(o); p.put%d(h, r); }" % (k, j))
                    elif p.kind == "objs":
                        post.append("for o in w%d.into_iter().flatten() { let h = H::wrap(o); p.put%d(h, r); }" % (k, j))
                    elif p.kind == "struct" and p.objs:
                        post.append("unsafe { borrowed(&w%d, &%s, p, r, rt::NOID); }" % (k, list(p.objs)))
            pat = "()" if not outs else ("w%d" % outs[0] if len(outs) == 1 else "(%s)" % ", ".join("w%d" % k for k in outs))
            o.append("  %d => { %s match h.r#%s(%s) { Ok(%s) => { %s true } Err(e) => { rt::refused(i32::from(object::Error::from(e)), %d); false } } }" % (mi, " ".join(pre), m.name, ", ".join(args), pat, " ".join(post), int(m.optional)))
        o.append("  _ => true } }")
    nm = [len(it.methods()) for it in ifs]
    # calls from within a method body: only to younger instances, so that bodies never wait in a circle
    o.append("pub fn nested(c: &mut Core) { let mut r = c.rng.clone(); c.rng.next();"
             " if r.chance(12) && !Core::full() { match r.below(%d) { %s _ => {} } }"
             " if !r.chance(40) { return; } let me = c.id; let s = r.below(%d) as usize; let lens = [%s]; let s = (0..%d).map(|d| (s + d) %% %d).find(|x| lens[*x] > 0).unwrap_or(s); match s {"
             % (len(ifs), " ".join("%d => { let h = new%d(); c.pools.put%d(h, &mut r); }" % (i, i, i) for i in range(len(ifs))), len(ifs), ", ".join("c.pools.p%d.len()" % i for i in range(len(ifs))), len(ifs), len(ifs)))
    for i in range(len(ifs)):
        if nm[i]:
            o.append("  %d => { if let Some(k) = c.pools.p%d.iter().position(|h| h.id != rt::NOID && h.id > me) { let h = c.pools.p%d.swap_remove(k); rt::cnt(&rt::NESTED); let m = r.below(%d) as usize; call%d(h.get(), m, &mut r, &mut c.pools); c.pools.put%d(h, &mut r); } }" % (i, i, i, nm[i], i, i))
    o.append("  _ => {} } }")
    # operations of the clients
    o.append("pub fn exec(op: &Op, p: &mut Pools) { let mut r = Rng(rt::mix(op.r)); let r = &mut r; let k = op.k as usize %% %d; let k = if op.kind == rt::NEW || op.kind == rt::CALL { k %% %d } else { k };" % (n, len(ifs)))
    # calls go where references are
    o.append("  let lens = [%s]; let k = if lens[k] == 0 && op.kind != rt::NEW { (0..%d).map(|d| (k + d) %% %d).find(|x| lens[*x] > 0 && (op.kind != rt::CALL || *x < %d)).unwrap_or(k) } else { k };"
             % (", ".join("p.p%d.len()" % i for i in range(n)), n, n, len(ifs)))
    o.append("  let x = op.x as usize; match (op.kind, k) {")
    for i in range(n):
        t = "p.p%d" % i
        if i < RAWP:
            o.append("  (rt::NEW, %d) => { if !Core::full() { let h = new%d(); p.put%d(h, r); } }" % (i, i, i))
            if nm[i]:
                o.append("  (rt::CALL, %d) => { if !%s.is_empty() { let x = x %% %s.len(); let h = %s.swap_remove(x); h.check(\"before a call\"); rt::contended(h.id); call%d(h.get(), op.m as usize %% %d, r, p); p.put%d(h, r); } }" % (i, t, t, t, i, nm[i], i))
            up = RAWP if ifs[i].base is None else idx[ifs[i].base.name]
            o.append("  (rt::UPCAST, %d) => { if !%s.is_empty() { let h = %s[x %% %s.len()].clone(); rt::cnt(&rt::UPCASTS); let b: %s = h.into_inner().into(); let b = H::wrap(b); p.put%d(b, r); } }" % (i, t, t, t, T[up], up))
            o.append("  (rt::DOWNCAST, %d) => { if !%s.is_empty() { rt::cnt(&rt::DOWNCASTS); let h = &%s[x %% %s.len()]; let raw: &Object = unsafe { transmute(h.get()) };"
                     " interfaces::%s::downcast_concrete::<(), Im%d>(raw, |c| c.core.peek()); } }" % (i, t, t, t, ifs[i].name.lower(), i))
        o.append("  (rt::CLONE, %d) => { if !%s.is_empty() { let h = %s[x %% %s.len()].clone(); p.put%d(h, r); } }" % (i, t, t, t, i))
        o.append("  (rt::RAWCLONE, %d) => { if !%s.is_empty() { let h = { let a = &%s[x %% %s.len()]; a.check(\"before a retain\"); let raw: &Object = unsafe { transmute(a.get()) };"
                 " let s = unsafe { raw.invoke(object::OP_RETAIN, real::ptr::null_mut(), 0) }; if s != 0 { rt::viol(\"a retain fails\", real::format!(\"{}\", s)); } H::wrap(unsafe { transmute_copy::<_, %s>(raw) }) }; p.put%d(h, r); } }" % (i, t, t, t, T[i], i))
        o.append("  (rt::DROP, %d) => { if !%s.is_empty() { let x = x %% %s.len(); let h = %s.swap_remove(x); drop(h); } }" % (i, t, t, t))
        o.append("  (rt::PUSH, %d) => { if !%s.is_empty() { rt::cnt(&rt::HANDOVERS); let x = x %% %s.len(); let h = %s.swap_remove(x); let old = { let mut s = SH%d.lock().unwrap(); s.push(Snd(h)); if s.len() > 5 { Some(s.swap_remove(0)) } else { None } }; drop(old); } }" % (i, t, t, t, i))
        o.append("  (rt::POP, %d) => { let h = { SH%d.lock().unwrap().pop() }; if let Some(Snd(h)) = h { p.put%d(h, r); } }" % (i, i, i))
        o.append("  (rt::HOSTILE, %d) => { if !%s.is_empty() { let h = &%s[x %% %s.len()]; let raw: &Object = unsafe { transmute(h.get()) }; rt::cnt(&rt::F_HOSTILE);"
                 " let mut a: [ManuallyDrop<object::Arg>; 60] = z(); let (o, c) = if r.chance(40) { (0x4000 + r.below(0x3000) as u32, 0) } else { (r.below(8) as u32, 0xffffu32) };"
                 " let s = unsafe { raw.invoke(o, a.as_mut_ptr() as *mut object::Arg, c) }; if s != 0 { rt::cnt(&rt::HOSTILE_REFUSED); } } }" % (i, t, t, t))
    o.append("  _ => {} } }")
    o.append("fn statics() { %s }" % " ".join("shareable::<%s>();" % t for t in T[:-1]))
    o.append("#[cfg(sim)] fn main() { statics(); sched::main() }")
    o.append("#[cfg(not(sim))] fn main() { statics(); use real::hash::{BuildHasher, Hasher}; let s = real::collections::hash_map::RandomState::new().build_hasher().finish(); for k in 0..2 { rt::world(rt::mix(s ^ k), true, None); }"
             " print!(\"DONE\"); for (n, v) in rt::counters() { print!(\"\\t{}={}\", n, v); } println!(); }")
    return "\n".join(o) + "\n"


class Spec:
    def __init__(self, seed, profile):
        self.seed, self.profile = seed, profile

    def program(self):
        return idlgen.Gen(self.seed, self.profile, tag="thr").program()

    def as_dict(self):
        return {"seed": self.seed, "profile": self.profile}


def simstd():
    """(rlib, dependency directory) of the scheduled std."""
    with open(os.path.join(SIM, "simstd/src/lib.rs")) as f:
        pass
    t = os.path.join(common.BUILD, "simstd-target")
    with common.Lock("simstd"):
        r = run(["cargo", "build", "--offline", "--locked", "--release"], cwd=os.path.join(SIM, "simstd"), timeout=600, extra_env={"CARGO_TARGET_DIR": t})
        if r.rc:
            raise HarnessError("simstd does not build:\n" + r.err[-2000:])
    return os.path.join(t, "release", "libsimstd.rlib"), os.path.join(t, "release", "deps")


class Build:
    pass


def build(idlc, spec, d, std):
    b = Build()
    b.spec, b.exe, b.error, b.stage, b.dir = spec, None, None, None, d
    os.makedirs(os.path.join(d, "rs"))
    b.prog = spec.program()
    b.prog.write(d)
    for f in b.prog.files:
        r = run([idlc, f + ".idl", "--rust", "-o", "rs"], cwd=d, timeout=60)
        if r.rc:
            b.stage, b.error = "idlc", (r.err or r.out)[-1500:]
            return b
    src = os.path.join(d, "world.rs")
    with open(src, "w") as f:
        f.write(world_source(b.prog, spec.seed))
    b.cfgs = []
    for f in b.prog.files:
        if os.path.exists(os.path.join(d, "rs", f + ".rs")):
            b.cfgs += ["--cfg", "have_" + f]
    b.cfgs += ["--cfg", 'feature="std"']
    rlib, deps = std
    r = run(["rustc", "--edition", "2021", "-C", "opt-level=1", "-C", "debuginfo=0", "-C", "debug-assertions=on", "--cfg", "sim"] + b.cfgs +
            ["--extern", "simstd=" + rlib, "-L", "dependency=" + deps, "-o", os.path.join(d, "world"), src], cwd=d, timeout=400)
    if r.rc:
        b.stage, b.error = "rustc", r.err[:6000]
        return b
    b.exe = os.path.join(d, "world")
    return b


def parse(o):
    v, done = None, None
    for line in o.splitlines():
        w = line.split("\t")
        if w[0] == "VIOL":
            v = w
        elif w[0] == "DONE":
            done = {k: (x if k == "digest" else int(x)) for k, x in (t.split("=") for t in w[1:])}
    return v, done


def replay_text(seed, keep, sched):
    t = "seed %d\n" % seed
    if keep is not None:
        t += "keep %s\n" % ",".join("%d:%d" % k for k in keep)
    if sched is not None:
        t += "sched %s\n" % ",".join("%d:%d" % s for s in sched)
    return t


def one(exe, seed, keep, sched, trace=False, timeout=30):
    p = exe + ".replay-%d" % os.getpid()
    with open(p, "w") as f:
        f.write(replay_text(seed, keep, sched))
    r = run([exe, "replay", p] + (["trace"] if trace else []), timeout=timeout)
    v, done = parse(r.out)
    return v, done, r


def outcome(v, r):
    """(kind, detail, digest) of a failing run or None."""
    if v:
        return v[1], v[2], v[5]
    if r.timeout:
        return "the run does not end", "", ""
    if r.rc:
        return "the world crashes", "exit status %s %s" % (r.rc, r.err[-300:]), ""
    return None


def sched_of(v):
    return [tuple(map(int, x.split(":"))) for x in v[6].split(",")] if v and len(v) > 6 and v[6] else []


def search(b, seed0, n, budget):
    """Runs n seeds; on a failure returns the failing seed and what happened."""
    r = run([b.exe, "run", str(seed0), str(n)], timeout=budget)
    v, done = parse(r.out)
    if r.rc == 0 and done:
        return done, None
    if v:
        return None, (int(v[3]), v, r)
    # a crash tells no seed: look for it by halving
    lo, hi = seed0, seed0 + n
    while hi - lo > 1:
        mid = (lo + hi) // 2
        q = run([b.exe, "run", str(lo), str(mid - lo)], timeout=budget)
        if q.rc or q.timeout:
            hi, r = mid, q
        else:
            lo = mid
    return None, (lo, None, r)


def minimise(b, seed, v, r, budget=45.0):
    t0 = time.time()
    want = outcome(v, r)
    kind = want[0] if want else "?"
    keep = None
    _, _, _ = None, None, None
    # the schedule as a list of preemptions
    sched = sched_of(v) if v else None
    allops = [(t, n) for t, ln in enumerate(script_shape(b, seed)) for n in range(ln)]
    keep = list(allops)

    def fails(k, s):
        vv, _, rr = one(b.exe, seed, k, s, timeout=20)
        x = outcome(vv, rr)
        return x is not None and x[0] == kind
    if sched is not None and not fails(keep, sched):
        sched = None  # replays through the seeded scheduler only
    # operations first (their removal shifts the schedule: try the seeded one and the recorded one)
    chunk = max(1, len(keep) // 2)
    while chunk and time.time() - t0 < budget / 2:
        i = 0
        while i < len(keep) and time.time() - t0 < budget / 2:
            cand = keep[:i] + keep[i + chunk:]
            if fails(cand, sched):
                keep = cand
            elif fails(cand, None):
                keep = cand
                vv, _, rr = one(b.exe, seed, keep, None)
                sched = sched_of(vv) if vv and fails(keep, sched_of(vv)) else None
            else:
                i += chunk
        chunk //= 2
    if sched is not None:
        chunk = max(1, len(sched) // 2)
        while chunk and time.time() - t0 < budget:
            i = 0
            while i < len(sched) and time.time() - t0 < budget:
                cand = sched[:i] + sched[i + chunk:]
                if fails(keep, cand):
                    sched = cand
                else:
                    i += chunk
            chunk //= 2
    vv, _, rr = one(b.exe, seed, keep, sched, trace=True)
    x = outcome(vv, rr) or want
    trace = [l for l in rr.out.splitlines() if l.startswith("step")]
    return {"seed": seed, "kept_operations": keep, "schedule": sched, "kind": x[0], "detail": x[1], "digest": x[2],
            "operations_before": len(allops), "trace": trace[-120:]}


def script_shape(b, seed):
    r = run([b.exe, "shape", str(seed)], timeout=20)
    return [int(x) for x in r.out.split()]


# ---------------------------------------------------------------------- Miri --


def miri_sysroot():
    r = run(["rustup", "run", "nightly", "cargo", "miri", "setup", "--print-sysroot"], cwd=common.workdir(), timeout=300, extra_env={"RUSTUP_TOOLCHAIN": ""})
    s = r.out.strip().splitlines()
    return s[-1] if r.rc == 0 and s and os.path.isdir(s[-1]) else None


def miri(b, sysroot, seeds, timeout):
    """seeds: (lo, hi) or one seed."""
    fl = ["-Zmiri-disable-stacked-borrows", "-Zmiri-ignore-leaks", "-Zmiri-preemption-rate=0.04"]
    fl += ["-Zmiri-many-seeds=%d..%d" % seeds] if isinstance(seeds, tuple) else ["-Zmiri-seed=%d" % seeds]
    return run(["rustup", "run", "nightly", "miri", "--sysroot", sysroot, "--edition", "2021"] + b.cfgs + fl + [os.path.join(b.dir, "world.rs")],
               cwd=b.dir, timeout=timeout, extra_env={"RUSTUP_TOOLCHAIN": ""})


def miri_kind(r):
    m = re.search(r"^VIOL\t([^\t]*)\t(.*)$", r.out, re.M)
    if m:
        return m.group(1), m.group(2)
    m = re.search(r"^error: (.*)$", r.err, re.M)
    if m:
        t = m.group(1)
        if "unsupported operation" in t or "could not compile" in t or "aborting due to" in t:
            return None
        if re.match(r"error\[E\d+\]", m.group(0)):
            return None
        k = "data race" if "Data race" in t else "deadlock" if "deadlock" in t.lower() else "undefined behaviour" if "Undefined Behavior" in t else "abnormal end"
        return "under Miri: " + k, t[:400]
    return None


# --------------------------------------------------------------------- check --
PROFILES = ["mixed", "objects", "deep", "mixed", "data", "objects", "mixed", "wide"]
REAL = ("generated Rust stubs, skeletons and conversions (from /repo's current idlc) and tests/src/object/{mod,wrapper,error}.rs: real, unmodified; "
        "threads, mutexes and atomics: scheduled by the simulator (shuttle engine under our seeded scheduler, or Miri's); implementations and clients: simulated")
ASSUME = [
    "the wrapper of tests/src/object is the Mink object runtime generated Rust code is linked with",
    "the scheduled executions are sequentially consistent; weak memory orderings are only explored by the Miri runs",
    "Stacked/Tree Borrows violations are not part of the property and are switched off in Miri; data races, invalid accesses and deadlocks are on",
]


def compile_violation(b):
    """A world that does not compile because objects may not be shared between threads."""
    if b.stage == "rustc" and re.search(r"cannot be (sent|shared) between threads safely", b.error):
        return {"kind": "a generated object cannot be shared between threads", "detail": b.error[:1500]}
    return None


def check(prop, tier, seed):
    t0 = time.time()
    quick = tier == "quick"
    nworlds, runs, miri_worlds, miri_seeds, budget = (8, 12000, 3, 40, 240) if quick else (400, 40000, 200, 256, 3000)
    idlc, std = common.build_idlc(), simstd()
    log("tools ready")
    os.environ["SHUTTLE_SILENCE_WARNINGS"] = "1"
    tot, viols, worlds, fails, rejected = {}, [], 0, [], 0
    samples, deadline = [], t0 + budget
    base = common.workdir()

    def job(i):
        if time.time() > deadline or len(viols) >= 2:
            return None
        spec = Spec(seed * 100003 + i, PROFILES[i % len(PROFILES)])
        d = os.path.join(base, "t%d" % i)
        os.makedirs(d)
        b = build(idlc, spec, d, std)
        if not b.exe:
            return b, None, None, None
        done, f = search(b, 1 + (seed << 20), runs, 300)
        m = None
        if f:
            m = minimise(b, *f)
        det = None
        if not f and i == 0:
            a = search(b, 1 + (seed << 20), runs, 300)
            det = a[0] == done
        return b, done, m, det
    det = 0
    keepdirs = []
    with cf.ThreadPoolExecutor(common.JOBS) as ex:
        for res in ex.map(job, range(nworlds)):
            if res is None:
                continue
            b, done, m, d = res
            if not b.exe:
                v = compile_violation(b)
                if v:
                    viols.append({"property": prop, "machinery": "rsthreads", "world": b.spec.as_dict(), "mode": "compile", "violation": v})
                elif b.stage == "idlc":
                    rejected += 1
                else:
                    fails.append((b.spec.as_dict(), b.stage, b.error[:600]))
                shutil.rmtree(b.dir, ignore_errors=True)
                continue
            worlds += 1
            if d is False:
                raise HarnessError("the simulator is not deterministic")
            det += 1 if d else 0
            if done:
                for k, x in done.items():
                    if k != "digest":
                        tot[k] = tot.get(k, 0) + x
                if len(samples) < 4:
                    samples.append({"world": b.spec.as_dict(), "seeds": [1 + (seed << 20), runs], "interfaces": len(b.prog.interfaces()), "digest": done["digest"]})
            if m:
                viols.append({"property": prop, "machinery": "rsthreads", "mode": "sim", "world": b.spec.as_dict(), "run": m,
                              "idl": {f: b.prog.text(f) for f in b.prog.files}, "violation": {"kind": m["kind"], "detail": m["detail"], "digest": m["digest"]}})
            if len(keepdirs) < miri_worlds:
                keepdirs.append(b)
            else:
                shutil.rmtree(b.dir, ignore_errors=True)
    t_sim = time.time() - t0
    log("scheduled runs done: %s" % tot.get("runs"))
    # Miri
    mseeds, munsup, sr = 0, 0, miri_sysroot()
    t1 = time.time()
    if sr is None:
        log("no Miri sysroot: the Miri runs are skipped")
    elif not viols:
        for b in keepdirs:
            if time.time() > deadline + (60 if quick else 1500) or viols:
                break
            r = miri(b, sr, (0, miri_seeds), 400 if quick else 1500)
            oks = len(re.findall(r"^DONE", r.out, re.M))
            if r.rc == 0:
                mseeds += oks
                continue
            m = re.search(r"[Ss]eed[: ]+(\d+) failed|FAILING SEED: (\d+)", r.err + r.out)
            mseeds += oks
            cand = [int(next(x for x in m.groups() if x is not None))] if m else range(miri_seeds)
            hit = None
            for s in cand:
                q = miri(b, sr, s, 200)
                k = miri_kind(q)
                if k:
                    hit = (s, k, q)
                    break
            if hit:
                viols.append({"property": prop, "machinery": "rsthreads", "mode": "miri", "world": b.spec.as_dict(), "miri_seed": hit[0],
                              "idl": {f: b.prog.text(f) for f in b.prog.files}, "report": (hit[2].out + hit[2].err)[-4000:],
                              "violation": {"kind": hit[1][0], "detail": hit[1][1], "digest": ""}})
            else:
                munsup += 1
                log("Miri gives no verdict: " + r.err[-1500:])
    t_miri = time.time() - t1
    for b in keepdirs:
        shutil.rmtree(b.dir, ignore_errors=True)
    if not viols and (not tot.get("BODIES") or not worlds):
        raise HarnessError("nothing was explored: %s" % fails[:2])
    n = tot.get("runs", 0)
    cov = {
        "evaluations": n + mseeds,
        "distinct_nontrivial": tot.get("shapes", 0),
        "rule": "one evaluation is one simulated run: a seeded schedule of 3-6 threads over 1-3 shared implementation objects of one generated program; distinct by the digest of its scheduling decisions and events within its world (Miri runs are not counted as distinct)",
        "samples": samples or ["none"],
        "worlds": worlds, "worlds_rejected": rejected, "build_failures": len(fails), "build_failure_samples": [str(f)[:300] for f in fails[:2]],
        "runs_per_hour": int(n / max(t_sim, .1) * 3600), "seeds_per_hour": int((n + mseeds) / max(t_sim + t_miri, .1) * 3600),
        "simulated_time": "logical: %d scheduling steps" % tot.get("steps", 0), "steps": tot.get("steps", 0), "context_switches": tot.get("switches", 0), "events": tot.get("events", 0),
        "method_bodies": tot.get("BODIES", 0), "calls": tot.get("CALLS", 0), "calls_to_a_busy_object": tot.get("CONTENDED", 0), "nested_calls": tot.get("NESTED", 0),
        "instances": tot.get("NEWS", 0), "instances_dropped": tot.get("IMPL_DROPS", 0), "clones": tot.get("CLONES", 0), "releases": tot.get("DROPS", 0), "upcasts": tot.get("UPCASTS", 0),
        "handovers_between_threads": tot.get("HANDOVERS", 0), "downcasts": tot.get("DOWNCASTS", 0), "objects_passed": tot.get("OBJECTS_PASSED", 0),
        "faults_injected": {"failing_method": tot.get("F_FAIL", 0), "stalled_method": tot.get("F_STALL", 0), "malformed_invocation": tot.get("F_HOSTILE", 0), "thread_death": tot.get("F_ABANDON", 0),
                            "schedulers": "uniform, sticky, priorities with change points, starvation of one thread, bursts"},
        "malformed_refused": tot.get("HOSTILE_REFUSED", 0),
        "miri_runs": mseeds, "miri_worlds": len(keepdirs) if sr else 0, "miri_without_verdict": munsup, "miri_seconds": round(t_miri, 1),
        "determinism_self_checks": det, "components": REAL,
    }
    return cov, viols, ASSUME, "exploration"


def replay(data):
    os.environ["SHUTTLE_SILENCE_WARNINGS"] = "1"
    d = os.path.join(common.workdir(), "replay")
    os.makedirs(d)
    b = build(common.build_idlc(), Spec(data["world"]["seed"], data["world"]["profile"]), d, simstd())
    if data["mode"] == "compile":
        print(b.error or "the world compiles")
        return 1 if compile_violation(b) else 0
    if not b.exe:
        print("the world does not build on this tree:\n%s" % b.error)
        return 2
    if data["mode"] == "miri":
        r = miri(b, miri_sysroot(), data["miri_seed"], 400)
        print(r.out[-2000:], r.err[-4000:])
        return 1 if miri_kind(r) else 0
    run_ = data["run"]
    v, done, r = one(b.exe, run_["seed"], [tuple(x) for x in run_["kept_operations"]], None if run_["schedule"] is None else [tuple(x) for x in run_["schedule"]], trace=True)
    print(r.out)
    x = outcome(v, r)
    if x:
        print("reproduced%s: %s: %s" % (" exactly" if x[2] == run_["digest"] and x[0] == run_["kind"] else " (another digest)", x[0], x[1]))
        return 1
    print("no violation on this tree")
    return 0
