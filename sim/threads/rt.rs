// Runtime of a thread world. Compiled twice: with `sim` every thread is a task
// of the seeded scheduler below; without it the world runs under Miri, whose
// own seeded scheduler, memory model and race detector take over.
use crate::object;
use crate::real as R;
use R::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const NI: usize = 400;
pub const NOID: usize = usize::MAX;
pub const SIM: bool = cfg!(sim);

pub struct Inst {
    busy: AtomicBool,
    dead: AtomicBool,
    drops: AtomicU32,
    done: AtomicU64,
    live: AtomicI64,
}
#[allow(clippy::declare_interior_mutable_const)]
const I0: Inst = Inst { busy: AtomicBool::new(false), dead: AtomicBool::new(false), drops: AtomicU32::new(0), done: AtomicU64::new(0), live: AtomicI64::new(0) };
pub static INST: [Inst; NI] = [I0; NI];
static NEXT: AtomicUsize = AtomicUsize::new(0);

macro_rules! counters { ($($n:ident),*) => { $(pub static $n: AtomicU64 = AtomicU64::new(0);)* pub fn counters() -> Vec<(&'static str, u64)> { vec![$((stringify!($n), $n.load(Relaxed))),*] } } }
counters!(BODIES, CALLS, CALL_ERRORS, NEWS, CLONES, DROPS, IMPL_DROPS, UPCASTS, HANDOVERS, DOWNCASTS, NESTED, F_FAIL, F_STALL, F_HOSTILE, F_ABANDON, HOSTILE_REFUSED, OBJECTS_PASSED, CONTENDED);
pub fn cnt(c: &AtomicU64) { c.fetch_add(1, Relaxed); }

pub fn contended(id: usize) { if id != NOID && INST[id].busy.load(Relaxed) { cnt(&CONTENDED); } }

/// A well-formed call did not succeed.
pub fn refused(status: i32, missing: usize) {
    cnt(&CALL_ERRORS);
    // implementations fail with 5; a method that is not provided is refused
    if missing == 0 && status != 5 { viol("a well-formed invocation is refused", R::format!("status {}", status)); }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(1);
        mix(self.0.wrapping_mul(0x2545_f491_4f6c_dd1d))
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
}

pub fn viol(kind: &str, detail: R::string::String) -> ! {
    #[cfg(sim)]
    unsafe {
        crate::sched::report(kind, &detail);
    }
    #[cfg(not(sim))]
    {
        println!("VIOL\t{}\t{}", kind, detail);
        R::process::exit(77)
    }
}

#[cfg(sim)]
pub fn yp() { std::thread::yield_now(); }
#[cfg(not(sim))]
pub fn yp() { std::thread::yield_now(); }

#[allow(unused_variables)]
pub fn ev(code: u32, a: usize, b: usize) {
    #[cfg(sim)]
    crate::sched::event(code, a as u64, b as u64);
}

// ------------------------------------------------------------------ handles --
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Raw(pub usize, pub usize);

#[cfg(sim)]
pub static mut CTX: Option<R::collections::HashMap<usize, usize>> = None;

#[allow(unused_variables)]
fn ctx_set(raw: usize, id: usize) {
    #[cfg(sim)]
    unsafe {
        (*R::ptr::addr_of_mut!(CTX)).get_or_insert_with(Default::default).insert(raw, id);
    }
}
#[allow(unused_variables)]
fn ctx_get(raw: usize) -> usize {
    #[cfg(sim)]
    unsafe {
        return (*R::ptr::addr_of_mut!(CTX)).as_ref().and_then(|m| m.get(&raw).copied()).unwrap_or(NOID);
    }
    #[cfg(not(sim))]
    NOID
}

/// A reference the world holds.
pub struct H<T: Clone> {
    h: R::mem::ManuallyDrop<T>,
    pub id: usize,
}
impl<T: Clone> H<T> {
    fn raw(t: &T) -> Raw {
        assert_eq!(R::mem::size_of::<T>(), R::mem::size_of::<Raw>());
        unsafe { R::mem::transmute_copy(t) }
    }
    fn with(t: T, id: usize) -> Self {
        if id != NOID { INST[id].live.fetch_add(1, Relaxed); }
        ev(2, id, 0);
        H { h: R::mem::ManuallyDrop::new(t), id }
    }
    /// A reference that arrived from a call.
    pub fn wrap(t: T) -> Self {
        let id = ctx_get(Self::raw(&t).1);
        if SIM && id == NOID { viol("a call returned an object nobody created", R::format!("{:x}", Self::raw(&t).1)); }
        let h = Self::with(t, id);
        h.check("right after it was received");
        h
    }
    pub fn fresh(t: T, id: usize) -> Self {
        ctx_set(Self::raw(&t).1, id);
        Self::with(t, id)
    }
    pub fn check(&self, when: &str) {
        if SIM && self.id != NOID && INST[self.id].dead.load(Relaxed) {
            viol("the implementation was dropped while references remain", R::format!("instance {} found dropped {}", self.id, when));
        }
    }
    pub fn get(&self) -> &T { self.check("before a use of a live reference"); &self.h }
    pub fn into_inner(self) -> T {
        let mut me = R::mem::ManuallyDrop::new(self);
        me.check("before it was handed over");
        ev(9, me.id, 0);
        if me.id != NOID { INST[me.id].live.fetch_sub(1, Relaxed); }
        unsafe { R::mem::ManuallyDrop::take(&mut me.h) }
    }
}
impl<T: Clone> Clone for H<T> {
    fn clone(&self) -> Self {
        cnt(&CLONES);
        self.check("before a clone");
        let t = T::clone(&self.h);
        let h = Self::with(t, self.id);
        h.check("after a clone");
        h
    }
}
impl<T: Clone> Drop for H<T> {
    fn drop(&mut self) {
        cnt(&DROPS);
        self.check("before the release of a reference");
        if self.id != NOID { INST[self.id].live.fetch_sub(1, Relaxed); }
        ev(3, self.id, 0);
        unsafe { R::mem::ManuallyDrop::drop(&mut self.h) }
    }
}

// ---------------------------------------------------------- implementations --
/// State of one implementation instance. Every field is plain data: only the
/// exclusion the generated object promises keeps it consistent.
pub struct Core {
    pub id: usize,
    pub iface: usize,
    n: u64,
    w: [u64; 3],
    pub rng: Rng,
    pub pools: crate::Pools,
    fail: bool,
}
impl Core {
    pub fn new(iface: usize) -> Self {
        let id = NEXT.fetch_add(1, Relaxed);
        if id >= NI { viol("harness: too many instances", R::format!("{}", id)); }
        cnt(&NEWS);
        ev(1, id, iface);
        Core { id, iface, n: 0, w: [0; 3], rng: Rng(mix(crate::seed() ^ mix(id as u64 + 77))), pools: Default::default(), fail: false }
    }
    pub fn full() -> bool { NEXT.load(Relaxed) + 8 > crate::max_instances() }
    pub fn enter(&mut self, op: usize) {
        let i = &INST[self.id];
        cnt(&BODIES);
        ev(4, self.id, op);
        if i.dead.load(Relaxed) { viol("a method body runs on a dropped implementation", R::format!("instance {} op {}", self.id, op)); }
        if i.busy.swap(true, Relaxed) { viol("two method bodies of one implementation run at the same time", R::format!("instance {} op {}", self.id, op)); }
        let done = i.done.load(Relaxed);
        if self.n < done || (SIM && self.n != done) {
            viol("an invocation does not observe the effects of completed invocations", R::format!("instance {}: {} completed, {} observed", self.id, done, self.n));
        }
        self.same("on entry");
        self.fail = self.rng.chance(12);
    }
    fn same(&self, when: &str) {
        if self.w != [self.n; 3] { viol("an invocation observes the state of another invocation half way", R::format!("instance {} {}: {:?} of {}", self.id, when, self.w, self.n)); }
    }
    /// Implementations keep references to younger instances only: no cycles.
    pub fn may_keep(&self, id: usize) -> bool { id != NOID && id > self.id }
    /// Reached through downcast_concrete.
    pub fn peek(&self) {
        if INST[self.id].dead.load(Relaxed) { viol("a dropped implementation is reachable", R::format!("instance {}", self.id)); }
        self.same("through a downcast");
    }
    pub fn work(&mut self) {
        let stall = self.rng.chance(10);
        if stall { cnt(&F_STALL); }
        let turns = if stall && SIM { 6 } else { 1 };
        for _ in 0..turns { yp(); }
        for k in 0..3 {
            self.w[k] += 1;
            if self.rng.chance(60) { yp(); }
        }
        if self.w != [self.n + 1; 3] { viol("the state changes under a running method body", R::format!("instance {}: {:?} of {}", self.id, self.w, self.n)); }
        crate::nested(self);
        let i = &INST[self.id];
        if i.dead.load(Relaxed) { viol("the implementation was dropped while a method body runs", R::format!("instance {}", self.id)); }
    }
    /// The last thing a body does; true when the call is to fail.
    pub fn leave(&mut self) -> bool {
        yp();
        self.n += 1;
        self.same("on exit");
        let i = &INST[self.id];
        i.done.fetch_add(1, Relaxed);
        if !i.busy.swap(false, Relaxed) { viol("two method bodies of one implementation run at the same time", R::format!("instance {} on exit", self.id)); }
        ev(5, self.id, self.n as usize);
        if self.fail { cnt(&F_FAIL); }
        self.fail
    }
    pub fn dropped(&mut self) {
        cnt(&IMPL_DROPS);
        ev(6, self.id, 0);
        let i = &INST[self.id];
        if i.drops.fetch_add(1, Relaxed) != 0 { viol("the implementation was dropped more than once", R::format!("instance {}", self.id)); }
        i.dead.store(true, Relaxed);
        if i.busy.load(Relaxed) { viol("the implementation was dropped while a method body runs", R::format!("instance {}", self.id)); }
        if i.live.load(Relaxed) > 0 { viol("the implementation was dropped while references remain", R::format!("instance {}: {} references", self.id, i.live.load(Relaxed))); }
        if self.n != i.done.load(Relaxed) && SIM { viol("an invocation does not observe the effects of completed invocations", R::format!("instance {} when dropped", self.id)); }
        self.same("when dropped");
        yp();
    }
}

pub fn reset() {
    for i in INST.iter().take(NEXT.load(Relaxed).min(NI)) {
        i.busy.store(false, Relaxed);
        i.dead.store(false, Relaxed);
        i.drops.store(0, Relaxed);
        i.done.store(0, Relaxed);
        i.live.store(0, Relaxed);
    }
    NEXT.store(0, Relaxed);
    #[cfg(sim)]
    unsafe {
        CTX = None;
    }
}

pub fn finish() {
    for (k, i) in INST.iter().enumerate().take(NEXT.load(Relaxed)) {
        let d = i.drops.load(Relaxed);
        if d == 0 { viol("the implementation is never dropped although every reference was released", R::format!("instance {} after {} calls, {} references known", k, i.done.load(Relaxed), i.live.load(Relaxed))); }
        if d != 1 { viol("the implementation was dropped more than once", R::format!("instance {}: {}", k, d)); }
    }
}

// ----------------------------------------------------------------- workload --
#[derive(Clone, Copy, Debug)]
pub struct Op { pub kind: u8, pub k: u16, pub x: u16, pub m: u16, pub r: u64 }
pub const NEW: u8 = 0;
pub const CLONE: u8 = 1;
pub const DROP: u8 = 2;
pub const CALL: u8 = 3;
pub const UPCAST: u8 = 4;
pub const PUSH: u8 = 5;
pub const POP: u8 = 6;
pub const HOSTILE: u8 = 7;
pub const DOWNCAST: u8 = 8;
pub const STALL: u8 = 9;
pub const ABANDON: u8 = 10;
pub const RAWCLONE: u8 = 11;

/// The scripts of the threads of a run.
pub fn scripts(seed: u64, small: bool) -> Vec<Vec<Op>> {
    let mut r = Rng(mix(seed ^ 0x5c71));
    let n = if small { 2 + r.below(2) } else { 2 + r.below(4) };
    let len = if small { 3 + r.below(4) } else { 3 + r.below(14) };
    // swarm: a run uses a random subset of the operations
    let calls = 30 + r.below(60);
    let on: Vec<bool> = (0..12).map(|_| r.chance(70)).collect();
    (0..n).map(|_| {
        (0..len).map(|_| {
            let mut kind = if r.chance(calls) { CALL } else { r.below(12) as u8 };
            if kind == ABANDON && !r.chance(25) { kind = CALL; }
            if !on[kind as usize] { kind = CALL; }
            Op { kind, k: r.below(1 << 12) as u16, x: r.below(1 << 12) as u16, m: r.below(1 << 12) as u16, r: r.next() }
        }).collect()
    }).collect()
}

pub fn client(me: usize, ops: Vec<(usize, Op)>, mut p: crate::Pools) {
    for (n, op) in ops {
        ev(7, me, n);
        if op.kind == ABANDON {
            cnt(&F_ABANDON);
            break; // the thread dies here; its references go away with it
        }
        if op.kind == STALL { for _ in 0..(1 + op.r % 5) { yp(); } continue; }
        crate::exec(&op, &mut p);
        yp();
    }
    ev(8, me, 0);
    drop(p);
}

/// One run: some instances shared by all threads from the start.
pub fn world(seed: u64, small: bool, keep: Option<&R::collections::BTreeSet<(usize, usize)>>) {
    reset();
    crate::set_seed(seed);
    let sc = scripts(seed, small);
    let mut r = Rng(mix(seed ^ 0x11));
    let mut first = crate::Pools::default();
    let k = 1 + r.below(3);
    let base = r.below(1 << 12);
    for i in 0..k { crate::exec(&Op { kind: NEW, k: (base + if r.chance(60) { 0 } else { i }) as u16, x: 0, m: 0, r: r.next() }, &mut first); }
    let mut hs = Vec::new();
    for (t, ops) in sc.into_iter().enumerate() {
        let p = first.duplicate();
        let ops: Vec<(usize, Op)> = ops.into_iter().enumerate().filter(|(n, _)| keep.map_or(true, |s| s.contains(&(t, *n)))).collect();
        hs.push(std::thread::spawn(move || client(t, ops, p)));
    }
    if r.chance(50) { drop(first); } else {
        for h in hs.drain(..) { h.join().unwrap(); }
        drop(first);
    }
    for h in hs { h.join().unwrap(); }
    crate::shared_clear();
    finish();
}
