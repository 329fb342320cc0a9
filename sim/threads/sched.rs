// The seeded scheduler of a thread world and its driver.
use crate::rt;
use simstd::shuttle as sh;
use sh::scheduler::{Schedule, Scheduler, Task, TaskId};
use simstd::real as R;
use R::collections::{BTreeMap, BTreeSet, HashSet};
use R::io::Write;

pub struct St {
    pub seed: u64,
    pub step: u64,
    pub digest: u64,
    pub rec: Vec<(u64, usize)>,
    pub replay: Option<BTreeMap<u64, usize>>,
    pub trace: bool,
    pub events: u64,
    pub switches: u64,
    pub last: usize,
    pub shape: u64,
    pub keep: Option<BTreeSet<(usize, usize)>>,
    pub running: bool,
}
pub static mut ST: St = St { seed: 0, step: 0, digest: 0, rec: Vec::new(), replay: None, trace: false, events: 0, switches: 0, last: 0, shape: 0, keep: None, running: false };
#[allow(static_mut_refs)]
pub fn st() -> &'static mut St { unsafe { &mut ST } }

pub fn event(code: u32, a: u64, b: u64) {
    let s = st();
    s.events += 1;
    s.digest = rt::mix(s.digest ^ (code as u64) << 56 ^ a << 28 ^ b ^ (s.last as u64) << 48);
    if s.trace {
        let names = ["", "create instance,iface", "reference held to", "release instance", "body begins instance,op", "body ends instance,calls", "implementation dropped", "thread,operation", "thread ends", "reference handed over"];
        println!("step {} task {}: {} {} {}", s.step, s.last, names.get(code as usize).unwrap_or(&"?"), a, b);
    }
}

pub unsafe fn report(kind: &str, detail: &str) -> ! {
    let s = st();
    s.running = false;
    let rec: Vec<String> = s.rec.iter().map(|(a, b)| format!("{}:{}", a, b)).collect();
    println!("VIOL\t{}\t{}\t{}\t{}\t{:016x}\t{}", kind, detail.replace(['\n', '\t'], " "), s.seed, s.step, s.digest, rec.join(","));
    let _ = R::io::stdout().flush();
    extern "C" { fn _exit(c: i32) -> !; }
    _exit(77)
}

pub struct S {
    pub next: u64,
    pub left: u64,
    pub rng: rt::Rng,
    pub mode: u64,
    pub prio: Vec<u64>,
    pub victim: usize,
    pub shapes: HashSet<u64>,
    pub total: [u64; 4],
}
impl S {
    fn close(&mut self) {
        let s = st();
        if s.step > 0 {
            self.shapes.insert(s.digest);
            self.total[0] += 1;
            self.total[1] += s.step;
            self.total[2] += s.switches;
            self.total[3] += s.events;
            s.step = 0;
        }
    }
}
pub static mut DONE: Option<([u64; 4], usize)> = None;

impl Scheduler for S {
    fn new_execution(&mut self) -> Option<Schedule> {
        self.close();
        alloc::flush();
        if self.left == 0 {
            unsafe { DONE = Some((self.total, self.shapes.len())) };
            return None;
        }
        self.left -= 1;
        let s = st();
        s.seed = self.next;
        self.next += 1;
        s.step = 0;
        s.events = 0;
        s.switches = 0;
        s.last = 0;
        s.digest = 0;
        s.rec.clear();
        s.running = true;
        self.rng = rt::Rng(rt::mix(s.seed ^ 0x5eed_5c4e));
        self.mode = self.rng.below(6);
        self.prio = (0..64).map(|_| self.rng.next()).collect();
        self.victim = 1 + self.rng.below(4) as usize;
        Some(Schedule::new(s.seed))
    }
    fn next_task(&mut self, run: &[&Task], cur: Option<TaskId>, _y: bool) -> Option<TaskId> {
        let s = st();
        let ids: Vec<usize> = run.iter().map(|t| usize::from(t.id())).collect();
        let lowest = *ids.iter().min().unwrap();
        let c = cur.map(usize::from).filter(|c| ids.contains(c));
        let default = c.unwrap_or(lowest);
        let pick = if let Some(m) = &s.replay {
            m.get(&s.step).copied().filter(|x| ids.contains(x)).unwrap_or(default)
        } else {
            let r = &mut self.rng;
            match self.mode {
                0 | 1 => ids[r.below(ids.len() as u64) as usize],
                2 => if r.chance(85) { default } else { ids[r.below(ids.len() as u64) as usize] },
                3 => {
                    // priorities with a few change points
                    if r.chance(3) { let v = r.next() >> 32; if let Some(c) = c { self.prio[c % 64] = v; } }
                    *ids.iter().max_by_key(|i| self.prio[**i % 64]).unwrap()
                }
                4 => {
                    // one task is starved most of the time
                    let o: Vec<usize> = ids.iter().copied().filter(|i| *i != self.victim).collect();
                    if o.is_empty() || r.chance(4) { ids[r.below(ids.len() as u64) as usize] } else { o[r.below(o.len() as u64) as usize] }
                }
                _ => {
                    // bursts
                    if r.chance(30) { ids[r.below(ids.len() as u64) as usize] } else { default }
                }
            }
        };
        if pick != default { s.rec.push((s.step, pick)); }
        if pick != s.last { s.switches += 1; }
        s.last = pick;
        s.step += 1;
        s.digest = rt::mix(s.digest ^ pick as u64);
        run.iter().find(|t| usize::from(t.id()) == pick).map(|t| t.id())
    }
    fn next_u64(&mut self) -> u64 { self.rng.next() }
}

// Memory freed during a run is kept until the run is over, so that a use after
// free is seen by the checks instead of corrupting the harness.
pub mod alloc {
    use simstd::real as R;
    use R::alloc::{GlobalAlloc, Layout, System};
    pub struct Q;
    const N: usize = 1 << 16;
    static mut TAB: [(usize, usize, usize); N] = [(0, 0, 0); N];
    static mut USED: usize = 0;
    unsafe impl GlobalAlloc for Q {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if !super::st().running || l.size() > 2048 || USED >= N / 2 { return System.dealloc(p, l); }
            let mut h = (p as usize >> 4) % N;
            loop {
                if TAB[h].0 == p as usize { super::report("memory is released twice", ""); }
                if TAB[h].0 == 0 { break; }
                h = (h + 1) % N;
            }
            TAB[h] = (p as usize, l.size(), l.align());
            USED += 1;
        }
    }
    #[allow(static_mut_refs)]
    pub fn flush() {
        unsafe {
            super::st().running = false;
            if USED == 0 { return; }
            for e in TAB.iter_mut() {
                if e.0 != 0 { System.dealloc(e.0 as *mut u8, Layout::from_size_align_unchecked(e.1, e.2)); *e = (0, 0, 0); }
            }
            USED = 0;
        }
    }
}

pub fn main() {
    let a: Vec<String> = R::env::args().collect();
    R::panic::set_hook(Box::new(|i| unsafe {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let kind = if m.contains("deadlock") { "threads wait for each other for ever" } else if m.contains("max_steps") { "no progress within the step bound" } else { "the runtime panics" };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        report(kind, &format!("{} at {}", m.chars().take(200).collect::<String>(), at));
    }));
    let mut left = 1;
    let mut next = 0;
    if a[1] == "run" {
        next = a[2].parse().unwrap();
        left = a[3].parse().unwrap();
    } else if a[1] == "shape" {
        let v: Vec<String> = rt::scripts(a[2].parse().unwrap(), false).iter().map(|o| o.len().to_string()).collect();
        println!("{}", v.join(" "));
        return;
    } else {
        // replay FILE: seed / kept operations / schedule
        let t = R::fs::read_to_string(&a[2]).unwrap();
        for l in t.lines() {
            let mut w = l.splitn(2, ' ');
            let (k, v) = (w.next().unwrap(), w.next().unwrap_or(""));
            let pairs = || v.split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse::<u64>().unwrap(), b.parse::<usize>().unwrap()) });
            match k {
                "seed" => next = v.parse().unwrap(),
                "keep" => st().keep = Some(pairs().map(|(a, b)| (a as usize, b)).collect()),
                "sched" => st().replay = Some(pairs().collect()),
                _ => {}
            }
        }
        st().trace = a.len() > 3;
    }
    let mut cfg = sh::Config::new();
    // A frame holds several copies of a struct, which can be 100 kB and more.
    cfg.stack_size = 0x800000;
    cfg.max_steps = sh::MaxSteps::FailAfter(20_000);
    cfg.failure_persistence = sh::FailurePersistence::None;
    let s = S { next, left, rng: rt::Rng(0), mode: 0, prio: Vec::new(), victim: 0, shapes: HashSet::new(), total: [0; 4] };
    sh::Runner::new(s, cfg).run(|| {
        let keep = st().keep.clone();
        rt::world(st().seed, false, keep.as_ref());
    });
    #[allow(static_mut_refs)]
    let (t, shapes) = unsafe { DONE.take().unwrap() };
    print!("DONE\truns={}\tsteps={}\tswitches={}\tevents={}\tshapes={}", t[0], t[1], t[2], t[3], shapes);
    for (n, v) in rt::counters() { print!("\t{}={}", n, v); }
    println!("\tdigest={:016x}", st().digest);
}
