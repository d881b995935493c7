//! The deterministic simulator: one token, many real threads, a virtual clock.
//!
//! Exactly one simulated thread runs at a time. Who runs next, how long it runs
//! (in control-flow edges of the code under test), every delay and every fault is
//! a numbered decision drawn from one PRNG (or from a replay list).
use crate::rng::Rng;
use crate::sys;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BinaryHeap, HashMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

// ---- decisions -------------------------------------------------------------
pub const K_PICK: usize = 0; // which runnable thread continues
pub const K_SLICE: usize = 1; // after how many edges the running thread is preempted
pub const K_LAT: usize = 2; // latency of a segment
pub const K_SEG: usize = 3; // size of a segment / of a short read or write
pub const K_FAULT: usize = 4; // does this fault fire here
pub const K_MISC: usize = 5; // stalls, wake orders
pub const NKINDS: usize = 6;

macro_rules! faults { ($($id:ident => $name:literal),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)] #[repr(usize)] pub enum F { $($id),* }
    pub const FAULT_NAMES: &[&str] = &[$($name),*];
    pub const FAULT_ALL: &[F] = &[$(F::$id),*];
} }
faults! {
    AcceptAborted => "accept:ECONNABORTED", AcceptEmfile => "accept:EMFILE", AcceptEnfile => "accept:ENFILE", AcceptNobufs => "accept:ENOBUFS",
    AcceptEintr => "accept:EINTR", AcceptEproto => "accept:EPROTO", EpollWaitEintr => "epoll_wait:EINTR", EpollCreateEmfile => "epoll_create1:EMFILE",
    EventfdEmfile => "eventfd:EMFILE", TimerfdFail => "timerfd_create:EMFILE", EpollAddEnomem => "epoll_ctl(ADD):ENOMEM",
    DupEmfile => "fcntl(F_DUPFD):EMFILE", ThreadEagain => "pthread_create:EAGAIN", RecvEintr => "recv:EINTR", SendEintr => "send:EINTR",
    ShortRead => "recv:short", ShortWrite => "send:short", SpuriousReadable => "recv:EAGAIN after readiness",
    SpuriousWritable => "send:EAGAIN after readiness", SendNobufs => "send:ENOBUFS", RecvEnomem => "recv:ENOMEM", FutexSpurious => "futex:spurious wakeup",
    EpollSpurious => "epoll_wait:partial event set", FileOpenErr => "open:error", FileReadEio => "file read:EIO", FileReadShort => "file read:short",
    FileReadEintr => "file read:EINTR", StatErr => "stat:error", IoctlErr => "ioctl(FIONBIO):EINVAL", ShutdownErr => "shutdown:ENOTCONN", ConnectEintr => "connect:EINTR",
    ThreadStall => "thread stalled", LinkStall => "link stalled/partitioned", PeerReset => "peer reset", PeerClose => "peer closed early",
    PeerHalfClose => "peer half-closed", PeerStopsReading => "peer stopped reading", PeerSlowReader => "peer reads slowly", PeerDrip => "peer drips bytes",
    PeerSilent => "peer silent", HandlerPanic => "handler panic", BodyErr => "body source error", BodyShort => "body source short", BodyLong => "body source long",
    Garbage => "malformed input", Truncated => "message truncated", ClockJump => "wall clock jump", ConnRefused => "connect refused", ConnBlackhole => "connect blackholed",
    FileChanged => "file changed while served", SinkErr => "sink error", SourceErr => "source error", SrcInterrupted => "source interrupted", SinkInterrupted => "sink interrupted",
    HandlerSlow => "slow handler", SockOptErr => "setsockopt:error", AcceptGone => "accept:connection gone",
}
pub const NF: usize = FAULT_NAMES.len();

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rate { pub kind: String, pub pm: u32, pub max: u32, pub from: u64, pub to: u64 }

/// Everything about a run that is not the workload: machine, scheduler, link and fault tuning.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Knobs {
    pub cpus: u32,
    pub sched: u8, // 0 random, 1 sticky, 2 priorities with change points
    pub slice_mean: u32,
    pub slice_pm: u32,
    pub stall_pm: u32,
    pub stall_max_us: u32,
    pub stall_budget_us: u64,
    /// Stalls at chosen places: one in `hot` of the edges, those whose hash leaves `hot_r`; 0 for none,
    /// 1 for every edge the first time it is taken.
    #[serde(default)] pub hot: u32,
    #[serde(default)] pub hot_r: u32,
    #[serde(default)] pub hot_pm: u32,
    pub sndbuf: u32,
    pub rcvbuf: u32,
    pub fd_limit: u32,
    pub faults: Vec<Rate>,
    pub lat_us: u32,
    pub jitter_us: u32,
    pub mss: u32,
    pub seg_random: bool,
    pub log: u8,
    pub cap_s: u64,
    pub clock_jumps: Vec<(u64, i64)>, // (when ms, by seconds)
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { cpus: 2, sched: 1, slice_mean: 0, slice_pm: 0, stall_pm: 0, stall_max_us: 0, stall_budget_us: 0, hot: 0, hot_r: 0, hot_pm: 0, sndbuf: 262144, rcvbuf: 131072, fd_limit: 0, faults: vec![],
            lat_us: 50, jitter_us: 0, mss: 65536, seg_random: false, log: 0, cap_s: 3600, clock_jumps: vec![] }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Violation { pub class: String, pub msg: String }

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preempts: u64,
    pub edges: u64,
    pub cov: Vec<u32>,
    pub faults: Vec<u64>,
    pub probes: Vec<(String, u64)>,
    pub decisions: Vec<Vec<u32>>,
    pub trace: Vec<String>,
    pub threads: u64,
    pub conns: u64,
    pub nontrivial: bool,
    #[serde(default)]
    pub stats: Vec<(String, u64)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Run, Block, Done }

pub struct Th {
    pub name: String,
    pub st: St,
    pub gen: u64,
    pub timed_out: bool,
    pub park: Box<AtomicU32>,
    pub pt: u64,
    pub prio: u64,
    pub why: &'static str,
    pub sys: bool,
    pub born: u64,
}

#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Wake { tid: usize, gen: u64 },
    Deliver { ep: usize },
    Syn { conn: usize },
    SynAck { ep: usize },
    Timer { desc: usize, gen: u64 },
    Guard { id: usize },
    Nudge { ep: usize },
    Jump { secs: i64 },
    Sys { a: u64 },
}
struct HeapEv { t: u64, seq: u64, ev: Ev }
impl PartialEq for HeapEv { fn eq(&self, o: &Self) -> bool { self.t == o.t && self.seq == o.seq } }
impl Eq for HeapEv {}
impl PartialOrd for HeapEv { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for HeapEv { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (o.t, o.seq).cmp(&(self.t, self.seq)) } }

pub struct Sim {
    pub k: Knobs,
    pub now: u64,
    pub wall_off: i64,
    pub th: Vec<Th>,
    pub cur: usize,
    runq: Vec<usize>,
    heap: BinaryHeap<HeapEv>,
    seq: u64,
    pub rng: Rng,
    pub entropy: Rng,
    replay: Option<Vec<Vec<u32>>>,
    rec: Vec<Vec<u32>>,
    keep: bool,
    pub hash: u64,
    pub shash: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub switches: u64,
    pub preempts: u64,
    pub edges: u64,
    edges_since_block: u64,
    pub shims: u64,
    pub fault_n: Vec<u64>,
    rates: Vec<Option<(u32, u32, u64, u64)>>,
    pub probes: HashMap<&'static str, u64>,
    pub stats: Vec<(String, u64)>,
    pub violations: Vec<Violation>,
    pub waiters: HashMap<u64, Vec<(usize, u64)>>,
    pub pts: HashMap<u64, usize>,
    pub guards: Vec<Option<(String, String)>>,
    pub stalled_us: u64,
    pub faults_on: bool,
    pub nontrivial: bool,
    pub out_fd: i32,
    pub cap_class: String,
    pub net: crate::net::Net,
    pub fs: crate::simfs::Fs,
    pub on_stuck: Option<fn(&mut Sim)>,
    prio_low: u64,
    pub futex_fifo: VecDeque<u64>,
    pub slices: u64,
    avoid: bool,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();
pub static mut COUNTDOWN: i64 = i64::MAX;
static mut SLICE0: i64 = 0;
pub const COVN: usize = 1 << 16;
pub static mut COV: [u8; COVN] = [0; COVN];
/// How often each edge still stalls the thread that takes it (255: not chosen).
pub static mut HOT: [u8; COVN] = [255; COVN];
pub static mut NGUARDS: u32 = 0;
static mut KEY: libc::pthread_key_t = 0;
const FORCED: i64 = 20_000;

thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    pub static INSIM: Cell<u32> = const { Cell::new(0) };
}

/// Marks "inside the simulator": interposed calls made in here go to the real system.
pub struct Guard(());
impl Guard { pub fn new() -> Guard { INSIM.with(|c| c.set(c.get() + 1)); Guard(()) } }
impl Drop for Guard { fn drop(&mut self) { INSIM.with(|c| c.set(c.get() - 1)); } }
pub struct SimRef { s: *mut Sim, _g: Guard }
impl std::ops::Deref for SimRef { type Target = Sim; fn deref(&self) -> &Sim { unsafe { &*self.s } } }
impl std::ops::DerefMut for SimRef { fn deref_mut(&mut self) -> &mut Sim { unsafe { &mut *self.s } } }
/// For harness code running on a simulated thread.
pub fn sim() -> SimRef { unsafe { assert!(!SIM.is_null()); SimRef { s: SIM, _g: Guard::new() } } }
pub fn is_sim_thread() -> bool { TID.with(|t| t.get()) >= 0 }
/// For interposed calls: None means "not simulated, do the real thing".
pub fn enter() -> Option<SimRef> {
    if TID.with(|t| t.get()) < 0 || INSIM.with(|c| c.get()) != 0 { return None; }
    unsafe { if SIM.is_null() { return None; } }
    Some(sim())
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 { return; }
    while p < stop { NGUARDS += 1; *p = NGUARDS; p = p.add(1); }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g as usize;
    COV[id & (COVN - 1)] = 1;
    if HOT[id & (COVN - 1)] != 255 { hot_edge(id & (COVN - 1)); }
    COUNTDOWN -= 1;
    if COUNTDOWN <= 0 { edge_slow(); }
}
#[cold]
unsafe fn hot_edge(id: usize) { if let Some(mut s) = enter() { s.hot_stall(id); } }
#[cold]
unsafe fn edge_slow() {
    match enter() { Some(mut s) => { s.slice_over(); } None => { if SIM.is_null() { COUNTDOWN = i64::MAX } } }
}

extern "C" fn tls_end(v: *mut libc::c_void) {
    // Runs after the thread's other thread-local destructors; re-armed until the last round.
    let n = v as usize;
    unsafe {
        if n < 4 { libc::pthread_setspecific(KEY, (n + 1) as *const libc::c_void); return; }
        if TID.with(|t| t.get()) < 0 { return; }
        let mut s = sim();
        s.thread_end();
    }
}

pub fn init_process() {
    unsafe {
        sys::init();
        libc::pthread_key_create(&raw mut KEY, Some(tls_end));
    }
}

struct Start { f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void, tid: usize }
extern "C" fn tramp(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let st = { let _g = Guard::new(); *Box::from_raw(p as *mut Start) };
        TID.with(|t| t.set(st.tid as i32));
        { let mut s = sim(); let tid = st.tid; s.park_self(tid); }
        libc::pthread_setspecific(KEY, 1 as *const libc::c_void);
        (st.f)(st.arg)
    }
}

impl Sim {
    pub fn new(k: Knobs, seed: u64, replay: Option<Vec<Vec<u32>>>, keep: bool, tracing: bool, out_fd: i32) -> Sim {
        let mut rates = vec![None; NF];
        for r in &k.faults {
            let i = FAULT_NAMES.iter().position(|n| *n == r.kind).unwrap_or_else(|| panic!("unknown fault {}", r.kind));
            rates[i] = Some((r.pm, r.max, r.from, r.to));
        }
        unsafe {
            for id in 0..COVN { HOT[id] = if k.hot > 0 && id > 0 && crate::rng::mix(id as u64, 77) % k.hot as u64 == k.hot_r as u64 { if k.hot == 1 { 1 } else { 3 } } else { 255 }; }
        }
        let mut s = Sim {
            now: 0, wall_off: 0, th: vec![], cur: 0, runq: vec![], heap: BinaryHeap::new(), seq: 0,
            rng: Rng::new(crate::rng::mix(seed, 1)), entropy: Rng::new(crate::rng::mix(seed, 2)), replay, rec: vec![vec![]; NKINDS], keep,
            hash: 0xcbf29ce484222325, shash: 0xcbf29ce484222325, tracing, trace: vec![], switches: 0, preempts: 0, edges: 0, edges_since_block: 0, shims: 0,
            fault_n: vec![0; NF], rates, probes: HashMap::new(), stats: vec![], violations: vec![], waiters: HashMap::new(), pts: HashMap::new(), guards: vec![], stalled_us: 0,
            faults_on: false, nontrivial: false, out_fd, cap_class: "time-cap".into(), net: crate::net::Net::new(), fs: crate::simfs::Fs::new(), on_stuck: None, prio_low: 1 << 40,
            futex_fifo: VecDeque::new(), k, slices: 0, avoid: false,
        };
        for (t, by) in s.k.clock_jumps.clone() { s.at(t * MS, Ev::Jump { secs: by }); }
        s
    }

    // ---- decisions and log ----
    #[inline]
    fn fold(&mut self, v: u64) { self.hash = (self.hash ^ v).wrapping_mul(0x100000001b3); }
    pub fn note(&mut self, tag: u64, v: u64) { let n = self.now; self.fold(tag); self.fold(v); self.fold(n); }
    pub fn choose(&mut self, kind: usize, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 { return 0; }
        let v = match &self.replay {
            Some(r) => { let i = self.rec[kind].len(); r.get(kind).and_then(|l| l.get(i)).copied().unwrap_or(0).min(n - 1) }
            None => f(&mut self.rng).min(n - 1),
        };
        self.rec[kind].push(v);
        self.fold((kind as u64) << 32 | v as u64);
        v
    }
    pub fn tr(&mut self, s: impl FnOnce() -> String) {
        if self.tracing && self.trace.len() < 20_000 {
            let line = format!("{:>14.6}ms T{}{} {}", self.now as f64 / 1e6, self.cur, self.th.get(self.cur).map(|t| format!("({})", t.name)).unwrap_or_default(), s());
            self.trace.push(line);
        }
    }
    pub fn probe(&mut self, p: &'static str) { *self.probes.entry(p).or_insert(0) += 1; }
    pub fn stat(&mut self, name: &str, v: u64) { self.stats.push((name.to_string(), v)); }
    pub fn fault_count(&self, f: F) -> u32 { self.fault_n[f as usize] as u32 }
    pub fn count_fault(&mut self, f: F) { self.fault_n[f as usize] += 1; self.tr(|| format!("FAULT {}", FAULT_NAMES[f as usize])); }
    /// Does fault `f` fire at this call? Only for threads of the system under test.
    pub fn fault(&mut self, f: F) -> bool {
        let Some((pm, max, from, to)) = self.rates[f as usize] else { return false };
        if !self.faults_on || self.now < from || self.now > to || self.fault_n[f as usize] >= max as u64 { return false; }
        if !self.th[self.cur].sys { return false; }
        let hit = self.choose(K_FAULT, 2, |r| r.chance(pm as u64) as u32) == 1;
        if hit { self.count_fault(f); }
        hit
    }
    pub fn violate(&mut self, class: &str, msg: impl Into<String>) {
        let msg = msg.into();
        self.tr(|| format!("VIOLATION {class}: {msg}"));
        if self.violations.len() < 20 { self.violations.push(Violation { class: class.into(), msg }); }
    }

    // ---- events ----
    pub fn at(&mut self, t: u64, ev: Ev) { self.seq += 1; let t = t.max(self.now); self.heap.push(HeapEv { t, seq: self.seq, ev }); }
    fn run_event(&mut self, ev: Ev) {
        match ev {
            Ev::Wake { tid, gen } => { if self.th[tid].gen == gen && self.th[tid].st == St::Block { self.th[tid].timed_out = true; self.make_runnable(tid); } }
            Ev::Deliver { ep } => self.net_deliver(ep),
            Ev::Syn { conn } => self.net_syn(conn),
            Ev::SynAck { ep } => self.net_synack(ep),
            Ev::Timer { desc, gen } => self.net_timer(desc, gen),
            Ev::Nudge { ep } => self.net_pump(ep),
            Ev::Jump { secs } => { self.wall_off += secs * SEC as i64; self.fault_n[F::ClockJump as usize] += 1; self.tr(|| format!("FAULT wall clock jumps by {secs}s")); }
            Ev::Guard { id } => {
                if let Some((class, msg)) = self.guards[id].take() {
                    let d = self.describe_threads();
                    self.violate(&class, format!("{msg}; blocked threads: {d}"));
                    self.finish();
                }
            }
            Ev::Sys { a } => self.net_sys_event(a),
        }
    }
    pub fn guard(&mut self, class: &str, msg: impl Into<String>, after: u64) -> usize {
        let id = self.guards.len();
        self.guards.push(Some((class.into(), msg.into())));
        let t = self.now + after; self.at(t, Ev::Guard { id }); id
    }
    pub fn unguard(&mut self, id: usize) { self.guards[id] = None; }
    pub fn describe_threads(&self) -> String {
        self.th.iter().enumerate().filter(|(_, t)| t.st != St::Done).take(24).map(|(i, t)| format!("T{i}({}):{}", t.name, if t.st == St::Run { "runnable" } else { t.why })).collect::<Vec<_>>().join(", ")
    }

    // ---- scheduling ----
    fn make_runnable(&mut self, tid: usize) {
        let t = &mut self.th[tid];
        if t.st != St::Block { return; }
        t.st = St::Run; t.gen += 1;
        self.runq.push(tid);
    }
    fn pick(&mut self) -> usize {
        let cur = self.cur;
        // index 0 = keep running the current thread if possible, else the longest waiting one
        let mut cand: Vec<usize> = Vec::with_capacity(self.runq.len());
        let mut has_cur = false;
        for &t in &self.runq { if t == cur { has_cur = true } else { cand.push(t) } }
        if has_cur { if !self.avoid { cand.insert(0, cur) } else { has_cur = false; if cand.is_empty() { cand.push(cur) } } }
        self.avoid = false;
        let n = cand.len();
        let mode = self.k.sched;
        let mut best = 0u32;
        if mode == 2 { let mut bp = 0; for (i, t) in cand.iter().enumerate() { let p = self.th[*t].prio; if p > bp { bp = p; best = i as u32; } } }
        let c = self.choose(K_PICK, n as u32, |r| match mode {
            0 => r.below(n as u64) as u32,
            1 => if has_cur && r.chance(800) { 0 } else if r.chance(850) { has_cur as u32 } else { r.below(n as u64) as u32 },
            _ => if r.chance(15) { r.below(n as u64) as u32 } else { best },
        }) as usize;
        let tid = cand[c];
        let idx = self.runq.iter().position(|t| *t == tid).unwrap();
        self.runq.remove(idx);
        tid
    }
    /// The current thread has been put in runq, blocked or is done; run someone.
    fn reschedule(&mut self) {
        unsafe { self.edges += (SLICE0 - COUNTDOWN).max(0) as u64; self.edges_since_block = 0; }
        loop {
            while let Some(h) = self.heap.peek() { if h.t > self.now { break; } let e = self.heap.pop().unwrap(); self.run_event(e.ev); }
            if !self.runq.is_empty() { break; }
            match self.heap.pop() {
                Some(e) => { self.now = self.now.max(e.t); self.check_cap(); self.run_event(e.ev); }
                None => {
                    let d = self.describe_threads();
                    if let Some(f) = self.on_stuck { f(self); }
                    self.violate("deadlock", format!("nothing can ever run again: {d}"));
                    self.finish();
                }
            }
        }
        let me = self.cur;
        let next = self.pick();
        self.switches += 1;
        if self.switches > 3_000_000 { self.violate("livelock", format!("more than 3,000,000 context switches: {}", self.describe_threads())); self.finish(); }
        if next == me { self.new_slice(); return; }
        let v = (next as u64) << 8 | me as u64; self.fold(v);
        self.shash = (self.shash ^ v).wrapping_mul(0x100000001b3);
        self.cur = next;
        let done = self.th[me].st == St::Done;
        self.th[me].park.store(0, Ordering::Relaxed);
        self.new_slice();
        unsafe {
            let p = &*self.th[next].park as *const AtomicU32;
            (*p).store(1, Ordering::Release);
            sys::futex_wake(p as *const u32, 1);
        }
        if !done { self.park_self(me); }
    }
    fn park_self(&mut self, tid: usize) {
        let p = &*self.th[tid].park as *const AtomicU32;
        unsafe { while (*p).load(Ordering::Acquire) == 0 { sys::futex_wait(p as *const u32, 0); } }
    }
    fn new_slice(&mut self) {
        self.slices += 1;
        let (mean, pm) = (self.k.slice_mean as u64, self.k.slice_pm as u64);
        let v = if mean == 0 { 0 } else {
            self.choose(K_SLICE, 1 << 20, |r| if r.chance(pm) { 1 + (-(mean as f64) * (1.0 - r.f()).max(1e-9).ln()) as u32 } else { 0 })
        };
        unsafe { SLICE0 = if v == 0 { FORCED } else { v as i64 }; COUNTDOWN = SLICE0; }
    }
    fn slice_over(&mut self) {
        unsafe {
            let used = SLICE0 - COUNTDOWN;
            self.edges += used.max(0) as u64; self.edges_since_block += used.max(0) as u64;
            let forced = SLICE0 == FORCED;
            SLICE0 = 0; COUNTDOWN = 0;
            if forced { self.now += 100 * US; self.check_cap(); }
            if self.edges_since_block > 40_000_000 { self.violate("livelock", format!("a thread ran 40,000,000 edges without blocking: T{}({})", self.cur, self.th[self.cur].name)); self.finish(); }
            let keep = self.edges_since_block;
            self.preempts += 1;
            if forced { self.avoid = true; }
            self.yield_now(true);
            self.edges_since_block = keep;
        }
    }
    fn hot_stall(&mut self, id: usize) {
        if self.k.hot == 1 && self.th[self.cur].sys { unsafe { HOT[id] = 255; } }
        if !self.th[self.cur].sys || self.stalled_us >= self.k.stall_budget_us || self.k.stall_pm == 0 { return; }
        let (m, pm) = (self.k.stall_max_us, self.k.hot_pm as u64);
        let d = self.choose(K_MISC, m.max(1) + 1, |r| if r.chance(pm) { 1 + r.below(m as u64) as u32 } else { 0 });
        if d == 0 { return; }
        unsafe { if HOT[id] != 255 { HOT[id] -= 1; } if HOT[id] == 0 { HOT[id] = 255; } }
        self.stalled_us += d as u64; self.count_fault(F::ThreadStall);
        let me = self.cur;
        self.tr(|| format!("stall T{me} at edge {id} for {d} us"));
        self.sleep_for(d as u64 * US, "stalled");
    }
    /// Give others a chance; the current thread stays runnable.
    pub fn yield_now(&mut self, preempt: bool) {
        let me = self.cur;
        let pm = self.k.stall_pm as u64;
        if preempt && pm > 0 && self.stalled_us < self.k.stall_budget_us && self.th[me].sys {
            let m = self.k.stall_max_us;
            let d = self.choose(K_MISC, m.max(1) + 1, |r| if r.chance(pm) { 1 + r.below(m as u64) as u32 } else { 0 });
            if d > 0 { self.stalled_us += d as u64; self.count_fault(F::ThreadStall); self.sleep_for(d as u64 * US, "stalled"); return; }
        }
        if self.k.sched == 2 { self.prio_low -= 1; let p = self.prio_low; self.th[me].prio = p; }
        self.runq.push(me);
        self.reschedule();
    }
    /// sched_yield: somebody else must run if anybody can; otherwise time passes.
    pub fn force_yield(&mut self) {
        let me = self.cur;
        if self.runq.is_empty() {
            self.now += 100 * US;
            self.check_cap();
        }
        if self.k.sched == 2 { self.prio_low -= 1; let p = self.prio_low; self.th[me].prio = p; }
        self.avoid = true;
        self.runq.push(me);
        self.reschedule();
    }
    fn check_cap(&mut self) {
        if self.now > self.k.cap_s * SEC {
            let d = self.describe_threads(); let c = self.cap_class.clone();
            self.violate(&c, format!("simulated time exceeded {} s: {d}", self.k.cap_s)); self.finish();
        }
    }
    /// Blocks on the given channels until notified or the deadline passes. True if woken by a notify.
    pub fn block(&mut self, chans: &[u64], deadline: Option<u64>, why: &'static str) -> bool {
        let me = self.cur;
        if let Some(d) = deadline { if d <= self.now { return false; } }
        let gen = self.th[me].gen;
        for c in chans { self.waiters.entry(*c).or_default().push((me, gen)); }
        self.th[me].st = St::Block; self.th[me].why = why; self.th[me].timed_out = false;
        if let Some(d) = deadline { self.at(d, Ev::Wake { tid: me, gen }); }
        self.reschedule();
        !self.th[me].timed_out
    }
    pub fn notify(&mut self, chan: u64) {
        if let Some(w) = self.waiters.remove(&chan) { for (t, g) in w { if self.th[t].gen == g { self.make_runnable(t); } } }
    }
    /// Wakes at most n waiters, oldest first. Returns how many.
    pub fn notify_n(&mut self, chan: u64, n: usize) -> usize {
        let Some(w) = self.waiters.remove(&chan) else { return 0 };
        let mut live: VecDeque<(usize, u64)> = w.into_iter().filter(|(t, g)| self.th[*t].gen == *g && self.th[*t].st == St::Block).collect();
        let mut k = 0;
        while k < n { match live.pop_front() { Some((t, _)) => { self.make_runnable(t); k += 1; } None => break } }
        if !live.is_empty() { self.waiters.insert(chan, live.into_iter().collect()); }
        k
    }
    pub fn sleep_for(&mut self, ns: u64, why: &'static str) { let d = self.now + ns; if ns == 0 { return; } self.block(&[], Some(d), why); }
    /// Accounting and preemption opportunity of an intercepted call.
    pub fn shim_point(&mut self) {
        self.shims += 1;
        self.now += 200;
        if self.shims > 4_000_000 { self.violate("livelock", "more than 4,000,000 system calls in one run"); self.finish(); }
        unsafe {
            if SLICE0 != FORCED { COUNTDOWN -= 20; if COUNTDOWN <= 0 { self.slice_over(); } }
        }
        if let Some(h) = self.heap.peek() { if h.t <= self.now { while let Some(h) = self.heap.peek() { if h.t > self.now { break; } let e = self.heap.pop().unwrap(); self.run_event(e.ev); } } }
    }

    // ---- threads ----
    pub fn spawn(&mut self, pt: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
        let tid = self.th.len();
        let prio = (1 << 41) + self.rng.below(1 << 20);
        let sys = SPAWN_SYS.with(|c| c.get()) && (self.th.is_empty() || self.th[self.cur].sys || SPAWN_FORCE.with(|c| c.get()));
        self.th.push(Th { name: if sys { "wruster".into() } else { "actor".into() }, st: St::Run, gen: 0, timed_out: false, park: Box::new(AtomicU32::new(0)), pt: 0, prio, why: "", sys, born: self.now });
        let st = Box::into_raw(Box::new(Start { f, arg, tid })) as *mut libc::c_void;
        let r = unsafe { sys::real_create(pt, attr, tramp, st) };
        if r != 0 { self.th.pop(); self.violate("internal", format!("real pthread_create failed: {r}")); return r; }
        self.th[tid].pt = unsafe { *pt } as u64;
        self.pts.insert(self.th[tid].pt, tid);
        self.runq.push(tid);
        self.note(10, tid as u64);
        self.tr(|| format!("spawn T{tid}"));
        0
    }
    /// Makes the calling (real) thread simulated thread 0 and the running one.
    pub fn boot(&mut self) {
        self.th.push(Th { name: "driver".into(), st: St::Run, gen: 0, timed_out: false, park: Box::new(AtomicU32::new(1)), pt: 0, prio: 1 << 40, why: "", sys: false, born: 0 });
        self.cur = 0;
        TID.with(|t| t.set(0));
        self.new_slice();
    }
    pub fn join(&mut self, pt: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
        let Some(&tid) = self.pts.get(&(pt as u64)) else { return unsafe { sys::real_join(pt, r) } };
        while self.th[tid].st != St::Done { self.block(&[chan(CH_THREAD, tid)], None, "pthread_join"); }
        self.pts.remove(&(pt as u64));
        unsafe { sys::real_join(pt, r) }
    }
    fn thread_end(&mut self) {
        let me = self.cur;
        self.th[me].st = St::Done;
        self.note(11, me as u64);
        self.tr(|| "thread ends".into());
        self.notify(chan(CH_THREAD, me));
        TID.with(|t| t.set(-1));
        self.reschedule();
    }
    pub fn live_sys_threads(&self) -> Vec<usize> { (0..self.th.len()).filter(|i| self.th[*i].sys && self.th[*i].st != St::Done).collect() }

    // ---- end of run ----
    pub fn finish(&mut self) -> ! {
        let cov = unsafe { (1..=(NGUARDS as usize).min(COVN - 1)).filter(|i| COV[*i] != 0).map(|i| i as u32).collect() };
        let mut probes: Vec<(String, u64)> = self.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        probes.sort();
        let o = Outcome {
            violations: std::mem::take(&mut self.violations), log_hash: self.hash, sched_hash: self.shash, sim_ns: self.now, switches: self.switches, preempts: self.preempts, edges: self.edges,
            cov, faults: self.fault_n.clone(), probes, decisions: if self.keep { std::mem::take(&mut self.rec) } else { vec![] }, trace: std::mem::take(&mut self.trace),
            threads: self.th.len() as u64, conns: self.net.conns_made, nontrivial: self.nontrivial, stats: std::mem::take(&mut self.stats),
        };
        let b = serde_json::to_vec(&o).unwrap();
        unsafe { sys::write_all(self.out_fd, &b); sys::exit_group(0) }
    }
}

pub const CH_THREAD: u64 = 1;
pub const CH_EP: u64 = 2;
pub const CH_EPOLL: u64 = 3;
pub const CH_FUTEX: u64 = 4;
pub const CH_LISTEN: u64 = 5;
pub const CH_POLL: u64 = 6;
pub const CH_USER: u64 = 7;
pub fn chan(kind: u64, id: usize) -> u64 { kind << 56 ^ id as u64 }

thread_local! {
    /// Threads spawned while set belong to the system under test (faults apply to them).
    pub static SPAWN_SYS: Cell<bool> = const { Cell::new(true) };
    pub static SPAWN_FORCE: Cell<bool> = const { Cell::new(false) };
}

// ---- harness-side API (called on simulated threads) ------------------------
pub fn now() -> u64 { sim().now }
pub fn sleep(ns: u64) { sim().sleep_for(ns, "sleep") }
pub fn set_name(n: &str) { let mut s = sim(); let c = s.cur; s.th[c].name = n.to_string(); }
/// Spawns a harness actor (client, scripted server) as a simulated thread.
pub fn actor<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    let n = name.to_string();
    let old = SPAWN_SYS.with(|c| c.replace(false));
    let h = std::thread::Builder::new().stack_size(512 * 1024).spawn(move || { set_name(&n); SPAWN_SYS.with(|c| c.set(false)); f() }).expect("actor spawn");
    SPAWN_SYS.with(|c| c.set(old));
    h
}
/// Runs `f` as code of the system under test: threads it spawns are system threads and faults apply.
pub fn as_system<T>(f: impl FnOnce() -> T) -> T {
    let (a, b) = (SPAWN_SYS.with(|c| c.replace(true)), SPAWN_FORCE.with(|c| c.replace(true)));
    let was = { let mut s = sim(); let c = s.cur; std::mem::replace(&mut s.th[c].sys, true) };
    struct Back(bool, bool, bool);
    impl Drop for Back { fn drop(&mut self) { { let mut s = sim(); let c = s.cur; s.th[c].sys = self.0; } SPAWN_SYS.with(|c| c.set(self.1)); SPAWN_FORCE.with(|c| c.set(self.2)); } }
    let _back = Back(was, a, b);
    f()
}
/// Runs `f` as harness code inside a system thread (handlers).
pub fn as_harness<T>(f: impl FnOnce() -> T) -> T { f() }
