//! Runs simulations in forked children (one run per child), confirms, minimises and
//! replays violations, and writes the evidence.
use crate::core::*;
use crate::plan::Plan;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Job { pub seed: u64, pub plan: Option<Plan>, pub decisions: Option<Vec<Vec<u32>>>, pub keep: bool, pub trace: bool }
#[derive(Debug, Clone)]
pub struct Done { pub seed: u64, pub idx: usize, pub out: Outcome, pub crashed: bool }

fn verif() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }
struct Quiet;
impl log::Log for Quiet {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); }
    fn flush(&self) {}
}
static QUIET: Quiet = Quiet;

pub fn init() {
    init_process();
    std::panic::set_hook(Box::new(|i| {
        if !is_sim_thread() { let b = format!("{i}\n"); unsafe { crate::sys::write_all(2, b.as_bytes()); } return; }
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let mut s = sim();
        let (cur, now) = (s.cur, s.now);
        let (name, sys) = (s.th[cur].name.clone(), s.th[cur].sys);
        s.tr(|| format!("PANIC at {loc}: {msg}"));
        let inside_harness = loc.starts_with("core.rs") || loc.starts_with("net.rs") || loc.starts_with("simfs.rs") || loc.starts_with("shim.rs") || loc.starts_with("gen.rs") || loc.starts_with("client.rs") || loc.starts_with("codec.rs") || loc.starts_with("life.rs") || loc.starts_with("prog.rs");
        if (!sys && cur == 0) || inside_harness { if !msg.contains("injected") { s.violate("internal", format!("harness panic in {name} at {loc}: {msg}")); s.finish(); } }
        drop(s);
        crate::hist::hist().panics.push(crate::hist::Panic { thread: name, loc, msg, t: now, sys });
    }));
    // TLS material and one complete in-memory handshake, so that lazily initialised state is the same in every run
    let d = std::env::var("VERIF_CERTS").unwrap_or_else(|_| format!("{}/dst/certs", verif()));
    unsafe { crate::server::CERT_DER = std::fs::read(format!("{d}/cert.der")).unwrap_or_default(); }
    let id = (|| Some((wruster::PrivateKey::read_from(&format!("{d}/key.pem")).ok()?, wruster::Certificate::read_from(&format!("{d}/cert.pem")).ok()?)))();
    unsafe { crate::server::TLS_ID = id; crate::prog::IDS = std::fs::read_dir(&d).into_iter().flatten().flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())).collect(); }
    warm_tls(&d);
}
fn warm_tls(d: &str) {
    let (Ok(c), Ok(k)) = (std::fs::read(format!("{d}/cert.der")), std::fs::read(format!("{d}/key.der"))) else { return };
    let Ok(cfg) = rustls::ServerConfig::builder().with_safe_defaults().with_no_client_auth().with_single_cert(vec![rustls::Certificate(c)], rustls::PrivateKey(k)) else { return };
    let Ok(mut sv) = rustls::ServerConnection::new(std::sync::Arc::new(cfg)) else { return };
    let mut cl = crate::server::tls_client();
    for _ in 0..8 {
        let mut b = vec![]; while cl.wants_write() { let _ = cl.write_tls(&mut b); } let mut r = &b[..]; while !r.is_empty() { if sv.read_tls(&mut r).is_err() { break } let _ = sv.process_new_packets(); }
        let mut b = vec![]; while sv.wants_write() { let _ = sv.write_tls(&mut b); } let mut r = &b[..]; while !r.is_empty() { if cl.read_tls(&mut r).is_err() { break } let _ = cl.process_new_packets(); }
    }
}

// ---- one run in a child ----------------------------------------------------
struct Child { pid: i32, fd: i32, buf: Vec<u8>, started: Instant, idx: usize, job: Job, tries: u32 }
static mut CHILD_ENV: Option<(String, Option<Plan>, u64)> = None;

fn child_main(prop: &str, job: &Job, fd: i32) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if std::env::var("DST_STDERR").is_err() {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            if n >= 0 { libc::dup2(n, 0); libc::dup2(n, 1); libc::dup2(n, 2); }
        }
        let cpu = libc::rlimit { rlim_cur: 25, rlim_max: 30 };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let plan = job.plan.clone().unwrap_or_else(|| crate::gen::plan(prop, job.seed));
    let k = plan.knobs();
    // the programs bring their own logger
    if !matches!(plan, Plan::Prog(_)) { let _ = log::set_logger(&QUIET); log::set_max_level(log::LevelFilter::Off); }
    if k.log > 0 { log::set_max_level(if k.log > 1 { log::LevelFilter::Trace } else { log::LevelFilter::Info }); }
    let s = Box::new(Sim::new(k, job.seed, job.decisions.clone(), job.keep, job.trace, fd));
    let _ = crate::hist::hist();
    unsafe { SIM = Box::into_raw(s); CHILD_ENV = Some((prop.to_string(), Some(plan), job.seed)); }
    std::thread::Builder::new().stack_size(4 << 20).spawn(|| {
        { let _g = Guard::new(); unsafe { (*SIM).boot(); } }
        let (prop, plan, _) = unsafe { CHILD_ENV.take().unwrap() };
        plan.unwrap().drive(&prop);
        sim().finish();
    }).expect("driver thread");
    loop { unsafe { libc::pause(); } }
}
fn start(prop: &str, idx: usize, job: Job, tries: u32) -> Child {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 { eprintln!("pipe failed"); std::process::exit(3); }
        let pid = libc::fork();
        if pid < 0 { eprintln!("fork failed"); std::process::exit(3); }
        if pid == 0 { libc::close(p[0]); child_main(prop, &job, p[1]); }
        libc::close(p[1]);
        Child { pid, fd: p[0], buf: vec![], started: Instant::now(), idx, job, tries }
    }
}
/// Runs jobs on `par` children; `next` hands out jobs, `got` receives results and says whether to go on.
pub fn run_all(prop: &str, par: usize, mut next: impl FnMut() -> Option<Job>, mut got: impl FnMut(Done) -> bool) {
    let mut live: Vec<Child> = vec![];
    let mut idx = 0;
    let mut stop = false;
    let mut retry: Vec<(usize, Job, u32)> = vec![];
    loop {
        while !stop && live.len() < par {
            if let Some((i, j, t)) = retry.pop() { live.push(start(prop, i, j, t)); continue; }
            match next() { Some(j) => { live.push(start(prop, idx, j, 0)); idx += 1; } None => break }
        }
        if live.is_empty() { return; }
        let mut pf: Vec<libc::pollfd> = live.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000); }
        let mut i = live.len();
        while i > 0 {
            i -= 1;
            let mut over = false;
            let mut stuck = false;
            if pf[i].revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { libc::read(live[i].fd, b.as_mut_ptr() as *mut libc::c_void, b.len()) };
                if n > 0 { let c = &mut live[i]; c.buf.extend_from_slice(&b[..n as usize]); } else { over = true; }
            } else if live[i].started.elapsed() > Duration::from_secs(150) { stuck = true; over = true; unsafe { libc::kill(live[i].pid, libc::SIGKILL); } }
            if !over { continue; }
            let c = live.remove(i);
            let mut st = 0;
            unsafe { libc::close(c.fd); libc::waitpid(c.pid, &mut st, 0); }
            let (out, crashed) = match serde_json::from_slice::<Outcome>(&c.buf) {
                Ok(o) => (o, false),
                Err(_) => {
                    if c.tries == 0 { retry.push((c.idx, c.job.clone(), 1)); if stop { /* lost */ } continue; }
                    let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                    let (class, msg) = if stuck { ("stuck", "the run never ended".to_string()) }
                        else if sig == libc::SIGXCPU || sig == libc::SIGKILL { ("livelock", "a thread computed for more than 25 s of CPU time without any system call".to_string()) }
                        else { ("abort", format!("the process died: signal {sig}, status {st}")) };
                    let mut o = Outcome::default();
                    o.violations.push(Violation { class: class.into(), msg });
                    (o, true)
                }
            };
            if !got(Done { seed: c.job.seed, idx: c.idx, out, crashed }) { stop = true; retry.clear(); }
        }
        if stop { for c in live.drain(..) { unsafe { libc::kill(c.pid, libc::SIGKILL); libc::close(c.fd); let mut st = 0; libc::waitpid(c.pid, &mut st, 0); } } return; }
    }
}
pub fn run_one(prop: &str, job: Job) -> Outcome {
    let mut r = None; let mut j = Some(job);
    run_all(prop, 1, || j.take(), |d| { r = Some(d.out); true });
    r.unwrap()
}

// ---- which violation classes decide which property ---------------------------
pub fn classes(prop: &str) -> &'static [&'static str] { crate::gen::classes(prop) }
fn is_relevant(prop: &str, v: &Violation) -> bool { classes(prop).iter().any(|c| v.class == *c || (c.ends_with('.') && v.class.starts_with(c))) }
fn relevant<'a>(prop: &str, o: &'a Outcome) -> Option<&'a Violation> { o.violations.iter().find(|v| is_relevant(prop, v)) }
fn has(prop: &str, o: &Outcome, class: &str) -> bool { o.violations.iter().any(|v| v.class == class && is_relevant(prop, v)) }

#[derive(Serialize, Deserialize)]
struct Replay { property: String, seed: u64, class: String, message: String, log_hash: String, plan: Plan, decisions: Vec<Vec<u32>>, trace: Vec<String>, note: String }

// ---- known findings ----------------------------------------------------------
/// Lines `finding: property=<id> class=<class> contains=<text> -- description`.
fn known(prop: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: ")?;
        let (head, desc) = l.split_once(" -- ")?;
        let p = head.split(' ').find_map(|x| x.strip_prefix("property="))?;
        if p != prop { return None; }
        let class = head.split(' ').find_map(|x| x.strip_prefix("class="))?;
        let cont = head.split_once("contains=").map(|x| x.1).unwrap_or("");
        Some((class.to_string(), cont.to_string(), desc.to_string()))
    }).collect()
}

fn job(seed: u64) -> Job { Job { seed, plan: None, decisions: None, keep: false, trace: false } }

pub fn check(prop: &str, tier: &str, seed0: u64, secs: Option<u64>) -> i32 {
    init();
    if prop == "C24" && !crate::prog::BUILT { eprintln!("the programs could not be built into the simulator"); return 2; }
    if classes(prop).is_empty() { eprintln!("unknown property {prop}"); return 2; }
    if unsafe { NGUARDS } == 0 { eprintln!("the code under test is not instrumented: build with /verif/build.sh"); return 2; }
    let t0 = Instant::now();
    let par = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let secs = secs.unwrap_or(if tier == "thorough" { 600 } else { 35 });
    let known = known(prop);
    let mut agg = Agg::default();
    let mut found: Option<(u64, Violation)> = None;
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut internal: Vec<(u64, String)> = vec![];
    let mut unconfirmed = 0u64;
    let mut i = 0u64;
    let mut rejected: HashSet<u64> = HashSet::new();
    let mut det: Vec<(u64, u64)> = vec![];
    println!("property {prop}: VERIF_SEED={seed0} tier={tier} search={secs}s workers={par}");
    while t0.elapsed() < Duration::from_secs(secs) && found.is_none() {
        let mut cand: Option<(u64, Violation)> = None;
        run_all(prop, par, || { if t0.elapsed() >= Duration::from_secs(secs) { return None; } i += 1; Some(job(crate::rng::mix(seed0.wrapping_mul(1_000_003), i))) }, |d| {
            if let Some(v) = d.out.violations.iter().find(|v| v.class == "internal" || v.class == "stuck") { internal.push((d.seed, format!("{}: {}", v.class, v.msg))); }
            agg.add(&d);
            if det.len() < 24 && d.idx % 7 == 0 && !d.crashed { det.push((d.seed, d.out.log_hash)); }
            if rejected.contains(&d.seed) { return true; }
            for v in d.out.violations.iter().filter(|v| is_relevant(prop, v)) {
                if let Some(k) = known.iter().find(|k| k.0 == v.class && v.msg.contains(&k.1)) { *known_hit.entry(k.2.clone()).or_default() += 1; continue; }
                cand = Some((d.seed, v.clone()));
                return false;
            }
            true
        });
        if let Some((s, v)) = cand {
            // must reproduce exactly
            let a = run_one(prop, Job { keep: true, ..job(s) });
            if has(prop, &a, &v.class) { found = Some((s, v)); } else { unconfirmed += 1; rejected.insert(s); eprintln!("seed {s}: {} not reproduced", v.class); }
        }
    }
    // determinism self-check: repeat runs and compare event logs
    let mut same = 0u64; let mut diff = 0u64;
    { let mut it = det.clone().into_iter(); let m: std::collections::HashMap<u64, u64> = det.iter().copied().collect();
      run_all(prop, 3, || it.next().map(|d| job(d.0)), |d| { if m.get(&d.seed) == Some(&d.out.log_hash) { same += 1 } else { diff += 1; eprintln!("seed {}: event log differs on repetition", d.seed); } true }); }
    let search_s = t0.elapsed().as_secs_f64();
    for (s, m) in internal.iter().take(5) { eprintln!("harness problem with seed {s}: {m}"); }
    let mut code = 0;
    let mut nviol = 0;
    for (k, n) in &known_hit { println!("KNOWN-FINDING: property={prop} {k} (seen in {n} runs)"); }
    if let Some((s, v)) = found {
        nviol = 1;
        println!("violation with seed {s}: [{}] {}", v.class, v.msg);
        let path = minimise_and_save(prop, s, &v, par, Duration::from_secs(if tier == "thorough" { 180 } else { 60 }));
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    let mut cov = agg.json(prop, search_s);
    cov["determinism_check"] = json!({"runs_repeated": same + diff, "identical_event_logs": same, "different": diff});
    cov["harness_problems"] = json!(internal.len());
    cov["unconfirmed_violations"] = json!(unconfirmed);
    let ev = json!({"property": prop, "tier": tier, "seed": seed0, "level": "exploration", "coverage": cov, "assumptions": crate::gen::assumptions(prop), "wall_s": t0.elapsed().as_secs_f64(), "violations": nviol});
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).is_err() { eprintln!("cannot write evidence"); return 2; }
    println!("{prop}: {} runs in {:.1} s, {} distinct schedules, {:.0} simulated s, {} faults injected, exit {code}", agg.runs, search_s, agg.scheds.len(), agg.sim_ns as f64 / 1e9, agg.faults.iter().sum::<u64>());
    if code == 0 && agg.runs == 0 { return 2; }
    if code == 0 && internal.len() as u64 * 10 > agg.runs { return 2; }
    code
}

#[derive(Default)]
struct Agg { runs: u64, nontrivial: HashSet<u64>, scheds: HashSet<u64>, sim_ns: u64, faults: Vec<u64>, probes: BTreeMap<String, u64>, stats: BTreeMap<String, u64>, cov: HashSet<u32>, switches: u64, preempts: u64, edges: u64, conns: u64, threads: u64, samples: Vec<Value>, other: BTreeMap<String, u64>, fault_runs: Vec<u64>, maxns: u64 }
impl Agg {
    fn add(&mut self, d: &Done) {
        let o = &d.out;
        self.runs += 1; self.sim_ns += o.sim_ns; self.maxns = self.maxns.max(o.sim_ns); self.switches += o.switches; self.preempts += o.preempts; self.edges += o.edges; self.conns += o.conns; self.threads += o.threads;
        if o.nontrivial { self.nontrivial.insert(o.log_hash); }
        self.scheds.insert(o.sched_hash);
        if self.faults.is_empty() { self.faults = vec![0; NF]; self.fault_runs = vec![0; NF]; }
        for (i, n) in o.faults.iter().enumerate() { self.faults[i] += n; if *n > 0 { self.fault_runs[i] += 1; } }
        for (p, n) in &o.probes { *self.probes.entry(p.clone()).or_default() += n; }
        for (p, n) in &o.stats { *self.stats.entry(p.clone()).or_default() += n; }
        self.cov.extend(o.cov.iter());
        for v in &o.violations { *self.other.entry(v.class.clone()).or_default() += 1; }
        if self.samples.len() < 3 && o.nontrivial { self.samples.push(json!({"seed": d.seed, "simulated_s": o.sim_ns as f64 / 1e9, "threads": o.threads, "connections": o.conns, "context_switches": o.switches, "event_log_hash": format!("{:016x}", o.log_hash),
            "faults": o.faults.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| format!("{} x{}", FAULT_NAMES[i], n)).collect::<Vec<_>>(), "replay": format!("dst one <property> {} --trace", d.seed)})); }
    }
    fn json(&self, prop: &str, secs: f64) -> Value {
        let faults: serde_json::Map<String, Value> = self.faults.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| (FAULT_NAMES[i].to_string(), json!({"injected": n, "in_runs": self.fault_runs[i]}))).collect();
        json!({
            "evaluations": self.runs, "distinct_nontrivial": self.nontrivial.len(), "rule": crate::gen::rule(prop), "samples": self.samples,
            "runs_per_hour": (self.runs as f64 / secs.max(0.001) * 3600.0) as u64, "seeds_per_hour": (self.runs as f64 / secs.max(0.001) * 3600.0) as u64, "simulated_seconds": self.sim_ns as f64 / 1e9, "longest_run_simulated_s": self.maxns as f64 / 1e9,
            "faults_injected": faults, "distinct_interleavings": self.scheds.len(), "interleaving_measure": "hash of the sequence of (from thread, to thread) context switches of a run",
            "context_switches": self.switches, "preemptions_inside_code": self.preempts, "edges_of_code_under_test_executed": self.edges, "distinct_edges_covered": self.cov.len(), "edges_instrumented": unsafe { NGUARDS },
            "connections": self.conns, "threads": self.threads, "probes": self.probes, "workload": self.stats, "violation_classes_seen_any_property": self.other,
            "real_components": ["wruster and wruster_handlers (as in the working tree)", "std threads, mutexes, condvars, channels", "polling", "rustls", "mime/trie/other dependencies"],
            "stubbed_components": ["TCP, epoll, eventfd, timerfd, fcntl, files below /simfs (simulated in process)", "clocks and sleeps", "getrandom", "thread scheduling", "remote peers (scripted)"],
        })
    }
}

// ---- minimisation ------------------------------------------------------------
fn try_jobs(prop: &str, par: usize, jobs: Vec<Job>, class: &str) -> Option<usize> {
    let mut it = jobs.into_iter();
    let mut hit: Option<usize> = None;
    run_all(prop, par, || it.next(), |d| { if has(prop, &d.out, class) { hit = Some(hit.map_or(d.idx, |h| h.min(d.idx))); } true });
    hit
}
/// Candidate simplifications of a plan, big ones first.
enum Edit { Cut(String, usize, usize), Set(String, Value) }
impl Edit {
    fn apply(&self, v: &Value) -> Value {
        let mut w = v.clone();
        match self {
            Edit::Cut(p, at, size) => if let Some(Value::Array(a)) = w.pointer_mut(p) { let e = (at + size).min(a.len()); a.drain(*at..e); },
            Edit::Set(p, x) => if let Some(y) = w.pointer_mut(p) { *y = x.clone(); },
        }
        w
    }
}
fn shrinks(v: &Value) -> Vec<Edit> {
    let mut arrays: Vec<(Vec<String>, usize)> = vec![];
    let mut nums: Vec<(Vec<String>, i64)> = vec![];
    fn walk(v: &Value, path: &mut Vec<String>, arrays: &mut Vec<(Vec<String>, usize)>, nums: &mut Vec<(Vec<String>, i64)>) {
        match v {
            Value::Object(m) => for (k, x) in m {
                path.push(k.clone());
                if let Value::Array(a) = x { if ["clients", "ops", "chunks", "faults", "headers", "script", "clock_jumps", "steps", "conns", "calls", "callers", "cases", "owners", "asks"].contains(&k.as_str()) && !a.is_empty() { arrays.push((path.clone(), a.len())); } }
                if let Some(n) = x.as_i64() {
                    let z = match k.as_str() { "slice_mean" | "slice_pm" | "stall_pm" | "hot" | "jitter_us" | "log" | "pre_us" | "post_us" | "delay_us" | "delay_every" | "start_us" | "eintr" | "extra" | "short" | "us" | "pause_us" => Some(0), "sched" => Some(1), "cpus" => Some(1), "body" | "len" | "fd_limit" => Some(n / 2), "body_kind" => Some(0), "lat_us" => Some(50), "chunk" => Some(0), "mss" | "rcvbuf" | "sndbuf" => Some(65536), _ => None };
                    if let Some(z) = z { if z != n { nums.push((path.clone(), z)); } }
                }
                if x.as_bool() == Some(true) && ["seg_random", "logmw"].contains(&k.as_str()) { nums.push((path.clone(), -1)); }
                walk(x, path, arrays, nums);
                path.pop();
            },
            Value::Array(a) => for (i, x) in a.iter().enumerate() { path.push(i.to_string()); walk(x, path, arrays, nums); path.pop(); },
            _ => {}
        }
    }
    walk(v, &mut vec![], &mut arrays, &mut nums);
    let ptr = |p: &[String]| format!("/{}", p.join("/"));
    let mut out: Vec<(usize, Edit)> = vec![];
    for (p, n) in &arrays {
        let mut size = *n;
        loop {
            let mut at = 0;
            while at < *n {
                out.push((size * 1000 / (p.len()), Edit::Cut(ptr(p), at, size)));
                at += size;
            }
            if size == 1 { break; }
            size = (size / 2).max(1);
        }
    }
    out.sort_by_key(|x| std::cmp::Reverse(x.0));
    for (p, z) in &nums { out.push((0, Edit::Set(ptr(p), if *z == -1 { json!(false) } else { json!(z) }))); }
    out.into_iter().map(|x| x.1).collect()
}
fn minimise_and_save(prop: &str, seed: u64, v: &Violation, par: usize, budget: Duration) -> String {
    let t0 = Instant::now();
    let mut plan = crate::gen::plan(prop, seed);
    let mut steps = 0u64; let mut tried = 0u64;
    let mut cur = serde_json::to_value(&plan).unwrap();
    'outer: while t0.elapsed() < budget * 2 / 3 {
        let cands = shrinks(&cur);
        let mut at = 0;
        let mut progress = false;
        while at < cands.len() {
            if t0.elapsed() > budget * 2 / 3 { break 'outer; }
            let group: Vec<(usize, Plan)> = cands[at..(at + par).min(cands.len())].iter().enumerate().filter_map(|(i, c)| serde_json::from_value::<Plan>(c.apply(&cur)).ok().map(|p| (at + i, p))).collect();
            at += par;
            tried += group.len() as u64;
            if let Some(h) = try_jobs(prop, par, group.iter().map(|g| Job { seed, plan: Some(g.1.clone()), decisions: None, keep: false, trace: false }).collect(), &v.class) {
                cur = cands[group[h].0].apply(&cur); plan = group[h].1.clone(); steps += 1; progress = true; break;
            }
        }
        if !progress { break; }
    }
    // schedule and fault decisions
    let base = run_one(prop, Job { seed, plan: Some(plan.clone()), decisions: None, keep: true, trace: false });
    let mut dec = base.decisions.clone();
    if dec.is_empty() { dec = vec![vec![]; NKINDS]; }
    let ok = |d: &Vec<Vec<u32>>| -> bool { let o = run_one(prop, Job { seed, plan: Some(plan.clone()), decisions: Some(d.clone()), keep: false, trace: false }); has(prop, &o, &v.class) };
    let use_dec = ok(&dec);
    if use_dec {
        for k in 0..NKINDS {
            let mut d = dec.clone(); d[k] = vec![];
            if ok(&d) { dec = d; continue; }
            // truncate the list as far as possible
            let (mut lo, mut hi) = (0usize, dec[k].len());
            while lo + 1 < hi && t0.elapsed() < budget { let mid = (lo + hi) / 2; let mut d = dec.clone(); d[k].truncate(mid); if ok(&d) { hi = mid; dec = d; } else { lo = mid; } }
            // zero blocks
            let mut size = (dec[k].len() / 2).max(1);
            while size >= 1 && t0.elapsed() < budget {
                let mut at = 0;
                while at < dec[k].len() && t0.elapsed() < budget {
                    let e = (at + size).min(dec[k].len());
                    if dec[k][at..e].iter().any(|x| *x != 0) { let mut d = dec.clone(); for x in &mut d[k][at..e] { *x = 0; } tried += 1; if ok(&d) { dec = d; steps += 1; } }
                    at = e;
                }
                if size == 1 { break; }
                size /= 2;
            }
        }
    }
    let fin = run_one(prop, Job { seed, plan: Some(plan.clone()), decisions: if use_dec { Some(dec.clone()) } else { None }, keep: true, trace: true });
    let vio = fin.violations.iter().find(|x| x.class == v.class).cloned().unwrap_or_else(|| v.clone());
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{seed:016x}.json");
    let r = Replay { property: prop.into(), seed, class: vio.class.clone(), message: vio.msg.clone(), log_hash: format!("{:016x}", fin.log_hash), plan, decisions: fin.decisions.clone(), trace: fin.trace.clone(),
        note: format!("found with seed {seed}; {steps} simplifications kept of {tried} tried; replay with: dst replay {path}") };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
    println!("minimised: [{}] {}", vio.class, vio.msg);
    path
}

pub fn replay(path: &str) -> i32 {
    init();
    let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) { Ok(r) => r, Err(e) => { eprintln!("{path}: {e}"); return 2; } };
    let dec = if r.decisions.is_empty() { None } else { Some(r.decisions) };
    let o = run_one(&r.property, Job { seed: r.seed, plan: Some(r.plan), decisions: dec, keep: true, trace: true });
    for l in &o.trace { println!("{l}"); }
    for v in &o.violations { println!("[{}] {}", v.class, v.msg); }
    println!("event log hash {:016x}, recorded {}", o.log_hash, r.log_hash);
    if has(&r.property, &o, &r.class) { println!("VIOLATION property={} replay={path}", r.property); 1 } else { println!("not reproduced on this tree"); 0 }
}
pub fn one(prop: &str, seed: u64, trace: bool, show_plan: bool) -> i32 {
    init();
    if show_plan { println!("{}", serde_json::to_string_pretty(&crate::gen::plan(prop, seed)).unwrap()); }
    let o = run_one(prop, Job { seed, plan: None, decisions: None, keep: false, trace });
    for l in &o.trace { println!("{l}"); }
    for v in &o.violations { println!("[{}] {}", v.class, v.msg); }
    println!("hash {:016x} sched {:016x} simulated {:.6}s switches {} preempts {} edges {} cov {} threads {} conns {} nontrivial {}", o.log_hash, o.sched_hash, o.sim_ns as f64 / 1e9, o.switches, o.preempts, o.edges, o.cov.len(), o.threads, o.conns, o.nontrivial);
    for (i, n) in o.faults.iter().enumerate() { if *n > 0 { println!("  fault {} x{n}", FAULT_NAMES[i]); } }
    println!("  probes {:?} stats {:?}", o.probes, o.stats);
    relevant(prop, &o).is_some() as i32
}
/// Runs many seeds and lists every violation class with example seeds; nothing is minimised.
pub fn survey(prop: &str, seed0: u64, n: u64) -> i32 {
    init();
    let par = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut m: BTreeMap<String, (u64, Vec<(u64, String)>)> = BTreeMap::new();
    let mut i = 0; let mut runs = 0; let mut non = 0; let t0 = Instant::now();
    let mut agg = Agg::default();
    run_all(prop, par, || { if i >= n { return None } i += 1; Some(job(crate::rng::mix(seed0.wrapping_mul(1_000_003), i))) }, |d| {
        runs += 1; agg.add(&d); if d.out.nontrivial { non += 1; }
        let mut seen = HashSet::new();
        for v in &d.out.violations { if seen.insert(v.class.clone()) { let e = m.entry(v.class.clone()).or_default(); e.0 += 1; if e.1.len() < 4 { e.1.push((d.seed, v.msg.clone())); } } }
        true
    });
    println!("{prop}: {runs} runs, {non} nontrivial, {:.1} s, edges covered {}/{}", t0.elapsed().as_secs_f64(), agg.cov.len(), unsafe { NGUARDS });
    println!("faults: {}", agg.faults.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| format!("{}={}", FAULT_NAMES[i], n)).collect::<Vec<_>>().join(" "));
    println!("probes: {:?}\nstats: {:?}", agg.probes, agg.stats);
    for (c, (n, ex)) in m { println!("{c}: {n} runs"); for (s, msg) in ex { println!("    seed {s}: {}", msg.chars().take(400).collect::<String>()); } }
    0
}
/// Every seed twice, at different worker counts, comparing complete event logs.
pub fn det(prop: &str, n: u64) -> i32 {
    init();
    let mut h: Vec<std::collections::HashMap<u64, (u64, u64)>> = vec![];
    for par in [8, 3, 1] {
        let mut i = 0; let mut m = std::collections::HashMap::new();
        let lim = if par == 1 { n / 4 } else { n };
        run_all(prop, par, || { if i >= lim { return None } i += 1; Some(job(crate::rng::mix(7, i))) }, |d| { m.insert(d.seed, (d.out.log_hash, d.out.sim_ns)); true });
        h.push(m);
    }
    let mut bad = 0;
    for (s, v) in &h[0] { for o in &h[1..] { if let Some(w) = o.get(s) { if w != v { bad += 1; println!("seed {s}: {v:x?} / {w:x?}"); } } } }
    println!("{prop}: {n} seeds, {bad} differences");
    (bad > 0) as i32
}
