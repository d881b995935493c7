//! C20: histories of starts, stops, waits and misuse of servers on shared addresses, by several
//! threads at once, with clients that look who answers.
use crate::core::*;
use crate::gen::G;
use crate::net::Link;
use crate::wire::{self, P};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wruster::http::headers::Header;
use wruster::http::{HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
use wruster::Server;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum LOp {
    /// makes the owner's server run on the port; by name: through "localhost" instead of the address
    Start { port: u16, named: bool },
    /// calls run again on the running server: the same port (0) or another one
    Again { port: u16 },
    /// calls run with something that is not an address
    Invalid { what: u8 },
    Stop,
    /// shutdown or wait on a server that never started
    Misuse { wait: bool, after_failure: bool },
    /// asks who answers on the owner's port
    Probe,
    /// a client that keeps a connection for a while: idle, or with a request whose handler takes that long
    Hold { us: u32, busy: bool },
    /// another thread waits for the server from now on
    Wait,
    /// something else listens on the port for a while
    Occupy { port: u16 }, Free,
    Sleep { us: u32 },
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Owner { pub start_us: u64, pub ops: Vec<LOp> }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct LPlan { pub knobs: Knobs, pub owners: Vec<Owner>, pub lat_us: u32, pub read_ms: u64 }

/// One successful start. Times: 0 = not yet.
#[derive(Default, Clone, Debug)]
struct Inst { port: u16, call: u64, up: u64, stop_call: u64, stop_ret: u64, failed: bool, running: u32, waited: bool }
#[derive(Default)]
struct LH { inst: Vec<Inst>, occ: Vec<(u16, u64, u64)>, ops: u64, probes: u64, errors: u64, wait_returned: Vec<usize>, holds: u32 }
static mut LHIST: *mut LH = std::ptr::null_mut();
fn lh() -> &'static mut LH { unsafe { if LHIST.is_null() { let _g = Guard::new(); LHIST = Box::into_raw(Box::default()); } &mut *LHIST } }
fn v(class: &str, m: String) { sim().violate(class, m); }

/// Was the port certainly free from t0 to now? Certainly taken all the time?
fn certainly_free(port: u16, t0: u64, me: usize) -> bool {
    lh().inst.iter().enumerate().all(|(i, x)| i == me || x.port != port || (x.stop_ret > 0 && x.stop_ret <= t0)) && lh().occ.iter().all(|o| o.0 != port || (o.2 > 0 && o.2 <= t0))
}
fn certainly_taken(port: u16, t0: u64, me: usize) -> bool {
    lh().inst.iter().enumerate().any(|(i, x)| i != me && x.port == port && !x.failed && x.up > 0 && x.up <= t0 && x.stop_call == 0) || lh().occ.iter().any(|o| o.0 == port && o.1 <= t0 && o.2 == 0)
}
struct Busy(usize);
impl Drop for Busy { fn drop(&mut self) { lh().inst[self.0].running -= 1; } }
fn router(id: usize) -> Router {
    let r = Router::new();
    let who: HttpHandler = Box::new(move |q: &mut Request| {
        let slow = q.uri.rsplit('/').next().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        lh().inst[id].running += 1;
        let _b = Busy(id);
        if lh().inst[id].stop_ret > 0 { v("shut.late_handler", format!("a handler of server {id} started after its shutdown had returned")); }
        if slow > 0 { sleep(slow * US); }
        let mut r = Response::from_status(StatusCode::OK);
        r.headers.add(Header { name: "X-Inst".into(), value: id.to_string() });
        r
    });
    r.add("/who", HttpMethod::GET, who);
    r
}
#[derive(Debug, PartialEq)]
enum Ans { From(usize), Refused, Closed, Status(u16), Nothing, Wrong(String) }
struct Link0(u64);
fn ask(link: &Link0, port: u16, slow: u64, idle_us: u64, deadline: u64) -> Ans {
    let l = Link { lat: link.0, jitter: 0, mss: 1460, rcvbuf: 65536, sndbuf: 65536 };
    let (ep, r) = { let mut s = sim(); let ep = s.connect_start(port, l, false); (ep, s.connect_wait(ep, Some(deadline))) };
    if let Err(e) = r { sim().ep_close(ep); return if e == libc::ECONNREFUSED || e == libc::ECONNRESET { Ans::Refused } else { Ans::Nothing }; }
    if idle_us > 0 { sleep(idle_us * US); sim().ep_close(ep); return Ans::Nothing; }
    let q = format!("GET /who/{slow} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
    let mut sent = 0; let mut buf = vec![]; let mut eof = false;
    let ans = loop {
        while sent < q.len() { match { let mut s = sim(); s.ep_send(ep, &q.as_bytes()[sent..]) } { Ok(n) if n > 0 => sent += n, _ => break } }
        let mut b = [0u8; 4096];
        match { let mut s = sim(); s.ep_recv(ep, &mut b, false) } {
            Ok(0) => eof = true,
            Ok(n) => { buf.extend_from_slice(&b[..n]); }
            Err(libc::EAGAIN) => { let mut s = sim(); if s.now >= deadline { break Ans::Nothing; } s.block(&[chan(CH_EP, ep)], Some(deadline), "asking"); }
            Err(_) => eof = true,
        }
        match wire::response(&buf) {
            P::Done(m) => break match wire::header(&m.headers, "x-inst").first().and_then(|x| x.parse().ok()) { Some(i) if m.status == 200 => Ans::From(i), _ => Ans::Status(m.status) },
            P::Bad(e) => break Ans::Wrong(e),
            P::Partial => if eof { break Ans::Closed },
        }
    };
    sim().ep_close(ep);
    ans
}
/// Asks the instance and judges the answer, if it certainly ran all the time.
fn probe(link: &Link0, id: usize, why: &str) {
    let (port, t0) = (lh().inst[id].port, now());
    let f0 = total_faults();
    let a = ask(link, port, 0, 0, t0 + 60 * SEC);
    lh().probes += 1;
    let x = &lh().inst[id];
    sim().tr(|| format!("{why}: port {port} answers {a:?}, expected server {id}"));
    if x.stop_call > 0 { return; }
    match a {
        Ans::From(i) if i == id => {}
        Ans::From(i) => v("life.wrong_instance", format!("{why}: port {port} belongs to server {id}, server {i} answered")),
        // the one pool thread that could not be created
        Ans::Status(503) | Ans::Closed | Ans::Refused if total_faults() != f0 => {}
        a => v("life.unreachable", format!("{why}: server {id} runs on port {port} but a client got {a:?}")),
    }
}
fn total_faults() -> u64 {
    let s = sim();
    [F::EpollCreateEmfile, F::EventfdEmfile, F::TimerfdFail, F::EpollAddEnomem, F::ThreadEagain, F::IoctlErr, F::SockOptErr].iter().map(|f| s.fault_n[*f as usize]).sum()
}
fn text(port: u16, named: bool) -> String { if named { format!("localhost:{port}") } else { format!("127.0.0.1:{port}") } }
const INVALID: &[&str] = &["", "127.0.0.1", "127.0.0.1:", "127.0.0.1:99999", "no.such.host.invalid:80", "127.0.0.1:abc", ":::", "localhost:-1"];

fn run_server(s: &mut Server, addr: &str, r: Router, who: &str) -> Result<(), String> {
    let g = sim().guard("life.hang", format!("{who}: starting a server does not return"), 30 * SEC);
    let x = catch_unwind(AssertUnwindSafe(|| as_system(|| s.run(addr, r).map_err(|e| e.to_string()))));
    sim().unguard(g);
    match x { Ok(r) => r, Err(_) => { v("panic", format!("{who}: run panicked")); Err("panicked".into()) } }
}
fn own(p: &LPlan, oi: usize) {
    let link = Link0(p.lat_us as u64 * US);
    let single = p.owners.len() == 1;
    if p.owners[oi].start_us > 0 { sleep(p.owners[oi].start_us * US); }
    let mut server: Option<(Server, usize)> = None;
    let mut spare: Option<Server> = None;
    let mut occ: Option<(usize, usize)> = None;
    let fresh = || Server::from_timeouts(wruster::Timeouts { read_request_timeout: std::time::Duration::from_millis(p.read_ms), write_response_timeout: std::time::Duration::from_millis(p.read_ms) });
    for op in &p.owners[oi].ops {
        lh().ops += 1;
        match op {
            LOp::Start { port, named } => {
                if server.is_some() { continue; }
                let mut s = spare.take().unwrap_or_else(fresh);
                let id = { let h = lh(); h.inst.push(Inst { port: *port, call: now(), ..Default::default() }); h.inst.len() - 1 };
                let r = router(id);
                let t0 = now();
                let taken0 = certainly_taken(*port, t0, id);
                let f0 = total_faults();
                if single { sim().faults_on = true; }
                let res = run_server(&mut s, &text(*port, *named), r, &format!("owner {oi}"));
                if single { sim().faults_on = false; }
                let faulted = total_faults() != f0;
                sim().tr(|| format!("owner {oi}: start of server {id} on {port} -> {res:?}"));
                sim().note(80, id as u64 * 2 + res.is_ok() as u64);
                match res {
                    Ok(()) => {
                        lh().inst[id].up = now();
                        if taken0 && certainly_taken(*port, t0, id) { v("life.occupied", format!("server {id} started on port {port}, which was in use all the time")); }
                        if let Some(o) = (0..lh().inst.len()).find(|o| *o != id && lh().inst[*o].port == *port && lh().inst[*o].up > 0 && lh().inst[*o].stop_call == 0) { v("life.two_on_one", format!("servers {o} and {id} both run on port {port}")); }
                        server = Some((s, id));
                        probe(&link, id, "right after start");
                    }
                    Err(e) => {
                        let free = certainly_free(*port, t0, id);
                        let i = &mut lh().inst[id]; i.failed = true; i.stop_call = now(); i.stop_ret = now();
                        lh().errors += 1;
                        if free && !faulted { v("life.start", format!("server {id} could not start on the free port {port}: {e}")); }
                        // whoever has the port is not disturbed
                        if let Some(o) = (0..lh().inst.len()).find(|o| { let x = &lh().inst[*o]; x.port == *port && x.up > 0 && x.up <= t0 && x.stop_call == 0 }) { probe(&link, o, "after another server failed to start on its port"); }
                        if faulted && single && free {
                            // the fault is over: the same server must be able to start now
                            let a = ask(&link, *port, 0, 0, now() + 10 * SEC);
                            if a != Ans::Refused { v("life.failed_start", format!("starting server {id} failed but port {port} is served: {a:?}")); }
                        }
                        spare = Some(s);
                    }
                }
            }
            LOp::Again { port } => {
                let Some((s, id)) = server.as_mut() else { continue };
                let id = *id;
                let pt = if *port == 0 { lh().inst[id].port } else { *port };
                let other_free = *port != 0 && certainly_free(pt, now(), usize::MAX);
                let t0 = now();
                let bogus = { let h = lh(); h.inst.push(Inst { port: 1, call: now(), failed: true, stop_call: now(), stop_ret: 0, ..Default::default() }); h.inst.len() - 1 };
                let res = run_server(s, &text(pt, false), router(bogus), &format!("owner {oi}"));
                sim().tr(|| format!("owner {oi}: second start of server {id} on {pt} -> {res:?}"));
                if res.is_ok() { v("life.second_start", format!("starting the running server {id} a second time succeeded")); }
                if other_free && pt != lh().inst[id].port && certainly_free(pt, t0, usize::MAX) { let a = ask(&link, pt, 0, 0, now() + 10 * SEC); if a != Ans::Refused && certainly_free(pt, t0, usize::MAX) { v("life.second_start", format!("a refused second start left port {pt} served: {a:?}")); } }
                probe(&link, id, "after a second start");
                lh().errors += 1;
            }
            LOp::Invalid { what } => {
                let a = INVALID[*what as usize % INVALID.len()];
                let mut s = spare.take().unwrap_or_else(fresh);
                let bogus = { let h = lh(); h.inst.push(Inst { port: 1, call: now(), failed: true, stop_call: now(), ..Default::default() }); h.inst.len() - 1 };
                let res = run_server(&mut s, a, router(bogus), &format!("owner {oi}"));
                if res.is_ok() { v("life.invalid", format!("starting on the address {a:?} succeeded")); }
                lh().errors += 1;
                spare = Some(s);
                if let Some((_, id)) = &server { probe(&link, *id, "after another server was given an invalid address"); }
            }
            LOp::Stop => {
                let Some((s, id)) = server.take() else { continue };
                stop(&link, p, s, id);
            }
            LOp::Misuse { wait, after_failure } => {
                let s = if *after_failure { match spare.take() { Some(s) => s, None => continue } } else { fresh() };
                let what = if *wait { "wait" } else { "shutdown" };
                let g = sim().guard("life.hang", format!("{what} on a server that never started does not return"), 30 * SEC);
                let r = catch_unwind(AssertUnwindSafe(|| as_system(|| if *wait { s.wait().is_err() } else { s.shutdown().is_err() })));
                sim().unguard(g);
                match r { Err(_) => v("panic", format!("{what} on a server that never started panicked")), Ok(false) => v("life.misuse", format!("{what} on a server that never started succeeded")), Ok(true) => {} }
                lh().errors += 1;
                if let Some((_, id)) = &server { probe(&link, *id, "after misuse of another server"); }
            }
            LOp::Probe => if let Some((_, id)) = &server { probe(&link, *id, "probe") },
            LOp::Hold { us, busy } => {
                let Some((_, id)) = &server else { continue };
                if lh().holds >= 30 { continue; }
                lh().holds += 1;
                let (id, port, us, busy, lat) = (*id, lh().inst[*id].port, *us as u64, *busy, link.0);
                let _ = actor("holder", move || {
                    let a = ask(&Link0(lat), port, if busy { us } else { 0 }, if busy { 0 } else { us.max(1) }, now() + 60 * SEC);
                    if busy {
                        let x = &lh().inst[id];
                        match a {
                            Ans::From(i) if i == id => {}
                            Ans::From(i) if x.stop_call == 0 => v("life.wrong_instance", format!("port {port} belongs to server {id}, server {i} answered")),
                            Ans::From(i) => { if lh().inst[i].port != port { v("life.wrong_instance", format!("server {i} of port {} answered on port {port}", lh().inst[i].port)); } }
                            a => if x.stop_call == 0 { v("life.unreachable", format!("server {id} runs on port {port} but a client got {a:?}")) },
                        }
                    }
                });
            }
            LOp::Wait => {
                let Some((s, id)) = server.take() else { continue };
                lh().inst[id].waited = true;
                let _ = actor("waiter", move || {
                    let r = catch_unwind(AssertUnwindSafe(|| as_system(|| s.wait().map_err(|e| e.to_string()))));
                    lh().wait_returned.push(id);
                    v("life.wait", format!("wait on the running server {id} returned {:?}", r.map_err(|_| "a panic")));
                });
                probe(&link, id, "while another thread waits");
            }
            LOp::Occupy { port } => {
                if occ.is_some() || !certainly_free(*port, now(), usize::MAX) { continue; }
                let mut s = sim();
                if s.net.bound.contains_key(port) { continue; }
                if let Ok(l) = s.listen_port(*port, 100, None) { *s.net.bound.entry(*port).or_insert(0) += 1; let t = s.now; drop(s); let h = lh(); h.occ.push((*port, t, 0)); occ = Some((l, h.occ.len() - 1)); }
            }
            LOp::Free => free(&mut occ),
            LOp::Sleep { us } => sleep(*us as u64 * US),
        }
    }
    free(&mut occ);
    if let Some((s, id)) = server.take() { stop(&link, p, s, id); }
}
fn free(occ: &mut Option<(usize, usize)>) {
    if let Some((l, o)) = occ.take() { let port = lh().occ[o].0; { let mut s = sim(); s.actor_listen_close(l); s.net.bound.remove(&port); } lh().occ[o].2 = now(); }
}
fn stop(link: &Link0, p: &LPlan, s: Server, id: usize) {
    lh().inst[id].stop_call = now();
    // ongoing requests take up to 3 s here, idle connections are cut
    let bound = 10 * SEC + p.knobs.stall_budget_us * US;
    let g = sim().guard("shut.hang", format!("shutdown of server {id} did not return within {} s", bound / SEC), bound);
    let r = catch_unwind(AssertUnwindSafe(|| as_system(|| s.shutdown().map_err(|e| e.to_string()))));
    sim().unguard(g);
    let t = now();
    sim().tr(|| format!("shutdown of server {id} -> {r:?}"));
    sim().note(81, id as u64);
    match r { Err(_) => v("panic", format!("shutdown of server {id} panicked")), Ok(Err(e)) => v("shut.err", format!("shutdown of the running server {id} failed: {e}")), Ok(Ok(())) => {} }
    let n = lh().inst[id].running;
    if n > 0 { v("shut.late_handler", format!("{n} handlers of server {id} were running when its shutdown returned")); }
    lh().inst[id].stop_ret = t;
    let port = lh().inst[id].port;
    if certainly_free(port, t, usize::MAX) {
        let a = ask(link, port, 0, 0, now() + 10 * SEC);
        if a != Ans::Refused && certainly_free(port, t, usize::MAX) { v("life.still_reachable", format!("server {id} was shut down but a client of port {port} got {a:?}")); }
    }
}
pub fn drive(p: &LPlan) {
    let p = std::sync::Arc::new(p.clone());
    sim().faults_on = p.owners.len() > 1;
    let hs: Vec<_> = (0..p.owners.len()).map(|i| { let p = p.clone(); actor(&format!("owner{i}"), move || own(&p, i)) }).collect();
    for h in hs { let _ = h.join(); }
    sim().faults_on = false;
    sleep(70 * SEC);
    let link = Link0(p.lat_us as u64 * US);
    // waited servers still run; everything else is gone
    let waited: Vec<usize> = (0..lh().inst.len()).filter(|i| lh().inst[*i].waited).collect();
    for id in &waited { probe(&link, *id, "at the end, while another thread waits"); }
    if waited.is_empty() {
        sleep(SEC);
        let th = sim().live_sys_threads();
        if !th.is_empty() { let m = format!("all servers are stopped but threads are left: {}", sim().describe_threads()); v("shut.thread_left", m); }
        let fds: Vec<i32> = sim().net.fds.keys().copied().collect();
        if !fds.is_empty() { v("shut.conn_open", format!("all servers are stopped but {} descriptors are left: {fds:?}", fds.len())); }
    }
    for x in &crate::hist::hist().panics { if x.sys { v("panic", format!("{} panicked at {}: {}", x.thread, x.loc, x.msg)); break; } }
    let mut s = sim();
    let h = lh();
    s.stat("lifecycle operations", h.ops); s.stat("answers checked", h.probes); s.stat("starts that succeeded", h.inst.iter().filter(|i| i.up > 0).count() as u64); s.stat("calls that had to fail or did", h.errors); s.stat("servers left waiting", waited.len() as u64);
    s.nontrivial = h.ops >= 2 && h.inst.iter().any(|i| i.up > 0);
}
pub fn gen(g: &mut G) -> LPlan {
    let mut p = LPlan { knobs: g.client_knobs(), ..Default::default() };
    p.lat_us = *g.r.pick(&[5u32, 50, 500, 5000]);
    p.read_ms = *g.r.pick(&[3000u64, 10_000, 30_000]);
    let n = *g.r.pick(&[1u64, 1, 2, 2, 3, 4]);
    let ports: Vec<u16> = (0..g.r.range(1, 3)).map(|i| 8080 + i as u16).collect();
    let benign = ["recv:short", "send:short", "recv:EAGAIN after readiness", "send:EAGAIN after readiness", "futex:spurious wakeup", "epoll_wait:partial event set", "epoll_wait:EINTR"];
    for f in benign { if g.r.chance(200) { let pm = *g.r.pick(&[20u32, 100, 500]); p.knobs.faults.push(Rate { kind: f.into(), pm, max: 50, from: 0, to: u64::MAX }); } }
    if n == 1 && g.r.chance(600) {
        for _ in 0..g.r.range(1, 3) { let f = *g.r.pick(&["epoll_create1:EMFILE", "eventfd:EMFILE", "timerfd_create:EMFILE", "epoll_ctl(ADD):ENOMEM", "pthread_create:EAGAIN", "ioctl(FIONBIO):EINVAL", "setsockopt:error"]);
            if p.knobs.faults.iter().any(|x| x.kind == f) { continue; }
            let pm = *g.r.pick(&[200u32, 500, 1000]); let max = if f.starts_with("pthread") { 1 } else { *g.r.pick(&[1u32, 1, 2, 5]) }; p.knobs.faults.push(Rate { kind: f.into(), pm, max, from: 0, to: u64::MAX }); }
    }
    for _ in 0..n {
        let mut o = Owner { start_us: if g.r.chance(500) { 0 } else { g.r.below(20_000) }, ops: vec![] };
        let rounds = g.r.range(1, 5);
        for _ in 0..rounds {
            for _ in 0..g.r.below(3) { let x = g.r.below(8); o.ops.push(match x { 0 | 1 => LOp::Misuse { wait: g.r.chance(500), after_failure: false }, 2 | 3 => LOp::Invalid { what: g.r.below(8) as u8 }, 4 => LOp::Occupy { port: *g.r.pick(&ports) }, 5 => LOp::Free, _ => LOp::Sleep { us: g.r.below(30_000) as u32 } }); }
            let port = *g.r.pick(&ports);
            o.ops.push(LOp::Start { port, named: g.r.chance(150) });
            if g.r.chance(100) { o.ops.push(LOp::Misuse { wait: g.r.chance(500), after_failure: true }); }
            if g.r.chance(500) { o.ops.push(LOp::Start { port: *g.r.pick(&ports), named: false }); }
            for _ in 0..g.r.below(5) {
                let x = g.r.below(10);
                o.ops.push(match x { 0 | 1 => LOp::Again { port: if g.r.chance(400) { 0 } else { *g.r.pick(&[8080u16, 8081, 8082, 8083]) } }, 2 => LOp::Misuse { wait: g.r.chance(500), after_failure: false }, 3 => LOp::Invalid { what: g.r.below(8) as u8 }, 4 | 5 => LOp::Probe, 6 | 7 => LOp::Hold { us: *g.r.pick(&[100u32, 20_000, 800_000, 2_000_000]), busy: g.r.chance(600) }, _ => LOp::Sleep { us: *g.r.pick(&[10u32, 1000, 50_000, 1_000_000]) } });
            }
            if g.r.chance(60) { o.ops.push(LOp::Wait); } else { o.ops.push(LOp::Stop); }
        }
        p.owners.push(o);
    }
    p
}
