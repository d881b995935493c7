//! Plan generators (one profile per property) and the oracles that need to know the profile.
use crate::core::*;
use crate::hist::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::simfs::Change;
use crate::wire::{self, hex, P};

pub struct G { pub r: Rng, pub rid: u32, /** requests and responses without a body may come up where one could be expected */ pub bodyless: bool, /** handlers may answer with the body of the request */ pub echo: bool, pub table: Vec<(String, Vec<&'static str>)> }

const ROUTES: &[(&str, &[&str])] = &[("/a", &["GET", "POST", "DELETE", "HEAD"]), ("/bee", &["GET", "PUT", "HEAD", "POST"]), ("/c/deep/er", &["POST", "GET", "PATCH"]), ("/up", &["PUT", "POST", "OPTIONS"])];
/// What the server does with a request for a path: the index of the route that must attend it, or -1.
/// The longest registered path the normalised one starts with decides, the last handler added for its method attends.
pub fn attends(routes: &[(String, String)], normalised: &str, method: &str) -> i32 {
    let Some(best) = routes.iter().map(|r| r.0.as_str()).filter(|r| normalised.starts_with(r)).max_by_key(|r| r.len()) else { return -1 };
    routes.iter().rposition(|r| r.0 == best && r.1 == method).map(|i| i as i32).unwrap_or(-1)
}

pub fn classes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["req.", "bad.accepted", "probe.req.notrun", "resp.status", "resp.missing", "resp.cut", "conn.refused", "panic", "deadlock", "livelock", "abort", "life.start"],
        "C02" => &["resp.", "probe.resp.", "req.dup", "req.notrun", "conn.closed_early", "panic", "deadlock", "livelock", "abort", "life.start"],
        "C03" => &["resp.", "probe.", "req.dup", "req.afterclose", "conn.notclosed", "panic", "deadlock", "livelock", "abort"],
        "C04" => &["probe.", "req.", "resp.", "conn.", "panic", "over.refused", "shut.hang", "shut.err", "deadlock", "livelock", "abort", "life.start", "time."],
        "C05" => &["probe.", "req.dup", "req.data", "req.route", "req.body", "req.order", "req.partial", "req.phantom", "resp.body", "resp.status", "resp.framing", "resp.extra", "resp.header", "panic", "shut.", "over.refused", "conn.notclosed", "leak.", "deadlock", "livelock", "abort"],
        "C06" => &["time.read_late", "time.read_early", "req.", "resp.missing", "resp.cut", "conn.closed_early", "panic", "deadlock", "livelock", "abort"],
        "C07" => &["time.write_late", "time.write_early", "resp.", "conn.closed_early", "conn.notclosed", "panic", "deadlock", "livelock", "abort"],
        "C08" => &["over.", "probe.", "resp.", "req.notrun", "req.dup", "conn.", "panic", "leak.thread", "shut.hang", "shut.err", "deadlock", "livelock", "abort"],
        "C09" => &["shut.", "req.dup", "req.partial", "resp.body", "resp.framing", "resp.extra", "panic", "deadlock", "livelock", "abort"],
        "C10" => &["conn.", "resp.", "req.notrun", "req.afterclose", "probe.", "panic", "deadlock", "livelock", "abort"],
        "C11" => &["bad.", "req.", "conn.", "resp.", "probe.", "panic", "deadlock", "livelock", "abort"],
        "C12" => &["leak.", "shut.conn_open", "shut.thread_left", "panic", "deadlock", "livelock", "abort"],
        "C13" => &["tls.", "req.", "resp.", "conn.", "probe.", "time.", "panic", "leak.", "shut.hang", "deadlock", "livelock", "abort"],
        "C14" => &["cli.undelimited", "cli.wrong", "cli.mixed", "cli.reuse", "cli.failed", "cli.panic", "deadlock", "livelock", "abort"],
        "C15" => &["cli.errkind", "cli.hang", "cli.slow", "cli.truncated", "cli.wrong", "cli.panic", "cli.status", "deadlock", "livelock", "abort"],
        "C16" => &["pool.", "cli.reuse", "cli.panic", "cli.wrong", "cli.failed", "leak.", "deadlock", "livelock", "abort"],
        "C17" => &["static.", "probe.", "panic", "deadlock", "livelock", "abort"],
        "C18" => &["read.", "deadlock", "livelock", "abort"],
        "C19" => &["write.", "deadlock", "livelock", "abort"],
        "C20" => &["life.", "shut.", "panic", "deadlock", "livelock", "abort"],
        "C22" => &["req.", "resp.status", "resp.missing", "resp.cut", "panic", "deadlock", "livelock", "abort", "life.start"],
        "C24" => &["prog.", "panic", "deadlock", "livelock", "abort"],
        "C21" => &["req.", "resp.", "conn.", "panic", "deadlock", "livelock", "abort"],
        _ => &[],
    }
}
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C14" | "C15" | "C16" => "one seed = one generated set of caller threads, scripted servers, network timing, faults and thread schedule, run to its end with the real HTTP client; non-trivial: at least one call reached a server; distinct by the hash of the complete event log",
        "C18" | "C19" => "one seed = one generated message and one generated behaviour of the byte source or sink (split points, interruptions, failures) driven through the real reader or writer; non-trivial: at least one split or fault was applied; distinct by the hash of the message, the script and the result",
        "C24" => "one seed = one generated command line, configuration and file tree for one of the two programs, with clients, faults and thread schedule; the program's own main function runs until it exits or the clients are done; non-trivial: the program exited or at least one request was answered; distinct by the hash of the complete event log",
        "C20" => "one seed = one generated history of server starts, stops, waits and client calls with its thread schedule; non-trivial: at least two lifecycle operations; distinct by the hash of the complete event log",
        _ => "one seed = one generated workload (clients, requests, responses, timing), set of faults, network behaviour and thread schedule, run from server start to shutdown; non-trivial: at least one request was served and at least two connections were made; distinct by the hash of the complete event log",
    }
}
pub fn assumptions(_prop: &str) -> Vec<String> {
    vec!["the simulated kernel objects (TCP, epoll, eventfd, timerfd, files) behave like Linux in the respects modelled in dst/src/net.rs and simfs.rs".into(),
        "memory is sequentially consistent: one thread runs at a time; weak-memory effects are out of reach".into(),
        "preemption happens at control-flow edges of wruster/wruster_handlers and at intercepted calls, not inside dependencies".into(),
        "search samples schedules and faults; absence of a violation is evidence, not proof".into()]
}

impl G {
    fn knobs(&mut self) -> Knobs {
        let r = &mut self.r;
        let mut k = Knobs { cpus: *r.pick(&[1, 1, 2, 2, 3, 4, 8]), sched: *r.pick(&[0u8, 1, 1, 2]), slice_mean: *r.pick(&[0u32, 15, 40, 150, 600, 2500]), slice_pm: *r.pick(&[150u32, 500, 900]), ..Default::default() };
        if r.chance(300) { k.stall_pm = *r.pick(&[5u32, 30, 100]); k.stall_max_us = *r.pick(&[200u32, 5_000, 60_000]); k.stall_budget_us = 800_000; if k.slice_mean == 0 { k.slice_mean = 200; } }
        // Stalls at a few places of the code instead: what is meant to be short there is not.
        else if r.chance(400) {
            k.stall_pm = 1; k.stall_budget_us = 800_000;
            if r.chance(500) { k.hot = 1; k.hot_pm = *r.pick(&[5u32, 20, 60, 150]); k.stall_max_us = *r.pick(&[200u32, 3_000, 20_000]); }
            else { k.hot = *r.pick(&[40u32, 150, 500, 1500]); k.hot_r = r.below(k.hot as u64) as u32; k.hot_pm = *r.pick(&[1000u32, 500, 100]); k.stall_max_us = *r.pick(&[200u32, 5_000, 60_000, 400_000]); }
        }
        k.sndbuf = *r.pick(&[262144u32, 262144, 65536, 16384, 4608, 2304]);
        k.rcvbuf = *r.pick(&[131072u32, 131072, 32768, 4096, 1200]);
        k.log = *r.pick(&[0u8, 0, 0, 1, 2]);
        k
    }
    /// Like `knobs`, with a link for the connections the code under test makes.
    pub fn client_knobs(&mut self) -> Knobs {
        let mut k = self.knobs();
        k.mss = *self.r.pick(&[7u32, 100, 536, 1460, 1460, 65536]);
        k.lat_us = *self.r.pick(&[10u32, 50, 500, 5_000, 40_000]);
        k.jitter_us = if self.r.chance(500) { self.r.below(k.lat_us as u64 * 3 + 1) as u32 } else { 0 };
        k.seg_random = self.r.chance(300);
        k
    }
    fn benign(&mut self, k: &mut Knobs) {
        if self.r.chance(400) { return; }
        for f in ["recv:short", "send:short", "recv:EAGAIN after readiness", "send:EAGAIN after readiness", "futex:spurious wakeup", "epoll_wait:partial event set"] {
            if self.r.chance(450) { let pm = *self.r.pick(&[20u32, 100, 300, 700]); k.faults.push(Rate { kind: f.into(), pm, max: *self.r.pick(&[3u32, 20, 400]), from: 0, to: u64::MAX }); }
        }
    }
    /// A link whose transfer of `bytes` stays well below a second or two.
    fn link(&mut self, c: &mut Client, bytes: u64, k: &Knobs) {
        let r = &mut self.r;
        c.mss = *r.pick(&[1u32, 7, 100, 536, 1460, 1460, 9000, 65536]);
        while bytes / c.mss as u64 > 2500 { c.mss = (c.mss * 8).min(65536); if c.mss == 65536 { break; } }
        c.rcvbuf = *r.pick(&[600u32, 2048, 16384, 65536, 65536, 262144]);
        c.sndbuf = *r.pick(&[2048u32, 16384, 262144, 262144]);
        while bytes / c.rcvbuf as u64 > 400 { c.rcvbuf *= 4; }
        while bytes / c.sndbuf as u64 > 400 { c.sndbuf *= 4; }
        let w = (c.rcvbuf.min(c.sndbuf).min(k.rcvbuf).min(k.sndbuf)) as u64;
        let rtts = bytes / w + 3;
        let maxlat = (1_200_000 / (2 * rtts)).clamp(10, 40_000);
        c.lat_us = r.range(5, maxlat) as u32;
        if r.chance(400) { c.lat_us = 50.min(maxlat as u32); }
        if r.chance(500) { c.jitter_us = r.range(0, maxlat.min(20_000)) as u32; }
    }
    pub fn routes(&self) -> Vec<(String, String)> { self.table.iter().flat_map(|(p, ms)| ms.iter().map(move |m| (p.clone(), m.to_string()))).collect() }
    /// Routes below and beside each other; a route has the methods of those above it, unless `any`.
    fn nested(&mut self, any: bool) {
        const M: &[&str] = &["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"];
        const MANY: &[&str] = &["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "CONNECT"];
        let mut t: Vec<(String, Vec<&'static str>)> = vec![];
        let n = self.r.range(5, 12);
        let mut at = String::new();
        for _ in 0..n {
            if self.r.chance(350) { at.clear(); }
            let seg = *self.r.pick(&["/a", "/b", "/ab", "/a/b", "/aba", "/c/a/b", "b", "/"]);
            let mut path = if at.is_empty() && !seg.starts_with('/') { format!("/{seg}") } else { format!("{at}{seg}") };
            if path.len() > 1 && !any { path = path.trim_end_matches('/').to_string(); }
            if path.contains("//") { path = path.replace("//", "/"); }
            at = path.trim_end_matches('/').to_string();
            if !any && t.iter().any(|x| x.0 == path) { continue; }
            let all = if any { MANY } else { M };
            let mut ms: Vec<&'static str> = vec![];
            for _ in 0..self.r.range(1, 3) { let m = *self.r.pick(all); if !ms.contains(&m) { ms.push(m); } }
            t.push((path, ms));
        }
        if !any {
            t.sort_by_key(|x| x.0.len());
            for i in 0..t.len() { for j in 0..i { if t[i].0.starts_with(&t[j].0) { let up = t[j].1.clone(); for m in up { if !t[i].1.contains(&m) { t[i].1.push(m); } } } } }
        }
        // in any order
        for i in (1..t.len()).rev() { let j = self.r.below(i as u64 + 1) as usize; t.swap(i, j); }
        self.table = t;
    }
    fn status(&mut self) -> u16 { if self.bodyless && self.r.chance(120) { return *self.r.pick(&[204u16, 304, 204]); } if self.r.chance(200) { return *self.r.pick(&[203u16, 205, 300, 302, 303, 305, 307, 401, 402, 406, 407, 408, 411, 412, 414, 415, 416, 417, 503, 505]); } *self.r.pick(&[200u16, 200, 200, 201, 202, 206, 301, 400, 403, 404, 405, 409, 410, 413, 500, 501, 502, 504]) }
    fn size(&mut self, max: u32) -> u32 {
        let r = &mut self.r;
        let v = match r.below(10) { 0 => 0, 1 => 1, 2 | 3 => r.range(2, 40) as u32, 4 | 5 => r.range(41, 1500) as u32, 6 => *r.pick(&[511u32, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385]), 7 | 8 => r.range(1500, 20_000) as u32, _ => r.range(20_000, 120_000) as u32 };
        v.min(max)
    }
    fn resp(&mut self, max: u32) -> Rs {
        let kind = *self.r.pick(&[0u8, 1, 1, 2, 2, 3, 3, 4, 7, 8]);
        let len = if kind == 0 { 0 } else { self.size(max) };
        let status = self.status();
        let mut h = vec![];
        for i in 0..self.r.below(4) { let n = if self.r.chance(150) { self.r.token() } else { format!("X-Resp-{i}") }; if h.iter().any(|x: &(String, String)| x.0.eq_ignore_ascii_case(&n)) { continue; } h.push((n, format!("value {} {}", i, self.r.below(1000)))); }
        if self.r.chance(80) { h.push(("X-Multi".into(), "one".into())); h.push(("X-Multi".into(), "two".into())); }
        let chunk = if self.r.chance(400) { *self.r.pick(&[1u32, 7, 100, 1000, 8192]) } else { 0 };
        let chunk = if chunk > 0 && len / chunk > 3000 { 0 } else { chunk };
        Rs { kind, status, len, headers: h, src: Src { chunk, eintr: if self.r.chance(150) { *self.r.pick(&[2u32, 3, 7]) } else { 0 }, err_at: -1, ..Default::default() } }
    }
    pub fn req(&mut self, maxbody: u32, maxresp: u32) -> Req {
        self.rid += 1;
        let rid = self.rid;
        let (path, ms) = { let i = self.r.below(self.table.len() as u64) as usize; self.table[i].clone() };
        let mut m = self.r.below(ms.len() as u64) as usize;
        if !self.bodyless && ms[m] == "HEAD" { m = 0; }
        let path = path.trim_end_matches('/').to_string();
        let mut uri = format!("{path}/{rid}");
        let mut p = match self.r.below(12) { 0 => format!("{path}/./{rid}"), 1 => format!("{path}/x/../{rid}"), 2 => format!("{path}//{rid}"), 3 => format!("{path}/{rid}?q=1"), _ => uri.clone() };
        if p.contains('?') { uri = p.clone(); }
        if self.r.chance(60) { uri = format!("/zz/{rid}"); p = uri.clone(); }
        // nested routes: a path beside or below the route
        else if self.table.len() != ROUTES.len() && self.r.chance(500) { let q: String = path.chars().take(self.r.below(path.len() as u64 + 1) as usize).collect(); let t = *self.r.pick(&["", "/", "/a", "a", "ab/", "/b/c"]); let x = format!("{}{t}/{rid}", if q.is_empty() { "/" } else { &q }); uri = normal(&x); p = x; if p.starts_with("//") { p.remove(0); } }
        let method = ms[m].to_string();
        let route = attends(&self.routes(), &normal_keeping_query(&uri), &method);
        let body = if matches!(ms[m], "POST" | "PUT" | "PATCH") || self.r.chance(100) { self.size(maxbody) } else { 0 };
        let mut headers = vec![("Host".to_string(), "localhost".to_string())];
        for _ in 0..self.r.below(5) {
            let n = *self.r.pick(&["X-Tag", "x-tag-two", "ACCEPT", "User-Agent", "X_y.z~1", "Cookie", "x-b3-traceid", "Content-Type"]);
            let n = if self.r.chance(150) { self.r.token() } else { n.to_string() };
            if headers.iter().any(|h: &(String, String)| h.0.eq_ignore_ascii_case(&n)) && self.r.chance(700) { continue; }
            let v = match self.r.below(7) { 6 => (0..self.r.range(1, 30)).map(|i| if i % 3 == 1 { *self.r.pick(&['a', ' ', ';', '\t', '~', '!']) } else { char::from(self.r.range(0x80, 0xff) as u8) }).chain(['z']).collect(), 5 if n != "Content-Type" => String::new(), 0 => format!("v{}", self.r.below(100000)), 1 => "a: b, c; d=\"e f\"".into(), 2 => "*/*".into(), 3 => "x".repeat(self.r.range(1, 300) as usize), _ => format!("{}", self.r.below(10)) };
            // An invalid media type makes the request an invalid one.
            let v = if n == "Content-Type" { self.r.pick(&["text/plain", "application/json; charset=utf-8", "image/x-icon", "multipart/form-data; boundary=--x", "a/b"]).to_string() } else { v };
            headers.push((n, v));
        }
        let cl_name = if body > 0 || self.r.chance(150) { self.r.pick(&["Content-Length", "Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"]).to_string() } else { String::new() };
        let body_kind = if body > 20 { *self.r.pick(&[0u8, 0, 0, 1, 2]) } else { 0 };
        let (conn, version) = match self.r.below(10) { 0 => ("keep-alive", "HTTP/1.1"), 1 => ("Keep-Alive", "HTTP/1.0"), 2 => ("keep-alive", "HTTP/1.0"), _ => ("", "HTTP/1.1") };
        let read = *self.r.pick(&[0u8, 1, 1, 2, 2, 3, 4, 5]);
        let n = match read { 3 => if self.r.chance(500) { self.r.below(body as u64 + 1) as u32 } else { body }, 4 => *self.r.pick(&[1u32, 3, 64, 1000, 8192]), _ => 0 };
        let n = if read == 4 && body / n.max(1) > 3000 { 1000 } else { n };
        let h = H { read, n, pre_us: if self.r.chance(250) { self.r.range(1, 30_000) as u32 } else { 0 }, post_us: if self.r.chance(150) { self.r.range(1, 30_000) as u32 } else { 0 }, panic: 0, resp: self.resp(maxresp), mutate: 0 };
        let mut h = h;
        if self.r.chance(150) { h.mutate = self.r.range(1, 31) as u8; }
        if self.echo && body > 0 && self.r.chance(120) { h.resp = Rs { kind: 6, src: Src { err_at: -1, ..Default::default() }, status: *self.r.pick(&[200u16, 200, 201, 404]), ..h.resp }; }
        if headers.len() > 1 && self.r.chance(60) { let i = self.r.range(1, headers.len() as u64 - 1) as usize; if headers[i].0 != "Content-Type" { let x = headers[i].clone(); headers.push(x); } }
        let mut q = Req { rid, method, path: p, uri, route, version: version.into(), conn: conn.into(), conn_name: self.r.pick(&["Connection", "connection", "CONNECTION"]).to_string(), cl_name, headers, body, body_kind, h, ows: if self.r.chance(300) { self.r.range(1, 6) as u32 } else { 0 } };
        q.echo(); q
    }
    fn finalreq(&mut self, mut q: Req) -> Req {
        if self.r.chance(600) { q.version = "HTTP/1.1".into(); q.conn = self.r.pick(&["close", "Close", "CLOSE"]).to_string(); } else { q.version = "HTTP/1.0".into(); q.conn = String::new(); }
        q
    }
    fn chunks(&mut self, total: usize, maxgap_us: u64) -> Vec<(u32, u32)> {
        match self.r.below(5) {
            0 | 1 => vec![],
            2 => { let mut v = vec![]; let n = self.r.range(1, 6); for _ in 0..n { v.push((self.r.range(1, (total as u64 / n).max(1) * 2) as u32, self.r.below(maxgap_us / 8 + 1) as u32)); } v }
            3 => { let one = self.r.range(1, 60).min(total as u64); let g = if self.r.chance(400) { 1000.min(maxgap_us / 100) as u32 } else { 0 }; (0..one).map(|_| (1, g)).collect() }
            _ => { let cut = self.r.range(1, total.max(2) as u64 - 1) as u32; vec![(cut, 0), (u32::MAX, self.r.below(maxgap_us / 2 + 1) as u32)] }
        }
    }
    fn send(&mut self, q: Req, gap: u64) -> Op { let n = q.bytes().len(); let chunks = self.chunks(n, gap); Op::Send { req: q, cut: -1, chunks } }
    fn recv(&mut self, n: u32, slow: bool, len: u32) -> Op {
        if slow && self.r.chance(300) { let chunk = (*self.r.pick(&[1u32, 50, 500, 4000])).max(len / 300); return Op::Recv { n, chunk, delay_us: self.r.range(10, 6_000) as u32, wait_ms: 0 }; }
        Op::Recv { n, chunk: 0, delay_us: 0, wait_ms: 0 }
    }
    fn plan0(&mut self, nclients: usize) -> SPlan {
        let knobs = self.knobs();
        let _ = nclients;
        SPlan { knobs, read_ms: *self.r.pick(&[30_000u64, 30_000, 12_500]), write_ms: *self.r.pick(&[60_000u64, 20_500]), routes: self.routes(), idle_s: 2, patience_ms: 40_000, logmw: self.r.chance(100), ..Default::default() }
    }
    /// A well-behaved client: exchanges, then closing one way or another.
    fn good(&mut self, k: &Knobs, phase: u8, maxreq: u64, maxbody: u32, maxresp: u32, slow: bool) -> Client {
        let n = self.r.range(1, maxreq);
        let mut c = Client { phase, start_us: self.r.below(20_000), ..Default::default() };
        if self.r.chance(400) { c.start_us = 0; }
        let mut qs: Vec<Req> = (0..n).map(|_| self.req(maxbody, maxresp)).collect();
        if self.r.chance(400) { let q = qs.pop().unwrap(); let q = self.finalreq(q); qs.push(q); }
        let bytes = qs.iter().map(|q| (q.body as u64).max(q.h.resp.wire())).max().unwrap_or(0);
        self.link(&mut c, bytes, k);
        let mut open = true;
        for q in qs {
            open = q.persistent();
            let len = q.h.resp.len;
            let s = self.send(q, 400_000);
            c.ops.push(s);
            let rv = self.recv(1, slow, len);
            c.ops.push(rv);
            if self.r.chance(150) { c.ops.push(Op::Sleep { us: self.r.below(300_000) }); }
        }
        if !open { c.ops.push(Op::RecvEnd { wait_ms: 0 }); } else { match self.r.below(4) { 0 => c.ops.push(Op::Close), 1 => { c.ops.push(Op::ShutWr); c.ops.push(Op::RecvEnd { wait_ms: 0 }); } _ => {} } }
        c
    }
    fn probes(&mut self, p: &mut SPlan, n: u64) {
        for _ in 0..n {
            let k = p.knobs.clone();
            let mut c = self.good(&k, 1, 2, 3000, 3000, false);
            c.start_us = self.r.below(2000);
            p.clients.push(c);
        }
    }
    /// A client that misbehaves somewhere.
    fn bad(&mut self, k: &Knobs, read_ms: u64) -> Client {
        let mut c = Client { hostile: true, start_us: self.r.below(20_000), ..Default::default() };
        let q = self.req(20_000, 60_000);
        let total = q.bytes().len() as i64;
        self.link(&mut c, 60_000, k);
        if self.r.chance(300) { let q0 = self.req(2000, 2000); let len = q0.h.resp.len; let s = self.send(q0, 10_000); c.ops.push(s); let r = self.recv(1, false, len); c.ops.push(r); }
        match self.r.below(12) {
            0 => { c.ops.push(Op::Close); }
            1 => { c.ops.push(Op::Reset); }
            2 | 3 => { let cut = self.r.below(total as u64) as i64; c.ops.push(Op::Send { req: q, cut, chunks: vec![] }); c.ops.push(if self.r.chance(500) { Op::Close } else { Op::Reset }); }
            4 => { let cut = self.r.below(total as u64) as i64; c.ops.push(Op::Send { req: q, cut, chunks: vec![] }); c.ops.push(Op::ShutWr); c.ops.push(Op::ReadFor { ms: 2000, chunk: 0, delay_us: 0 }); }
            5 => { c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] }); if self.r.chance(500) { c.ops.push(Op::Sleep { us: self.r.below(30_000) }); } c.ops.push(if self.r.chance(300) { Op::Close } else { Op::Reset }); }
            6 => { let mut q = q; q.h.resp.len = 400_000; q.h.resp.kind = 2; q.h.resp.src.chunk = 0; q.h.resp.src.eintr = 0; c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] }); c.ops.push(Op::Sleep { us: self.r.below(3_000_000) }); c.ops.push(if self.r.chance(500) { Op::Close } else { Op::Reset }); }
            7 => { let (h, _) = self.malformed(); c.ops.push(Op::Raw { hex: h, want: 2, chunks: vec![] }); c.ops.push(Op::ReadFor { ms: 500, chunk: 0, delay_us: 0 }); }
            8 => { let n = self.r.range(1, 3000) as usize; let s = self.r.next(); c.ops.push(Op::Raw { hex: hex(&crate::rng::blob(s, n)), want: 2, chunks: vec![] }); c.ops.push(if self.r.chance(500) { Op::Close } else { Op::ReadFor { ms: 500, chunk: 0, delay_us: 0 } }); }
            9 => { let mut q = q; q.h.panic = *self.r.pick(&[1u8, 2]); if q.route < 0 { q.route = 0; q.path = format!("/a/{}", q.rid); q.uri = q.path.clone(); q.method = "GET".into(); } c.hostile = false; c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] }); c.ops.push(Op::RecvEnd { wait_ms: 0 }); }
            10 => { let cut = self.r.below(total as u64) as i64; c.ops.push(Op::Send { req: q, cut, chunks: vec![] }); c.ops.push(Op::Sleep { us: (read_ms * 1000) * 3 / 2 }); }
            _ => { let us = self.r.range(1, 3_000_000) as u32; c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] }); c.ops.push(Op::Partition { us }); c.ops.push(Op::ReadFor { ms: 4000, chunk: 0, delay_us: 0 }); }
        }
        c
    }
    /// (hex, want): want 1 = syntax error in the request line or headers
    fn malformed(&mut self) -> (String, u8) {
        let r = &mut self.r;
        let a = 910_000 + r.below(1000);
        let body = format!("GET /a/{} HTTP/1.1\r\n\r\n", 900_000 + r.below(1000));
        let (s, w): (String, u8) = match r.below(39) {
            0 => (format!("GET /a/{a}\r\n\r\n"), 1),
            1 => (format!("GET /a/{a} HTTP/1.1 extra\r\n\r\n"), 1),
            2 => (format!("FOO /a/{a} HTTP/1.1\r\n\r\n"), 1),
            3 => (format!("GET /a/{a} HTTQ/1.1\r\n\r\n"), 1),
            4 => (format!("GET /a/{a} HTTP/1.1\r\nNoColonHere\r\n\r\n"), 1),
            5 => (format!("GET /a/{a} HTTP/1.1\r\nHost: x\r\nAnother line\r\nX: y\r\n\r\n"), 1),
            6 => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length: abc\r\n\r\n{body}"), 0),
            7 => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length: -5\r\n\r\n{body}"), 0),
            8 => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 23\r\n\r\n{body}"), 0),
            9 => (format!("POST /a/{a} HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n{body}"), 0),
            10 => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\n{body}"), 0),
            11 => (format!("GET  /a/{a} HTTP/1.1\r\n\r\n"), 1),
            12 => ("\r\n\r\n\r\n".into(), 1),
            13 => (format!("GET /a/{a} HTTP/9.9\r\n\r\n"), 1),
            14 => (format!("GET /a/{a} HTTP/1.1\r\n: novalue\r\n\r\n"), 1),
            15 => (format!("GET /a/{a} HTTP/1.1\r\n{}\r\n\r\n", "B".repeat(r.range(1, 500) as usize)), 1),
            16 => (format!("get /a/{a} HTTP/1.1\r\n\r\n"), 1),
            17 => (format!("POST /a/{a} HTTP/1.1\r\ntransfer-encoding: gzip, chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n{body}"), 0),
            18 => (format!("POST /a/{a} HTTP/1.1\r\nCONTENT-LENGTH: 1x\r\n\r\n{body}"), 0),
            19 => (format!("POST /a/{a} HTTP/1.1\r\ncontent-length: 4\r\nContent-Length: 4\r\nCONTENT-LENGTH: 30\r\n\r\n{body}"), 0),
            20 => (format!("{} /a/{a} HTTP/1.1\r\n\r\n", "X".repeat(r.range(1, 300) as usize)), 1),
            21 => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length: +4\r\n\r\n{body}"), 0),
            22 => (format!("GET /a/{a} http/1.1\r\n\r\n"), 1),
            23 => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length : 4\r\n\r\n{body}"), 1),
            24 => (format!("GET /a/{a} HTTP/1.1\r\nHost: x\r\n folded: y\r\n\r\n"), 1),
            25 => (format!("GET /a/{a} HTTP/1.1\r\nX-Ctl: a{}b\r\n\r\n", *r.pick(&['\0', '\x01', '\x07', '\x1b', '\x7f', '\n', '\r'])), 1),
            26 => (format!("GET /a/{a} HTTP/1.1\nHost: x\n\r\n\r\n"), 1),
            27 => (format!("GET\t/a/{a}\tHTTP/1.1\r\n\r\n"), 1),
            28 => (format!(" GET /a/{a} HTTP/1.1\r\n\r\n"), 1),
            29 => (format!("GET /a/{a} HTTP/1.1 \r\n\r\n"), 1),
            30 => (format!("GET /a/{a} HTTP/1.1\r\n{}: v\r\n\r\n", *r.pick(&["X(y)", "X@y", "X[0]", "X/y", "X\"y", "X{y", "X y", "\u{7f}X"])), 1),
            31 => (format!("GET /a/{a} HTTP/1.1\r\nHost: x\n\r\n"), 1),
            32 => (format!("GET /a/{a} HTTP/1.1\r\nHost: x\r\n\n\r\n"), 1),
            33 => (format!("GET /a/{a} HTTP/1.1\r\nHost: x\nX-B: y\r\nX-C: z\r\n\r\n"), 1),
            34 => (format!("GET /a/{a} HTTP/1.1\r\nHost: x\r\r\nX-C: z\r\n\r\n"), 1),
            35 => (format!("POST /a/{a} HTTP/1.1\r\nTransfer-Encoding: identity\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n{body}"), 0),
            36 => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length: 0\r\ntransfer-encoding: identity\r\nTRANSFER-ENCODING: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n{body}"), 0),
            37 => (format!("GET /a/{a} {}\r\n\r\n", *r.pick(&["HTTP/1.x", "HTTP/x.1", "HTTP/1.1.1", "HTTP/", "HTTP", "HTTP/+1.1", "/1.1", "HTTPS/1.1", "HTTP/1.1\t", "HTTP/1.2", "HTTP/0.9"])), 1),
            _ => (format!("POST /a/{a} HTTP/1.1\r\nContent-Length: 4\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n{body}"), 0),
        };
        (hex(s.as_bytes()), w)
    }
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut g = G { r: Rng::new(mix(seed, 0xC0FFEE)), rid: 0,  echo: matches!(prop, "C01" | "C02" | "C04" | "C10" | "C11" | "C13" | "C21"), bodyless: matches!(prop, "C01" | "C02" | "C04" | "C09" | "C10" | "C13" | "C21" | "C22"), table: ROUTES.iter().map(|(p, m)| (p.to_string(), m.to_vec())).collect() };
    match prop {
        "C18" | "C19" => return Plan::Codec(crate::codec::gen(prop, &mut g)),
        "C14" | "C15" | "C16" => return Plan::Client(crate::client::gen(prop, &mut g)),
        "C20" => return Plan::Life(crate::life::gen(&mut g)),
        "C24" => return Plan::Prog(crate::prog::gen(&mut g)),
        _ => {}
    }
    let p = match prop {
        "C01" | "C02" => g.exchange(prop),
        "C03" => g.incomplete_responses(),
        "C04" => g.bad_clients(),
        "C05" => g.os_faults(),
        "C06" => g.read_timeouts(),
        "C07" => g.write_timeouts(),
        "C08" => g.overload(),
        "C09" => g.shutdown(),
        "C10" => g.persistence(),
        "C11" => g.garbage(),
        "C12" => g.leaks(),
        "C13" => g.tls(seed),
        "C17" => g.statics(),
        "C21" => g.pipeline(),
        "C22" => g.routing(),
        _ => panic!("unknown property {prop}"),
    };
    let mut p = p;
    for c in &mut p.clients { for o in &mut c.ops { if let Op::Send { req, .. } = o { req.echo(); } } }
    Plan::Server(p)
}

impl G {
    fn exchange(&mut self, prop: &str) -> SPlan {
        let n = *self.r.pick(&[1usize, 2, 2, 3, 4, 6, 10]);
        if prop == "C01" && self.r.chance(350) { self.nested(false); }
        let mut p = self.plan0(n);
        let mut k = p.knobs.clone();
        self.benign(&mut k);
        k.seg_random = self.r.chance(300);
        p.knobs = k.clone();
        let big = self.r.chance(40);
        for _ in 0..n {
            let (mb, mr) = if prop == "C01" { (120_000, 8_000) } else { (8_000, if big { 3_000_000 } else { 120_000 }) };
            let mut c = self.good(&k, 0, if n > 4 { 3 } else { 6 }, mb, mr, prop == "C02");
            if big && prop == "C02" { for o in &mut c.ops { if let Op::Send { req, .. } = o { if (2..5).contains(&req.h.resp.kind) && self.r.chance(300) { req.h.resp.len = self.r.range(1_900_000, 2_600_000) as u32; req.h.resp.src.chunk = *self.r.pick(&[0u32, 0, 8192, 10_000]); req.h.resp.src.eintr = *self.r.pick(&[0u32, 0, 3, 7, 50]); } } } c.mss = 65536; c.rcvbuf = 262144; c.lat_us = 100; c.jitter_us = 0; for o in &mut c.ops { if let Op::Recv { chunk, delay_us, .. } = o { if *chunk > 0 { *chunk = 65536; *delay_us = (*delay_us).min(2000); } } } }
            if self.r.chance(150) { let at = self.r.below(c.ops.len() as u64) as usize; c.ops.insert(at, Op::Partition { us: self.r.range(1000, 1_500_000) as u32 }); }
            p.clients.push(c);
        }
        if prop == "C01" && self.r.chance(300) {
            // a request that is never completed
            let mut c = Client { ..Default::default() };
            let q = self.req(20_000, 1000); let total = q.bytes().len() as u64;
            self.link(&mut c, 20_000, &k);
            let cut = self.r.below(total) as i64;
            c.ops.push(Op::Send { req: q, cut, chunks: vec![] });
            match self.r.below(3) { 0 => c.ops.push(Op::Close), 1 => c.ops.push(Op::Reset), _ => { c.ops.push(Op::ShutWr); c.ops.push(Op::RecvEnd { wait_ms: 0 }); } }
            p.clients.push(c);
        }
        if big { p.knobs.mss = 65536; p.knobs.seg_random = false; p.knobs.sndbuf = 262144; p.knobs.faults.retain(|f| !f.kind.contains("short")); }
        p
    }
    fn incomplete_responses(&mut self) -> SPlan {
        let n = *self.r.pick(&[1usize, 2, 3, 4]);
        let mut p = self.plan0(n);
        let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
        p.write_ms = 8_000;
        for _ in 0..n {
            let mut c = self.good(&k, 0, 4, 4_000, 60_000, false);
            c.ops.retain(|o| !matches!(o, Op::Close | Op::ShutWr | Op::Sleep { .. }));
            let stop_reading = self.r.chance(150);
            if self.r.chance(300) {
                // all the requests before the first response
                let (mut a, b): (Vec<Op>, Vec<Op>) = std::mem::take(&mut c.ops).into_iter().partition(|o| matches!(o, Op::Send { .. }));
                a.extend(b); c.ops = a;
                c.sndbuf = c.sndbuf.max(65536);
            }
            let nsend = c.ops.iter().filter(|o| matches!(o, Op::Send { .. })).count() as u64;
            let victim = self.r.below(nsend);
            let mut i = 0;
            for o in &mut c.ops { if let Op::Send { req, .. } = o {
                if i == victim || self.r.chance(150) {
                    let s = &mut req.h.resp;
                    if s.kind < 2 || s.kind > 4 { s.kind = *self.r.pick(&[2u8, 3, 4]); }
                    if self.r.chance(200) { s.len = self.r.range(2_000_000, 2_300_000) as u32; s.src.chunk = 0; s.src.eintr = 0; }
                    s.len = s.len.max(1);
                    match self.r.below(4) {
                        0 => s.src.err_at = self.r.below(s.len as u64) as i64,
                        1 => s.src.short = self.r.range(1, s.len as u64) as u32,
                        2 => s.src.extra = *self.r.pick(&[1u32, 5, 100, 9000]),
                        _ => { s.src.extra = 0; }
                    }
                    if req.route < 0 { req.route = 0; req.path = format!("/a/{}", req.rid); req.uri = req.path.clone(); req.method = "GET".into(); }
                }
                i += 1;
            } }
            let biggest = c.ops.iter().filter_map(|o| if let Op::Send { req, .. } = o { Some(req.h.resp.len) } else { None }).max().unwrap_or(0);
            if biggest > 200_000 { c.mss = 65536; c.rcvbuf = 262144; c.lat_us = 100; c.jitter_us = 0; }
            if stop_reading {
                c.hostile = true;
                let mut q = self.req(0, 100); q.h.resp.kind = 2; q.h.resp.len = 900_000; q.h.resp.src = Src { err_at: -1, ..Default::default() };
                let at = c.ops.iter().position(|o| matches!(o, Op::Recv { .. })).unwrap_or(0);
                c.ops.truncate(at + 1);
                c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] });
                c.ops.push(Op::ReadFor { ms: 50, chunk: 4000, delay_us: 1000 });
                c.ops.push(Op::Sleep { us: 12_000_000 });
                c.ops.push(Op::RecvEnd { wait_ms: 20_000 });
            } else { c.ops.push(Op::RecvEnd { wait_ms: (p.read_ms * 2) as u32 }); }
            p.clients.push(c);
        }
        if p.knobs.sndbuf < 16384 { p.knobs.sndbuf = 65536; }
        self.probes(&mut p, 1);
        p
    }
    fn bad_clients(&mut self) -> SPlan {
        let mut p = self.plan0(4);
        p.read_ms = *self.r.pick(&[4_000u64, 12_500]); p.write_ms = *self.r.pick(&[4_000u64, 15_000]);
        let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
        if self.r.chance(60) {
            // many bad clients: capacity must survive
            p.knobs.slice_mean = 0; p.knobs.stall_pm = 0; p.knobs.faults.clear();
            let nb = self.r.range(100, 130);
            let only_panics = self.r.chance(600);
            for i in 0..nb { let mut c = loop { let c = self.bad(&k, p.read_ms); if !only_panics || c.ops.iter().any(|o| matches!(o, Op::Send { req, .. } if req.h.panic > 0)) { break c; } }; c.start_us = i * 60_000; c.mss = 65536; p.clients.push(c); }
            p.idle_s = 20;
            for i in 0..95u64 { let mut q = self.req(0, 200); q.h.pre_us = 3_000_000; q.version = "HTTP/1.1".into(); q.conn = String::new(); if q.route < 0 { q.h.pre_us = 0; } let mut c = Client { phase: 1, start_us: i * 2000, ..Default::default() }; self.link(&mut c, 0, &k); c.mss = 65536; c.ops = vec![Op::Send { req: q, cut: -1, chunks: vec![] }, Op::Recv { n: 1, chunk: 0, delay_us: 0, wait_ms: 0 }]; p.clients.push(c); }
            return p;
        }
        p.tls = self.r.chance(200);
        for _ in 0..self.r.range(1, 6) {
            let mut c = self.bad(&k, p.read_ms);
            // silent, garbage or cut within the handshake
            if p.tls && self.r.chance(600) { c.tls_mode = *self.r.pick(&[1u8, 2, 2, 3, 4]); c.tls_n = *self.r.pick(&[0u32, 0, 1, 5, 100, 200]); c.hostile = true; c.ops = vec![Op::ReadFor { ms: *self.r.pick(&[200u32, 20_000]), chunk: 0, delay_us: 0 }]; }
            p.clients.push(c);
        }
        for _ in 0..self.r.range(1, 3) { let c = self.good(&k, 0, 4, 8_000, 20_000, false); p.clients.push(c); }
        p.idle_s = 1;
        self.probes(&mut p, 2);
        p
    }
    fn os_faults(&mut self) -> SPlan {
        let mut p = self.plan0(4);
        p.lossy = true;
        p.read_ms = *self.r.pick(&[5_000u64, 12_500]); p.write_ms = 10_000;
        let kinds = ["accept:ECONNABORTED", "accept:connection gone", "accept:EMFILE", "accept:ENFILE", "accept:ENOBUFS", "accept:EINTR", "accept:EPROTO", "epoll_wait:EINTR", "epoll_create1:EMFILE", "eventfd:EMFILE", "timerfd_create:EMFILE",
            "epoll_ctl(ADD):ENOMEM", "pthread_create:EAGAIN", "recv:EINTR", "send:EINTR", "send:ENOBUFS", "recv:ENOMEM", "ioctl(FIONBIO):EINVAL", "shutdown:ENOTCONN", "fcntl(F_DUPFD):EMFILE", "setsockopt:error"];
        let mut k = p.knobs.clone();
        self.benign(&mut k);
        for _ in 0..self.r.range(1, 4) { let f = *self.r.pick(&kinds); if k.faults.iter().any(|x| x.kind == f) { continue; } k.faults.push(Rate { kind: f.into(), pm: *self.r.pick(&[30u32, 150, 500, 1000]), max: *self.r.pick(&[1u32, 1, 2, 5, 20]), from: 0, to: u64::MAX }); }
        p.tls = self.r.chance(150);
        // 4 descriptors for the server and 4 or 5 more per connection
        if self.r.chance(200) { k.fd_limit = self.r.range(9, 24) as u32; }
        p.knobs = k.clone();
        let many = if k.fd_limit > 0 { self.r.range(6, 20) } else { self.r.range(2, 8) };
        for _ in 0..many { let mut c = self.good(&k, 0, 2, 3_000, 8_000, false); c.start_us = self.r.below(60_000); p.clients.push(c); }
        // faults are off after phase 0; the descriptor limit is not, so probes stay few
        p.idle_s = 14;
        if self.r.chance(850) { self.probes(&mut p, 1); }
        p
    }
    fn read_timeouts(&mut self) -> SPlan {
        let mut p = self.plan0(4);
        p.read_ms = *self.r.pick(&[300u64, 700, 1_000, 1_500, 2_000, 2_700, 5_000, 10_000]); p.write_ms = 20_000;
        p.tls = self.r.chance(200);
        p.knobs.stall_pm = 0;
        let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
        let rt = p.read_ms * 1000;
        for _ in 0..self.r.range(1, 5) {
            let mut c = Client { start_us: self.r.below(rt), ..Default::default() };
            let mut q0 = self.req(400, 300);
            let total0 = q0.bytes().len() as u64;
            q0.h.pre_us = 0; q0.h.post_us = 0;
            self.link(&mut c, 2000, &k);
            c.mss = c.mss.max(100); c.rcvbuf = 65536; c.sndbuf = 262144; c.lat_us = self.r.range(10, (rt / 100).min(5000)) as u32; c.jitter_us = c.jitter_us.min(c.lat_us);
            // some exchanges within the timeout, late in it
            for _ in 0..self.r.below(4) {
                let mut q = self.req(400, 300); q.h.pre_us = 0; q.h.post_us = 0; q.version = "HTTP/1.1".into(); q.conn = String::new();
                let total = q.bytes().len() as u64;
                let budget = self.r.range(rt / 20, rt * 45 / 100);
                let pieces = self.r.range(1, 12).min(total);
                let wait0 = self.r.below(budget / 2 + 1);
                let gap = (budget - wait0) / pieces;
                c.ops.push(Op::Sleep { us: wait0 });
                let sz = (total / pieces).max(1) as u32;
                c.ops.push(Op::Send { req: q, cut: -1, chunks: (0..pieces - 1).map(|_| (sz, gap as u32)).collect() });
                c.ops.push(Op::Recv { n: 1, chunk: 0, delay_us: 0, wait_ms: 0 });
            }
            let total = total0;
            let wait = (p.read_ms * 3 + 4000) as u32;
            match self.r.below(7) {
                0 => {}
                1 => c.ops.push(Op::RecvEnd { wait_ms: wait }),
                2 => { let cut = self.r.below(total) as i64; c.ops.push(Op::Send { req: q0, cut, chunks: vec![] }); c.ops.push(Op::RecvEnd { wait_ms: wait }); }
                3 | 4 => { // drips for longer than the timeout, never pausing for long
                    let per = self.r.range(8, 40); let gap = rt * 2 / per; let sz = (total / (per + 2)).max(1) as u32;
                    c.ops.push(Op::Send { req: q0, cut: -1, chunks: (0..per).map(|_| (sz, gap as u32)).collect() }); c.ops.push(Op::RecvEnd { wait_ms: wait }); }
                5 => { // the body drips
                    let mut q = self.req(400, 300); q.h.pre_us = 0; q.h.post_us = 0; q.method = "POST".into(); q.route = 1; q.path = format!("/a/{}", q.rid); q.uri = q.path.clone(); q.body = self.r.range(60, 400) as u32; q.cl_name = "Content-Length".into();
                    let total = q.bytes().len() as u64; let head = (total - q.body as u64) as u32; let per = self.r.range(8, 40); let gap = rt * 2 / per;
                    let mut ch = vec![(head, 0)]; for _ in 0..per { ch.push((1, gap as u32)); }
                    c.ops.push(Op::Send { req: q, cut: -1, chunks: ch }); c.ops.push(Op::RecvEnd { wait_ms: wait }); }
                _ => { let n = self.r.range(1, total - 1) as u32; c.ops.push(Op::Send { req: q0, cut: -1, chunks: vec![(n, 0), (u32::MAX, (rt * 17 / 10) as u32)] }); c.ops.push(Op::RecvEnd { wait_ms: wait }); }
            }
            p.clients.push(c);
        }
        p
    }
    fn write_timeouts(&mut self) -> SPlan {
        let mut p = self.plan0(4);
        p.write_ms = *self.r.pick(&[400u64, 900, 1_000, 1_500, 2_000, 2_700, 5_000, 10_000]); p.read_ms = 60_000;
        p.tls = self.r.chance(200);
        // the time for reading is not the time for writing: one request per connection, as the next one could be late
        let short = self.r.chance(250);
        if short { p.read_ms = p.write_ms / *self.r.pick(&[4u64, 8]); p.tls = self.r.chance(600); }
        p.knobs.stall_pm = 0;
        p.knobs.sndbuf = *self.r.pick(&[2304u32, 4608, 16384]);
        p.knobs.rcvbuf = 131072;
        let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
        let wt = p.write_ms * 1000;
        for _ in 0..self.r.range(1, 4) {
            let mut c = Client { start_us: self.r.below(wt), ..Default::default() };
            c.rcvbuf = *self.r.pick(&[1000u32, 3000, 10_000]); c.sndbuf = 262144; c.mss = *self.r.pick(&[536u32, 1460, 65536]); c.lat_us = self.r.range(10, 1000) as u32;
            let inflight = (k.sndbuf + c.rcvbuf) as u64 + 3000;
            for _ in 0..if short { 1 } else { self.r.below(3) } {
                // slow but within the timeout
                let mut q = self.req(0, 10); q.h.pre_us = 0; q.h.post_us = 0; q.version = "HTTP/1.1".into(); q.conn = if short { "close".into() } else { String::new() }; q.body = 0; q.cl_name = String::new();
                q.h.resp = Rs { kind: *self.r.pick(&[2u8, 3, 4]), status: 200, len: self.r.range(1, inflight * 3) as u32, headers: vec![], src: Src { err_at: -1, ..Default::default() } };
                let len = q.h.resp.len;
                c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] });
                if self.r.chance(500) { c.ops.push(Op::Sleep { us: self.r.below(wt * 40 / 100) }); c.ops.push(Op::Recv { n: 1, chunk: 0, delay_us: 0, wait_ms: 0 }); }
                else { let steps = self.r.range(2, 30); let chunk = (len as u64 / steps + 1).max(200); let per = wt * 35 / 100 / (len as u64 / chunk + 2); c.ops.push(Op::Recv { n: 1, chunk: chunk as u32, delay_us: per as u32, wait_ms: 0 }); }
            }
            if short { p.clients.push(c); continue; }
            let mut q = self.req(0, 10); q.h.pre_us = 0; q.h.post_us = 0; q.body = 0; q.cl_name = String::new(); if q.route < 0 { q.route = 0; q.path = format!("/a/{}", q.rid); q.uri = q.path.clone(); q.method = "GET".into(); }
            q.h.resp = Rs { kind: *self.r.pick(&[2u8, 3, 4]), status: 200, len: 0, headers: vec![], src: Src { err_at: -1, ..Default::default() } };
            match self.r.below(4) {
                0 => {}
                1 => { // stops reading
                    q.h.resp.len = (inflight * 2 + self.r.below(400_000)) as u32; c.hostile = true;
                    c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] }); c.ops.push(Op::Sleep { us: wt * 3 }); c.ops.push(Op::RecvEnd { wait_ms: (p.write_ms * 2 + 20_000) as u32 }); }
                _ => { // accepts a little now and then; in total far too slow
                    let per = self.r.range(6, 30); // reads per timeout
                    let chunk = self.r.range(50, 800);
                    q.h.resp.len = (inflight * 2 + chunk * per * 6 + self.r.below(100_000)) as u32; c.hostile = true;
                    c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] });
                    c.ops.push(Op::ReadFor { ms: (p.write_ms * 3) as u32, chunk: chunk as u32, delay_us: (wt / per) as u32 });
                    c.ops.push(Op::RecvEnd { wait_ms: (p.write_ms * 2 + 20_000) as u32 }); }
            }
            p.clients.push(c);
        }
        p
    }
    fn overload(&mut self) -> SPlan {
        let mut p = self.plan0(120);
        p.overload = true;
        p.tls = self.r.chance(120);
        p.knobs.slice_mean = *self.r.pick(&[0u32, 0, 300, 3000]); p.knobs.stall_pm = 0; p.knobs.log = 0;
        p.knobs.cpus = *self.r.pick(&[1u32, 2, 4, 8, 16, 64]);
        p.knobs.rcvbuf = 131072; p.knobs.sndbuf = 262144;
        p.read_ms = 30_000;
        let mut mk = |g: &mut G, phase: u8, start: u64, hold_us: u32| {
            let mut q = g.req(0, 2000); q.body = 0; q.cl_name = String::new(); q.version = "HTTP/1.1".into(); q.conn = String::new();
            if q.route < 0 { q.route = 0; q.path = format!("/a/{}", q.rid); q.uri = q.path.clone(); q.method = "GET".into(); }
            q.h = H { pre_us: hold_us, resp: Rs { kind: 2, status: 200, len: g.r.below(3000) as u32, headers: vec![], src: Src { err_at: -1, ..Default::default() } }, ..Default::default() };
            Client { phase, start_us: start, lat_us: g.r.range(10, 300) as u32, mss: 65536, rcvbuf: 65536, sndbuf: 65536, ops: vec![Op::Send { req: q, cut: -1, chunks: vec![] }, Op::Recv { n: 1, chunk: 0, delay_us: 0, wait_ms: 0 }], ..Default::default() }
        };
        if self.r.chance(350) {
            // the server is full, and stays so: whenever one leaves another one comes
            let n = *self.r.pick(&[100u64, 100, 100, 99]);
            let step = *self.r.pick(&[2_000u64, 2_000, 0, 20_000]);
            let turns = self.r.range(1, 8);
            let first = n * step + 500_000;
            let mut open: Vec<usize> = vec![];
            for i in 0..n { let mut c = mk(self, 0, i * step, 1000); c.ops.push(Op::Sleep { us: 0 }); open.push(p.clients.len()); p.clients.push(c); }
            for j in 0..turns {
                let t = first + j * 2_500_000;
                let k = match self.r.below(5) { 0 | 1 => open.len() - 1, 2 => 0, _ => self.r.below(open.len() as u64) as usize };
                let who = open.remove(k);
                let c = &mut p.clients[who];
                let us = t - c.start_us; // the exchange itself takes a few milliseconds
                c.ops.pop(); c.ops.push(Op::Sleep { us }); c.ops.push(if self.r.chance(700) { Op::Close } else { Op::Reset });
                let mut c = mk(self, 0, t + 1_500_000, 1000); c.ops.push(Op::Sleep { us: 0 }); open.push(p.clients.len()); p.clients.push(c);
            }
            let end = first + turns * 2_500_000 + 2_000_000;
            for i in open { let c = &mut p.clients[i]; let us = end - c.start_us; c.ops.pop(); c.ops.push(Op::Sleep { us }); }
            // full again: one more is refused
            if n == 100 && self.r.chance(500) { let mut c = mk(self, 0, end - 1_000_000, 1000); c.ops.push(Op::RecvEnd { wait_ms: 1500 }); p.clients.push(c); }
            p.idle_s = *self.r.pick(&[1u32, 4, 12]);
            for i in 0..*self.r.pick(&[1u64, 3, 20]) { let c = mk(self, 1, i * 3000, 1000); p.clients.push(c); }
            return p;
        }
        let n = *self.r.pick(&[100u64, 100, 100, 99, 101, 98]);
        let spread = *self.r.pick(&[0u64, 500_000]);
        for i in 0..n { let s = if spread == 0 { 0 } else { i * spread / 100 }; let mut c = mk(self, 0, s, 6_000_000); if self.r.chance(200) { // a kept-open idle connection is being served, too
                if let Op::Send { req, .. } = &mut c.ops[0] { req.h.pre_us = 0; } c.ops.push(Op::Sleep { us: 6_000_000 }); } p.clients.push(c); }
        for _ in 0..self.r.range(1, 12) { let s = 3_000_000 + self.r.below(1_500_000); let mut c = mk(self, 0, s, 1000); c.ops.push(Op::RecvEnd { wait_ms: 1500 }); if self.r.chance(150) { c.hostile = true; c.ops = vec![if self.r.chance(500) { Op::Close } else { Op::Reset }]; } p.clients.push(c); }
        // after release
        p.idle_s = *self.r.pick(&[1u32, 4, 12]);
        let n2 = *self.r.pick(&[1u64, 3, 20, 99]);
        for i in 0..n2 { let s = i * 3000; let c = mk(self, 1, s, if n2 > 20 { 3_000_000 } else { 1000 }); p.clients.push(c); }
        p
    }
    fn shutdown(&mut self) -> SPlan {
        let mut p = self.plan0(5);
        p.read_ms = 30_000; p.write_ms = 20_000;
        let mut k = p.knobs.clone(); self.benign(&mut k); k.rcvbuf = 131072; p.knobs = k.clone();
        p.tls = self.r.chance(120);
        let at = self.r.range(20_000, 1_500_000);
        p.shutdown_us = at;
        for _ in 0..self.r.range(1, 7) {
            let mut c = Client { start_us: self.r.below(at / 2 + 1), ..Default::default() };
            self.link(&mut c, 60_000, &k);
            c.lat_us = c.lat_us.min(2000); c.jitter_us = c.jitter_us.min(2000); c.mss = c.mss.max(536);
            match self.r.below(12) {
                11 => { // leaves just about when the shutdown begins
                    let j = *self.r.pick(&[60u64, 600, 4_000, 40_000]);
                    c.ops.push(Op::Sleep { us: (at - c.start_us + self.r.below(2 * j)).saturating_sub(j + c.lat_us as u64) });
                    c.ops.push(if self.r.chance(700) { Op::Close } else { Op::Reset });
                }
                8 => { // leaves before the shutdown
                    c.start_us = self.r.below(at / 4 + 1);
                    for _ in 0..self.r.below(3) { let mut q = self.req(500, 1000); q.version = "HTTP/1.1".into(); q.conn = String::new(); let len = q.h.resp.len; let s = self.send(q, 1000); c.ops.push(s); let rv = self.recv(1, false, len); c.ops.push(rv); }
                    c.ops.push(if self.r.chance(700) { Op::Close } else { Op::Reset });
                }
                9 => { let mut q = self.req(500, 1000); q.version = "HTTP/1.1".into(); q.conn = String::new(); let len = q.h.resp.len; let s = self.send(q, 1000); c.ops.push(s); let rv = self.recv(1, false, len); c.ops.push(rv); c.ops.push(Op::RecvEnd { wait_ms: 0 }); } // idle after an exchange
                0 | 10 => { c.ops.push(Op::RecvEnd { wait_ms: 0 }); } // idle
                1 => { let q = self.req(2000, 100); let t = q.bytes().len() as u64; let cut = self.r.below(t) as i64; c.ops.push(Op::Send { req: q, cut, chunks: vec![] }); c.ops.push(Op::RecvEnd { wait_ms: 0 }); }
                2 => { let q = self.req(2000, 8000); let len = q.h.resp.len; let pers = q.persistent(); let s = self.send(q, 1000); c.ops.push(s); let rv = self.recv(1, false, len); c.ops.push(rv); let _ = pers; c.ops.push(Op::RecvEnd { wait_ms: 0 }); }
                _ => {
                    // one request that is likely to be in progress
                    let mut q = self.req(2000, 200_000);
                    q.h.pre_us = self.r.below(at * 2) as u32;
                    if self.r.chance(300) { q.h.resp.src.delay_us = self.r.range(1, 20_000) as u32; q.h.resp.src.delay_every = 1; q.h.resp.src.chunk = (q.h.resp.len / 40).max(1); }
                    if q.h.resp.len > 20_000 { c.mss = 65536; }
                    let len = q.h.resp.len;
                    c.ops.push(Op::Send { req: q, cut: -1, chunks: vec![] });
                    if self.r.chance(300) { c.ops.push(Op::Recv { n: 1, chunk: (len / 60).max(1), delay_us: self.r.range(100, 20_000) as u32, wait_ms: 0 }); } else { c.ops.push(Op::Recv { n: 1, chunk: 0, delay_us: 0, wait_ms: 0 }); }
                    c.ops.push(Op::RecvEnd { wait_ms: 0 });
                }
            }
            p.clients.push(c);
        }
        p
    }
    fn persistence(&mut self) -> SPlan {
        let mut p = self.plan0(3);
        p.read_ms = *self.r.pick(&[3_000u64, 8_000, 30_000]);
        let mut k = p.knobs.clone(); self.benign(&mut k); k.stall_pm = 0; p.knobs = k.clone();
        for _ in 0..self.r.range(1, 4) {
            let mut c = Client::default();
            self.link(&mut c, 4000, &k);
            let n = match self.r.below(400) { 0..=15 => 60, 16..=18 => self.r.range(101, 300), 19 => self.r.range(1001, 2300), _ => self.r.range(1, 9) };
            if n > 60 { p.knobs.slice_mean = 0; c.mss = 65536; c.lat_us = 50; c.jitter_us = 0; p.read_ms = 30_000; }
            let mut open = true;
            for i in 0..n {
                let mut q = if n > 300 { self.req(60, 200) } else { self.req(2000, 3000) };
                if n > 300 { q.h.pre_us = q.h.pre_us.min(300); }
                q.version = self.r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]).to_string();
                let close = if n < 60 { self.r.chance(120) } else { i + 1 == n && self.r.chance(500) };
                q.conn = match (q.version.as_str(), close) { ("HTTP/1.1", false) => self.r.pick(&["", "", "keep-alive", "Keep-Alive", "upgrade"]).to_string(), ("HTTP/1.1", true) => self.r.pick(&["close", "Close", "CLOSE"]).to_string(), (_, false) => self.r.pick(&["keep-alive", "Keep-Alive", "KEEP-ALIVE"]).to_string(), _ => self.r.pick(&["", "close", "Close"]).to_string() };
                open = q.persistent();
                let len = q.h.resp.len;
                let s = self.send(q, 100_000); c.ops.push(s);
                let rv = self.recv(1, false, len); c.ops.push(rv);
                if !open { break; }
                if self.r.chance(if n < 60 { 250 } else { 15 }) { c.ops.push(Op::Sleep { us: self.r.below(p.read_ms * 600) }); }
            }
            if !open { c.ops.push(Op::RecvEnd { wait_ms: 2500 }); }
            p.clients.push(c);
        }
        p
    }
    fn garbage(&mut self) -> SPlan {
        let mut p = self.plan0(3);
        p.read_ms = 5_000;
        let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
        for _ in 0..self.r.range(1, 4) {
            let mut c = Client::default();
            self.link(&mut c, 20_000, &k);
            for _ in 0..self.r.below(3) { // lookalike bodies, header case, partly read
                let mut q = self.req(4000, 1000);
                if q.body < 30 { q.body = self.r.range(30, 9000) as u32; }
                q.body_kind = *self.r.pick(&[1u8, 1, 2]); q.cl_name = self.r.pick(&["Content-Length", "content-length", "CONTENT-LENGTH", "cOnTeNt-LeNgTh"]).to_string();
                q.h.read = *self.r.pick(&[0u8, 0, 3, 3, 5, 1, 2]); q.h.n = self.r.below(q.body as u64) as u32;
                q.version = "HTTP/1.1".into(); q.conn = String::new();
                let len = q.h.resp.len;
                let s = self.send(q, 200_000); c.ops.push(s); let rv = self.recv(1, false, len); c.ops.push(rv);
            }
            match self.r.below(5) {
                0 => { let q = self.req(4000, 100); let t = q.bytes().len() as u64; let cut = self.r.below(t) as i64; c.ops.push(Op::Send { req: q, cut, chunks: vec![] }); c.ops.push(Op::ShutWr); c.ops.push(Op::RecvEnd { wait_ms: 0 }); }
                1 => { let n = self.r.range(1, 600) as usize; let s = self.r.next(); let mut b = crate::rng::blob(s, n); if self.r.chance(500) { for x in &mut b { *x = b' ' + *x % 95; } } b.extend(b"\r\n\r\n"); c.ops.push(Op::Raw { hex: hex(&b), want: 2, chunks: vec![] }); c.ops.push(Op::RecvEnd { wait_ms: 0 }); }
                _ => { let (h, w) = self.malformed(); let n = h.len() / 2; let ch = self.chunks(n, 100_000); c.ops.push(Op::Raw { hex: h, want: w, chunks: ch }); c.ops.push(Op::RecvEnd { wait_ms: 0 }); }
            }
            p.clients.push(c);
        }
        self.probes(&mut p, 1);
        p
    }
    fn leaks(&mut self) -> SPlan {
        let mut p = match self.r.below(4) { 0 => self.bad_clients(), 1 => self.overload(), _ => { let mut p = self.plan0(4); p.read_ms = 3_000; p.write_ms = 3_000; let k = p.knobs.clone();
            p.tls = self.r.chance(250);
            for _ in 0..self.r.range(2, 14) { let mut c = if self.r.chance(600) { self.bad(&k, p.read_ms) } else { self.good(&k, 0, 3, 4000, 20_000, false) }; if p.tls && self.r.chance(400) { c.tls_mode = *self.r.pick(&[1u8, 3, 4]); c.tls_n = self.r.below(300) as u32; c.hostile = true; c.ops = vec![Op::ReadFor { ms: 200, chunk: 0, delay_us: 0 }]; } p.clients.push(c); }
            p } };
        p.lossy = true;
        if self.r.chance(300) { let f = *self.r.pick(&["accept:ECONNABORTED", "epoll_create1:EMFILE", "eventfd:EMFILE", "timerfd_create:EMFILE", "epoll_ctl(ADD):ENOMEM", "recv:ENOMEM", "send:ENOBUFS", "ioctl(FIONBIO):EINVAL", "shutdown:ENOTCONN"]); p.knobs.faults.push(Rate { kind: f.into(), pm: 300, max: 4, from: 0, to: u64::MAX }); }
        p
    }
    fn tls(&mut self, _seed: u64) -> SPlan {
        let mut p = match self.r.below(8) { 0 => self.exchange("C01"), 1 | 2 => self.exchange("C02"), 3 => self.bad_clients(), 4 => self.persistence(), 5 => self.pipeline(), _ => {
            let mut p = self.plan0(3); p.read_ms = *self.r.pick(&[4_000u64, 12_500]);
            let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
            for _ in 0..self.r.range(1, 4) { let mut c = Client { hostile: true, start_us: self.r.below(20_000), tls_mode: *self.r.pick(&[1u8, 2, 3, 4]), tls_n: self.r.below(600) as u32, ..Default::default() }; self.link(&mut c, 1000, &k); c.ops.push(Op::RecvEnd { wait_ms: (p.read_ms * 2 + 5000) as u32 }); p.clients.push(c); }
            for _ in 0..self.r.range(1, 3) { let c = self.good(&k, 0, 4, 8_000, 40_000, true); p.clients.push(c); }
            self.probes(&mut p, 1);
            p } };
        p.tls = true;
        // records inflate the traffic: keep what must succeed far from the timeouts
        p.read_ms = p.read_ms.max(8_000); p.write_ms = p.write_ms.max(8_000);
        for c in &mut p.clients { for o in &mut c.ops { if let Op::Send { req, .. } = o { let s = &mut req.h.resp; if s.src.chunk > 0 { s.src.chunk = s.src.chunk.max(s.len / 400); } } } }
        // handshakes need a few flights with several kilobytes
        for c in &mut p.clients { c.mss = c.mss.max(24); c.rcvbuf = c.rcvbuf.max(2048); }
        if p.clients.len() > 50 { p.clients.truncate(12); }
        // a body source that gives little at a time makes many records; reading must still end well within the timeouts
        for c in &mut p.clients {
            let wire: u64 = c.ops.iter().map(|o| if let Op::Send { req, .. } = o { let s = &req.h.resp; 3000 + s.len as u64 * (1 + if s.src.chunk > 0 { 40 / s.src.chunk as u64 } else { 0 }) } else { 0 }).sum();
            for o in &mut c.ops { if let Op::Recv { chunk, delay_us, .. } = o { if *delay_us > 0 { *chunk = (*chunk).max((wire / 300) as u32); } } }
        }
        p
    }
    fn statics(&mut self) -> SPlan {
        let mut p = self.plan0(3);
        p.routes = vec![("/".into(), "GET".into())];
        p.served_dir = self.r.pick(&["/simfs/www", "/simfs/www", "/simfs/www/", "/simfs/www/sub/..", "/simfs/./www", "/simfs/wlink", "/simfs/wlink/"]).to_string();
        let mut k = p.knobs.clone(); self.benign(&mut k);
        let faulty = self.r.chance(350);
        if faulty { p.lossy = true; for f in ["open:error", "file read:EIO", "file read:EINTR", "stat:error"] { if self.r.chance(350) { k.faults.push(Rate { kind: f.into(), pm: *self.r.pick(&[50u32, 200, 600]), max: *self.r.pick(&[1u32, 2, 10]), from: 0, to: u64::MAX }); } } }
        if self.r.chance(400) { k.faults.push(Rate { kind: "file read:short".into(), pm: *self.r.pick(&[100u32, 500]), max: 500, from: 0, to: u64::MAX }); }
        p.knobs = k.clone();
        let d = "/simfs/www";
        p.files = vec![FileSpec::Link("/simfs/wlink".into(), if self.r.chance(500) { d.into() } else { "www".into() }), FileSpec::Dir(d.into()), FileSpec::Dir(format!("{d}/sub")), FileSpec::Dir(format!("{d}/sub/deep")), FileSpec::Dir(format!("{d}/empty.d"))];
        let mut names = vec![];
        for (n, i) in [("index.html", 1u64), ("a.txt", 2), ("sub/data.json", 3), ("sub/deep/x.css", 4), ("noext", 5), ("sub/blob.bin", 6), ("img.png", 7), ("empty.txt", 8), ("with space.txt", 9), ("uni-x.tar.gz", 10)] {
            let len = if n == "empty.txt" { 0 } else { self.size(300_000) };
            p.files.push(FileSpec::File(format!("{d}/{n}"), self.r.next() ^ i, len)); names.push((n.to_string(), len));
        }
        p.files.push(FileSpec::File("/simfs/private.txt".into(), 99, 500));
        if self.r.chance(400) {
            for _ in 0..self.r.range(1, 3) {
                let (n, len) = self.r.pick(&names).clone(); let f = format!("{d}/{n}");
                let c = match self.r.below(4) { 0 => Change::Truncate(f, self.r.below(len as u64 + 1)), 1 => Change::Append(f, self.r.next(), self.r.range(1, 60_000)), 2 => Change::Replace(f, self.r.next(), self.size(200_000) as u64), _ => Change::Unlink(f) };
                if p.script.iter().any(|s: &(u64, Change)| std::mem::discriminant(&s.1) != std::mem::discriminant(&c) ) { continue; }
                p.script.push((self.r.range(1, 40), c));
            }
        }
        for _ in 0..self.r.range(1, 4) {
            let mut c = Client::default();
            self.link(&mut c, 300_000, &k);
            for _ in 0..self.r.range(1, 6) {
                let (n, _) = self.r.pick(&names).clone();
                let n = if n.contains(' ') { "a.txt".to_string() } else { n };
                let path = match self.r.below(26) { 16 => (*self.r.pick(&["//private.txt", "//simfs/private.txt", "///simfs/private.txt", "/sub//simfs/private.txt", "/..//private.txt", "//outside/secret", "/.//outside/secret", "/simfs/private.txt", "/sub/..//../private.txt", "/.../private.txt", "/..;/private.txt", "/~", "/sub/.../x"])).into(),
                    17 => (*self.r.pick(&["/%2e%2e/private.txt", "/%2e%2e%2fprivate.txt", "/..%2fprivate.txt", "/sub/%2e%2e/%2e%2e/private.txt", "/%2E%2E/%2E%2E/outside/secret", "/%2fsimfs/private.txt", "/%252e%252e/private.txt", "/..%5cprivate.txt", "/\\..\\private.txt", "/..\\private.txt", "/%c0%ae%c0%ae/private.txt", "/%u002e%u002e/private.txt"])).into(),
                    18 => format!("//{n}"), 19 => format!("/{n}/"), 20 => format!("/{n}/."), 21 => format!("/{n}/../{n}"), 0 => format!("/./{n}"), 1 => format!("/sub/../{n}"), 2 => "/nothing/here.txt".into(), 3 => "/../private.txt".into(), 4 => "/../../outside/secret".into(), 5 => "/sub/../../private.txt".into(), 6 => "/sub".into(), 7 => "/".into(), 8 => "/empty.d/".into(), 9 => format!("/sub//../{n}"), 10 => "/sub/./../sub/../../../outside/secret".into(), 11 => "/index.html/x".into(), _ => format!("/{n}") };
                self.rid += 1;
                let q = Req { rid: self.rid, method: "GET".into(), path: path.clone(), uri: path, route: 0, version: "HTTP/1.1".into(), headers: vec![("Host".into(), "x".into())], conn_name: "Connection".into(), ..Default::default() };
                let s = self.send(q, 1000); c.ops.push(s);
                let rv = self.recv(1, true, 100_000); c.ops.push(rv);
            }
            p.clients.push(c);
        }
        p
    }
    /// Many short requests for paths around the routes of a random table.
    fn routing(&mut self) -> SPlan {
        self.nested(true);
        let mut p = self.plan0(3);
        let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
        for _ in 0..self.r.range(2, 6) {
            let mut c = Client { start_us: self.r.below(3000), ..Default::default() };
            self.link(&mut c, 3000, &k);
            for _ in 0..self.r.range(2, 9) {
                let mut q = self.req(30, 60);
                let (r, ms) = self.r.pick(&self.table).clone();
                let base: String = if self.r.chance(250) { r.chars().take(self.r.range(1, r.len() as u64) as usize).collect() } else { r.clone() };
                let tail = *self.r.pick(&["", "", "/", "/a", "a", "b", "/b/c", "/ab/x.txt", "/a/b/c/d", "/./a", "/../b", "/b/../a", "//a", "?x=1", "/a?b=/c", "-", "%2Fa", "/%2e%2e/a"]);
                let mut path = format!("{base}{tail}");
                while path.starts_with("//") { path.remove(0); }
                if path.ends_with("=/c") && self.r.chance(500) { path.truncate(path.len() - 2); }
                q.uri = normal_keeping_query(&path);
                if above_root(&path) { q.uri = "/".into(); path = "/".into(); }
                q.path = path;
                q.method = if self.r.chance(800) { self.r.pick(&ms).to_string() } else { self.r.pick(&["GET", "POST", "PUT", "DELETE", "HEAD", "CONNECT", "TRACE", "PATCH", "OPTIONS"]).to_string() };
                q.route = attends(&self.routes(), &q.uri, &q.method);
                q.headers.push(("X-Rid".into(), q.rid.to_string()));
                q.version = "HTTP/1.1".into(); q.conn = String::new();
                let s = self.send(q, 2000); c.ops.push(s);
                let rv = self.recv(1, false, 100); c.ops.push(rv);
            }
            p.clients.push(c);
        }
        p
    }
    fn pipeline(&mut self) -> SPlan {
        let mut p = self.plan0(3);
        let mut k = p.knobs.clone(); self.benign(&mut k); p.knobs = k.clone();
        p.knobs.seg_random = self.r.chance(400);
        for _ in 0..self.r.range(1, 3) {
            let mut c = Client::default();
            let rounds = self.r.range(1, 3);
            let mut bytes = 0;
            let mut closed = false;
            for _ in 0..rounds {
                if closed { break; }
                let n = self.r.range(2, 8) as u32;
                let mut lens = 0;
                for i in 0..n {
                    let mut q = self.req(6000, 6000);
                    if self.r.chance(850) { q.version = "HTTP/1.1".into(); q.conn = self.r.pick(&["", "", "", "", "keep-alive", "Keep-Alive", "Upgrade"]).to_string(); } else { q.version = "HTTP/1.0".into(); q.conn = self.r.pick(&["keep-alive", "Keep-Alive"]).to_string(); }
                    if i == n - 1 && self.r.chance(200) { q.conn = "close".into(); closed = true; }
                    bytes += q.body as u64 + q.h.resp.len as u64; lens += q.h.resp.len;
                    let s = if self.r.chance(600) { Op::Send { req: q, cut: -1, chunks: vec![] } } else { self.send(q, 50_000) };
                    c.ops.push(s);
                }
                // no more requests than these, and says so before it gets the answers
                if self.r.chance(150) { c.ops.push(Op::ShutWr); closed = true; }
                let rv = self.recv(n, true, lens); c.ops.push(rv);
            }
            if closed { c.ops.push(Op::RecvEnd { wait_ms: 0 }); }
            self.link(&mut c, bytes, &k);
            c.rcvbuf = c.rcvbuf.max(65536); c.sndbuf = c.sndbuf.max(65536);
            p.clients.push(c);
        }
        p
    }
}

// ---- oracles that know about time and load ------------------------------------
fn v(class: &str, m: String) { sim().violate(class, m) }

/// When the server closed its side (or the client learnt of it).
fn server_end(c: &CRec) -> Option<u64> { let s = sim(); if c.ep == usize::MAX { return None; } let e = &s.net.eps[c.ep ^ 1]; if e.t_closed > 0 { Some(e.t_closed) } else { c.end.as_ref().map(|x| x.0) } }
/// End of the connection: when the client learnt of it, or when its side of the network did.
pub fn first_end(c: &CRec) -> Option<u64> {
    let mut t = c.end.as_ref().map(|x| x.0).unwrap_or(u64::MAX);
    if c.ep != usize::MAX { let s = sim(); let e = &s.net.eps[c.ep]; for x in [e.t_fin_rcvd, e.t_rst_rcvd, s.net.eps[c.ep ^ 1].t_closed] { if x > 0 { t = t.min(x); } } }
    if t == u64::MAX { None } else { Some(t) }
}

pub fn slow_reader(cl: &Client) -> bool { cl.ops.iter().any(|o| matches!(o, Op::Recv { delay_us, .. } | Op::ReadFor { delay_us, .. } if *delay_us > 0) || matches!(o, Op::Partition { .. })) }
pub fn judge_times(p: &SPlan, c: &CRec, h: &Hist, lossy: bool) {
    if lossy || !c.connected || p.overload || p.shutdown_us > 0 { return; }
    if p.tls { if !c.tls_up { judge_tls_stall(p, c); return; } }
    let cl = &p.clients[c.idx];
    let slack = 600 * MS + p.knobs.stall_budget_us * US + 4 * (cl.lat_us + cl.jitter_us) as u64 * US;
    let slow_reader = slow_reader(cl);
    let who = format!("client {}", c.idx);
    // -- reads
    let rt = p.read_ms * MS;
    let mut pos = 0; let mut start = c.t_connect; let mut clean = true;
    let mut pending: Option<&Sent> = None;
    for s in &c.sent {
        let Op::Send { req, .. } = &cl.ops[s.op] else { clean = false; break };
        match wire::response_to(&c.recv[pos..], req.is_head()) {
            P::Done(m) if s.complete => {
                pos += m.end;
                // a request that took far longer than the timeout must not have been served
                if s.t_last > start + rt + rt / 2 + slack && m.status < 400 && s.t_first >= start { v("time.read_late", format!("{who}: request {} took {:.3} s to arrive with a read timeout of {:.3} s and was still served", req.rid, (s.t_last - start) as f64 / 1e9, rt as f64 / 1e9)); }
                start = c.time_at(pos);
                if !req.persistent() || req.h.panic > 0 { clean = false; break; }
            }
            _ => { pending = Some(s); if req.h.panic > 0 { clean = false; } break; }
        }
    }
    // the answer was being sent while the request arrived: neither timeout alone bounds that
    if let Some(Op::Send { req, .. }) = pending.map(|s| &cl.ops[s.op]) { if req.h.resp.kind == 6 { return; } }
    if !clean || slow_reader || cl.hostile && pending.map(|s| s.complete).unwrap_or(false) { return judge_write(p, c, h, &who, slack); }
    let incomplete = match pending { None => true, Some(s) => !s.complete || s.t_last > start + rt + slack };
    if incomplete && c.half_closed == false && start != u64::MAX {
        let gone = c.closed_by_client.as_ref().map(|x| x.0).unwrap_or(u64::MAX);
        let end = first_end(c);
        let lim = start + rt + rt / 5 + slack;
        match end { Some(t) if t <= lim => {
            if t < start + rt * 3 / 4 && t < gone && pending.map(|s| s.t_last > 0 || true).unwrap_or(true) { v("time.read_early", format!("{who}: the connection was ended after {:.3} s of waiting for a request; the read timeout is {:.3} s", t.saturating_sub(start) as f64 / 1e9, rt as f64 / 1e9)); } }
            _ => if gone > lim { v("time.read_late", format!("{who}: no complete request for {:.3} s, the read timeout is {:.3} s, and the connection {}", end.unwrap_or(gone).min(gone).saturating_sub(start) as f64 / 1e9, rt as f64 / 1e9, if end.is_some() { "was ended only then" } else { "was still open" })); } }
    }
    judge_write(p, c, h, &who, slack);
}
fn judge_tls_stall(p: &SPlan, c: &CRec) {
    let cl = &p.clients[c.idx];
    if cl.tls_mode != 2 { return; }
    let gone = c.closed_by_client.as_ref().map(|x| x.0).unwrap_or(u64::MAX);
    let lim = c.t_connect + p.read_ms * MS + p.read_ms * MS / 4 + SEC + p.knobs.stall_budget_us * US;
    match first_end(c) { Some(t) if t <= lim => {} _ => if gone > lim { v("time.read_late", format!("client {}: a TLS handshake stalled for {:.3} s with a read timeout of {:.3} s and the connection was not ended", c.idx, (gone.min(first_end(c).unwrap_or(gone)) - c.t_connect) as f64 / 1e9, p.read_ms as f64 / 1e3)) } }
}
fn judge_write(p: &SPlan, c: &CRec, h: &Hist, who: &str, slack: u64) {
    let wt = p.write_ms * MS;
    if p.knobs.stall_pm > 0 { return; }
    let cl = &p.clients[c.idx];
    let Some(last) = c.sent.iter().rev().find(|s| s.complete && s.rid != u32::MAX) else { return };
    let Op::Send { req, .. } = &cl.ops[last.op] else { return };
    if req.route < 0 || !req.h.resp.src.err_at.is_negative() || req.h.resp.src.short > 0 || req.h.panic > 0 { return; }
    let Some(run) = h.rid_runs.get(&req.rid).and_then(|v| v.first()).map(|i| &h.h[*i]) else { return };
    if !run.done { return; }
    let src = &req.h.resp.src;
    if src.delay_us > 0 { return; }
    // did the server finish sending? it did iff everything arrived or was accepted by the socket
    let sent_total = { let s = sim(); let e = &s.net.eps[c.ep ^ 1]; e.bytes_out };
    let _ = sent_total;
    let mut pos = 0; let mut complete = 0; let total = c.sent.iter().filter(|s| s.complete && s.rid != u32::MAX).count();
    let heads: Vec<bool> = c.sent.iter().map(|s| matches!(&cl.ops[s.op], Op::Send { req, .. } if req.is_head())).collect();
    while let P::Done(m) = wire::response_to(&c.recv[pos..], heads.get(complete).copied().unwrap_or(false)) { pos += m.end; complete += 1; }
    if complete >= total { return; }
    if complete + 1 != total { return; }
    let end = server_end(c);
    let gone = c.closed_by_client.as_ref().map(|x| x.0).unwrap_or(u64::MAX);
    let lim = run.t1 + wt + wt / 5 + slack;
    let can_be_buffered = (req.h.resp.len as u64) < p.knobs.sndbuf as u64 + cl.rcvbuf as u64 + 4096;
    if can_be_buffered { return; }
    match end { Some(t) if t <= lim => { if t < run.t1 + wt * 3 / 4 && t < gone { v("time.write_early", format!("{who}: the response to request {} was given up after {:.3} s; the write timeout is {:.3} s", req.rid, (t.saturating_sub(run.t1)) as f64 / 1e9, wt as f64 / 1e9)); } }
        _ => if gone > lim { v("time.write_late", format!("{who}: the response to request {} was not accepted for {:.3} s, the write timeout is {:.3} s, and the server {}", req.rid, (end.unwrap_or(gone).min(gone) - run.t1) as f64 / 1e9, wt as f64 / 1e9, if end.is_some() { "gave up only then" } else { "had not given up" })); } }
}
/// May this connection have been refused? Only if about 100 others may have been in service.
pub fn may_refuse(_p: &SPlan, c: &CRec) -> bool {
    let h = hist();
    let s = sim();
    let Some(e) = s.net.eps.get(c.ep ^ 1) else { return true };
    let t = e.t_accept;
    let n = h.c.iter().filter(|o| o.idx != c.idx && o.connected && o.ep != usize::MAX).filter(|o| { let x = &s.net.eps[o.ep ^ 1]; x.t_accept > 0 && x.t_accept <= t + SEC && (x.t_closed == 0 || x.t_closed + 500 * MS >= t) }).count();
    n >= 100
}
/// C08: with 100 requests running, a further connection must be refused.
pub fn judge_overload(p: &SPlan, h: &Hist) {
    for c in &h.c {
        if !c.connected || c.sent.is_empty() || c.hostile { continue; }
        let t = { let s = sim(); s.net.eps[c.ep ^ 1].t_accept };
        if t == 0 { continue; }
        let busy = h.h.iter().filter(|e| e.t0 + 100 * MS < t && e.t1 > t + 500 * MS).count();
        if busy < 100 { continue; }
        sim().probe("connection arrived while 100 requests were running");
        match wire::response(&c.recv) { P::Done(m) if m.status == 503 => {} o => v("over.no503", format!("client {}: connected while {busy} requests were being handled and got {} instead of 503 ({:?})", c.idx, match o { P::Done(m) => m.start, _ => format!("{} bytes", c.recv.len()) }, c.end)) }
    }
    let _ = p;
}

/// The server treats the query as a part of the path.
pub fn normal_keeping_query(path: &str) -> String { let mut v: Vec<&str> = vec![]; for s in path.split('/') { match s { "" | "." => {} ".." => { v.pop(); } x => v.push(x) } } format!("/{}", v.join("/")) }
pub fn normal(path: &str) -> String { let mut v: Vec<&str> = vec![]; for s in path.split('?').next().unwrap().split('/') { match s { "" | "." => {} ".." => { v.pop(); } x => v.push(x) } } format!("/{}", v.join("/")) }
pub fn ctype(path: &str) -> &'static str { match path.rsplit('.').next().unwrap_or("") { "html" => "text/html", "txt" => "text/plain", "json" => "application/json", "css" => "text/css", "png" => "image/png", "gz" => "application/gzip", _ => "application/octet-stream" } }
pub fn judge_static(p: &SPlan, h: &Hist) {
    let versions = { let s = sim(); s.fs.versions.clone() };
    let changed: Vec<String> = versions.iter().filter(|x| x.0 > 0).map(|x| x.1.clone()).collect();
    let mut served = 0;
    for c in &h.c {
        let cl = &p.clients[c.idx];
        let who = format!("client {}", c.idx);
        if !c.connected { if !p.lossy { v("static.refused", format!("{who}: connecting failed with errno {}", c.conn_err)); } continue; }
        let mut pos = 0;
        for s in &c.sent {
            let Op::Send { req, .. } = &cl.ops[s.op] else { continue };
            if s.sent == 0 { break; }
            let np = normal(&req.path);
            let file = format!("/simfs/www{np}");
            let rest = &c.recv[pos..];
            let t_end = |n: usize| c.time_at(pos + n);
            // contents during the request; None = not there
            let during = |t1: u64| -> Vec<Option<Vec<u8>>> {
                let mut out = vec![]; let mut cur: Option<Option<Vec<u8>>> = None;
                for (t, f, d) in &versions { if *f != file { continue; } if *t <= s.t_first { cur = Some(d.clone()); } else if *t <= t1 { out.push(d.clone()); } }
                out.push(cur.unwrap_or(None)); out
            };
            let disturbed = changed.contains(&file);
            match wire::response(rest) {
                P::Done(m) => {
                    let vs = during(t_end(m.end));
                    let body = &rest[m.head_end..m.end];
                    if m.status == 200 {
                        if !vs.iter().flatten().any(|d| d == body) { v("static.body", format!("{who}: GET {}: 200 with {} bytes which the file never contained during the request ({} versions: {:?})", req.path, body.len(), vs.len(), vs.iter().map(|x| x.as_ref().map(|d| d.len())).collect::<Vec<_>>())); }
                        else {
                            let ct = wire::header(&m.headers, "content-type");
                            if ct.len() != 1 || ct[0].split(';').next().unwrap() != ctype(&np) { v("static.type", format!("{who}: GET {}: Content-Type {ct:?}", req.path)); }
                            served += 1;
                        }
                    } else if m.status == 404 {
                        if !vs.iter().any(|x| x.is_none()) && !p.lossy { v("static.notfound", format!("{who}: GET {}: 404 but the file was there all the time", req.path)); }
                    } else {
                        if m.status < 400 { v("static.status", format!("{who}: GET {}: {}", req.path, m.start)); }
                        if vs.iter().all(|x| x.is_some()) && !p.lossy && !disturbed { v("static.status", format!("{who}: GET {}: {} although nothing was wrong", req.path, m.start)); }
                        if vs.iter().all(|x| x.is_none()) && m.status >= 500 && !p.lossy && !np.contains("index.html/") && !is_dir(p, &file) && !above_root(&req.path) { v("static.status", format!("{who}: GET {}: {} where nothing is there", req.path, m.start)); }
                        sim().probe("static file answered with an error status");
                    }
                    pos += m.end;
                }
                other => {
                    if let P::Bad(e) = &other { v("static.framing", format!("{who}: GET {}: {e}", req.path)); }
                    if let Some((st, _, he, n)) = wire::response_head(rest) {
                        let vs = during(u64::MAX);
                        let got = &rest[he..];
                        if st == 200 && !vs.iter().flatten().any(|d| d.len() as u64 >= n.min(d.len() as u64) && got.len() <= d.len() && d[..got.len()] == *got) { v("static.body", format!("{who}: GET {}: {} body bytes that no version of the file starts with", req.path, got.len())); }
                    }
                    if !p.lossy && !disturbed { v("static.cut", format!("{who}: GET {}: no complete response ({} bytes, end {:?}, late {:?})", req.path, rest.len(), c.end, c.late.last())); }
                    else if c.end.is_none() && c.late.iter().any(|l| l.0 >= s.op) { v("static.hang", format!("{who}: GET {}: {} bytes of a response and then nothing, connection still open", req.path, rest.len())); }
                    else { sim().probe("static response cut"); }
                    pos = c.recv.len();
                    break;
                }
            }
        }
        if pos < c.recv.len() { v("static.extra", format!("{who}: {} bytes that belong to no response", c.recv.len() - pos)); }
        let leak = b"SECRET-SECRET"; if c.recv.windows(leak.len()).any(|w| w == leak) { v("static.escape", format!("{who}: bytes of a file outside the served directory were sent")); }
        let private = crate::rng::blob(99, 32); if c.recv.windows(32).any(|w| w == &private[..]) { v("static.escape", format!("{who}: bytes of a file outside the served directory were sent")); }
    }
    let mut s = sim(); s.stat("files served", served); s.nontrivial = served > 0;
}
/// Does the path leave the root on its way? (any error will do then)
pub fn above_root(path: &str) -> bool { let mut d = 0i32; for s in path.split('?').next().unwrap().split('/') { match s { "" | "." => {} ".." => d -= 1, _ => d += 1 } if d < 0 { return true; } } false }
fn is_dir(p: &SPlan, f: &str) -> bool { let f = f.trim_end_matches('/'); f == "/simfs/www" || p.files.iter().any(|x| matches!(x, FileSpec::Dir(d) if d == f)) }
