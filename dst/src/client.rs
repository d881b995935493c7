//! The client scenario: the real wruster HTTP client shared by several threads, against scripted servers.
use crate::core::*;
use crate::gen::G;
use crate::hist::hist;
use crate::plan::Src;
use crate::server::SrcReader;
use crate::wire::{self, P};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::io::{self, Read};
use std::sync::Arc;
use wruster::http::client::{Client, ClientResponse};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request};

/// What a server does with a request.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct PR {
    pub status: u16, pub reason: String, pub version: String, pub conn: String, pub headers: Vec<(String, String)>, pub len: u32, pub cl_name: String,
    /// 0 Content-Length, 1 ends with the connection, 2 chunked, 3 invalid length, 4 no body at all (HEAD, 204, 304), 5 neither length nor end
    pub framing: u8, pub bad_cl: String,
    /// 0 none, 1 close after n bytes, 2 reset after n bytes, 3 stall after n bytes, 4 garbage, 5 drips for ever after n bytes, 6 extra bytes after it, 7 close after it, 8 reset after it, 9 header lines without end
    pub fail: u8, pub n: u32, pub ms: u32, pub garbage: String,
    pub chunks: Vec<(u32, u32)>, pub delay_us: u32, pub early: bool, pub interim: u8,
    /// after asking for the end of the connection: how long it stays open
    pub linger_ms: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Call {
    pub peer: usize, pub rid: u32, pub method: String, pub conn: String, pub version: String, pub headers: Vec<(String, String)>, pub body: u32,
    /// 0 from_body with a reader, 1 built with Content-Length, 2 no body, 3 Request::from text, 4 from_body with text, 5 built with a body and no length, 6 no body with Content-Length: 0
    pub build: u8, pub src: Src, pub pre_us: u64, pub resp: PR,
    /// 0 drop, 1 read to end, 2 read content to end, 3 first n bytes, 4 take the body away and read it later, 5 hold until the end, 6 slowly in chunks of n, 7 ensure_read, 8 remove the body, 9 read to end and keep a while
    pub read: u8, pub n: u32, pub pause_us: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Peer {
    pub port: u16,
    /// 1 refuses, 2 does not answer, 3 its name does not resolve
    pub refuse: u8,
    /// how the callers name it; empty: by address
    #[serde(default)] pub host: String,
    /// per connection: 0 normal, 1 closes at once, 2 resets at once, 3 never reads, 4 closes after some bytes of the request
    pub conns: Vec<u8>,
    pub idle_close_ms: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Caller { pub start_us: u64, pub calls: Vec<Call> }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct KPlan {
    pub knobs: Knobs, pub peers: Vec<Peer>, pub callers: Vec<Caller>,
    /// system calls of the client fail: calls may end in errors
    pub lossy: bool,
    /// 0 the client is dropped at once, 1 after its idle connections had to expire, 2 before the held responses are read
    pub end: u8,
}

pub fn resp_body(rid: u32, n: usize) -> Vec<u8> { crate::rng::blob(rid as u64 * 2 + 1, n) }
pub fn req_body(c: &Call) -> Vec<u8> {
    let mut v = crate::rng::blob(c.rid as u64 * 2, c.body as usize);
    if matches!(c.build, 3 | 4) { for b in &mut v { *b = b'a' + *b % 26; } }
    if c.build == 2 || c.build == 6 { v.clear(); }
    v
}
impl Call {
    fn uri(&self) -> String { format!("/r/{}", self.rid) }
    fn asks_close(&self) -> bool { self.conn.eq_ignore_ascii_case("close") || self.version == "HTTP/1.0" && !self.conn.eq_ignore_ascii_case("keep-alive") }
    fn body_bad(&self) -> bool { (self.src.err_at >= 0 && (self.src.err_at as u32) < self.body || self.src.short > 0) && matches!(self.build, 0 | 1 | 5) && self.body > 0 }
    /// nothing is wrong with the request nor with the way the server answers it
    fn healthy(&self, p: &KPlan) -> bool {
        let r = &self.resp;
        let pe = &p.peers[self.peer];
        !self.body_bad() && pe.refuse == 0 && !p.callers.iter().flat_map(|c| &c.calls).any(|c| c.peer == self.peer && c.resp.fail == 5) && pe.conns.iter().all(|c| *c == 0) && matches!(r.framing, 0 | 4) && (matches!(r.fail, 0 | 6 | 7) || r.fail == 3 && r.ms <= 20_000)
    }
    /// the server stops in the middle of its response for longer than the client waits, and nothing else is wrong
    fn silent(&self, p: &KPlan) -> bool {
        let r = &self.resp;
        let pe = &p.peers[self.peer];
        !p.lossy && !self.body_bad() && pe.refuse == 0 && pe.conns.iter().all(|c| *c == 0) && r.fail == 3 && r.ms >= 65_000 && matches!(r.framing, 0 | 4)
    }
    /// the only thing that can go wrong is a server that accepts connections and does nothing else
    fn mute(&self, p: &KPlan) -> bool {
        let r = &self.resp;
        let pe = &p.peers[self.peer];
        !p.lossy && !self.body_bad() && pe.refuse == 0 && pe.idle_close_ms == 0 && pe.conns.iter().all(|c| matches!(c, 0 | 3)) && pe.conns.contains(&3) && r.fail == 0 && matches!(r.framing, 0 | 4) && !r.early
    }
    /// the connection has to be usable after this exchange
    fn keeps(&self) -> bool {
        let r = &self.resp;
        !self.asks_close() && self.version == "HTTP/1.1" && r.version == "HTTP/1.1" && r.conn.is_empty() && r.status != 101 && matches!(r.fail, 0 | 3)
    }
}
impl PR {
    fn no_body(&self, method: &str) -> bool { method == "HEAD" || self.status == 204 || self.status == 304 || self.status == 101 }
    fn head(&self, rid: u32) -> String {
        let mut s = format!("{} {} {}\r\n", self.version, self.status, self.reason);
        let half = self.headers.len() / 2;
        for (n, v) in &self.headers[..half] { s += &format!("{n}: {v}\r\n"); }
        s += &format!("X-Rid: {rid}\r\n");
        match self.framing { 0 => s += &format!("{}: {}\r\n", self.cl_name, self.len), 2 => s += "Transfer-Encoding: chunked\r\n", 3 => s += &self.bad_cl, 4 if self.len > 0 => s += &format!("{}: {}\r\n", self.cl_name, self.len), _ => {} }
        if !self.conn.is_empty() { s += &format!("Connection: {}\r\n", self.conn); }
        for (n, v) in &self.headers[half..] { s += &format!("{n}: {v}\r\n"); }
        s + "\r\n"
    }
    fn bytes(&self, rid: u32) -> Vec<u8> {
        let mut b = self.head(rid).into_bytes();
        let body = resp_body(rid, self.len as usize);
        match self.framing { 0 | 1 | 3 => b.extend(body), 2 => { for c in body.chunks(700) { b.extend(format!("{:x}\r\n", c.len()).bytes()); b.extend(c); b.extend(b"\r\n"); } b.extend(b"0\r\n\r\n"); } _ => {} }
        b
    }
}

// ---- history ---------------------------------------------------------------
#[derive(Clone, Debug, Default)]
struct CRecord { peer: usize, ep: usize, rids: Vec<u32>, closed_by_peer: u64 }
#[derive(Clone, Debug, Default)]
struct KRec { rid: u32, caller: usize, order: usize, t0: u64, t_ret: u64, t_end: u64, ok: bool, err: String, complete: bool, tid: usize, reached: Vec<usize>, kept_back: bool }
#[derive(Default)]
struct KH { conns: Vec<CRecord>, recs: HashMap<u32, KRec>, alive: usize, plan: HashMap<u32, Call>, per_peer: HashMap<usize, usize>, dropped: usize, dropped_at: u64, callers: usize, seq: usize, reached: u64 }
static mut KHP: *mut KH = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn kh() -> &'static mut KH { unsafe { if KHP.is_null() { let _g = Guard::new(); KHP = Box::into_raw(Box::default()); } &mut *KHP } }
fn v(class: &str, m: String) { sim().violate(class, m) }

// ---- scripted servers --------------------------------------------------------
fn psend(ep: usize, b: &[u8]) -> bool {
    let mut off = 0;
    let dl = now() + 900 * SEC;
    while off < b.len() {
        let mut s = sim();
        match s.ep_send(ep, &b[off..]) {
            Ok(n) if n > 0 => off += n,
            Ok(_) | Err(libc::EAGAIN) => { if !s.block(&[chan(CH_EP, ep)], Some(dl), "server send") { return false; } }
            Err(_) => return false,
        }
    }
    true
}
/// Some(n) bytes read, None at the deadline
fn precv(ep: usize, buf: &mut Vec<u8>, deadline: u64) -> Option<Result<usize, i32>> {
    let mut b = [0u8; 65536];
    loop {
        let mut s = sim();
        match s.ep_recv(ep, &mut b, false) {
            Err(libc::EAGAIN) => { if s.now >= deadline || !s.block(&[chan(CH_EP, ep)], Some(deadline), "server recv") { return None; } }
            Ok(n) => { buf.extend_from_slice(&b[..n]); return Some(Ok(n)); }
            Err(e) => return Some(Err(e)),
        }
    }
}
fn peer_close(ci: usize, ep: usize, reset: bool) {
    let t = now();
    let c = &mut kh().conns[ci];
    if c.closed_by_peer == 0 { c.closed_by_peer = t.max(1); }
    sim().count_fault(if reset { F::PeerReset } else { F::PeerClose });
    if reset { sim().ep_abort(ep); }
    sim().ep_close(ep);
}
fn rid_of(start: &str) -> Option<u32> { start.split(' ').nth(1)?.strip_prefix("/r/")?.parse().ok() }

fn compare(c: &Call, m: &wire::Msg, buf: &[u8]) -> Result<(), String> {
    let want = format!("{} {} {}", c.method, c.uri(), c.version);
    if m.start != want { return Err(format!("request line {:?}, the caller asked for {want:?}", m.start)); }
    for (n, _) in &c.headers {
        let mut w: Vec<&str> = c.headers.iter().filter(|(x, _)| x.eq_ignore_ascii_case(n)).map(|(_, y)| y.as_str()).collect();
        let mut g = wire::header(&m.headers, n);
        w.sort(); g.sort();
        if w != g { return Err(format!("header {n}: sent {w:?}, arrived {g:?}")); }
    }
    let cn = wire::header(&m.headers, "connection");
    if !c.conn.is_empty() && cn != [c.conn.as_str()] { return Err(format!("header Connection: sent {:?}, arrived {cn:?}", c.conn)); }
    let body = &buf[m.head_end..m.end];
    let w = req_body(c);
    if body != &w[..] { return Err(format!("body of {} bytes ({}), the caller gave {} bytes", body.len(), wire::show(body), w.len())); }
    Ok(())
}

fn serve_conn(p: Arc<KPlan>, ci: usize, pi: usize, nth: usize, ep: usize) {
    let peer = &p.peers[pi];
    match peer.conns.get(nth).copied().unwrap_or(0) {
        1 => return peer_close(ci, ep, false),
        2 => return peer_close(ci, ep, true),
        3 => { sim().count_fault(F::PeerStopsReading); sleep(800 * SEC); return peer_close(ci, ep, false); }
        4 => { let mut b = vec![]; let dl = now() + 5 * SEC; let _ = precv(ep, &mut b, dl); return peer_close(ci, ep, nth % 2 == 1); }
        _ => {}
    }
    let mut buf: Vec<u8> = vec![];
    let mut noreuse: Option<(u32, &'static str)> = None;
    let mut linger: u64 = u64::MAX;
    loop {
        // ---- one request ----
        let t_idle = now();
        let mut early: Option<u32> = None;
        let (m, rid) = loop {
            if !buf.is_empty() {
                let last_bad = noreuse.or_else(|| kh().conns[ci].rids.last().and_then(|r| kh().recs.get(r)).filter(|r| !r.err.is_empty()).map(|r| (r.rid, "its response could not be read to the end")));
                if let Some((r, why)) = last_bad { v("cli.reuse", format!("connection {} of server {pi} is used again after request {r} although {why}: {}", ep / 2, wire::show(&buf))); peer_close(ci, ep, true); return; }
            }
            if early.is_none() {
                if let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                    let line: String = buf[..h].iter().take_while(|b| **b != b'\r').map(|b| *b as char).collect();
                    if let Some(r) = rid_of(&line) { if let Some(c) = kh().plan.get(&r) { if c.resp.early { early = Some(r); let b = c.resp.bytes(r); sim().probe("response before the end of the request"); if !psend(ep, &b) { break (None, 0); } } } }
                }
            }
            match wire::request(&buf) {
                P::Bad(e) => { v("cli.mixed", format!("connection {} of server {pi}: what arrived is not a request: {e}; {}", ep / 2, wire::show(&buf))); peer_close(ci, ep, true); return; }
                P::Done(m) => { let r = rid_of(&m.start); match r { Some(r) => break (Some(m), r), None => { v("cli.mixed", format!("connection {}: unknown request {:?}", ep / 2, m.start)); peer_close(ci, ep, true); return; } } }
                P::Partial => {}
            }
            let dl = if buf.is_empty() { linger.min(if peer.idle_close_ms > 0 && !kh().conns[ci].rids.is_empty() { t_idle + peer.idle_close_ms as u64 * MS } else { u64::MAX }) } else { u64::MAX };
            match precv(ep, &mut buf, dl) {
                None => return peer_close(ci, ep, false),
                Some(Ok(n)) if n > 0 => {}
                Some(_) => break (None, 0),
            }
        };
        let Some(m) = m else { sim().ep_close(ep); return };
        // ---- is it the one its caller made? ----
        let Some(call) = kh().plan.get(&rid).cloned() else { v("cli.mixed", format!("connection {}: a request {rid} nobody made", ep / 2)); peer_close(ci, ep, true); return };
        if call.peer != pi { v("cli.mixed", format!("request {rid} for server {} arrived at server {pi}", call.peer)); }
        if let Err(e) = compare(&call, &m, &buf) { v("cli.mixed", format!("request {rid} on connection {}: {e}", ep / 2)); }
        if call.body_bad() { v("cli.mixed", format!("request {rid}: its body source failed but a complete request arrived")); }
        kh().conns[ci].rids.push(rid);
        if let Some(r) = kh().recs.get_mut(&rid) { r.reached.push(ci); }
        kh().reached += 1;
        let end = m.end;
        buf.drain(..end);
        if !buf.is_empty() && early.is_none() { v("cli.mixed", format!("connection {}: {} bytes follow request {rid} before its response: {}", ep / 2, buf.len(), wire::show(&buf))); peer_close(ci, ep, true); return; }
        // ---- the answer ----
        let r = &call.resp;
        if r.delay_us > 0 { sleep(r.delay_us as u64 * US); }
        let mut bytes = r.bytes(rid);
        match r.interim { 1 => { let mut b = b"HTTP/1.1 100 Continue\r\n\r\n".to_vec(); b.extend(bytes); bytes = b; } 2 => { let mut b = b"HTTP/1.1 103 Early Hints\r\nLink: </x>; rel=preload\r\n\r\nHTTP/1.1 102 Processing\r\n\r\n".to_vec(); b.extend(bytes); bytes = b; } _ => {} }
        if r.fail == 4 { bytes = wire::unhex(&r.garbage); sim().count_fault(F::Garbage); }
        if early.is_some() { bytes.clear(); }
        let cut = if matches!(r.fail, 1 | 2 | 3 | 5) { (r.n as usize).min(bytes.len().saturating_sub(1)) } else { usize::MAX };
        let mut off = 0;
        let mut chunks = r.chunks.iter();
        let mut alive = true;
        while off < bytes.len() && alive {
            let (n, d) = chunks.next().copied().unwrap_or((u32::MAX, 0));
            if d > 0 { sleep(d as u64 * US); }
            let mut to = (off + (n as usize).max(1)).min(bytes.len());
            if off < cut && to > cut { to = cut; }
            if off == cut {
                match r.fail {
                    1 | 2 => { sim().count_fault(F::Truncated); return peer_close(ci, ep, r.fail == 2); }
                    3 => { sim().count_fault(F::PeerSilent); sleep(r.ms as u64 * MS); }
                    _ => {
                        sim().count_fault(F::PeerDrip);
                        let t0 = now();
                        let filler: &[u8] = if r.framing == 0 { &bytes[..] } else { b"X-Filler: y\r\n" };
                        let mut i = if r.framing == 0 { off } else { 0 };
                        while now() < t0 + 900 * SEC { if !psend(ep, &[filler[i % filler.len()]]) { break; } i += 1; sleep(r.ms.max(1) as u64 * MS); let mut b = vec![]; if let Some(x) = precv(ep, &mut b, 0) { if !matches!(x, Ok(n) if n > 0) { break; } } }
                        return peer_close(ci, ep, false);
                    }
                }
            }
            alive = psend(ep, &bytes[off..to]);
            off = to;
            if alive && off < bytes.len() {
                let mut b = vec![];
                if let Some(x) = precv(ep, &mut b, 0) { match x { Ok(n) if n > 0 => { v("cli.mixed", format!("connection {}: {} while the response to request {rid} is being sent", ep / 2, wire::show(&b))); peer_close(ci, ep, true); return; } _ => alive = false } }
            }
        }
        if !alive { sim().ep_close(ep); return; }
        if r.fail == 9 { sim().count_fault(F::PeerDrip); }
        match r.fail {
            6 => { if r.ms > 0 { sleep(r.ms as u64 * MS); } sim().count_fault(F::Garbage); if !psend(ep, &wire::unhex(&r.garbage)) { sim().ep_close(ep); return; } noreuse = Some((rid, "the server sent bytes that belong to no response")); }
            7 => { if r.ms > 0 { sleep(r.ms as u64 * MS); } return peer_close(ci, ep, false); }
            8 => { if r.ms > 0 { sleep(r.ms as u64 * MS); } return peer_close(ci, ep, true); }
            _ => {}
        }
        if call.asks_close() || r.conn.split(',').any(|x| x.trim().eq_ignore_ascii_case("close")) { noreuse = Some((rid, "one side asked to close it")); }
        if r.version == "HTTP/1.0" && !r.conn.to_ascii_lowercase().contains("keep-alive") { noreuse = Some((rid, "the response was HTTP/1.0 without keep-alive")); }
        if matches!(r.framing, 1 | 2 | 3 | 5) { noreuse = Some((rid, "the response had no length")); }
        if r.fail == 4 { noreuse = Some((rid, "the response was garbage")); }
        if r.status == 101 { noreuse = Some((rid, "the response switched protocols")); }
        if r.framing == 1 { return peer_close(ci, ep, false); }
        if noreuse.is_some() && r.fail != 6 { linger = now() + r.linger_ms as u64 * MS; }
    }
}
fn acceptor(p: Arc<KPlan>, ls: Vec<(usize, usize)>) {
    loop {
        let mut got = None;
        { let mut s = sim();
          for (pi, l) in &ls { if let Some(ep) = s.net.ls[*l].queue.pop_front() { let t = s.now; let e = &mut s.net.eps[ep]; e.accepted = true; e.t_accept = t; got = Some((*pi, ep)); break; } }
          if got.is_none() { let ch: Vec<u64> = ls.iter().map(|(_, l)| chan(CH_LISTEN, *l)).collect(); s.block(&ch, None, "server accept"); } }
        if let Some((pi, ep)) = got {
            let nth = { let n = kh().per_peer.entry(pi).or_default(); *n += 1; *n - 1 };
            let ci = kh().conns.len();
            kh().conns.push(CRecord { peer: pi, ep, ..Default::default() });
            let p = p.clone();
            let _ = actor(&format!("server{pi}.{nth}"), move || serve_conn(p, ci, pi, nth, ep));
        }
    }
}

// ---- callers -----------------------------------------------------------------
fn build(c: &Call) -> Request {
    let mut h = Headers::new();
    for (n, val) in &c.headers { h.add(Header { name: n.clone(), value: val.clone() }); }
    if !c.conn.is_empty() { h.add(Header { name: "Connection".into(), value: c.conn.clone() }); }
    let data = req_body(c);
    let m = crate::server::method(&c.method);
    let reader = |mut d: Vec<u8>| { if c.src.short > 0 { let n = d.len().saturating_sub(c.src.short as usize); d.truncate(n); sim().count_fault(F::BodyShort); } Box::new(SrcReader { data: d, pos: 0, src: c.src.clone(), reads: 0 }) };
    let text = || String::from_utf8(data.clone()).unwrap();
    let n = data.len() as u64;
    let mut r = match c.build {
        0 => Request::from_body(Body::new(Some(mime::APPLICATION_OCTET_STREAM), n, reader(data.clone())), m, &c.uri()),
        1 => { let mut hs = Headers::new(); hs.add(Header { name: "Content-Length".into(), value: n.to_string() }); Request { method: m, uri: c.uri(), version: String::new(), headers: hs, body: Some(Body::new(None, n, reader(data.clone()))) } }
        3 => Request::from(text(), mime::TEXT_PLAIN, m, c.uri()),
        4 => Request::from_body(Body::from(text(), mime::TEXT_PLAIN), m, &c.uri()),
        5 => Request { method: m, uri: c.uri(), version: String::new(), headers: Headers::new(), body: Some(Body::new(Some(mime::TEXT_PLAIN), n, reader(data.clone()))) },
        6 => { let mut hs = Headers::new(); hs.add(Header { name: "Content-Length".into(), value: "0".into() }); Request { method: m, uri: c.uri(), version: String::new(), headers: hs, body: None } }
        _ => Request { method: m, uri: c.uri(), version: String::new(), headers: Headers::new(), body: None },
    };
    r.version = c.version.clone();
    for (n, vs) in h.iter() { for x in vs { r.headers.add(Header { name: n.clone(), value: x.clone() }); } }
    r
}
const RUN_BOUND: u64 = (127 + 60 + 60 + 20) * SEC;
const READ_BOUND: u64 = 80 * SEC;
fn guarded<T>(class: &str, what: String, bound: u64, f: impl FnOnce() -> T) -> T {
    let g = sim().guard(class, what, bound);
    let r = as_system(f);
    sim().unguard(g);
    r
}
/// Reads a body; what was read and how it ended.
fn read_all(b: &mut dyn Read, step: usize, max: usize, delay_us: u64, rid: u32) -> (Vec<u8>, io::Result<bool>) {
    let mut out = vec![];
    let mut buf = vec![0u8; step.max(1)];
    let g = sim().guard("cli.hang", format!("reading the body of response {rid} did not end within {} s", READ_BOUND / SEC), READ_BOUND + delay_us * US * 4000);
    let r = loop {
        if out.len() >= max { break Ok(false); }
        let k = step.max(1).min(max - out.len());
        match as_system(|| b.read(&mut buf[..k])) {
            Ok(0) => break Ok(true),
            Ok(n) => { out.extend_from_slice(&buf[..n.min(k)]); if delay_us > 0 { sleep(delay_us * US); } }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => break Err(e),
        }
        if out.len() > (64 << 20) { break Err(io::Error::new(io::ErrorKind::Other, "endless")); }
    };
    sim().unguard(g);
    (out, r)
}
fn check_body(p: &KPlan, c: &Call, got: &[u8], end: &io::Result<bool>, rec_ok: &mut bool, asked: usize) {
    let r = &c.resp;
    let want = resp_body(c.rid, r.len as usize);
    let strict = c.healthy(p) && !p.lossy;
    if got.len() > want.len() || got != &want[..got.len()] { v("cli.wrong", format!("request {}: {} body bytes that are not those of its response ({})", c.rid, got.len(), wire::show(got))); *rec_ok = false; return; }
    match end {
        Ok(true) => if got.len() < want.len() && asked > got.len() { v("cli.truncated", format!("request {}: the body ended after {} of {} bytes without an error", c.rid, got.len(), want.len())); *rec_ok = false; },
        Ok(false) => {}
        Err(e) => { *rec_ok = false; if c.silent(p) && e.kind() != io::ErrorKind::TimedOut { v("cli.errkind", format!("request {}: the server fell silent for {} s and reading the body failed with {:?} instead of a timeout", c.rid, r.ms / 1000, e.kind())); } if strict { v("cli.failed", format!("request {}: reading the body of a good response failed after {} of {} bytes: {e}", c.rid, got.len(), want.len())); } }
    }
}
struct Held { call: Call, resp: Option<ClientResponse>, body: Option<Body> }
fn drop_resp(r: ClientResponse, rid: u32) { guarded("cli.hang", format!("dropping the response to request {rid} did not end within {} s", READ_BOUND / SEC), READ_BOUND, || drop(r)); }
fn finish(rid: u32, complete: bool) {
    let t = now();
    let k = kh();
    k.alive -= 1;
    if let Some(r) = k.recs.get_mut(&rid) { r.t_end = t; r.complete = complete; }
    let open = { let s = sim(); s.net.eps.iter().enumerate().filter(|(i, e)| i % 2 == 0 && e.established && !e.refused && e.t_closed == 0).count() };
    if open > 100 + k.alive { v("pool.toomany", format!("{open} connections open with {} calls or responses in use", k.alive)); }
}
fn one_call(p: &KPlan, who: usize, c: &Call, client: &Client, held: &mut Vec<Held>) {
    if c.pre_us > 0 { sleep(c.pre_us * US); }
    let t0 = now();
    let k = kh();
    let order = k.seq; k.seq += 1;
    let tid = sim().cur;
    k.recs.insert(c.rid, KRec { rid: c.rid, caller: who, order, t0, tid, ..Default::default() });
    k.alive += 1;
    let req = build(c);
    let addr = format!("{}:{}", if p.peers[c.peer].host.is_empty() { "127.0.0.1" } else { &p.peers[c.peer].host }, p.peers[c.peer].port);
    sim().tr(|| format!("call {} to server {} starts", c.rid, c.peer));
    let res = guarded("cli.hang", format!("call {} did not return within {} s", c.rid, RUN_BOUND / SEC), RUN_BOUND, || client.run(&addr, req));
    let t = now();
    sim().tr(|| format!("call {} returns {:?}", c.rid, res.as_ref().map(|r| format!("{:?}", r.status)).map_err(|e| e.to_string())));
    let strict = c.healthy(p) && !p.lossy;
    // a minute for writing and another one for reading, and no more
    if !p.lossy && p.peers[c.peer].refuse == 0 {
        let other = 6 * SEC + p.knobs.stall_budget_us * US + 8 * (p.knobs.lat_us + p.knobs.jitter_us) as u64 * US + c.src.delay_us as u64 * US * (c.body as u64 / c.src.chunk.max(1) as u64 + 2);
        let stuck = p.peers[c.peer].conns.iter().all(|x| *x == 3) && !p.peers[c.peer].conns.is_empty() && c.body as u64 > p.knobs.sndbuf as u64 + 65536 + 20_000 && kh().recs.get(&c.rid).map_or(false, |r| r.reached.is_empty());
        let lim = if stuck { 60 } else { 120 } * SEC + other;
        if t - t0 > lim { v("cli.slow", format!("call {} took {:.3} s, {} s and what its source and the network take are enough", c.rid, (t - t0) as f64 / 1e9, if stuck { 60 } else { 120 })); }
    }
    let mut resp = match res {
        Err(e) => {
            if let Some(r) = kh().recs.get_mut(&c.rid) { r.t_ret = t; r.err = format!("{e} "); }
            let got_there = kh().recs.get(&c.rid).map_or(false, |r| !r.reached.is_empty());
            if c.mute(p) && !stale_possible(p, c, t0, t) && !format!("{e:?}").contains("Timeout") { v("cli.errkind", format!("call {}: the server neither reads nor answers and the call failed after {} s with {e:?} instead of a timeout", c.rid, (t - t0) / SEC)); }
            if c.silent(p) && got_there && c.resp.framing != 3 && !format!("{e:?}").contains("Timeout") { v("cli.errkind", format!("call {}: the server fell silent for {} s in its response and the call failed after {} s with {e:?} instead of a timeout", c.rid, c.resp.ms / 1000, (t - t0) / SEC)); }
            if strict && (got_there || !stale_possible(p, c, t0, t)) { v("cli.failed", format!("call {} to a healthy server failed: {e}", c.rid)); }
            finish(c.rid, false);
            return;
        }
        Ok(r) => r,
    };
    if let Some(r) = kh().recs.get_mut(&c.rid) { r.t_ret = t; r.ok = true; }
    let mut ok = check_head(p, c, &resp);
    let hb = |b: &Option<Body>| b.as_ref().map(|b| b.content_length);
    let framed = c.resp.framing == 0 && !c.resp.no_body(&c.method);
    if framed && ok {
        let want = if c.resp.len == 0 { None } else { Some(c.resp.len as u64) };
        let got = hb(&resp.body).filter(|n| *n > 0);
        if got != want { v("cli.wrong", format!("request {}: a body of {want:?} bytes was announced, the response has {got:?}", c.rid)); ok = false; }
    }
    if c.resp.framing == 1 && c.resp.len > 0 && ok && resp.body.is_none() && !c.resp.no_body(&c.method) { v("cli.undelimited", format!("request {}: the body of a response that ends with the connection ({} bytes) is missing", c.rid, c.resp.len)); }
    let step = c.n.max(1) as usize;
    match c.read {
        0 | 8 => { if c.read == 8 { resp.body = None; } if c.pause_us > 0 { sleep(c.pause_us * US); } }
        1 | 9 => {
            if let Some(b) = resp.body.as_mut() { let (o, e) = read_all(b, 8192, usize::MAX, 0, c.rid); check_body(p, c, &o, &e, &mut ok, usize::MAX); }
            if c.read == 9 { sleep(c.pause_us * US); }
        }
        2 => if let Some(b) = resp.body.as_mut() { let (o, e) = read_all(&mut b.content, 4096, usize::MAX, 0, c.rid); check_body(p, c, &o, &e, &mut ok, usize::MAX); },
        3 => if let Some(b) = resp.body.as_mut() { let (o, e) = read_all(b, step, step, 0, c.rid); check_body(p, c, &o, &e, &mut ok, step); },
        6 => if let Some(b) = resp.body.as_mut() { let (o, e) = read_all(b, step, usize::MAX, c.pause_us.min(3000), c.rid); check_body(p, c, &o, &e, &mut ok, usize::MAX); },
        7 => if let Some(b) = resp.body.as_mut() { let g = guarded("cli.hang", format!("ensure_read of response {}", c.rid), READ_BOUND, || b.ensure_read()); if let Err(e) = g { ok = false; if strict { v("cli.failed", format!("request {}: ensure_read of a good response failed: {e}", c.rid)); } } },
        4 => {
            let body = resp.body.take();
            drop_resp(resp, c.rid);
            if body.is_some() { if let Some(r) = kh().recs.get_mut(&c.rid) { r.kept_back = true; } }
            if body.is_some() { held.push(Held { call: c.clone(), resp: None, body }); } else { finish(c.rid, ok); }
            return;
        }
        5 => { if let Some(r) = kh().recs.get_mut(&c.rid) { r.kept_back = true; } held.push(Held { call: c.clone(), resp: Some(resp), body: None }); return; }
        _ => {}
    }
    drop_resp(resp, c.rid);
    finish(c.rid, ok);
}
fn check_head(p: &KPlan, c: &Call, resp: &ClientResponse) -> bool {
    let r = &c.resp;
    let st: usize = (&resp.status).into();
    if kh().recs[&c.rid].reached.is_empty() && !r.early { v("cli.wrong", format!("call {} got a response ({st}) but the server never received its request", c.rid)); return false; }
    if r.fail == 4 { v("cli.wrong", format!("call {}: garbage was accepted as response {st}", c.rid)); return false; }
    if r.framing == 2 || r.framing == 3 && !r.no_body(&c.method) { if resp.body.is_some() || r.framing == 3 { v("cli.wrong", format!("call {}: a response with a framing that is invalid or not supported was accepted", c.rid)); } return false; }
    if r.fail == 5 && r.framing != 0 && (r.n as usize) < r.head(c.rid).len() { v("cli.wrong", format!("call {}: a response whose headers never ended was accepted", c.rid)); return false; }
    let rid = resp.headers.get("X-Rid").map(|x| x.join(","));
    if st != r.status as usize || rid.as_deref() != Some(&c.rid.to_string()) { v("cli.wrong", format!("call {} got status {st} of request {rid:?}, expected status {}", c.rid, r.status)); return false; }
    for (n, _) in &r.headers {
        let mut w: Vec<String> = r.headers.iter().filter(|(x, _)| x.eq_ignore_ascii_case(n)).map(|(_, y)| y.clone()).collect();
        let mut g: Vec<String> = resp.headers.iter().filter(|(x, _)| x.eq_ignore_ascii_case(n)).flat_map(|(_, y)| y.clone()).collect();
        w.sort(); g.sort();
        if w != g { v("cli.wrong", format!("call {}: header {n} was sent as {w:?} and returned as {g:?}", c.rid)); return false; }
    }
    let head = r.head(c.rid).len();
    if matches!(r.fail, 1 | 2) && (r.n as usize) < head { v("cli.wrong", format!("call {}: a response whose headers were cut off was accepted", c.rid)); return false; }
    let _ = p;
    true
}
/// The server ended a connection the client may have picked before it could know.
fn stale_possible(_p: &KPlan, c: &Call, t0: u64, t1: u64) -> bool {
    kh().conns.iter().filter(|x| x.peer == c.peer && x.closed_by_peer > 0 && x.closed_by_peer <= t1).any(|x| {
        let s = sim();
        let e = &s.net.eps[x.ep ^ 1];
        let seen = [e.t_fin_rcvd, e.t_rst_rcvd].into_iter().filter(|t| *t > 0).min().unwrap_or(u64::MAX);
        seen >= t0
    })
}
fn read_held(p: &KPlan, h: Held) {
    let c = &h.call;
    let mut ok = true;
    if c.pause_us > 0 { sleep(c.pause_us * US); }
    if let Some(mut b) = h.body { let (o, e) = read_all(&mut b, 8192, usize::MAX, 0, c.rid); check_body(p, c, &o, &e, &mut ok, usize::MAX); guarded("cli.hang", format!("dropping the body of response {}", c.rid), READ_BOUND, || drop(b)); }
    if let Some(mut r) = h.resp {
        if let Some(b) = r.body.as_mut() { if c.n % 3 != 0 { let (o, e) = read_all(b, 8192, usize::MAX, 0, c.rid); check_body(p, c, &o, &e, &mut ok, usize::MAX); } }
        drop_resp(r, c.rid);
    }
    finish(c.rid, ok);
}
fn drop_client(c: Arc<Client>) {
    let slack = 5 * SEC + sim().k.stall_budget_us * US;
    guarded("pool.drop_slow", format!("dropping the client did not end within {} s", slack / SEC), slack, || drop(c));
}
fn run_caller(p: Arc<KPlan>, who: usize, client: Arc<Client>) {
    let c = p.callers[who].clone();
    if c.start_us > 0 { sleep(c.start_us * US); }
    let mut held = vec![];
    for call in &c.calls { one_call(&p, who, call, &client, &mut held); }
    if p.end == 2 {
        drop_client(client);
        kh().dropped += 1;
        if kh().dropped == kh().callers { kh().dropped_at = now(); sim().notify(chan(CH_USER, 4242)); }
        while kh().dropped < kh().callers { sim().block(&[chan(CH_USER, 4242)], None, "other callers"); }
        for h in held { read_held(&p, h); }
    } else {
        for h in held { read_held(&p, h); }
        drop_client(client);
    }
}

// ---- driver --------------------------------------------------------------------
pub fn drive(p: &KPlan, prop: &str) {
    let p = Arc::new(p.clone());
    let k = kh();
    k.callers = p.callers.len();
    for c in p.callers.iter().flat_map(|c| &c.calls) { k.plan.insert(c.rid, c.clone()); }
    let mut ls = vec![];
    for (i, peer) in p.peers.iter().enumerate() {
        let mut s = sim();
        if peer.refuse > 0 { if peer.refuse < 3 { s.net.refuse_ports.insert(peer.port, peer.refuse); } continue; }
        let l = s.listen_port(peer.port, 128, None).expect("listen");
        ls.push((i, l));
    }
    if !ls.is_empty() { let p2 = p.clone(); let _ = actor("acceptor", move || acceptor(p2, ls)); }
    sleep(MS);
    let fds0 = sim().net.fds.len();
    let th0 = sim().live_sys_threads().len();
    let client = as_system(|| Arc::new(Client::new()));
    sim().faults_on = true;
    let hs: Vec<_> = (0..p.callers.len()).map(|i| { let p = p.clone(); let c = client.clone(); actor(&format!("caller{i}"), move || run_caller(p, i, c)) }).collect();
    let client = if p.end == 1 { Some(client) } else { drop_client(client); None };
    for h in hs { let _ = h.join(); }
    sim().faults_on = false;
    if let Some(c) = client {
        sleep(47 * SEC + sim().k.stall_budget_us * US);
        let open: Vec<usize> = open_conns();
        if !open.is_empty() { v("pool.notexpired", format!("{} connections still open 47 s after the last use of the client: {open:?}", open.len())); }
        drop_client(c);
    }
    sleep(2 * SEC);
    let open = open_conns();
    if !open.is_empty() { v("pool.notreleased", format!("{} connections still open 2 s after the client and all responses were dropped: {open:?}", open.len())); }
    let fds = sim().net.fds.len();
    if fds != fds0 { v("leak.fd", format!("{fds0} descriptors before the client existed, {fds} after it was dropped")); }
    let th = sim().live_sys_threads().len();
    if th != th0 { let d = sim().describe_threads(); v("leak.thread", format!("{th0} threads before the client existed, {th} after it was dropped: {d}")); }
    judge(&p);
    let _ = prop;
}
fn open_conns() -> Vec<usize> { let s = sim(); s.net.eps.iter().enumerate().filter(|(i, e)| i % 2 == 0 && e.established && !e.refused && e.t_closed == 0).map(|(i, _)| i / 2).collect() }

fn judge(p: &KPlan) {
    let k = kh();
    for x in hist().panics.iter().filter(|x| x.sys && !x.msg.contains("injected")) { v("cli.panic", format!("thread {} panicked at {}: {}", x.thread, x.loc, x.msg)); }
    let slack = 2 * SEC + p.knobs.stall_budget_us * US;
    // a request sent on a connection after its end had been seen
    for c in &k.conns {
        let (fin, sent) = { let s = sim(); let e = &s.net.eps[c.ep ^ 1]; ([e.t_fin_rcvd, e.t_rst_rcvd].into_iter().filter(|t| *t > 0).min().unwrap_or(0), e.after_fin) };
        if let (true, Some((t, tid))) = (fin > 0, sent) {
            if let Some(r) = k.recs.values().find(|r| r.tid == tid && r.t0 <= t && t <= r.t_end.max(r.t_ret) && fin + 10 * MS + slack / 1000 < r.t0) { v("cli.reuse", format!("request {} was sent on connection {} which its server had closed {} ms before the call", r.rid, c.ep / 2, (r.t0 - fin) / MS)); }
        }
        // idle connections expire
        if let Some(r) = c.rids.last().and_then(|r| k.recs.get(r)) {
            let t_closed = sim().net.eps[c.ep ^ 1].t_closed;
            if r.t_end > 0 && !r.kept_back && t_closed > r.t_end + 45 * SEC + slack { v("pool.notexpired", format!("connection {} was idle for {} s before it was closed", c.ep / 2, (t_closed - r.t_end) / SEC)); }
        }
    }
    // sequential calls reuse the connection
    if p.callers.len() == 1 && !p.lossy {
        let calls = &p.callers[0].calls;
        let peers: BTreeSet<usize> = calls.iter().map(|c| c.peer).collect();
        for (i, c) in calls.iter().enumerate() {
            let Some(j) = (0..i).rev().find(|j| calls[*j].peer == c.peer) else { continue };
            let pr = &calls[j];
            if !(c.healthy(p) && pr.healthy(p) && pr.keeps() && !c.asks_close() && p.peers[c.peer].idle_close_ms == 0) { continue; }
            // when the pool is full, the one that is idle longest has to go
            let others: BTreeSet<usize> = calls[j + 1..i].iter().map(|c| c.peer).collect();
            if !(others.len() < 99) { continue; }
            if peers.len() >= 99 && k.recs.values().any(|r| r.kept_back) { continue; }
            let (Some(a), Some(b)) = (k.recs.get(&pr.rid), k.recs.get(&c.rid)) else { continue };
            if !a.ok || !a.complete || a.kept_back || !b.ok || b.t0 > a.t_end + 25 * SEC { continue; }
            if let (Some(x), Some(y)) = (a.reached.last(), b.reached.last()) { if x != y { v("pool.noreuse", format!("calls {} and {} went {} ms apart to the same server but used two connections", pr.rid, c.rid, (b.t0 - a.t_end) / MS)); } else { sim().probe("connection reused"); } }
        }
    }
    let mut s = sim();
    s.stat("requests reaching a server", k.reached);
    s.stat("calls ok", k.recs.values().filter(|r| r.ok).count() as u64);
    s.stat("calls failed", k.recs.values().filter(|r| !r.ok).count() as u64);
    s.nontrivial = k.reached > 0;
    if k.conns.iter().any(|c| c.rids.len() > 1) { s.probe("connection served several requests"); }
}

// ---- generators ------------------------------------------------------------------
impl G {
    fn kknobs(&mut self) -> Knobs {
        let mut k = self.client_knobs();
        k.cap_s = 30_000;
        k
    }
    fn kbenign(&mut self, k: &mut Knobs) {
        if self.r.chance(400) { return; }
        for f in ["recv:short", "send:short", "recv:EINTR", "send:EINTR", "futex:spurious wakeup", "shutdown:ENOTCONN"] {
            if self.r.chance(350) { let pm = *self.r.pick(&[20u32, 100, 300]); k.faults.push(Rate { kind: f.into(), pm, max: *self.r.pick(&[3u32, 20, 300]), from: 0, to: u64::MAX }); }
        }
    }
    fn pr(&mut self, method: &str, max: u32) -> PR {
        let status = if self.r.chance(200) { *self.r.pick(&[203u16, 205, 300, 302, 303, 305, 307, 308, 401, 402, 405, 406, 407, 408, 410, 411, 412, 413, 414, 415, 416, 417, 418, 451, 501, 504, 505, 511]) } else { *self.r.pick(&[200u16, 200, 200, 200, 201, 202, 204, 206, 301, 304, 400, 403, 404, 409, 500, 502, 503, 429, 101]) };
        let mut r = PR { status, reason: self.r.pick(&["OK", "OK", "Not Found", "Some longer reason", ""]).to_string(), version: "HTTP/1.1".into(), cl_name: self.r.pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]).to_string(), ..Default::default() };
        r.len = self.ksize(max);
        for i in 0..self.r.below(4) { let n = if self.r.chance(100) { self.r.token() } else { self.r.pick(&["X-Resp", "x-lower-case", "Server", "Set-Cookie", "X-Num"]).to_string() }; r.headers.push((n, format!("value {i} {}", self.r.below(1000)))); }
        if self.r.chance(200) { r.headers.push(("Content-Type".into(), self.r.pick(&["text/plain", "text/html; charset=utf-8", "application/json"]).to_string())); }
        r.headers.dedup_by(|a, b| a.0 == "Content-Type" && b.0 == "Content-Type");
        match self.r.below(12) { 0 => r.conn = self.r.pick(&["close", "Close", "CLOSE", "foo, close", "close , foo", "foo,close", "keep-alive, close", "x\t,\tClose"]).to_string(), 1 => r.conn = "keep-alive".into(), 2 => { r.version = "HTTP/1.0".into(); r.conn = self.r.pick(&["keep-alive", "Keep-Alive"]).to_string(); } 3 => r.version = "HTTP/1.0".into(), _ => {} }
        r.linger_ms = *self.r.pick(&[0u32, 0, 200, 5_000, 20_000]);
        if r.no_body(method) { r.framing = 4; if matches!(status, 101 | 204) { r.len = 0; } }
        let total = r.bytes(1).len();
        if self.r.chance(450) { r.chunks = self.kchunks(total); }
        if self.r.chance(200) { r.delay_us = self.r.below(2_000_000) as u32; }
        if self.r.chance(60) { r.interim = self.r.range(1, 2) as u8; }
        r
    }
    fn call(&mut self, peer: usize, maxreq: u32, maxresp: u32) -> Call {
        self.rid += 1;
        let rid = self.rid;
        let build = *self.r.pick(&[2u8, 2, 2, 2, 0, 0, 1, 3, 4, 5, 6]);
        let method = if matches!(build, 2 | 6) { *self.r.pick(&["GET", "GET", "GET", "HEAD", "DELETE", "OPTIONS"]) } else { *self.r.pick(&["POST", "PUT", "PATCH", "POST"]) }.to_string();
        let (conn, version) = match self.r.below(14) { 0 => ("close", "HTTP/1.1"), 1 => ("keep-alive", "HTTP/1.1"), 2 => ("keep-alive", "HTTP/1.0"), 3 => ("Close", "HTTP/1.1"), _ => ("", "HTTP/1.1") };
        let resp = self.pr(&method, maxresp);
        let body = if matches!(build, 2 | 6) { 0 } else { self.ksize(maxreq) };
        let mut headers = vec![("Host".to_string(), "localhost".to_string())];
        for _ in 0..self.r.below(3) { let n = if self.r.chance(100) { self.r.token() } else { self.r.pick(&["X-A", "User-Agent", "Accept"]).to_string() }; headers.push((n, format!("v{}", self.r.below(100)))); }
        let read = *self.r.pick(&[0u8, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9]);
        let n = match read { 3 => self.r.below(resp.len as u64 + 2) as u32, 6 => *self.r.pick(&[1u32, 10, 1000, 4096]), _ => self.r.below(10) as u32 };
        let n = if read == 6 && resp.len / n.max(1) > 1500 { 1000 } else { n };
        let chunk = if self.r.chance(300) { (*self.r.pick(&[1u32, 7, 1000])).max(body / 2000) } else { 0 };
        Call { peer, rid, method, conn: conn.into(), version: version.into(), headers, body, build, src: Src { chunk, eintr: if self.r.chance(100) { 3 } else { 0 }, err_at: -1, ..Default::default() },
            pre_us: if self.r.chance(400) { self.r.below(300_000) } else { 0 }, resp, read, n, pause_us: if self.r.chance(300) { self.r.below(2_000_000) } else { 0 } }
    }
    fn spoil(&mut self, c: &mut Call, nasty: bool) {
        let total = c.resp.bytes(c.rid).len() as u64;
        let head = c.resp.head(c.rid).len() as u64;
        c.resp.early = false; c.resp.interim = 0;
        let early = c.resp.framing == 0 && !matches!(c.resp.status, 101 | 204) && self.r.chance(500);
        let r = &mut c.resp;
        if !nasty && early && self.r.chance(200) { r.early = true; r.chunks.clear(); r.delay_us = 0; return; }
        match self.r.below(if nasty { 16 } else { 8 }) {
            0 => { r.fail = 1; r.n = self.r.below(total) as u32; }
            1 => { r.fail = 2; r.n = self.r.below(total) as u32; }
            2 => { r.fail = 3; r.n = self.r.below(total) as u32; r.ms = self.r.range(1, 20_000) as u32; r.chunks.clear(); }
            3 => { r.fail = 7; r.ms = if self.r.chance(500) { 0 } else { self.r.below(3000) as u32 }; }
            4 => { r.fail = 8; r.ms = if self.r.chance(500) { 0 } else { self.r.below(3000) as u32 }; }
            5 => { r.conn = "close".into(); r.linger_ms = self.r.below(20_000) as u32; }
            6 => { if !r.no_body(&c.method) { r.framing = 1; } }
            7 => { if matches!(c.build, 0 | 1 | 5) && c.body > 0 { if self.r.chance(500) { c.src.err_at = self.r.below(c.body as u64) as i64; } else { c.src.short = self.r.range(1, c.body as u64) as u32; } if early { r.early = true; r.chunks.clear(); r.delay_us = 0; } } else { r.fail = 1; r.n = self.r.below(total) as u32; } }
            8 => { r.fail = 3; r.n = self.r.below(total) as u32; r.ms = self.r.range(65_000, 200_000) as u32; }
            9 => { r.fail = 4; r.garbage = self.kgarbage(); }
            10 => { r.fail = 5; r.n = self.r.below(total) as u32; r.ms = *self.r.pick(&[200u32, 900, 5_000, 40_000]); if r.framing == 0 && (r.n as u64) < head { r.n = head as u32; } r.len = r.len.max(200_000); }
            11 => { r.fail = 5; r.framing = 5; r.n = head as u32 - 2; r.ms = *self.r.pick(&[100u32, 500]); r.chunks.clear(); }
            12 => { if !r.no_body(&c.method) { r.framing = 3; r.bad_cl = self.r.pick(&["Content-Length: 12x\r\n", "Content-Length: -1\r\n", "Content-Length: +4\r\n", "Content-Length: 4\r\nContent-Length: 9\r\n", "Content-Length: \r\n", "Content-Length: 99999999999999999999999\r\n"]).to_string(); } }
            13 => { if !r.no_body(&c.method) { r.framing = 2; } }
            14 => { if !r.no_body(&c.method) { r.framing = 5; r.len = 0; r.linger_ms = 20_000; } }
            _ => { if r.framing == 0 && !matches!(r.status, 101 | 204) { r.early = true; r.chunks.clear(); r.delay_us = 0; } }
        }
    }
    fn kgarbage(&mut self) -> String {
        let s = match self.r.below(13) {
            0 => { let n = self.r.range(1, 2000) as usize; let sd = self.r.next(); return wire::hex(&[b"\x16\x03".to_vec(), crate::rng::blob(sd, n)].concat()); }
            1 => "HTTP/1.1 2000 OK\r\nContent-Length: 0\r\n\r\n".into(),
            2 => "HTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".into(),
            3 => "HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n".into(),
            4 => "200 OK\r\n\r\n".into(),
            5 => "HTTP/1.1 200 OK\r\nNo colon here\r\n\r\n".into(),
            6 => "<html>hello</html>\r\n\r\n".into(),
            7 => "\r\n\r\n\r\n\r\n".into(),
            8 | 9 => format!("{} 200 OK\r\nContent-Length: 0\r\n\r\n", *self.r.pick(&["HTTP/1.x", "HTTP/x.1", "HTTP/1", "HTTP/1.1.1", "HTTP/1.+1", "HTTP/+1.1", "http/1.1", "HTTP/1.", "HTTPS/1.1"])),
            10 => format!("HTTP/1.1 {} OK\r\nContent-Length: 0\r\n\r\n", *self.r.pick(&["20", "+20", "2x0", "-20", ""])),
            11 => format!("HTTP/1.1 200 OK\r\n{}\r\nContent-Length: 0\r\n\r\n", *self.r.pick(&["X : y", ": y", "X: \0", "X y: z", " folded: y", "X(: y", "X"])),
            _ => "A".repeat(self.r.range(1, 5000) as usize),
        };
        let s: String = s;
        wire::hex(s.as_bytes())
    }
    fn ksize(&mut self, max: u32) -> u32 {
        let r = &mut self.r;
        let v = match r.below(9) { 0 => 0, 1 => 1, 2 | 3 => r.range(2, 60) as u32, 4 | 5 => r.range(60, 3000) as u32, 6 => *r.pick(&[1024u32, 4096, 8191, 8192, 8193, 16384]), 7 => r.range(3000, 30_000) as u32, _ => r.range(30_000, 300_000) as u32 };
        v.min(max)
    }
    fn kchunks(&mut self, total: usize) -> Vec<(u32, u32)> {
        match self.r.below(4) {
            0 => { let n = self.r.range(1, 8); (0..n).map(|_| (self.r.range(1, (total as u64 / n).max(1) * 2) as u32, self.r.below(300_000) as u32)).collect() }
            1 => { let n = self.r.range(1, 80).min(total as u64); let g = *self.r.pick(&[0u32, 500, 20_000]); (0..n).map(|_| (1, g)).collect() }
            2 => { let cut = self.r.range(1, total.max(2) as u64 - 1) as u32; vec![(cut, 0), (u32::MAX, self.r.below(3_000_000) as u32)] }
            _ => vec![(self.r.range(1, total as u64) as u32, self.r.below(100_000) as u32)],
        }
    }
}
pub fn gen(prop: &str, g: &mut G) -> KPlan {
    let mut k = g.kknobs();
    g.kbenign(&mut k);
    let mut p = KPlan { knobs: k, ..Default::default() };
    match prop { "C14" => gen14(g, &mut p), "C15" => gen15(g, &mut p), _ => gen16(g, &mut p) }
    if g.r.chance(150) { for pe in &mut p.peers { if pe.host.is_empty() && g.r.chance(700) { pe.host = (*g.r.pick(&["localhost", "1.multi", "2.multi", "5.multi"])).into(); } } }
    // big transfers over slow links would only take long
    let biggest = p.callers.iter().flat_map(|c| &c.calls).map(|c| c.body.max(c.resp.len) as u64).max().unwrap_or(0);
    let k = &mut p.knobs;
    while biggest / k.mss as u64 > 2500 { k.mss = (k.mss * 8).min(65536); if k.mss == 65536 { break; } }
    let w = k.rcvbuf.min(k.sndbuf).min(65536) as u64;
    let rtts = biggest / w + 3;
    k.lat_us = k.lat_us.min((3_000_000 / (2 * rtts)).max(10) as u32); k.jitter_us = k.jitter_us.min(k.lat_us * 4);
    p
}
fn peers(n: usize) -> Vec<Peer> { (0..n).map(|i| Peer { port: 9000 + i as u16, ..Default::default() }).collect() }
fn gen14(g: &mut G, p: &mut KPlan) {
    let np = *g.r.pick(&[1usize, 1, 1, 2, 3]);
    p.peers = peers(np);
    let nc = *g.r.pick(&[1usize, 2, 2, 3, 4, 5]);
    let mixed = g.r.chance(600);
    if g.r.chance(150) { let i = g.r.below(np as u64) as usize; p.peers[i].idle_close_ms = *g.r.pick(&[1u32, 20, 500, 5000]); }
    for _ in 0..nc {
        let n = g.r.range(1, 6);
        let mut c = Caller { start_us: if g.r.chance(500) { 0 } else { g.r.below(500_000) }, calls: vec![] };
        for _ in 0..n { let i = g.r.below(np as u64) as usize; let mut x = g.call(i, 60_000, 60_000); if mixed && g.r.chance(350) { g.spoil(&mut x, g_nasty(mixed)); } c.calls.push(x); }
        p.callers.push(c);
    }
    if nc == 1 && g.r.chance(250) {
        // unsolicited bytes in the idle time between two calls
        let l = p.callers[0].calls.len();
        let i = g.r.below(l as u64) as usize;
        let s = format!("HTTP/1.1 200 OK\r\nX-Rid: {}\r\nContent-Length: 5\r\n\r\nstale", 800_000 + g.rid);
        let x = &mut p.callers[0].calls[i];
        x.resp.fail = 6; x.resp.garbage = wire::hex(s.as_bytes()); x.resp.ms = g.r.below(300) as u32; x.resp.early = false; x.resp.conn.clear();
        if matches!(x.read, 4 | 5) { x.read = 1; }
        for c in &mut p.callers[0].calls { c.pre_us = c.pre_us.max(2_500_000); }
    }
    if g.r.chance(200) { p.end = 2; }
    if g.r.chance(120) { lossy(g, p); }
}
fn g_nasty(_: bool) -> bool { false }
fn lossy(g: &mut G, p: &mut KPlan) {
    p.lossy = true;
    for f in ["fcntl(F_DUPFD):EMFILE", "recv:ENOMEM", "send:ENOBUFS", "ioctl(FIONBIO):EINVAL", "setsockopt:error", "connect:EINTR"] {
        if g.r.chance(400) { let pm = *g.r.pick(&[20u32, 100, 300]); p.knobs.faults.push(Rate { kind: f.into(), pm, max: *g.r.pick(&[1u32, 3, 20]), from: 0, to: u64::MAX }); }
    }
}
fn gen15(g: &mut G, p: &mut KPlan) {
    let np = *g.r.pick(&[1usize, 2, 3]);
    p.peers = peers(np);
    for pe in &mut p.peers {
        match g.r.below(10) {
            0 => { pe.refuse = *g.r.pick(&[1u8, 1, 3]); if pe.refuse == 3 { pe.host = "gone.test".into(); } }
            1 => pe.refuse = if g.r.chance(300) { 2 } else { 0 },
            2 => pe.idle_close_ms = *g.r.pick(&[1u32, 100, 2000]),
            3 | 4 => { let deaf = g.r.chance(300); for _ in 0..g.r.range(1, 6) { pe.conns.push(if deaf { *g.r.pick(&[0u8, 3, 3]) } else { *g.r.pick(&[0u8, 1, 2, 3, 4]) }); } }
            _ => {}
        }
    }
    let nc = *g.r.pick(&[1usize, 1, 2, 3]);
    for _ in 0..nc {
        let mut c = Caller { start_us: g.r.below(100_000), calls: vec![] };
        for _ in 0..g.r.range(1, 5) { let i = g.r.below(np as u64) as usize; let mut x = g.call(i, 300_000, 60_000); if g.r.chance(750) { g.spoil(&mut x, true); } c.calls.push(x); }
        p.callers.push(c);
    }
    if g.r.chance(200) { p.end = 2; }
    if g.r.chance(150) { lossy(g, p); }
}
fn gen16(g: &mut G, p: &mut KPlan) {
    match g.r.below(8) {
        // one caller, one after the other
        0 | 1 | 2 => {
            let np = *g.r.pick(&[1usize, 1, 2, 3]);
            p.peers = peers(np);
            let mut c = Caller::default();
            let spoil = g.r.chance(400);
            for _ in 0..g.r.range(2, 12) {
                let i = g.r.below(np as u64) as usize;
                let mut x = g.call(i, 5000, 20_000);
                if spoil && g.r.chance(300) { g.spoil(&mut x, false); }
                if g.r.chance(250) { x.pre_us = g.r.below(24_000_000); }
                c.calls.push(x);
            }
            p.callers.push(c);
            p.end = *g.r.pick(&[0u8, 0, 1, 2]);
        }
        // idle times around the expiry
        3 | 4 => {
            let np = *g.r.pick(&[1usize, 2, 4]);
            p.peers = peers(np);
            let mut c = Caller::default();
            for _ in 0..g.r.range(2, 6) { let i = g.r.below(np as u64) as usize; let mut x = g.call(i, 200, 2000); x.pre_us = *g.r.pick(&[0u64, 1_000_000, 14_000_000, 23_000_000, 24_500_000, 31_000_000, 46_500_000, 50_000_000, 100_000_000]); x.pause_us = x.pause_us.min(100_000); c.calls.push(x); }
            p.callers.push(c);
            p.end = *g.r.pick(&[0u8, 1, 1]);
        }
        // more servers than the pool holds
        5 => {
            let np = g.r.range(99, 125) as usize;
            p.peers = peers(np);
            let nc = *g.r.pick(&[1usize, 1, 3]);
            p.callers = vec![Caller::default(); nc];
            // every connection may stay, or some may not
            let dense = g.r.chance(700);
            let mut one = |g: &mut G, i: usize| {
                let mut x = g.call(i, 50, 50);
                simple(&mut x);
                if dense && g.r.chance(990) { x.conn = String::new(); x.version = "HTTP/1.1".into(); x.resp.conn = String::new(); x.resp.version = "HTTP/1.1".into(); x.read = 1; }
                x
            };
            for i in 0..np { let x = one(g, i); p.callers[i % nc].calls.push(x); if g.r.chance(150) { let y = one(g, i); p.callers[i % nc].calls.push(y); } }
            let more = g.r.below(12);
            for _ in 0..more { let i = if g.r.chance(500) { g.r.below(np as u64) as usize } else { np - 1 - g.r.below(99) as usize }; let x = one(g, i); p.callers[0].calls.push(x); }
            p.end = *g.r.pick(&[0u8, 1]);
            p.knobs.slice_mean = if p.knobs.slice_mean == 0 { 0 } else { p.knobs.slice_mean.max(600) };
            p.knobs.lat_us = p.knobs.lat_us.min(2000); p.knobs.jitter_us = p.knobs.jitter_us.min(2000);
        }
        // many threads, one client, dropped while they are busy with responses
        _ => {
            let np = *g.r.pick(&[1usize, 2, 5]);
            p.peers = peers(np);
            for _ in 0..g.r.range(2, 8) {
                let mut c = Caller { start_us: g.r.below(50_000), calls: vec![] };
                for _ in 0..g.r.range(1, 5) { let i = g.r.below(np as u64) as usize; let mut x = g.call(i, 2000, 20_000); if g.r.chance(300) { x.read = *g.r.pick(&[4u8, 5]); } if g.r.chance(100) { g.spoil(&mut x, false); } c.calls.push(x); }
                p.callers.push(c);
            }
            p.end = *g.r.pick(&[0u8, 1, 2, 2]);
        }
    }
}
fn simple(c: &mut Call) { c.resp.chunks.clear(); c.resp.delay_us = 0; c.pre_us = 0; c.pause_us = 0; c.resp.linger_ms = 0; if matches!(c.read, 4 | 5 | 6 | 9) { c.read = 1; } }
