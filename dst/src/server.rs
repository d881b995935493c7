//! The server scenario: the real wruster server, scripted clients, recording handlers, and the oracles.
use crate::core::*;
use crate::hist::*;
use crate::net::Link;
use crate::plan::*;
use crate::wire::{self, P};
use std::collections::HashMap;
use std::io::{self, Read};
use std::str::FromStr;
use std::sync::Arc;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};

pub const PORT: u16 = 8080;
pub const ADDR: &str = "127.0.0.1:8080";

// ---- handlers --------------------------------------------------------------
pub struct SrcReader { pub data: Vec<u8>, pub pos: usize, pub src: Src, pub reads: u32 }
impl Read for SrcReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        let s = self.src.clone();
        if s.delay_us > 0 && (s.delay_every <= 1 || self.reads % s.delay_every == 0) { sleep(s.delay_us as u64 * US); }
        if s.eintr > 0 && self.reads % s.eintr == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        if s.err_at >= 0 && self.pos >= s.err_at as usize { sim().count_fault(F::BodyErr); return Err(io::Error::new(io::ErrorKind::Other, "injected body source error")); }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if s.chunk > 0 { n = n.min(s.chunk as usize); }
        if s.err_at >= 0 { n = n.min(s.err_at as usize - self.pos); }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Running(usize);
impl Drop for Running { fn drop(&mut self) { let h = hist(); h.running -= 1; h.h[self.0].t1 = now(); if std::thread::panicking() { h.h[self.0].panicked = true; } } }

pub fn rid_of(uri: &str) -> Option<u32> { let p = uri.split('?').next().unwrap(); p.rsplit('/').next().and_then(|s| s.parse().ok()) }
pub fn resp_bytes(rid: u32, n: usize, kind: u8) -> Vec<u8> {
    let mut v = crate::rng::blob(rid as u64 * 2 + 1, n);
    if matches!(kind, 1 | 7 | 8) {
        for b in &mut v { *b = b'a' + *b % 26; }
        // not only one-byte characters
        if rid % 3 != 0 { for i in (0..n.saturating_sub(1)).step_by(if rid % 3 == 1 { 2 } else { 97 }) { v[i..i + 2].copy_from_slice("é".as_bytes()); } }
    }
    v
}
/// Builds the response of a handler and says what a client must receive.
fn build(q: &Req, e: &mut HEv, taken: Option<Body>) -> Response {
    let rs = &q.h.resp;
    let len = rs.len as usize;
    let data = resp_bytes(q.rid, len, rs.kind);
    e.resp_status = rs.status; e.resp_body = data.clone(); e.resp_ok = true;
    let mut headers: Vec<(String, String)> = rs.headers.clone();
    let full = {
        let mut d = data.clone();
        if rs.src.short > 0 { d.truncate(len.saturating_sub(rs.src.short as usize)); sim().count_fault(F::BodyShort); }
        if rs.src.extra > 0 { d.extend(crate::rng::blob(77, rs.src.extra as usize)); sim().count_fault(F::BodyLong); }
        d
    };
    if rs.src.err_at >= 0 && (rs.src.err_at as usize) < full.len().max(1) && (rs.src.err_at as usize) < len || rs.src.short > 0 && len > 0 { e.resp_ok = false; }
    let reader = SrcReader { data: full, pos: 0, src: rs.src.clone(), reads: 0 };
    let status = StatusCode::from(rs.status as usize);
    let text = |d: &[u8]| std::str::from_utf8(d).unwrap().to_string();
    let mut r = match rs.kind {
        6 => {
            e.resp_body = q.body_bytes()[q.body.saturating_sub(rs.len) as usize..].to_vec();
            let Some(b) = taken else { e.resp_ok = false; return Response::from_status(StatusCode::InternalServerError) };
            Response { status, headers: Headers::new(), body: Some(Body::new(Some(mime::APPLICATION_OCTET_STREAM), len as u64, b.content)) }
        }
        7 => Response { status, headers: Headers::new(), body: Some(Body::from(text(&data), mime::TEXT_PLAIN)) },
        8 => { let t = text(&data); let mut b = <Body as From<&str>>::from(&t); if q.rid % 2 == 0 { b = Body::from(t.as_str(), mime::TEXT_HTML); } Response { status, headers: Headers::new(), body: Some(b) } }
        0 => { e.resp_body.clear(); e.resp_ok = true; Response::from_status(status) }
        1 => { e.resp_status = 200; Response::from_str(std::str::from_utf8(&data).unwrap()).unwrap() }
        2 => { e.resp_status = 200; headers.push(("Content-Type".into(), "application/octet-stream".into())); Response::from_content(reader, len as u64, mime::APPLICATION_OCTET_STREAM) }
        3 => { let mut h = Headers::new(); h.add(Header { name: "Content-Length".into(), value: len.to_string() }); Response { status, headers: h, body: Some(Body::new(Some(mime::APPLICATION_OCTET_STREAM), len as u64, Box::new(reader))) } }
        _ => Response { status, headers: Headers::new(), body: Some(Body::new(Some(mime::TEXT_PLAIN), len as u64, Box::new(reader))) },
    };
    for (n, v) in &rs.headers { r.headers.add(Header { name: n.clone(), value: v.clone() }); }
    e.resp_headers = headers;
    r
}
pub fn read_body(b: &mut Body, mode: u8, n: u32, e: &mut HEv) {
    let mut out = vec![];
    let res: io::Result<()> = match mode {
        1 => { let r = b.content.read_to_end(&mut out); e.read_to_end = r.is_ok(); r.map(|_| ()) }
        2 => { let r = b.read_to_end(&mut out); e.read_to_end = r.is_ok(); r.map(|_| ()) }
        3 | 4 => {
            let step = if mode == 4 { n.max(1) as usize } else { 4096 };
            let mut left = if mode == 3 { n as usize } else { usize::MAX };
            let mut buf = vec![0; step];
            loop {
                if left == 0 { break Ok(()); }
                let k = step.min(left);
                match if mode == 3 { b.read(&mut buf[..k]) } else { b.content.read(&mut buf[..k]) } {
                    Ok(0) => { e.read_to_end = true; break Ok(()); }
                    Ok(m) => { out.extend_from_slice(&buf[..m]); left -= m; }
                    Err(x) if x.kind() == io::ErrorKind::Interrupted => {}
                    Err(x) => break Err(x),
                }
            }
        }
        _ => Ok(()),
    };
    e.body = out;
    if let Err(x) = res { e.body_err = Some(x.to_string()); }
}
pub fn handle(table: &HashMap<u32, Req>, route: i32, req: &mut Request) -> Response {
    // wruster's own code is preempted: what it computes is computed first
    let named = req.headers.get("X-Rid").and_then(|x| x.first().and_then(|x| x.parse().ok()));
    let rid = named.or(rid_of(&req.uri)).unwrap_or(u32::MAX);
    let h = hist();
    h.running += 1; h.max_running = h.max_running.max(h.running);
    let mut e = HEv { rid, route, t0: now(), method: req.method.to_string(), uri: req.uri.clone(), version: req.version.clone(), ..Default::default() };
    e.headers = req.headers.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    e.headers.sort();
    e.declared = req.body.as_ref().map(|b| b.content_length);
    let i = h.h.len();
    h.h.push(e.clone());
    h.rid_runs.entry(rid).or_default().push(i);
    { let mut s = sim(); s.note(60, rid as u64); s.tr(|| format!("handler of route {route} starts for request {rid}")); }
    let _r = Running(i);
    let Some(q) = table.get(&rid) else { return Response::from_status(StatusCode::OK) };
    if q.h.panic == 1 { sim().count_fault(F::HandlerPanic); panic!("injected handler panic"); }
    if q.h.pre_us > 0 { sleep(q.h.pre_us as u64 * US); }
    if q.h.read == 5 { drop(req.body.take()); }
    if let Some(b) = req.body.as_mut() { read_body(b, q.h.read, q.h.n, &mut e); }
    hist().h[i] = e.clone();
    if q.h.panic == 2 { sim().count_fault(F::HandlerPanic); panic!("injected handler panic"); }
    if q.h.post_us > 0 { sleep(q.h.post_us as u64 * US); }
    let taken = if q.h.resp.kind == 6 { req.body.take() } else { None };
    let m = q.h.mutate;
    if m & 1 > 0 { req.uri = "/elsewhere".into(); }
    if m & 2 > 0 { req.version = if req.version == "HTTP/1.0" { "HTTP/1.1" } else { "HTTP/1.0" }.into(); }
    if m & 4 > 0 { req.headers = Headers::new(); req.headers.add(Header { name: "Connection".into(), value: "close".into() }); req.headers.add(Header { name: "Content-Length".into(), value: "7".into() }); }
    if m & 8 > 0 { req.method = if req.method == HttpMethod::HEAD { HttpMethod::GET } else { HttpMethod::HEAD }; }
    if m & 16 > 0 { if let Some(b) = req.body.as_mut() { b.content_type = None; } }
    let r = build(q, &mut e, taken);
    e.done = true; e.t1 = now();
    hist().h[i] = e;
    sim().tr(|| format!("handler for request {rid} returns"));
    r
}

// ---- clients ---------------------------------------------------------------
pub struct Conn { heads: Vec<bool>, pub ep: usize, pub tls: Option<rustls::ClientConnection>, pub ci: usize, eof_in: bool, out: Vec<u8>, off: usize, parse: usize, pub responses: usize }
fn rec(ci: usize) -> &'static mut CRec { &mut hist().c[ci] }
impl Conn {
    fn ended(&self) -> bool { rec(self.ci).end.is_some() || rec(self.ci).closed_by_client.is_some() }
    fn end(&mut self, e: End) { let t = now(); let r = rec(self.ci); if r.end.is_none() { r.end = Some((t, e.clone())); } let ci = self.ci; sim().tr(|| format!("client {ci} sees the end of the connection: {e:?}")); }
    /// Takes up to `max` raw bytes from the socket without blocking; true if anything happened.
    fn pump_in(&mut self, max: usize) -> bool {
        if self.eof_in || rec(self.ci).closed_by_client.is_some() { return false; }
        let mut buf = vec![0u8; max.clamp(1, 65536)];
        let r = sim().ep_recv(self.ep, &mut buf, false);
        match r {
            // the error of a reset can have been reported to a write
            Ok(0) => { self.eof_in = true; let rst = { let s = sim(); let e = &s.net.eps[self.ep]; e.dead && e.t_rst_rcvd > 0 && !e.fin_rcvd }; self.end(if rst { End::Rst } else { End::Eof }); true }
            Ok(n) => { self.feed(&buf[..n]); true }
            Err(libc::EAGAIN) => false,
            Err(_) => { self.eof_in = true; self.end(End::Rst); true }
        }
    }
    fn feed(&mut self, mut b: &[u8]) {
        let t = now();
        match &mut self.tls {
            None => { let r = rec(self.ci); r.recv.extend_from_slice(b); let n = r.recv.len(); r.marks.push((t, n)); }
            Some(c) => {
                while !b.is_empty() {
                    match c.read_tls(&mut b) { Ok(0) => break, Ok(_) => {}, Err(e) => { let m = e.to_string(); self.end(End::Tls(m)); return; } }
                    if let Err(e) = c.process_new_packets() { let m = e.to_string(); self.end(End::Tls(m)); return; }
                    let mut v = vec![];
                    let res = c.reader().read_to_end(&mut v);
                    let r = rec(self.ci);
                    if !v.is_empty() { r.recv.extend_from_slice(&v); let n = r.recv.len(); r.marks.push((t, n)); }
                    let _ = res;
                }
                let mut o = vec![]; while c.wants_write() { if c.write_tls(&mut o).is_err() { break } }
                self.out.extend(o);
                if !c.is_handshaking() { rec(self.ci).tls_up = true; }
            }
        }
    }
    fn parse(&mut self) {
        loop {
            let r = rec(self.ci);
            match wire::response_to(&r.recv[self.parse..], self.heads.get(self.responses).copied().unwrap_or(false)) { P::Done(m) => { self.parse += m.end; self.responses += 1; } _ => return }
        }
    }
    /// Tries to put pending bytes into the socket; true on progress.
    fn pump_out(&mut self, limit: usize) -> bool {
        if self.off >= self.out.len() || self.ended() { self.off = 0; self.out.clear(); return false; }
        let k = (self.out.len() - self.off).min(limit);
        let r = sim().ep_send(self.ep, &self.out[self.off..self.off + k]);
        match r {
            Ok(n) => { self.off += n; if self.off >= self.out.len() { self.out.clear(); self.off = 0; } n > 0 }
            Err(libc::EAGAIN) => false,
            Err(_) => { self.out.clear(); self.off = 0; let more = { let mut any = false; while self.pump_in(65536) { any = true; } any }; if !more && !self.eof_in { self.eof_in = true; self.end(End::Rst); } true }
        }
    }
    fn wait(&self, deadline: u64) -> bool { let ep = self.ep; let mut s = sim(); if s.now >= deadline { return false; } s.block(&[chan(CH_EP, ep)], Some(deadline), "client"); true }
    /// Writes all of `b`, reading meanwhile; returns how much of it was handed to the socket.
    fn send(&mut self, b: &[u8], chunks: &[(u32, u32)], deadline: u64) -> usize {
        let enc: Vec<u8> = match &mut self.tls {
            None => b.to_vec(),
            Some(c) => { let mut o = std::mem::take(&mut self.out); o.drain(..self.off); self.off = 0; for p in b.chunks(40_000) { let _ = io::Write::write_all(&mut c.writer(), p); while c.wants_write() { if c.write_tls(&mut o).is_err() { break } } } o }
        };
        self.out.clear(); self.off = 0;
        let total = enc.len();
        let mut done = 0;
        let mut plan: Vec<(usize, u64)> = vec![];
        let mut left = total;
        for (n, d) in chunks { let k = (*n as usize).min(left); plan.push((k, *d as u64)); left -= k; if left == 0 { break; } }
        if left > 0 { plan.push((left, 0)); }
        for (n, d) in plan {
            if d > 0 { self.idle(now() + d * US); }
            let end = done + n;
            while done < end {
                if self.ended() || now() >= deadline { return if self.tls.is_some() { if done >= total { b.len() } else { 0 } } else { done }; }
                let r = { let mut s = sim(); s.ep_send(self.ep, &enc[done..end]) };
                match r {
                    Ok(k) if k > 0 => done += k,
                    Ok(_) | Err(libc::EAGAIN) => { if !self.pump_in(65536) { self.wait(deadline); } }
                    Err(_) => { while self.pump_in(65536) {} if !self.eof_in { self.eof_in = true; self.end(End::Rst); } }
                }
            }
        }
        if self.tls.is_some() { if done >= total { b.len() } else { 0 } } else { done }
    }
    /// Sleeps while noticing incoming bytes and the end of the connection.
    fn idle(&mut self, until: u64) { loop { while self.pump_in(65536) {} if now() >= until { return; } if self.ended() { let mut s = sim(); let d = until - s.now; s.sleep_for(d, "client idle"); return; } self.wait(until); } }
    fn read_step(&mut self, chunk: u32, delay_us: u32, deadline: u64) {
        if chunk == 0 { if !self.pump_in(65536) { self.wait(deadline); } }
        else { if !self.pump_in(chunk as usize) { self.wait(deadline); } else if delay_us > 0 { sleep(delay_us as u64 * US); } }
        while self.tls.is_some() && self.pump_out(usize::MAX) {}
        self.parse();
    }
    fn tls_handshake(&mut self, deadline: u64) -> bool {
        loop {
            let Some(c) = self.tls.as_mut() else { return true };
            while c.wants_write() { if c.write_tls(&mut self.out).is_err() { break } }
            while self.pump_out(usize::MAX) {}
            let c = self.tls.as_mut().unwrap();
            if !c.is_handshaking() && !c.wants_write() && self.out.is_empty() { rec(self.ci).tls_up = true; return true; }
            if self.ended() || now() >= deadline { return false; }
            if !self.pump_in(65536) { self.wait(deadline); }
        }
    }
}
static mut BARRIERS: Option<HashMap<(u8, u32), (usize, usize)>> = None;
fn barrier(phase: u8, n: u32) {
    let ch = chan(CH_USER, (phase as usize) << 32 | n as usize);
    let b = unsafe { BARRIERS.as_mut().unwrap().get_mut(&(phase, n)).unwrap() };
    b.1 += 1;
    let mut s = sim();
    if b.1 >= b.0 { s.notify(ch); return; }
    while b.1 < b.0 { s.block(&[ch], None, "barrier"); }
}

pub fn tls_client() -> rustls::ClientConnection {
    let mut roots = rustls::RootCertStore::empty();
    roots.add(&rustls::Certificate(unsafe { CERT_DER.clone() })).expect("root certificate");
    let cfg = rustls::ClientConfig::builder().with_safe_defaults().with_root_certificates(roots).with_no_client_auth();
    rustls::ClientConnection::new(Arc::new(cfg), rustls::ServerName::try_from("localhost").unwrap()).expect("tls client")
}
pub static mut CERT_DER: Vec<u8> = Vec::new();
pub static mut TLS_ID: Option<(wruster::PrivateKey, wruster::Certificate)> = None;

fn run_client(p: Arc<SPlan>, ci: usize) {
    let c = p.clients[ci].clone();
    if c.start_us > 0 { sleep(c.start_us * US); }
    let link = Link { lat: c.lat_us as u64 * US, jitter: c.jitter_us as u64 * US, mss: c.mss.max(1) as usize, rcvbuf: c.rcvbuf.max(1) as usize, sndbuf: c.sndbuf.max(1) as usize };
    let r = rec(ci);
    r.t_connect = now();
    let (ep, res) = { let mut s = sim(); let ep = s.connect_start(PORT, link, false); let dl = s.now + p.patience_ms as u64 * MS; (ep, s.connect_wait(ep, Some(dl))) };
    let r = rec(ci);
    r.ep = ep;
    let mut k = Conn { heads: vec![], ep, tls: None, ci, eof_in: false, out: vec![], off: 0, parse: 0, responses: 0 };
    match res { Ok(()) => r.connected = true, Err(e) => { r.conn_err = e; k.end(End::Rst); } }
    if p.tls && c.tls_mode == 0 && r.connected {
        k.tls = Some({ let _g = Guard::new(); tls_client() });
        let dl = now() + p.patience_ms as u64 * MS;
        if !k.tls_handshake(dl) && rec(ci).end.is_none() { rec(ci).late.push((0, now(), "the TLS handshake did not finish".into())); }
    } else if p.tls && r.connected {
        let mut h = { let _g = Guard::new(); let mut t = tls_client(); let mut o = vec![]; let _ = t.write_tls(&mut o); o };
        sim().count_fault(if c.tls_mode == 1 { F::Garbage } else { F::Truncated });
        if c.tls_mode == 1 { h = crate::rng::blob(c.tls_n as u64, 64 + c.tls_n as usize % 400); } else { h.truncate(c.tls_n as usize % h.len()); }
        let dl = now() + 60 * SEC;
        k.send(&h, &[], dl);
        match c.tls_mode { 3 => { sim().ep_close(ep); rec(ci).closed_by_client = Some((now(), "close in handshake".into())); } 4 => { sim().ep_abort(ep); rec(ci).closed_by_client = Some((now(), "reset in handshake".into())); } _ => {} }
    }
    for (oi, op) in c.ops.iter().enumerate() {
        let dead = k.ended();
        match op {
            Op::Send { req, cut, chunks } => {
                let all = req.bytes();
                let n = if *cut < 0 { all.len() } else { (*cut as usize).min(all.len()) };
                let t0 = now();
                let got = k.responses;
                k.heads.push(req.is_head());
                let i = rec(ci).sent.len();
                rec(ci).sent.push(Sent { op: oi, rid: req.rid, total: all.len(), sent: 0, t_first: t0, t_last: 0, complete: false, got_at_send: got });
                let s = if dead || rec(ci).half_closed { 0 } else { k.send(&all[..n], chunks, t0 + 600 * SEC) };
                let r = rec(ci);
                r.sent[i].sent = s; r.sent[i].t_last = now(); r.sent[i].complete = s == all.len();
                if *cut >= 0 && s < all.len() { sim().count_fault(F::Truncated); }
                sim().tr(|| format!("client {ci}: sent {s}/{} bytes of request {}", all.len(), req.rid));
            }
            Op::Raw { hex, chunks, want } => {
                let b = wire::unhex(hex);
                let t0 = now();
                if *want != 3 { k.heads.push(false); }
                let i = rec(ci).sent.len();
                rec(ci).sent.push(Sent { op: oi, rid: u32::MAX, total: b.len(), sent: 0, t_first: t0, t_last: 0, complete: false, got_at_send: k.responses });
                let s = if dead || rec(ci).half_closed { 0 } else { k.send(&b, chunks, t0 + 600 * SEC) };
                let r = rec(ci); r.sent[i].sent = s; r.sent[i].t_last = now(); r.sent[i].complete = s == b.len();
                if *want != 3 { sim().count_fault(F::Garbage); }
                sim().tr(|| format!("client {ci}: sent {s}/{} raw bytes", b.len()));
            }
            Op::Recv { n, chunk, delay_us, wait_ms } => {
                let want = k.responses + *n as usize;
                let t0 = now();
                let dl = t0 + if *wait_ms > 0 { *wait_ms as u64 * MS } else { p.patience_ms as u64 * MS };
                if *chunk > 0 && *delay_us > 0 { sim().count_fault(F::PeerSlowReader); }
                k.parse();
                while k.responses < want && !k.ended() { if now() >= dl { let got = k.responses; rec(ci).late.push((oi, now(), format!("waited {} ms for response number {want}, have {got}", (now() - t0) / MS))); break; } k.read_step(*chunk, *delay_us, dl); }
            }
            Op::RecvEnd { wait_ms } => {
                let dl = now() + if *wait_ms > 0 { *wait_ms as u64 * MS } else { p.patience_ms as u64 * MS };
                while !k.ended() { if now() >= dl { rec(ci).late.push((oi, now(), "the server did not end the connection".into())); break; } k.read_step(0, 0, dl); }
            }
            Op::ReadFor { ms, chunk, delay_us } => { let dl = now() + *ms as u64 * MS; while now() < dl && !k.ended() { k.read_step(*chunk, *delay_us, dl); } let mut s = sim(); if s.now < dl { let d = dl - s.now; s.sleep_for(d, "client"); } }
            Op::Sleep { us } => { if *us > 2_000_000 { sim().count_fault(F::PeerSilent); } sleep(*us * US) }
            Op::ShutWr => if !dead { sim().count_fault(F::PeerHalfClose); let _ = sim().ep_shutdown(ep, libc::SHUT_WR); rec(ci).half_closed = true; },
            Op::Close => if rec(ci).closed_by_client.is_none() { sim().count_fault(F::PeerClose); sim().ep_close(ep); rec(ci).closed_by_client = Some((now(), "close".into())); },
            Op::Reset => if rec(ci).closed_by_client.is_none() { sim().count_fault(F::PeerReset); sim().ep_abort(ep); sim().ep_close(ep); rec(ci).closed_by_client = Some((now(), "reset".into())); },
            Op::Partition { us } => { let mut s = sim(); let t = s.now + *us as u64 * US; s.stall_link(ep, t); }
            Op::Barrier { n } => barrier(c.phase, *n),
        }
        rec(ci).ops_done = oi + 1;
    }
    // see what is already there, then leave
    while k.pump_in(65536) {}
    k.parse();
    if rec(ci).closed_by_client.is_none() { sim().ep_close(ep); rec(ci).closed_by_client = Some((now(), "done".into())); }
    rec(ci).finished = true;
}

// ---- driver ----------------------------------------------------------------
pub fn method(m: &str) -> HttpMethod { HttpMethod::from_str(m).unwrap() }
pub fn table(p: &SPlan) -> Arc<HashMap<u32, Req>> {
    let mut t = HashMap::new();
    for c in &p.clients { for o in &c.ops { if let Op::Send { req, .. } = o { t.insert(req.rid, req.clone()); } } }
    Arc::new(t)
}
pub fn routes(p: &SPlan, t: &Arc<HashMap<u32, Req>>) -> Router {
    let r = Router::new();
    for (i, (path, m)) in p.routes.iter().enumerate() {
        let t = t.clone();
        let dir = p.served_dir.clone();
        let h: HttpHandler = if dir.is_empty() { Box::new(move |q: &mut Request| handle(&t, i as i32, q)) } else { Box::new(move |q: &mut Request| static_handle(&dir, i as i32, q)) };
        r.add(path, method(m), if p.logmw { wruster_handlers::log_middleware(h) } else { h });
    }
    r
}
fn static_handle(dir: &str, route: i32, req: &mut Request) -> Response {
    // wruster's own code is preempted: what it computes is computed first
    let (method, uri) = (req.method.to_string(), req.uri.clone());
    let h = hist();
    let i = h.h.len();
    h.h.push(HEv { rid: i as u32, route, t0: now(), method, uri, ..Default::default() });
    h.running += 1;
    let _r = Running(i);
    let r = wruster_handlers::serve_static(dir, req);
    hist().h[i].done = true;
    r
}
fn count_fds() -> Vec<i32> { sim().net.fds.keys().copied().collect() }

pub fn drive(p: &SPlan, prop: &str) {
    let p = Arc::new(p.clone());
    if !p.files.is_empty() {
        let mut s = sim();
        s.fs.enabled = true;
        s.fs.mkdir("/simfs"); s.fs.mkdir("/outside"); s.fs.put(0, "/outside/secret", b"SECRET-SECRET-SECRET".to_vec());
        for f in &p.files { match f { FileSpec::Dir(d) => s.fs.mkdir(d), FileSpec::File(f, seed, n) => s.fs.put(0, f, crate::rng::blob(*seed, *n as usize)), FileSpec::Link(f, t) => s.fs.link(f, t) } }
        s.fs.script = p.script.clone();
    }
    for (i, c) in p.clients.iter().enumerate() { hist().c.push(CRec { idx: i, phase: c.phase, hostile: c.hostile, ep: usize::MAX, ..Default::default() }); }
    let mut b: HashMap<(u8, u32), (usize, usize)> = HashMap::new();
    for c in &p.clients { for o in &c.ops { if let Op::Barrier { n } = o { b.entry((c.phase, *n)).or_default().0 += 1; } } }
    unsafe { BARRIERS = Some(b); }
    let t = table(&p);
    let to = wruster::Timeouts { read_request_timeout: std::time::Duration::from_millis(p.read_ms), write_response_timeout: std::time::Duration::from_millis(p.write_ms) };
    let mut server = wruster::Server::from_timeouts(to);
    let rts = routes(&p, &t);
    let r = as_system(|| if p.tls { let (k, c) = unsafe { TLS_ID.clone().unwrap() }; server.run_tls(ADDR, rts, k, c) } else { server.run(ADDR, rts) });
    if let Err(e) = r { sim().violate("life.start", format!("starting the server on a free address failed: {e}")); return; }
    sleep(500 * MS + p.knobs.stall_budget_us * US);
    let fds0 = count_fds().len();
    let th0 = sim().live_sys_threads().len();
    let phases = p.clients.iter().map(|c| c.phase).max().unwrap_or(0);
    let mut server = Some(server);
    for ph in 0..=phases {
        if ph > 0 { sleep(p.idle_s.max(1) as u64 * SEC); }
        sim().faults_on = ph == 0;
        let hs: Vec<_> = (0..p.clients.len()).filter(|i| p.clients[*i].phase == ph).map(|i| { let p = p.clone(); actor(&format!("client{i}"), move || run_client(p, i)) }).collect();
        if ph == 0 && p.shutdown_us > 0 {
            sleep(p.shutdown_us * US);
            shutdown(&p, server.take().unwrap());
        }
        for h in hs { let _ = h.join(); }
        sim().faults_on = false;
    }
    if server.is_some() {
        // every connection has ended: what it used must come back
        sleep(15 * SEC);
        let stuck = p.clients.iter().any(|c| c.tls_mode == 2);
        if stuck { sleep(p.read_ms.min(120_000) * MS); }
        let fds1 = count_fds(); let th1 = sim().live_sys_threads();
        if fds1.len() != fds0 { let d = format!("{} descriptors before the connections, {} after all of them ended and 15 s of idleness", fds0, fds1.len()); sim().violate("leak.fd", d); }
        if th1.len() != th0 { let d = format!("{} threads before the connections, {} after all of them ended and 15 s of idleness: {}", th0, th1.len(), sim().describe_threads()); sim().violate("leak.thread", d); }
        shutdown(&p, server.take().unwrap());
    }
    after_shutdown(&p);
    judge(&p, prop);
}
fn shutdown(p: &SPlan, server: wruster::Server) {
    hist().shut_call = now();
    for c in hist().c.iter_mut().filter(|c| c.connected) { let e = &sim().net.eps; c.arrived = e[c.ep].sndq.is_empty() && e[c.ep ^ 1].wire_bytes == 0; }
    sim().tr(|| "shutdown called".into());
    // handlers, body sources and slow clients may legitimately hold it up
    let bound = shutdown_bound(p);
    let g = sim().guard("shut.hang", format!("shutdown did not return within {} s", bound / SEC), bound);
    let r = as_system(|| server.shutdown().map_err(|e| e.to_string()));
    sim().unguard(g);
    let h = hist(); h.shut_ret = now(); h.shut_res = Some(r.clone());
    sim().tr(|| format!("shutdown returned {r:?}"));
    if let Err(e) = r { sim().violate("shut.err", format!("shutdown of a running server failed: {e}")); }
}
fn shutdown_bound(p: &SPlan) -> u64 {
    let mut hmax = 0u64;
    for c in &p.clients { for o in &c.ops { if let Op::Send { req, .. } = o {
        let s = &req.h.resp.src;
        let reads = if s.delay_us > 0 { let ch = if s.chunk > 0 { s.chunk as u64 } else { 8192 }; (req.h.resp.len as u64 / ch + 2) * s.delay_us as u64 * US / s.delay_every.max(1) as u64 } else { 0 };
        hmax = hmax.max((req.h.pre_us as u64 + req.h.post_us as u64) * US + reads);
    } } }
    // an ongoing response may be held up by its reader for as long as the write timeout allows
    let slow = p.clients.iter().any(|c| c.hostile || c.ops.iter().any(|o| matches!(o, Op::Recv { delay_us, .. } if *delay_us > 0) || matches!(o, Op::ReadFor { .. } | Op::Sleep { .. } | Op::Partition { .. })));
    hmax + if slow { p.write_ms * MS + p.write_ms * MS / 4 } else { 0 } + 5 * SEC + p.knobs.stall_budget_us * US
}
fn after_shutdown(p: &SPlan) {
    let t_ret = hist().shut_ret;
    if let Some(e) = hist().h.iter().find(|e| !e.panicked && (e.t1 == 0 || e.t1 > t_ret)) { let m = format!("a handler (request {}) was still running when shutdown had returned", e.rid); sim().violate("shut.late_handler", m); }
    let fds = count_fds();
    if !fds.is_empty() { let m = format!("{} descriptors still open when shutdown returned: {:?}", fds.len(), fds); sim().violate("shut.conn_open", m); }
    sleep(SEC);
    let th = sim().live_sys_threads();
    if !th.is_empty() { let m = format!("threads still alive 1 s after shutdown returned: {}", sim().describe_threads()); sim().violate("shut.thread_left", m); }
    let n = hist().h.len();
    sleep(2 * SEC);
    if hist().h.len() > n { sim().violate("shut.late_handler", "a handler started after shutdown had returned"); }
    // the address must be free again
    let mut s2 = wruster::Server::new();
    let r = as_system(|| s2.run(ADDR, Router::new()).map_err(|e| e.to_string()));
    match r { Err(e) => sim().violate("shut.rebind", format!("the address cannot be bound again after shutdown: {e}")), Ok(()) => { if let Err(e) = as_system(|| s2.shutdown().map_err(|e| e.to_string())) { sim().violate("shut.err", format!("shutdown of an idle server failed: {e}")); } } }
    let _ = p;
}

// ---- oracles ---------------------------------------------------------------
fn v(class: &str, m: String) { sim().violate(class, m) }

/// The request must have reached the right handler, exactly as sent. `full`: all of it was sent.
/// `reset`: the client reset the connection, or the request had not arrived at the shutdown, so what it sent can be lost.
fn judge_request(q: &Req, runs: &[&HEv], full: bool, sent: usize, reset: bool) {
    if runs.len() > 1 { v("req.dup", format!("request {} was handed to a handler {} times", q.rid, runs.len())); }
    let Some(e) = runs.first() else { return };
    if q.route < 0 { v("req.phantom", format!("request {} for {} has no handler but route {} ran", q.rid, q.path, e.route)); return; }
    if e.route != q.route { v("req.route", format!("request {} for {} reached route {} instead of {}", q.rid, q.path, e.route, q.route)); }
    if e.method != q.method || e.version != q.version || e.uri != q.uri { v("req.data", format!("request {}: sent {} {} {}, handler saw {} {} {}", q.rid, q.method, q.path, q.version, e.method, e.uri, e.version)); }
    let mut want: HashMap<String, Vec<String>> = HashMap::new();
    for (n, val) in q.all_headers() { want.entry(n.to_ascii_lowercase()).or_default().push(val.trim_matches([' ', '\t']).to_string()); }
    let mut got: HashMap<String, Vec<String>> = HashMap::new();
    for (n, vs) in &e.headers { for x in vs { got.entry(n.to_ascii_lowercase()).or_default().push(x.to_string()); } }
    // the values of one header keep their order, unless the handler sees its names in several spellings
    if e.headers.iter().map(|h| h.0.to_ascii_lowercase()).collect::<std::collections::HashSet<_>>().len() != e.headers.len() { for m in [&mut want, &mut got] { for x in m.values_mut() { x.sort(); } } }
    if want != got { v("req.data", format!("request {}: headers differ: sent {want:?}, handler saw {got:?}", q.rid)); }
    let body = q.body_bytes();
    match e.declared { Some(n) if n == q.body as u64 => {} None if q.body == 0 => {} d => v("req.body", format!("request {}: body of {} bytes announced to the handler as {d:?}", q.rid, q.body)) }
    if body.len() < e.body.len() || body[..e.body.len()] != e.body[..] { v("req.body", format!("request {}: the handler read body bytes the client did not send ({} read of {})", q.rid, e.body.len(), body.len())); return; }
    if e.body.len() > 0 && !full { let head = q.bytes().len() - body.len(); if head + e.body.len() > sent { v("req.body", format!("request {}: the handler read {} body bytes, the client had sent {}", q.rid, e.body.len(), sent.saturating_sub(head))); } }
    let reads_all = matches!(q.h.read, 1 | 2 | 4) || q.h.read == 3 && q.h.n >= q.body;
    if full && e.done && q.h.read != 5 {
        if let Some(x) = &e.body_err { if !reset { v("req.body", format!("request {}: reading the complete body failed: {x}", q.rid)); } }
        else if reads_all && e.body.len() != body.len() { v("req.body", format!("request {}: the handler read {} of {} body bytes and then the end", q.rid, e.body.len(), body.len())); }
        else if q.h.read == 3 && e.body.len() != (q.h.n as usize).min(body.len()) { v("req.body", format!("request {}: the handler asked for {} of {} body bytes and got {}", q.rid, q.h.n, body.len(), e.body.len())); }
    }
    if !full && e.done && q.body > 0 && e.body.len() == body.len() { v("req.partial", format!("request {}: incomplete, but the handler read a full body", q.rid)); }
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Fin { Open, MustClose, MayClose }

pub fn judge(p: &SPlan, prop: &str) {
    let h = hist();
    let lossy0 = p.lossy;
    let mut served = 0u64;
    if p.served_dir.is_empty() { for c in &h.c { judge_conn(p, c, h, lossy0 && c.phase == 0, &mut served); } }
    if p.overload { crate::gen::judge_overload(p, h); }
    // handlers that nobody asked for
    let known = table(p);
    if p.served_dir.is_empty() { for e in &h.h { if !known.contains_key(&e.rid) { v("req.phantom", format!("a handler ran for {} {} which no client sent as a request", e.method, e.uri)); } } }
    if !p.served_dir.is_empty() { crate::gen::judge_static(p, h); return static_panics(p, h); }
    if h.max_running > 100 && p.knobs.cpus <= 100 { v("over.run", format!("{} handlers ran at the same time", h.max_running)); }
    for x in h.panics.iter().filter(|x| x.sys && !x.msg.contains("injected")) { v("panic", format!("thread {} panicked at {}: {}", x.thread, x.loc, x.msg)); }
    let mut s = sim();
    s.stat("served", served);
    s.nontrivial = served > 0 && h.c.len() > 1;
    let _ = prop;
}

fn static_panics(_p: &SPlan, h: &Hist) { for x in h.panics.iter().filter(|x| x.sys && !x.msg.contains("injected")) { v("panic", format!("thread {} panicked at {}: {}", x.thread, x.loc, x.msg)); } }

fn judge_conn(p: &SPlan, c: &CRec, h: &Hist, lossy: bool, served: &mut u64) {
    let cl = &p.clients[c.idx];
    let who = format!("client {}{}", c.idx, if c.phase > 0 { " (probe)" } else { "" });
    let t_end = crate::gen::first_end(c);
    let by_shut = h.shut_call > 0 && t_end.map(|t| t >= h.shut_call).unwrap_or(false) && !c.late.iter().any(|l| l.1 < h.shut_call);
    let cut_ok = lossy || c.hostile;
    let probe = c.phase > 0;
    let cls = |s: &str| if probe && !p.overload { format!("probe.{s}") } else { s.to_string() };
    if !c.connected { if !lossy && !(h.shut_call > 0 && c.t_connect + 10 * SEC >= h.shut_call) { v(&cls("conn.refused"), format!("{who}: connecting failed with errno {}", c.conn_err)); } return; }
    if p.tls && cl.tls_mode != 0 { return; }
    if p.tls && !c.tls_up { if !cut_ok && !by_shut { v(&cls("tls.handshake"), format!("{who}: proper TLS handshake failed: {:?} {:?}", c.end, c.late)); } return; }
    // without threads the server may refuse a connection
    if lossy && !p.overload && sim().fault_count(F::ThreadEagain) > 0 && c.sent.iter().all(|s| h.rid_runs.get(&s.rid).map(|v| v.is_empty()).unwrap_or(true)) {
        match wire::response(&c.recv) { P::Done(m) => if m.status == 503 && m.end == c.recv.len() { sim().probe("refused with 503"); return; }, P::Partial => if c.recv.starts_with(b"HTTP/1.1 503 ") && t_end.is_some() { sim().probe("refused with 503, cut by a fault"); return; }, _ => {} }
    }
    // nobody else makes a client wait
    if let (Some(s), false) = (c.sent.first(), cut_ok || p.overload || h.shut_call > 0 && c.t_connect + 60 * SEC > h.shut_call && p.shutdown_us > 0 || cl.ops.iter().any(|o| matches!(o, Op::Partition { .. })) || h.c.len() > 90) {
        let b = 5 * SEC + p.knobs.stall_budget_us * US + 8 * (cl.lat_us + cl.jitter_us) as u64 * US;
        if let Some(i) = h.rid_runs.get(&s.rid).and_then(|r| r.first()) { let t = h.h[*i].t0; if t > s.t_last + b { v(&cls("conn.slow"), format!("{who}: its first request was handled {:.3} s after it had been sent", (t - s.t_last) as f64 / 1e9)); } }
        if p.tls && s.op == 0 && s.t_first > c.t_connect + b { v(&cls("conn.slow"), format!("{who}: its TLS handshake took {:.3} s", (s.t_first - c.t_connect) as f64 / 1e9)); }
    }
    // walk over what the client sent, in order
    let mut pos = 0usize;
    let mut fin = Fin::Open;
    let mut stop = false;
    let mut why = "";
    // closing with later requests unread resets the connection, and what was not delivered yet is lost
    let mut lost = false;
    for s in &c.sent {
        let op = &cl.ops[s.op];
        let q = match op { Op::Send { req, .. } => Some(req), _ => None };
        let runs: Vec<&HEv> = q.map(|q| h.rid_runs.get(&q.rid).map(|v| v.iter().map(|i| &h.h[*i]).collect()).unwrap_or_default()).unwrap_or_default();
        if let Some(q) = q { judge_request(q, &runs, s.complete, s.sent, c.closed_by_client.as_ref().map(|x| x.1 == "reset").unwrap_or(false) || lossy || p.shutdown_us > 0 && !(c.arrived && s.t_last <= h.shut_call)); }
        if stop {
            if !runs.is_empty() && !lost { v("req.afterclose", format!("{who}: request {} was processed although {why}", q.unwrap().rid)); }
            continue;
        }
        if s.sent == 0 && !s.complete { stop = true; why = "nothing of it was sent"; if fin == Fin::Open { fin = Fin::MayClose; } continue; }
        match q {
            Some(q) if s.complete => {
                let rest = &c.recv[pos..];
                let run = runs.first().copied();
                let panics = q.h.panic != 0 && q.route >= 0;
                match wire::response_to(rest, q.is_head()) {
                    P::Done(m) => {
                        if p.overload && m.status == 503 && pos == 0 && run.is_none() { fin = Fin::MustClose; stop = true; why = "the connection was refused with 503"; pos += m.end; sim().probe("refused with 503"); if !may_refuse(p, c) { v("over.refused", format!("{who}: refused with 503 although fewer than 100 connections were being served")); } continue; }
                        if panics { if m.status != 500 { v("resp.status", format!("{who}: the handler of request {} panicked but a response {} came", q.rid, m.start)); } pos += m.end; fin = Fin::MustClose; stop = true; why = "the handler panicked"; continue; }
                        let exp = expected(q, run);
                        match exp {
                            None => v(&cls("req.notrun"), format!("{who}: request {} got response {:?} but its handler never ran", q.rid, m.start)),
                            Some((status, headers, body, ok)) => {
                                let got_body = &rest[m.head_end..m.end];
                                if !ok {
                                    // the body source cannot deliver what was declared: a complete-looking response is wrong unless it is an error response
                                    if m.status < 500 { v("resp.body", format!("{who}: request {}: the body source failed but a complete response {:?} with {} bytes arrived", q.rid, m.start, got_body.len())); }
                                    fin = Fin::MayClose;
                                } else {
                                    if m.status != status { v(&cls("resp.status"), format!("{who}: request {}: status {} expected, got {:?}", q.rid, status, m.start)); }
                                    if wire::bodyless(q.is_head(), m.status) { sim().probe("response without a body whatever its length"); if q.is_head() && m.cl != Some(declared(q) as u64) { v(&cls("resp.header"), format!("{who}: HEAD request {}: Content-Length {:?} for a body of {} bytes", q.rid, m.cl, declared(q))); } }
                                    if got_body != &body[..] { v(&cls("resp.body"), format!("{who}: request {}: body differs: {} bytes expected, {} received ({})", q.rid, body.len(), got_body.len(), wire::show(got_body))); }
                                    for (n, val) in &headers { let g = wire::header(&m.headers, n); let w: Vec<&str> = headers.iter().filter(|(x, _)| x.eq_ignore_ascii_case(n)).map(|(_, y)| y.as_str()).collect(); if g != w { v("resp.header", format!("{who}: request {}: header {n}: {val} of the handler arrived as {g:?}", q.rid)); break; } }
                                }
                                *served += 1;
                            }
                        }
                        // order: it must not arrive before the request was complete, handlers in order
                        pos += m.end;
                        if q.h.resp.src.extra > 0 && q.h.resp.kind >= 2 && !wire::bodyless(q.is_head(), m.status) { if fin == Fin::Open { fin = Fin::MayClose; } }
                        else if !q.persistent() { fin = Fin::MustClose; stop = true; why = "the connection was not persistent"; }
                        else if fin != Fin::MayClose { fin = Fin::Open; }
                    }
                    other => {
                        // no complete response
                        stop = true; why = "an earlier request was not answered";
                        if panics { if run.is_none() && !cut_ok && c.late.iter().any(|l| l.0 >= s.op) { v(&cls("req.notrun"), format!("{who}: request {} never reached its handler", q.rid)); } fin = Fin::MustClose; if !rest.is_empty() { if let P::Bad(e) = other { v("resp.framing", format!("{who}: {e}")); } } pos = c.recv.len(); continue; }
                        if let P::Bad(e) = &other { v(&cls("resp.framing"), format!("{who}: answer to request {}: {e}", q.rid)); fin = Fin::MayClose; pos = c.recv.len(); continue; }
                        let exp = expected(q, run);
                        // whatever arrived must be a prefix of the right response
                        if let Some((st, hs, he, n)) = wire::response_head(rest) {
                            if let Some((status, _, body, ok)) = &exp {
                                let got = &rest[he..];
                                if st != *status { v(&cls("resp.status"), format!("{who}: request {}: status {status} expected, got {st}", q.rid)); }
                                if n != q.h.resp.len as u64 && q.h.resp.kind != 0 && q.route >= 0 { v("resp.framing", format!("{who}: request {}: Content-Length {n} for a declared length of {}", q.rid, q.h.resp.len)); }
                                let lim = if *ok { body.len() } else { body.len().min(got.len()) };
                                if got.len() > lim || got[..] != body[..got.len().min(body.len())] { v(&cls("resp.body"), format!("{who}: request {}: the part of the body that arrived ({} bytes) is wrong", q.rid, got.len())); }
                            } else if run.is_none() && q.route >= 0 { v(&cls("req.notrun"), format!("{who}: request {} is being answered but its handler never ran", q.rid)); }
                            let _ = hs;
                        }
                        pos = c.recv.len();
                        let src_bad = run.map(|e| e.done && !e.resp_ok).unwrap_or(false);
                        if src_bad {
                            fin = Fin::MustClose; why = "its body source failed";
                            sim().probe("response cut because its source failed");
                            continue;
                        }
                        fin = Fin::MayClose;
                        let ends = |x: &Sent| matches!(&cl.ops[x.op], Op::Send { req, .. } if h.rid_runs.get(&req.rid).map(|r| !r.is_empty()).unwrap_or(false) && (req.h.resp.src.err_at >= 0 || req.h.resp.src.short > 0 || req.h.resp.src.extra > 0 || !req.persistent() || req.h.panic > 0));
                        if run.is_some() && matches!(c.end, Some((_, End::Rst))) && c.sent.iter().any(|x| x.op >= s.op && ends(x)) && c.sent.iter().any(|x| x.op > s.op && matches!(&cl.ops[x.op], Op::Send { req, .. } if h.rid_runs.get(&req.rid).map(|r| r.is_empty()).unwrap_or(true))) && cl.ops[s.op + 1..].iter().take_while(|o| !matches!(o, Op::Recv { .. })).any(|o| matches!(o, Op::Send { .. })) { lost = true; continue; }
                        let waited = c.late.iter().any(|l| l.0 >= s.op);
                        let server_ended = c.end.is_some() && c.closed_by_client.as_ref().map(|x| x.0 >= c.end.as_ref().unwrap().0).unwrap_or(true);
                        if cut_ok { lost = matches!(c.end, Some((_, End::Rst))); continue; }
                        // a response its reader did not take in time (judge_times checks that it was given the time)
                        let wt = p.write_ms * MS;
                        if let (Some(e), Some(t)) = (run, t_end) { if crate::gen::slow_reader(cl) && e.done && t >= e.t1 + wt * 3 / 4 { if matches!(c.end, Some((_, End::Rst))) { lost = true; } continue; } }
                        if by_shut {
                            if let Some(e) = run { if e.t0 <= h.shut_call && !e.panicked && c.arrived && s.t_last <= h.shut_call && (waited || server_ended) { v("shut.cut", format!("{who}: request {} was being processed when shutdown was called and did not get its complete response ({} bytes, {:?})", q.rid, rest.len(), c.end)); } }
                            continue;
                        }
                        if waited { v(&cls(if run.is_none() && q.route >= 0 { "req.notrun" } else { "resp.missing" }), format!("{who}: request {} complete, {}; {} bytes of its response arrived; handler {}", q.rid, c.late.last().map(|l| l.2.clone()).unwrap_or_default(), rest.len(), if run.is_some() { "ran" } else { "never ran" })); }
                        else if server_ended { v(&cls(if run.is_none() && q.route >= 0 { "req.notrun" } else { "resp.cut" }), format!("{who}: the server ended the connection ({:?}) without a complete response to request {} ({} bytes arrived); handler {}", c.end.as_ref().unwrap().1, q.rid, rest.len(), if run.is_some() { "ran" } else { "never ran" })); }
                    }
                }
            }
            Some(_) => { stop = true; why = "an incomplete request preceded it"; fin = Fin::MayClose; incomplete(p, c, s, &who, &mut pos, cut_ok); }
            None => {
                let Op::Raw { want, .. } = op else { continue };
                if *want == 3 { continue; }
                stop = true; why = "malformed input preceded it";
                fin = if s.complete && *want != 2 { Fin::MustClose } else { Fin::MayClose };
                match wire::response(&c.recv[pos..]) {
                    P::Done(m) => {
                        if m.status < 400 || m.status > 599 { v("bad.accepted", format!("{who}: malformed input was answered {:?}", m.start)); }
                        else if *want == 1 && m.status != 400 { v("bad.status", format!("{who}: a syntax error was answered {:?} instead of 400", m.start)); }
                        sim().probe("malformed input answered 4xx/5xx");
                        pos += m.end;
                    }
                    P::Bad(e) => { v("resp.framing", format!("{who}: answer to malformed input: {e}")); pos = c.recv.len(); }
                    P::Partial => {
                        let got = c.recv.len() - pos;
                        pos = c.recv.len();
                        if *want == 1 && s.complete && !cut_ok && !by_shut && c.closed_by_client.as_ref().map(|x| x.1 == "done").unwrap_or(true) && got == 0 { v("bad.no400", format!("{who}: a syntax error in the request line or headers was not answered 400: end {:?}, late {:?}", c.end, c.late)); }
                    }
                }
            }
        }
    }
    if pos < c.recv.len() { v(&cls("resp.extra"), format!("{who}: {} bytes that belong to no response: {}", c.recv.len() - pos, wire::show(&c.recv[pos..]))); }
    // how it ended
    if p.overload && c.sent.is_empty() && !c.recv.is_empty() { return; }
    let server_end = c.end.clone().filter(|e| c.closed_by_client.as_ref().map(|x| x.0 > e.0 || x.1 == "done").unwrap_or(true));
    match fin {
        Fin::MustClose => {
            if let (None, Some(l)) = (&server_end, c.late.iter().find(|l| matches!(cl.ops.get(l.0), Some(Op::RecvEnd { .. }) | Some(Op::Recv { .. })))) { if !lossy { v("conn.notclosed", format!("{who}: the connection had to end ({why}) but: {}", l.2)); } }
            // it has to end then, not when something expires
            else if let (false, false, false, Some(t)) = (lossy || p.overload || c.hostile, crate::gen::slow_reader(cl), by_shut, t_end) {
                let lastrun = c.sent.iter().filter_map(|s| h.rid_runs.get(&s.rid)).flatten().map(|i| h.h[*i].t1).max().unwrap_or(0);
                let src: u64 = cl.ops.iter().map(|o| match o { Op::Send { req, .. } => { let r = &req.h.resp; r.src.delay_us as u64 * (r.len / r.src.chunk.max(1) + 2) as u64 * US }, _ => 0 }).sum();
                let quiet = c.sent.iter().map(|s| s.t_last).chain(c.marks.iter().map(|m| m.0)).filter(|x| *x <= t).chain([lastrun]).max().unwrap_or(0);
                if p.read_ms >= 8000 && t > quiet + p.read_ms * MS * 3 / 4 + src + p.knobs.stall_budget_us * US { v("conn.notclosed", format!("{who}: the connection had to end ({why}) but it did only {:.3} s later", (t - quiet) as f64 / 1e9)); }
            }
        }
        Fin::Open => {
            if let Some((t, e)) = &server_end {
                if !cut_ok && !(h.shut_call > 0 && *t >= h.shut_call) && !c.half_closed && !idle_too_long(p, c, *t) { v(&cls("conn.closed_early"), format!("{who}: the server ended a connection that had to stay usable ({e:?} at {:.3} s)", *t as f64 / 1e9)); }
            }
        }
        Fin::MayClose => {}
    }
    // requests of one connection are handled in order
    let mut last = 0;
    for s in &c.sent { if let Some(i) = h.rid_runs.get(&s.rid).and_then(|v| v.first()) { let t = h.h[*i].t0; if t < last { v("req.order", format!("{who}: request {} was handled before an earlier one of its connection", s.rid)); } last = t; } }
    crate::gen::judge_times(p, c, h, lossy);
}
fn incomplete(_p: &SPlan, c: &CRec, s: &Sent, who: &str, pos: &mut usize, _cut_ok: bool) {
    // a request the client never completed: no answer that looks like success
    let head = matches!(&_p.clients[c.idx].ops[s.op], Op::Send { req, .. } if req.is_head());
    if let P::Done(m) = wire::response_to(&c.recv[*pos..], head) {
        if m.status < 400 { v("req.partial", format!("{who}: incomplete request {} ({} of {} bytes) was answered {:?}", s.rid, s.sent, s.total, m.start)); }
        *pos += m.end;
    } else if let Op::Send { req: q, .. } = &_p.clients[c.idx].ops[s.op] {
        // the answer can begin with what has arrived of the body
        if q.h.resp.kind == 6 { if let Some((st, _, he, n)) = wire::response_head(&c.recv[*pos..]) {
            let body = q.body_bytes();
            let (body, got) = (&body[(q.body - q.h.resp.len) as usize..], &c.recv[*pos + he..]);
            if st == q.h.resp.status && (n != body.len() as u64 || got.len() > body.len() || got != &body[..got.len()]) { v("resp.body", format!("{who}: incomplete request {}: {} bytes of its echoed body, of {n} announced, are wrong", s.rid, got.len())); }
            if st == q.h.resp.status { *pos = c.recv.len(); }
        } else {
            // cut in its head
            let (got, line) = (&c.recv[*pos..], format!("HTTP/1.1 {} ", q.h.resp.status));
            let n = got.len().min(line.len());
            if got[..n] == line.as_bytes()[..n] { *pos = c.recv.len(); }
        } }
    }
}
/// Idle (or incomplete) for about the read timeout: the server may close.
fn idle_too_long(p: &SPlan, c: &CRec, t: u64) -> bool {
    let lim = p.read_ms * MS * 3 / 4;
    let lastact = c.sent.iter().map(|s| s.t_last).chain(c.marks.iter().map(|m| m.0)).chain([c.t_connect]).filter(|x| *x <= t).max().unwrap_or(0);
    t - lastact >= lim
}
fn may_refuse(p: &SPlan, c: &CRec) -> bool { crate::gen::may_refuse(p, c) }
/// The length of the body the handler of the request gave to its response.
fn declared(q: &Req) -> u32 { if q.route < 0 || q.h.resp.kind == 0 { 0 } else { q.h.resp.len } }
/// status, headers, body, can be completed
fn expected(q: &Req, run: Option<&HEv>) -> Option<(u16, Vec<(String, String)>, Vec<u8>, bool)> {
    if q.route < 0 { return Some((404, vec![], vec![], true)); }
    let e = run?;
    if !e.done { return None; }
    if wire::bodyless(q.is_head(), e.resp_status) { return Some((e.resp_status, e.resp_headers.clone(), vec![], true)); }
    Some((e.resp_status, e.resp_headers.clone(), e.resp_body.clone(), e.resp_ok))
}
