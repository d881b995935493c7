//! C18 and C19: the message readers and writers driven by byte sources and sinks whose every
//! call is scripted: how much it moves, when it is interrupted, where it fails or ends.
use crate::core::*;
use crate::gen::G;
use crate::plan::Src;
use crate::rng::{blob, mix};
use crate::server::SrcReader;
use crate::wire::{hex, show, unhex};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, BufReader, Cursor, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;
use wruster::http::errors::HttpError;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Message {
    pub method: String, pub uri: String, pub version: String, pub status: u16, pub reason: String,
    pub headers: Vec<(String, String)>, /** white space around the values */ pub ows: u32,
    pub cl_name: String, pub len: u32, pub seed: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Case {
    /// 0 read a request, 1 read a response, 2 read headers, 3 read a request from a string, 10 write a request, 11 write a response, 12 write a body, 13 write headers
    pub op: u8,
    pub msg: Message,
    /// not empty: these bytes instead of the message (their meaning is not known to the oracle)
    pub raw: String,
    /// the bytes in `raw` break the grammar: reading them must fail
    #[serde(default)] pub bad: bool,
    /// bytes that follow the message on the source
    pub after: u32,
    /// what the successive calls of the source or sink move at most; 0 = interrupted
    pub steps: Vec<u32>,
    /// what the later calls move at most; 0 = as much as asked for
    pub tail: u32,
    /// < 0: never; else the source or sink fails after this many bytes
    pub limit: i64,
    /// how it fails: 0 end of stream / nothing accepted, 1 never another byte (source only), 2.. errors
    pub end: u8,
    /// the failure happens only once
    pub once: bool,
    /// reading: how the body is consumed; writing: how the message is made
    pub mode: u8, pub n: u32,
    /// the body source of a written message
    pub src: Src,
    /// capacity of the reader over headers
    pub cap: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct CPlan { pub knobs: Knobs, pub cases: Vec<Case> }

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::Other, io::ErrorKind::NotConnected, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof];
fn kind(end: u8) -> io::ErrorKind { KINDS[(end.saturating_sub(2) as usize) % KINDS.len()] }
fn v(class: &str, m: String) { sim().violate(class, m); }
fn ows(o: u32, i: u32) -> (&'static str, &'static str) { const W: &[(&str, &str)] = &[("", ""), (" ", ""), ("  ", ""), ("\t", ""), (" ", " "), ("", "\t "), (" \t", "  ")]; if o == 0 { (" ", "") } else { W[(o.wrapping_mul(i + 1) % 7) as usize] } }

impl Message {
    fn head(&self, op: u8) -> Vec<u8> {
        let mut s = match op { 0 | 3 => format!("{} {} {}\r\n", self.method, self.uri, self.version), 1 => format!("{} {} {}\r\n", self.version, self.status, self.reason), _ => String::new() };
        let cl = self.headers.len() / 2;
        for (i, (n, x)) in self.headers.iter().enumerate() {
            if i == cl && !self.cl_name.is_empty() { let (a, b) = ows(self.ows, 77); s += &format!("{}:{a}{}{b}\r\n", self.cl_name, self.len); }
            let (a, b) = ows(self.ows, i as u32); s += &format!("{n}:{a}{x}{b}\r\n");
        }
        if self.headers.is_empty() && !self.cl_name.is_empty() { s += &format!("{}: {}\r\n", self.cl_name, self.len); }
        s += "\r\n";
        s.into_bytes()
    }
    fn body(&self, op: u8) -> Vec<u8> { if op == 2 || self.cl_name.is_empty() || (op == 1 && self.bodyless()) { vec![] } else { content(self.seed, self.len as usize) } }
    fn bodyless(&self) -> bool { self.status / 100 == 1 || self.status == 204 || self.status == 304 }
    fn all_headers(&self) -> Vec<(String, String)> { let mut h = self.headers.clone(); if !self.cl_name.is_empty() { h.push((self.cl_name.clone(), self.len.to_string())); } h }
}
/// Printable now and then, so that it can also travel in strings.
fn content(seed: u64, n: usize) -> Vec<u8> {
    match seed % 4 {
        0 => { let mut b = blob(seed, n); for x in &mut b { *x = b' ' + *x % 95; } b }
        1 => { let mut b = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nokGET / HTTP/1.1\r\n\r\n\r\n".to_vec(); while b.len() < n { let w = b.clone(); b.extend(w); } b.truncate(n); b }
        _ => blob(seed, n),
    }
}

// ---- the scripted source -----------------------------------------------------
struct FeedState { data: Vec<u8>, pos: usize, steps: Vec<u32>, at: usize, tail: u32, end: u8, once: bool, failed: u32, reads: u64, dry: u64, beyond: bool, limit: usize }
#[derive(Clone)]
struct Feed(Rc<RefCell<FeedState>>);
impl Feed {
    fn new(data: Vec<u8>, c: &Case, scripted: bool) -> Feed {
        let limit = if c.limit >= 0 { (c.limit as usize).min(data.len()) } else { data.len() };
        Feed(Rc::new(RefCell::new(FeedState { data, pos: 0, steps: if scripted { c.steps.clone() } else { vec![] }, at: 0, tail: if scripted { c.tail } else { 0 }, end: c.end, once: c.once, failed: 0, reads: 0, dry: 0, beyond: false, limit })))
    }
}
impl Read for Feed {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut f = self.0.borrow_mut();
        f.reads += 1;
        if buf.is_empty() { f.dry += 1; if f.dry > 5000 { spin("the source is asked for nothing again and again"); } return Ok(0); }
        let step = f.steps.get(f.at).copied();
        if step == Some(0) { f.at += 1; sim().count_fault(F::SrcInterrupted); return Err(io::ErrorKind::Interrupted.into()); }
        if f.pos >= f.limit {
            f.dry += 1;
            if f.dry > 5000 { spin("the source is read again and again after its end"); }
            f.failed += 1;
            match f.end {
                0 => return Ok(0),
                1 => { f.beyond = true; return Err(io::ErrorKind::TimedOut.into()); }
                e => { if f.failed == 1 { sim().count_fault(F::SourceErr); } return Err(io::Error::new(kind(e), "injected source error")); }
            }
        }
        let max = match step { Some(n) => { f.at += 1; n as usize } None => if f.tail > 0 { f.tail as usize } else { usize::MAX } };
        let n = buf.len().min(f.limit - f.pos).min(max);
        if n < buf.len().min(f.limit - f.pos) { sim().count_fault(F::ShortRead); }
        let p = f.pos;
        buf[..n].copy_from_slice(&f.data[p..p + n]);
        f.pos += n;
        Ok(n)
    }
}
fn spin(m: &str) -> ! { let mut s = sim(); s.violate("read.spin", m); s.finish() }

#[derive(Clone, Debug, PartialEq)]
struct Got { head: Vec<String>, headers: Vec<(String, Vec<String>)>, declared: Option<u64>, ctype: Option<String>, body: Vec<u8>, /** reading the body: None complete, otherwise the error */ body_err: Option<String>, ensured: Option<bool>, rest: Vec<u8>, status: usize }
type Res = Result<Got, HttpError>;
fn sorted(h: &Headers) -> Vec<(String, Vec<String>)> { let mut x: Vec<(String, Vec<String>)> = h.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); x.sort(); x }

/// Consumes the body in the way the case says.
fn consume(b: &mut Body, mode: u8, n: u32, g: &mut Got) {
    let mut out = vec![];
    let n1 = n.max(1) as usize;
    let r: io::Result<()> = match mode {
        0 => b.content.read_to_end(&mut out).map(|_| ()),
        1 => b.read_to_end(&mut out).map(|_| ()),
        2 => loop { let mut buf = vec![0; n1]; match b.read(&mut buf) { Ok(0) => break Ok(()), Ok(k) => out.extend_from_slice(&buf[..k]), Err(e) if e.kind() == io::ErrorKind::Interrupted => {} Err(e) => break Err(e) } },
        3 => io::copy(b, &mut out).map(|_| ()),
        4 | 5 => {
            // part of it, then let the body drain itself
            let mut left = if mode == 4 { n1 } else { 0 };
            let mut r = Ok(());
            while left > 0 { let mut buf = vec![0; left.min(1024)]; match b.read(&mut buf) { Ok(0) => break, Ok(k) => { out.extend_from_slice(&buf[..k]); left -= k; } Err(e) if e.kind() == io::ErrorKind::Interrupted => {} Err(e) => { r = Err(e); break } } }
            if r.is_ok() { g.ensured = Some(b.ensure_read().is_ok()); }
            r
        }
        _ => { // reads exactly, as a caller who trusts the announced length does
            let mut buf = vec![0; b.content_length.min(1 << 20) as usize];
            let mut at = 0;
            let r = loop { if at == buf.len() { break Ok(()); } match b.content.read(&mut buf[at..]) { Ok(0) => break Err(io::Error::new(io::ErrorKind::UnexpectedEof, "short")), Ok(k) => at += k, Err(e) if e.kind() == io::ErrorKind::Interrupted => {} Err(e) => break Err(e) } };
            out = buf[..at].to_vec();
            r
        }
    };
    if let Err(e) = r { g.body_err = Some(format!("{:?}", e.kind())); }
    g.body = out;
}
/// Runs the real reader; None: it panicked.
fn read(c: &Case, data: Vec<u8>, scripted: bool) -> (Option<Res>, Feed) {
    let f = Feed::new(data, c, scripted);
    let src = f.clone();
    let blank = || Got { head: vec![], headers: vec![], declared: None, ctype: None, body: vec![], body_err: None, ensured: None, rest: vec![], status: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| as_system(|| -> Res {
        match c.op {
            0 | 3 => {
                let mut q = if c.op == 3 { Request::read_from_str(std::str::from_utf8(&src.0.borrow().data).unwrap())? } else { Request::read_from(src)? };
                let mut g = blank();
                g.head = vec![q.method.to_string(), q.uri.clone(), q.version.clone()];
                g.headers = sorted(&q.headers);
                if let Some(b) = q.body.as_mut() { g.declared = Some(b.content_length); g.ctype = b.content_type.as_ref().map(|m| m.to_string()); consume(b, c.mode, c.n, &mut g); }
                Ok(g)
            }
            1 => {
                let mut q = Response::read_from(src)?;
                let mut g = blank();
                g.status = (&q.status).into();
                g.headers = sorted(&q.headers);
                if let Some(b) = q.body.as_mut() { g.declared = Some(b.content_length); g.ctype = b.content_type.as_ref().map(|m| m.to_string()); consume(b, c.mode, c.n, &mut g); }
                Ok(g)
            }
            _ => {
                let mut rd = BufReader::with_capacity(c.cap.max(1) as usize, src);
                let h = Headers::read_from(&mut rd)?;
                let mut g = blank();
                g.headers = sorted(&h);
                if let Err(e) = rd.read_to_end(&mut g.rest) { g.body_err = Some(format!("{:?}", e.kind())); }
                Ok(g)
            }
        }
    })));
    (r.ok(), f)
}
fn class(r: &Res) -> String { match r { Ok(_) => "accepted".into(), Err(HttpError::Unknown(_)) => "Unknown".into(), Err(HttpError::ConnectionClosed) => "ConnectionClosed".into(), Err(HttpError::Timeout) => "Timeout".into(), Err(HttpError::InvalidRequest(_)) => "InvalidRequest".into() } }
fn split_desc(c: &Case) -> String { format!("steps {:?}{} tail {}, {} end {}", &c.steps[..c.steps.len().min(12)], if c.steps.len() > 12 { ".." } else { "" }, c.tail, if c.limit < 0 { "whole message".into() } else { format!("cut at {}", c.limit) }, match c.end { 0 => "eof".into(), 1 => "silence".into(), e => format!("{:?}", kind(e)) }) }

fn drive_read(c: &Case) {
    let known = c.raw.is_empty();
    let (head, body) = if known { (c.msg.head(c.op), c.msg.body(c.op)) } else { (unhex(&c.raw), vec![]) };
    let mut data = head.clone();
    data.extend(&body);
    let end = data.len();
    if c.op != 3 { data.extend(blob(5, c.after as usize)); }
    let what = match c.op { 0 | 3 => "request", 1 => "response", _ => "headers" };
    let limit = if c.limit >= 0 && c.op != 3 { (c.limit as usize).min(data.len()) } else { data.len() };
    if limit < end { sim().count_fault(F::Truncated); }
    if !known { sim().count_fault(F::Garbage); }
    let (r, f) = read(c, data.clone(), true);
    let Some(r) = r else { v("read.panic", format!("the reader panicked on a {what} ({}; {}): {}", show(&data), split_desc(c), last_panic())); return };
    let (b, _) = read(c, data.clone(), false);
    let Some(b) = b else { v("read.panic", format!("the reader panicked on an unsplit {what} ({}): {}", show(&data), last_panic())); return };
    { let mut s = sim(); s.note(70, crate_hash(&data)); s.note(71, crate_hash(format!("{:?}", r.as_ref().map_err(|_| class(&r))).as_bytes())); s.tr(|| format!("{what} {} [{}] -> {}", show(&data), split_desc(c), class(&r))); }
    // the message does not depend on how its bytes arrive
    if class(&r) != class(&b) { v("read.split", format!("a {what} ({}; {}) gives {} ({:?}), the same bytes unsplit give {} ({:?})", show(&data), split_desc(c), class(&r), err(&r), class(&b), err(&b))); return; }
    if let (Ok(x), Ok(y)) = (&r, &b) { if x != y { v("read.split", format!("a {what} ({}; {}) reads as {}, the same bytes unsplit as {}", show(&data), split_desc(c), brief(x), brief(y))); return; } }
    if !known {
        if c.bad { if let Ok(g) = &r { v("read.accepted", format!("a {what} that breaks the grammar ({}; {}) was accepted: {}", show(&data), split_desc(c), brief(g))); return; } }
        if let Ok(g) = &r { if let Some(d) = g.declared { if g.body.len() as u64 > d { v("read.over", format!("a body announced with {d} bytes delivered {}", g.body.len())); } } }
        return;
    }
    if limit < head.len() {
        // it failed in the head
        if let Ok(g) = &r { v("read.truncated", format!("a {what} whose head was cut at byte {limit} of {} was accepted ({}; {}): {}", head.len(), show(&data[..limit]), split_desc(c), brief(g))); }
        return;
    }
    let g = match &r { Ok(g) => g, Err(e) => {
        if c.op == 2 && limit < end { return; }
        v("read.rejected", format!("a good {what} ({}; {}) was rejected: {e:?}", show(&data), split_desc(c))); return } };
    let m = &c.msg;
    // fields
    if c.op == 0 || c.op == 3 { let w = vec![m.method.clone(), m.uri.clone(), m.version.clone()]; if g.head != w { v("read.fields", format!("request line {w:?} was read as {:?}", g.head)); } }
    if c.op == 1 && g.status != m.status as usize { v("read.fields", format!("status {} was read as {}", m.status, g.status)); }
    let (w, h) = (fold(m.all_headers().into_iter()), fold(g.headers.iter().flat_map(|(n, vs)| vs.iter().map(move |x| (n.clone(), x.clone())))));
    let variants = g.headers.iter().map(|h| h.0.to_ascii_lowercase()).collect::<std::collections::HashSet<_>>().len() != g.headers.len();
    let norm = |mut m: std::collections::BTreeMap<String, Vec<String>>| { if variants { for x in m.values_mut() { x.sort(); } } m };
    if norm(w.clone()) != norm(h.clone()) { v("read.fields", format!("the headers {w:?} were read as {h:?}")); }
    if c.op == 2 {
        let want = &data[head.len()..limit];
        if c.end == 0 && (g.rest != want || g.body_err.is_some()) { v("read.position", format!("{} bytes follow the headers, {} of them are left in the reader{}", want.len(), g.rest.len(), if want.ends_with(&g.rest) || want.starts_with(&g.rest) { "" } else { " and they are others" })); }
        return;
    }
    // body
    match g.declared { None if body.is_empty() => {} Some(n) if n == body.len() as u64 => {} d => { v("read.body", format!("a body of {} bytes was announced as {d:?}", body.len())); return } }
    if let Some((_, t)) = m.headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-type")) { if g.declared.is_some() && g.ctype.as_deref() != Some(t.as_str()) { v("read.fields", format!("the content type {t:?} was read as {:?}", g.ctype)); } }
    let avail = &body[..body.len().min(limit - head.len())];
    let partial = matches!(c.mode, 4 | 5);
    if !body.starts_with(&g.body) || g.body.len() > avail.len() { v("read.body", format!("the body delivered ({} bytes) is not a prefix of the one sent ({} bytes)", g.body.len(), body.len())); return; }
    if limit >= end {
        if !partial && (g.body_err.is_some() || g.body.len() != body.len()) { v("read.body", format!("{} of the {} bytes of a complete body were delivered, error {:?} ({})", g.body.len(), body.len(), g.body_err, split_desc(c))); }
        if partial && g.declared.is_some() && (g.body_err.is_some() || g.ensured != Some(true)) { v("read.body", format!("a complete body could not be read to its end: {:?} ({})", g.body_err, split_desc(c))); }
        if partial && c.op != 3 && g.ensured == Some(true) && f.0.borrow().pos < end { v("read.drain", format!("ensure_read succeeded but {} bytes of the body were not taken from the source", end - f.0.borrow().pos)); }
        if f.0.borrow().beyond && limit == end { v("read.beyond", format!("a complete {what} ({} bytes) was not enough: the reader waits for more ({})", end, split_desc(c))); }
    } else {
        if partial { if g.ensured == Some(true) { v("read.truncated", format!("ensure_read succeeded on a body cut at {} of {} bytes ({})", avail.len(), body.len(), split_desc(c))); } return; }
        if g.body.len() >= body.len() { v("read.truncated", format!("a body cut at {} of {} bytes was delivered complete", avail.len(), body.len())); }
        // short and nothing says so: content_length tells, or an error
        if g.declared == Some(g.body.len() as u64) { v("read.truncated", format!("a body cut at {} of {} bytes looks complete", avail.len(), body.len())); }
        if c.end >= 2 && g.body_err.is_none() { v("read.truncated", format!("the source failed with {:?} after {} of {} bytes of the body and no error was reported", kind(c.end), avail.len(), body.len())); }
    }
}
fn err(r: &Res) -> String { match r { Ok(_) => "no error".into(), Err(e) => format!("{e:?}") } }
fn brief(g: &Got) -> String { format!("{:?} status {} headers {:?} body {:?} of {:?}, error {:?}, ensure_read {:?}", g.head, g.status, g.headers, g.body.len(), g.declared, g.body_err, g.ensured) }
fn fold(i: impl Iterator<Item = (String, String)>) -> std::collections::BTreeMap<String, Vec<String>> { let mut m = std::collections::BTreeMap::<String, Vec<String>>::new(); for (n, x) in i { m.entry(n.to_ascii_lowercase()).or_default().push(x); } m }
fn last_panic() -> String { crate::hist::hist().panics.last().map(|p| format!("{} at {}", p.msg, p.loc)).unwrap_or_default() }
fn crate_hash(b: &[u8]) -> u64 { let mut h = b.len() as u64; for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); h = mix(h, u64::from_le_bytes(x)); } h }

// ---- the scripted sink -------------------------------------------------------
struct Sink { out: Vec<u8>, steps: Vec<u32>, at: usize, tail: u32, limit: i64, end: u8, once: bool, fails: u32, calls: u64 }
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() { return Ok(0); }
        let step = self.steps.get(self.at).copied();
        if step == Some(0) { self.at += 1; sim().count_fault(F::SinkInterrupted); return Err(io::ErrorKind::Interrupted.into()); }
        if self.limit >= 0 && self.out.len() as i64 >= self.limit && !(self.once && self.fails > 0) {
            self.fails += 1;
            if self.fails > 5000 { let mut s = sim(); s.violate("write.spin", "the sink is written again and again after it failed"); s.finish() }
            sim().count_fault(F::SinkErr);
            return if self.end == 0 { Ok(0) } else { Err(io::Error::new(kind(self.end), "injected sink error")) };
        }
        let max = match step { Some(n) => { self.at += 1; n as usize } None => if self.tail > 0 { self.tail as usize } else { usize::MAX } };
        let mut n = buf.len().min(max);
        if self.limit >= 0 && self.fails == 0 { n = n.min((self.limit - self.out.len() as i64) as usize); }
        if n < buf.len() { sim().count_fault(F::ShortWrite); }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn method(m: &str) -> HttpMethod { HttpMethod::from_str(m).unwrap_or(HttpMethod::GET) }

/// Is `out` the beginning of a serialisation of these fields? Ok(true): the whole of it.
/// `optional`: header lines that may but need not be there; `required`: lines the writer has to add.
fn matches(out: &[u8], start: &dyn Fn(&[u8], bool) -> bool, headers: &[(String, String)], added: &[String], body: &[u8]) -> Result<bool, String> {
    let mut at = 0;
    // start line
    let eol = out.windows(2).position(|w| w == b"\r\n");
    match eol { None => return if start(out, false) { Ok(false) } else { Err(format!("the start line begins with {}", show(out))) }, Some(e) => { if !start(&out[..e], true) { return Err(format!("the start line is {}", show(&out[..e]))); } at += e + 2; } }
    let mut left: Vec<(String, Vec<u8>)> = headers.iter().map(|(n, x)| (n.clone(), format!("{n}: {x}\r\n").into_bytes())).collect();
    let mut extra: Vec<Vec<u8>> = added.iter().map(|l| format!("{l}\r\n").into_bytes()).collect();
    loop {
        let rest = &out[at..];
        // the next line of each name, so that equal names keep their order
        let firsts: Vec<usize> = (0..left.len()).filter(|i| left[..*i].iter().all(|x| x.0 != left[*i].0)).collect();
        if let Some(i) = firsts.iter().copied().find(|i| rest.starts_with(&left[*i].1)) { at += left[i].1.len(); left.remove(i); continue; }
        if let Some(i) = (0..extra.len()).find(|i| rest.starts_with(&extra[*i])) { at += extra[i].len(); extra.remove(i); continue; }
        if left.is_empty() && extra.is_empty() && rest.starts_with(b"\r\n") { at += 2; break; }
        // incomplete: a prefix of something that may come now
        if firsts.iter().any(|i| left[*i].1.starts_with(rest)) || extra.iter().any(|l| l.starts_with(rest)) || (left.is_empty() && extra.is_empty() && b"\r\n".starts_with(rest)) { return Ok(false); }
        return Err(format!("after {at} bytes comes {}, still to come: {:?}", show(rest), left.iter().map(|x| show(&x.1)).chain(extra.iter().map(|x| show(x))).collect::<Vec<_>>()));
    }
    let rest = &out[at..];
    if !body.starts_with(rest) { return Err(if rest.len() > body.len() && rest.starts_with(body) { format!("{} bytes follow the message", rest.len() - body.len()) } else { format!("{} bytes of body are not a prefix of the {} given", rest.len(), body.len()) }); }
    Ok(rest.len() == body.len())
}
fn drive_write(c: &Case) {
    let m = &c.msg;
    let data = content(m.seed, m.len as usize);
    let mut have = data.clone();
    if c.src.short > 0 { have.truncate(have.len().saturating_sub(c.src.short as usize)); }
    if c.src.extra > 0 { have.extend(blob(9, c.src.extra as usize)); }
    let source_bad = (have.len() < data.len()) || (c.src.err_at >= 0 && (c.src.err_at as usize) < data.len());
    // a failure right behind the last byte may, but need not, be noticed
    let source_edge = c.src.err_at >= 0 && c.src.err_at as usize >= data.len();
    if have.len() < data.len() { sim().count_fault(F::BodyShort); }
    if c.src.extra > 0 { sim().count_fault(F::BodyLong); }
    if c.src.eintr > 0 { sim().count_fault(F::SrcInterrupted); }
    let reader = SrcReader { data: have, pos: 0, src: c.src.clone(), reads: 0 };
    let mut sink = Sink { out: vec![], steps: c.steps.clone(), at: 0, tail: c.tail, limit: c.limit, end: c.end, once: c.once, fails: 0, calls: 0 };
    let hs = |l: &[(String, String)]| { let mut h = Headers::new(); for (n, x) in l { h.add(Header { name: n.clone(), value: x.clone() }); } h };
    let mut headers = m.headers.clone();
    let mut added: Vec<String> = vec![];
    let has_cl = |h: &[(String, String)]| h.iter().any(|x| x.0.eq_ignore_ascii_case("content-length"));
    let mut body = data.clone();
    let mut uses_src = true;
    let what = match c.op { 10 => "request", 11 => "response", 12 => "body", _ => "headers" };
    let mut status = m.status;
    let octets = mime::APPLICATION_OCTET_STREAM;
    let r: Option<Result<(), HttpError>> = catch_unwind(AssertUnwindSafe(|| as_system(|| match c.op {
        10 => {
            let q = match c.mode {
                0 => { body.clear(); uses_src = false; Request { method: method(&m.method), uri: m.uri.clone(), version: m.version.clone(), headers: hs(&headers), body: None } }
                1 => { uses_src = false; let s = String::from_utf8_lossy(&data).to_string(); body = s.clone().into_bytes(); headers = vec![]; Request::from(s, mime::TEXT_PLAIN, method(&m.method), m.uri.clone()) }
                2 => { headers = vec![("Content-Type".into(), octets.to_string())]; if m.len > 0 { headers.push(("Content-Length".into(), m.len.to_string())); } Request::from_body(Body::new(Some(octets), m.len as u64, Box::new(reader)), method(&m.method), &m.uri) }
                _ => { headers.push((m.cl_name.clone(), m.len.to_string())); Request { method: method(&m.method), uri: m.uri.clone(), version: m.version.clone(), headers: hs(&headers), body: Some(Body::new(None, m.len as u64, Box::new(reader))) } }
            };
            if c.mode == 0 && !has_cl(&headers) { added.push("Content-Length: 0".into()); }
            q.write(&mut sink)
        }
        11 => {
            let mut q = match c.mode {
                0 => { body.clear(); uses_src = false; headers = vec![]; Response::from_status(StatusCode::from(m.status as usize)) }
                1 => { uses_src = false; status = 200; headers = vec![]; let s = String::from_utf8_lossy(&data).to_string(); body = s.clone().into_bytes(); Response::from_str(&s).unwrap() }
                2 => { status = 200; headers = vec![("Content-Length".into(), m.len.to_string()), ("Content-Type".into(), octets.to_string())]; Response::from_content(reader, m.len as u64, octets) }
                3 => { headers.push((m.cl_name.clone(), m.len.to_string())); Response { status: StatusCode::from(m.status as usize), headers: hs(&headers), body: Some(Body::new(None, m.len as u64, Box::new(reader))) } }
                _ => Response { status: StatusCode::from(m.status as usize), headers: hs(&headers), body: Some(Body::new(Some(octets), m.len as u64, Box::new(reader))) },
            };
            if !has_cl(&headers) { added.push(format!("Content-Length: {}", body.len())); }
            // they end with their headers
            if status == 204 || status == 304 { body.clear(); uses_src = false; }
            q.write(&mut sink)
        }
        12 => Body::new(Some(octets), m.len as u64, Box::new(reader)).write(&mut sink),
        _ => { uses_src = false; body.clear(); hs(&headers).write(&mut sink) }
    }))).ok();
    let desc = format!("{what} (mode {}, {} bytes of body, headers {:?}; sink {}{}; source {:?})", c.mode, body.len(), headers, split_desc(c), if c.once { " once" } else { "" }, c.src);
    let Some(r) = r else { v("write.panic", format!("writing a {desc} panicked: {}", last_panic())); return };
    { let mut s = sim(); s.note(72, crate_hash(&sink.out)); s.note(73, r.is_ok() as u64); s.tr(|| format!("{desc} -> {:?}, {} bytes emitted", r, sink.out.len())); }
    let version = if c.op == 10 { if c.mode == 1 || c.mode == 2 { "HTTP/1.1".to_string() } else { m.version.clone() } } else { String::new() };
    let start = |l: &[u8], whole: bool| -> bool {
        match c.op {
            10 => { let w = format!("{} {} {}", m.method, m.uri, version).into_bytes(); if whole { l == &w[..] } else { w.starts_with(l) || (l.last() == Some(&b'\r') && l[..l.len() - 1] == w[..]) } }
            11 => { let w = format!("HTTP/1.1 {status}").into_bytes(); if whole { l.starts_with(&w) && (l.len() == w.len() || l[w.len()] == b' ') } else { let n = l.len().min(w.len()); l[..n] == w[..n] && (l.len() <= w.len() || l[w.len()] == b' ' || l[w.len()] == b'\r') } }
            _ => true,
        }
    };
    let res = match c.op {
        12 => if !body.starts_with(&sink.out) { Err(format!("{} bytes emitted are not a prefix of the {} given", sink.out.len(), body.len())) } else { Ok(sink.out.len() == body.len()) },
        13 => { let mut o = b"x\r\n".to_vec(); o.extend(&sink.out); matches(&o, &|_, _| true, &headers, &[], &[]) }
        _ => matches(&sink.out, &start, &headers, &added, &body),
    };
    let whole = match res {
        Err(e) => {
            // (a sink that failed once and then goes on working gets a prefix as well)
            v(if r.is_ok() { "write.wrong" } else { "write.prefix" }, format!("what was emitted for a {desc} is not {} of the message: {e}; result {r:?}", if r.is_ok() { "the whole" } else { "a prefix" })); return }
        Ok(w) => w,
    };
    match &r {
        Ok(()) if !whole => v("write.lost", format!("writing a {desc} succeeded but only {} bytes were emitted", sink.out.len())),
        Ok(()) if uses_src && source_bad => v("write.lost", format!("writing a {desc} succeeded although its body source failed")),
        Ok(()) if sink.fails > 0 => v("write.lost", format!("writing a {desc} succeeded although the sink failed after {} bytes", c.limit)),
        Err(e) if sink.fails == 0 && !(uses_src && (source_bad || source_edge)) => v("write.failed", format!("writing a {desc} failed: {e:?}")),
        _ => {}
    }
}

pub fn drive(p: &CPlan) {
    sim().faults_on = true;
    let mut disturbed = 0u64;
    for c in &p.cases {
        let before: u64 = sim().fault_n.iter().map(|x| *x as u64).sum();
        if c.op < 10 { drive_read(c) } else { drive_write(c) }
        let after: u64 = sim().fault_n.iter().map(|x| *x as u64).sum();
        if after > before { disturbed += 1; }
        sleep(1000);
        if !sim().violations.is_empty() { break; }
    }
    let mut s = sim();
    s.stat("messages", p.cases.len() as u64); s.stat("messages disturbed by a split or fault", disturbed);
    s.nontrivial = disturbed > 0;
}

// ---- generation --------------------------------------------------------------
const NAMES: &[&str] = &["X-Tag", "x-tag", "Host", "host", "ACCEPT", "User-Agent", "X_y.z~1", "cookie", "x-b3-traceid", "Set-Cookie", "!#$%&'*+-.^_`|~09", "a", "Connection", "Upgrade"];
impl G {
    fn cmsg(&mut self, response: bool, maxlen: u32) -> Message {
        let r = &mut self.r;
        let mut m = Message { method: r.pick(&["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"]).to_string(), version: r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]).to_string(), seed: r.next() % 100_000, ..Default::default() };
        m.uri = match r.below(6) { 0 => "/".into(), 1 => "*".into(), 2 => "http://example.com:8080/a?b=c#d".into(), 3 => format!("/{}", "x".repeat(r.range(1, 9000) as usize)), 4 => "/a%20b/../c;d=e?f=g&h=%00".into(), _ => format!("/a/{}", r.below(100_000)) };
        m.status = *r.pick(&[200u16, 200, 200, 201, 202, 203, 205, 206, 300, 301, 302, 303, 305, 307, 400, 401, 404, 405, 408, 413, 417, 429, 451, 499, 500, 501, 502, 503, 504, 505, 599, 204, 304, 100, 101]);
        if response { m.version = "HTTP/1.1".into(); m.reason = r.pick(&["OK", "Not Found", "", "A longer reason with  blanks", "200 OK"]).to_string(); }
        for _ in 0..*r.pick(&[0u64, 1, 2, 3, 5, 9]) {
            let n = if r.chance(250) { r.token() } else { r.pick(NAMES).to_string() };
            let x = match r.below(8) { 0 => String::new(), 1 => "a: b, c; d=\"e f\"".into(), 2 => "*/*".into(), 3 => "y".repeat(r.range(1, 9000) as usize), 4 => "a\tb  c".into(), 5 => ":".into(), _ => format!("value {}", r.below(100_000)) };
            m.headers.push((n, x));
        }
        if r.chance(200) { m.headers.push((r.pick(&["Content-Type", "content-type"]).to_string(), r.pick(&["text/plain", "application/json", "image/x-icon", "a/b"]).to_string())); }
        m.ows = if r.chance(300) { r.range(1, 6) as u32 } else { 0 };
        m.cl_name = r.pick(&["Content-Length", "content-length", "CONTENT-LENGTH"]).to_string();
        m.len = match r.below(12) { 0 | 1 => 0, 2 => 1, 3 => r.range(2, 60) as u32, 4 => *r.pick(&[8190u32, 8191, 8192, 8193, 16384, 16383, 16385]), 5 => r.range(9000, 70_000) as u32, _ => r.range(10, 3000) as u32 }.min(maxlen);
        m
    }
    fn steps(&mut self, c: &mut Case, total: usize) {
        let r = &mut self.r;
        let n = *r.pick(&[0u64, 0, 1, 2, 5, 20, 60]);
        let style = r.below(5);
        for _ in 0..n { c.steps.push(match style { 0 => 1, 1 => r.range(0, 2) as u32, 2 => r.range(1, 30) as u32, 3 => if r.chance(500) { 0 } else { r.range(1, total.max(2) as u64) as u32 }, _ => r.range(1, total.max(2) as u64) as u32 }); }
        if r.chance(200) { for _ in 0..r.range(1, 12) { c.steps.push(0); } }
        c.tail = if total < 4000 { *r.pick(&[0u32, 1, 1, 2, 3, 7, 100]) } else { *r.pick(&[0u32, 0, 100, 1000, 4096, 8191, 8192, 8193]) };
        if total < 20_000 && r.chance(100) { c.tail = 1; }
    }
    fn read_case(&mut self) -> Case {
        let op = *self.r.pick(&[0u8, 0, 0, 1, 1, 1, 2, 3]);
        let mut c = Case { op, msg: self.cmsg(op == 1, 80_000), limit: -1, mode: self.r.below(7) as u8, n: *self.r.pick(&[1u32, 7, 100, 1024, 8192, 100_000]), cap: *self.r.pick(&[1u32, 2, 5, 64, 8192]), ..Default::default() };
        if op == 2 { c.msg.cl_name.clear(); }
        if (op == 0 || op == 3) && c.msg.len == 0 && self.r.chance(500) { c.msg.cl_name.clear(); }
        if op == 1 && c.msg.bodyless() && self.r.chance(400) { c.msg.cl_name.clear(); }
        if op == 3 { c.msg.seed = c.msg.seed / 4 * 4; }
        if c.mode == 2 || c.mode == 4 { if c.msg.len / c.n.max(1) > 3000 { c.n = 1000; } }
        let (h, b) = (c.msg.head(op), c.msg.body(op));
        let total = h.len() + b.len();
        if op != 3 {
            self.steps(&mut c, total);
            let r = &mut self.r;
            match r.below(10) {
                0..=2 => { c.end = 1; }
                3 | 4 => { c.after = r.range(1, 200) as u32; c.end = *r.pick(&[0u8, 0, 2]); }
                5 | 6 => { c.limit = r.below(total as u64 + 1) as i64; c.end = *r.pick(&[0u8, 0, 2, 3, 4, 5, 6, 7, 8]); }
                7 => { c.limit = match r.below(4) { 0 => r.below(h.len() as u64 + 1) as i64, 1 => h.len() as i64 - r.below(5) as i64, 2 => h.len() as i64 + r.below(3) as i64, _ => total as i64 - 1 - r.below(3) as i64 }.max(0); c.end = *r.pick(&[0u8, 2, 3, 5]); }
                _ => {}
            }
            if op == 2 && c.end == 1 { c.end = 0; }
        }
        // unknown bytes: only the comparison with the unsplit reading and the absence of panics count
        if op != 3 && self.r.chance(300) {
            let mut d = h; d.extend(b);
            let r = &mut self.r;
            match r.below(8) {
                0 => { let n = r.range(0, 400) as usize; let s = r.next(); d = blob(s, n); }
                1 => { let n = r.range(0, 300) as usize; let a = b" \r\n\t:/.HTP109GETx\0\xff-"; d = (0..n).map(|_| a[r.below(a.len() as u64) as usize]).collect(); }
                _ => for _ in 0..r.range(1, 6) {
                    if d.is_empty() { break; }
                    let head_bias = r.chance(800);
                    let i = r.below(if head_bias { d.len().min(120) as u64 } else { d.len() as u64 }) as usize;
                    match r.below(5) {
                        0 => d[i] = *r.pick(&[0u8, b'\r', b'\n', b' ', b':', b'\t', 0xff, 0x80, b'/', b'9', b'-']),
                        1 => { d.remove(i); }
                        2 => d.insert(i, *r.pick(&[0u8, b'\r', b'\n', b' ', b':', 0xff, b'+', b',', b'1'])),
                        3 => { let e = (i + r.range(1, 30) as usize).min(d.len()); let x = d[i..e].to_vec(); d.splice(i..i, x); }
                        _ => { let e = (i + r.range(1, 30) as usize).min(d.len()); d.drain(i..e); }
                    }
                },
            }
            if r.chance(150) { let s = *r.pick(&["POST / HTTP/1.1\r\nContent-Length: +4\r\n\r\nabcd", "POST / HTTP/1.1\r\nContent-Length: 4, 4\r\n\r\nabcd", "POST / HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\nabcd", "POST / HTTP/1.1\r\nContent-Length: 18446744073709551616\r\n\r\nabcd", "HTTP/1.1 200\r\n\r\n", "HTTP/1.1  200 OK\r\n\r\n", "HTTP/1.1 2000 OK\r\n\r\n", "HTTP/1.1 20x OK\r\n\r\n", "HTTP/1.1 +20 OK\r\n\r\n", "HTTP/999.1 200 OK\r\n\r\n", "HTTP/1.1 200 OK\nContent-Length: 0\r\n\r\n", "GET / HTTP/1.1\nHost: x\n\n", "GET / HTTP/1.1\r\nHost: x\r\n folded\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\r\n\r\n", "GET /\u{e9} HTTP/1.1\r\nX: \u{e9}\r\n\r\n", "POST / HTTP/1.1\r\nContent-Type: \r\nContent-Length: 2\r\n\r\nab"]); d = s.as_bytes().to_vec(); }
            if self.r.chance(350) { d = self.bad_message(op); c.bad = true; }
            c.raw = hex(&d);
            if d.is_empty() { c.raw.clear(); c.limit = 0; c.end = 0; }
            if c.end == 1 { c.end = 0; }
            if c.limit > d.len() as i64 { c.limit = -1; }
        }
        c
    }
    /// a message with one error of syntax in its start line or headers
    fn bad_message(&mut self, op: u8) -> Vec<u8> {
        let r = &mut self.r;
        let good = ["GET / HTTP/1.1", "HTTP/1.1 200 OK", ""][op as usize];
        let mut lines: Vec<String> = (0..r.below(4)).map(|i| format!("X-H{i}: v{i}")).collect();
        if r.chance(500) { lines.push(format!("Content-Length: {}", r.below(9))); }
        let mut start = good.to_string();
        if op != 2 && r.chance(500) {
            let v = *r.pick(&["HTTP/1.x", "HTTP/x.1", "HTTP/1", "HTTP/1.1.1", "HTTP/", "HTTP", "HTT/1.1", "http/1.1", "HTTP/-1.1", "HTTP/1.-1", "HTTP/+1.1", "HTTP/1.+1", "HTTP/1.", "HTTP/.1", "/1.1", "HTTP//1.1", "HTTP/1.1/", "HTTPS/1.1", "HTTP /1.1", "HTTP/1,1", "HTTP/1.1\t", "HTTP/999.1", "HTTP/1.999"]);
            start = if op == 0 { match r.below(8) {
                0..=3 => format!("GET / {v}"),
                4 => format!("{} / HTTP/1.1", *r.pick(&["get", "GETT", "G", "FOO", "", " GET", "GET ", "GET\t", "P\u{d6}ST", "GE\rT"])),
                _ => (*r.pick(&["GET /", "GET / ", "GET", "GET  HTTP/1.1", "GET / HTTP/1.1 ", "GET / HTTP/1.1 x", "GET /a b HTTP/1.1", "GET /  HTTP/1.1", "", "\t", "HTTP/1.1 200 OK", "GET / HTTP/2.2", "GET / HTTP/3", "GET\t/\tHTTP/1.1"])).into(),
            } } else { match r.below(8) {
                0..=3 => format!("{v} 200 OK"),
                4 | 5 => format!("HTTP/1.1 {} OK", *r.pick(&["2000", "20", "abc", "2x0", "+20", "-20", "", "0x1", "2", "20\r\n", "\u{b2}00", "1e2", "20.", "99999999999999999999999999"])),
                _ => (*r.pick(&["HTTP/1.1", "HTTP/1.1 ", "HTTP/1.1 200", "200 OK", "OK", "", "GET / HTTP/1.1", "HTTP/1.1  200 OK", " HTTP/1.1 200 OK", "HTTP/1.1\t200 OK"])).into(),
            } };
        } else {
            let b: String = match r.below(9) {
                0 => "NoColonHere".into(),
                1 => format!("X-H : v"),
                2 => format!("{}: v", *r.pick(&["", " X", "\tX", "X(y)", "X@y", "X[0]", "X/y", "X\"y", "X{y", "X y", "\u{7f}X", "X\u{e9}", "X\0", "X,y", "X;y", "X=y", "X?", "<X>", "X\\"])),
                3 => format!("X: a{}b", *r.pick(&['\0', '\x01', '\x07', '\x1b', '\x7f', '\n', '\r', '\x0b', '\x1f'])),
                4 => " folded: y".into(),
                5 => ":".into(),
                6 => "B".repeat(r.range(1, 9000) as usize),
                7 => format!("X: {}\0", "v".repeat(r.below(100) as usize)),
                _ => "X".into(),
            };
            let at = r.below(lines.len() as u64 + 1) as usize;
            lines.insert(at, b);
        }
        let mut s = if op == 2 { String::new() } else { start + "\r\n" };
        for l in lines { s += &l; s += "\r\n"; }
        s += "\r\n";
        let mut d = s.into_bytes();
        d.extend(b"12345678");
        d
    }
    fn write_case(&mut self) -> Case {
        let op = *self.r.pick(&[10u8, 10, 10, 11, 11, 11, 11, 12, 13]);
        let big = self.r.chance(60);
        let mut c = Case { op, msg: self.cmsg(op == 11, 80_000), limit: -1, mode: self.r.below(if op == 10 { 4 } else { 5 }) as u8, ..Default::default() };
        c.msg.headers.retain(|h| !h.0.eq_ignore_ascii_case("content-type"));
        if op == 11 && c.msg.status < 200 { c.msg.status += 104; }
        if big { c.msg.len = *self.r.pick(&[2 << 20, (2 << 20) + 1, (2 << 20) - 1, 3 << 20, (2 << 20) + 70_001]); }
        if c.mode == 1 && op < 12 { c.msg.seed = c.msg.seed / 4 * 4; }
        let r = &mut self.r;
        c.src.err_at = -1;
        if r.chance(400) { c.src.chunk = if big { *r.pick(&[4096u32, 65536, 70_001, 1 << 20, (1 << 20) + 1]) } else if c.msg.len < 4000 { *r.pick(&[1u32, 3, 100, 1000]) } else { *r.pick(&[100u32, 1000, 8192, 10_000]) }; }
        if r.chance(300) { c.src.eintr = *r.pick(&[1u32, 2, 3, 7]).max(&2); }
        let n = c.msg.len as u64;
        match r.below(12) { 0 => c.src.err_at = r.below(n + 1) as i64, 1 => c.src.short = r.range(1, n.max(1)) as u32, 2 | 3 => c.src.extra = *r.pick(&[1u32, 10, 9000]), 4 if big => c.src.err_at = *r.pick(&[(1i64 << 20) - 1, 1 << 20, (1 << 20) + 1, 2 << 20]), _ => {} }
        if n == 0 { c.src.short = 0; }
        let total = c.msg.head(if op == 11 { 1 } else { 0 }).len() + n as usize;
        if big { if r.chance(500) { for _ in 0..r.range(1, 30) { c.steps.push(*r.pick(&[0u32, 1, 100, 65536, 1 << 20, 1 << 21])); } } c.tail = *r.pick(&[0u32, 0, 65536, 1 << 20, 4096]); } else { self.steps(&mut c, total); }
        let r = &mut self.r;
        match r.below(10) { 0..=3 => { c.limit = r.below(total as u64 + 1) as i64; c.end = *r.pick(&[0u8, 2, 3, 4, 5, 7]); c.once = r.chance(500); } 4 => { c.limit = (total as i64 - r.below(4) as i64 - if r.chance(300) { n as i64 } else { 0 }).max(0); c.end = *r.pick(&[0u8, 2, 3, 7]); c.once = r.chance(500); } _ => {} }
        c
    }
}
pub fn gen(prop: &str, g: &mut G) -> CPlan {
    let mut p = CPlan { knobs: Knobs { log: *g.r.pick(&[0u8, 0, 0, 1, 2]), ..Default::default() }, cases: vec![] };
    let n = g.r.range(4, 24);
    for _ in 0..n { let c = if prop == "C18" { g.read_case() } else { g.write_case() }; p.cases.push(c); }
    p
}
