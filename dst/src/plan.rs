//! Workload plans: everything a run does, as data, so that it can be replayed and minimised.
use crate::core::Knobs;
use crate::simfs::Change;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Src { pub chunk: u32, pub eintr: u32, pub err_at: i64, pub short: u32, pub extra: u32, pub delay_us: u32, pub delay_every: u32 }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Rs { /** 0 status only, 1 from_str, 2 from_content, 3 built with Content-Length, 4 built without, 5 static file, 6 the request's body, or what is left of it, 7 Body::from a String, 8 Body::from a str */ pub kind: u8, pub status: u16, pub len: u32, pub headers: Vec<(String, String)>, pub src: Src }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct H { /** 0 none, 1 all of content, 2 all via Body, 3 first n bytes, 4 chunks of n, 5 takes the body away */ pub read: u8, pub n: u32, pub pre_us: u32, pub post_us: u32, pub panic: u8, pub resp: Rs,
    /// what the handler changes in its request: 1 uri, 2 version, 4 headers, 8 method, 16 content type and length of the body
    #[serde(default)] pub mutate: u8 }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Req {
    pub rid: u32, pub method: String, pub path: String, pub uri: String, pub route: i32, pub version: String, pub conn: String, pub conn_name: String, pub cl_name: String,
    pub headers: Vec<(String, String)>, pub body: u32, pub body_kind: u8, pub h: H,
    /// white space around header values: 0 one blank before, otherwise different per header
    #[serde(default)] pub ows: u32,
}
impl Rs {
    /// An upper estimate of the bytes on the wire, also over TLS.
    pub fn wire(&self) -> u64 { let n = self.len as u64; n + 1500 + if self.src.chunk > 0 { n / self.src.chunk as u64 * 30 } else { 0 } }
}
const OWS: &[(&str, &str)] = &[("", ""), (" ", ""), ("  ", ""), ("\t", ""), (" ", " "), ("", "\t "), (" \t", "  ")];
impl Req {
    pub fn body_bytes(&self) -> Vec<u8> {
        let n = self.body as usize;
        match self.body_kind {
            1 => { let mut v = vec![]; while v.len() < n { v.extend(format!("GET /a/{} HTTP/1.1\r\n\r\n", 900_000 + self.rid).bytes()); } v.truncate(n); v }
            2 => { let mut v = b"\r\n\r\n0\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc".to_vec(); while v.len() < n { let w = v.clone(); v.extend(w); } v.truncate(n); v }
            _ => crate::rng::blob(self.rid as u64 * 2, n),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut s = format!("{} {} {}\r\n", self.method, self.path, self.version);
        let half = self.headers.len() / 2;
        let mut i = 0u32;
        let mut line = |n: &str, v: &str| { i += 1; let (a, b) = if self.ows == 0 { (" ", "") } else { OWS[(self.ows.wrapping_mul(i) % OWS.len() as u32) as usize] }; s += &format!("{n}:{a}{v}{b}\r\n"); };
        for (n, v) in &self.headers[..half] { line(n, v); }
        if !self.conn.is_empty() { line(&self.conn_name, &self.conn); }
        if !self.cl_name.is_empty() { line(&self.cl_name, &self.body.to_string()); }
        for (n, v) in &self.headers[half..] { line(n, v); }
        s += "\r\n";
        // one byte per character
        let mut b: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
        b.extend(self.body_bytes());
        b
    }
    /// Keeps what a request that is answered with its own body consists of consistent.
    pub fn echo(&mut self) {
        if self.h.resp.kind != 6 { return; }
        if self.body == 0 { self.h.resp.kind = 2; return; }
        if self.h.read != 3 || self.h.n >= self.body { self.h.read = 0; self.h.n = 0; }
        self.h.resp.len = self.body - self.h.n;
    }
    pub fn is_head(&self) -> bool { self.method == "HEAD" }
    pub fn persistent(&self) -> bool {
        match self.version.as_str() { "HTTP/1.1" => !self.conn.eq_ignore_ascii_case("close"), "HTTP/1.0" => self.conn.eq_ignore_ascii_case("keep-alive"), _ => false }
    }
    /// all headers the handler must see
    pub fn all_headers(&self) -> Vec<(String, String)> {
        let mut v = self.headers.clone();
        if !self.conn.is_empty() { v.push((self.conn_name.clone(), self.conn.clone())); }
        if !self.cl_name.is_empty() { v.push((self.cl_name.clone(), self.body.to_string())); }
        v
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// cut < 0: all of it. chunks: (size, delay before it in us); what is left goes out in one piece.
    Send { req: Req, cut: i64, chunks: Vec<(u32, u32)> },
    /// want: 0 malformed in any way (no handler, connection ends), 1 syntax error in line or headers (400, then ends), 2 arbitrary bytes, nothing expected but safety
    Raw { hex: String, want: u8, chunks: Vec<(u32, u32)> },
    Recv { n: u32, chunk: u32, delay_us: u32, wait_ms: u32 },
    RecvEnd { wait_ms: u32 },
    /// keeps reading for a while without expecting anything
    ReadFor { ms: u32, chunk: u32, delay_us: u32 },
    Sleep { us: u64 },
    ShutWr, Close, Reset,
    Partition { us: u32 },
    /// wait until the phase's barrier number n was reached by all clients that have it
    Barrier { n: u32 },
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Client {
    pub phase: u8, pub start_us: u64, pub lat_us: u32, pub jitter_us: u32, pub mss: u32, pub rcvbuf: u32, pub sndbuf: u32,
    /// 0 proper, 1 sends garbage instead of a handshake, 2 stalls after n handshake bytes, 3 closes after n bytes, 4 resets after n bytes
    pub tls_mode: u8, pub tls_n: u32, pub ops: Vec<Op>, pub hostile: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct SPlan {
    pub knobs: Knobs, pub tls: bool, pub read_ms: u64, pub write_ms: u64,
    /// (path, method)
    pub routes: Vec<(String, String)>,
    pub clients: Vec<Client>,
    /// system faults may cost connections in phase 0
    pub lossy: bool,
    /// shutdown is called at this time of phase 0 (us); 0 = at the end
    pub shutdown_us: u64,
    pub idle_s: u32,
    pub overload: bool,
    pub logmw: bool,
    pub patience_ms: u32,
    pub files: Vec<FileSpec>, pub script: Vec<(u64, Change)>, pub served_dir: String,
    pub wait_variant: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum FileSpec { Dir(String), File(String, u64, u32), Link(String, String) }

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Plan { Server(SPlan), Codec(crate::codec::CPlan), Client(crate::client::KPlan), Life(crate::life::LPlan), Prog(crate::prog::PPlan) }
impl Plan {
    pub fn knobs(&self) -> Knobs { match self { Plan::Server(p) => p.knobs.clone(), Plan::Codec(p) => p.knobs.clone(), Plan::Client(p) => p.knobs.clone(), Plan::Life(p) => p.knobs.clone(), Plan::Prog(p) => p.knobs.clone() } }
    pub fn drive(&self, prop: &str) { match self { Plan::Server(p) => crate::server::drive(p, prop), Plan::Codec(p) => crate::codec::drive(p), Plan::Client(p) => crate::client::drive(p, prop), Plan::Life(p) => crate::life::drive(p), Plan::Prog(p) => crate::prog::drive(p) } }
}
