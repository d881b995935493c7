//! What happened in a run: written by handlers, clients and scripted servers, read by the oracles.
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct HEv {
    pub rid: u32, pub route: i32, pub t0: u64, pub t1: u64, pub method: String, pub uri: String, pub version: String, pub headers: Vec<(String, Vec<String>)>,
    pub body: Vec<u8>, pub declared: Option<u64>, pub body_err: Option<String>, pub read_to_end: bool, pub done: bool, pub panicked: bool,
    /// what the handler returned: status, headers, body bytes, body complete
    pub resp_status: u16, pub resp_headers: Vec<(String, String)>, pub resp_body: Vec<u8>, pub resp_ok: bool, pub resp_none: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End { Eof, Rst, Tls(String) }
#[derive(Clone, Debug, Default)]
pub struct Sent { pub op: usize, pub rid: u32, pub total: usize, pub sent: usize, pub t_first: u64, pub t_last: u64, pub complete: bool, pub got_at_send: usize }
#[derive(Clone, Debug, Default)]
pub struct CRec {
    pub idx: usize, pub phase: u8, pub ep: usize, pub t_connect: u64, pub connected: bool, pub conn_err: i32, pub sent: Vec<Sent>, pub recv: Vec<u8>,
    pub marks: Vec<(u64, usize)>, pub end: Option<(u64, End)>, pub closed_by_client: Option<(u64, String)>, pub late: Vec<(usize, u64, String)>, pub ops_done: usize, pub finished: bool,
    pub half_closed: bool, pub tls_up: bool, pub hostile: bool,
    /// nothing this client had sent was still under way when shutdown was called
    pub arrived: bool,
}
impl CRec { pub fn time_at(&self, pos: usize) -> u64 { self.marks.iter().find(|(_, n)| *n >= pos).map(|(t, _)| *t).unwrap_or(u64::MAX) } }
#[derive(Clone, Debug, Default)]
pub struct Panic { pub thread: String, pub loc: String, pub msg: String, pub t: u64, pub sys: bool }
#[derive(Default)]
pub struct Hist {
    pub h: Vec<HEv>,
    pub rid_runs: HashMap<u32, Vec<usize>>,
    pub c: Vec<CRec>,
    pub panics: Vec<Panic>,
    pub running: u32, pub max_running: u32,
    pub shut_call: u64, pub shut_ret: u64, pub shut_res: Option<Result<(), String>>,
    pub notes: Vec<(u64, String)>,
}
pub static mut HIST: *mut Hist = std::ptr::null_mut();
/// Only one simulated thread runs at a time and this code has no preemption point.
pub fn hist() -> &'static mut Hist { unsafe { if HIST.is_null() { let _g = crate::core::Guard::new(); HIST = Box::into_raw(Box::default()); } &mut *HIST } }
