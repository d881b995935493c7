//! Simulated descriptors, TCP, epoll, eventfd and timerfd with Linux semantics.
use crate::core::*;
use std::collections::{BTreeMap, HashMap, VecDeque};

pub type R<T> = Result<T, i32>;
pub const FD0: i32 = 1000;

#[derive(Clone, Debug)]
pub enum Obj {
    Sock { ep: Option<usize>, bound: u16 },
    Listener { l: usize },
    Epoll { items: Vec<EpItem> },
    Event { n: u64 },
    Timer { gen: u64, deadline: u64, interval: u64, expired: u64 },
    File { h: usize },
}
#[derive(Clone, Debug)]
pub struct EpItem { pub fd: i32, pub desc: usize, pub events: u32, pub data: u64, pub on: bool, pub et_seen: u32 }
pub struct Desc { pub obj: Obj, pub refs: u32, pub nonblock: bool, pub epolls: Vec<usize>, pub rcvtimeo: u64, pub sndtimeo: u64 }

#[derive(Debug)]
pub enum Wire { Data(Vec<u8>), Fin, Rst }

/// One side of a TCP connection. The peer is always `id ^ 1`.
pub struct Ep {
    pub established: bool,
    pub refused: bool,
    pub accepted: bool,
    pub rcvq: VecDeque<u8>,
    pub rcv_cap: usize,
    pub sndq: VecDeque<u8>,
    pub snd_cap: usize,
    pub wire_in: VecDeque<Wire>, // travelling towards this endpoint
    pub wire_bytes: usize,
    pub last_deliv: u64,
    pub fin_queued: bool,
    pub fin_sent: bool,
    pub fin_rcvd: bool,
    pub rcv_shut: bool,
    pub snd_shut: bool,
    pub err: i32,
    pub dead: bool,
    pub closed: bool,
    pub rst_sent: bool,
    pub port: u16,
    pub peer_port: u16,
    pub desc: Option<usize>,
    pub lat: u64,
    pub jitter: u64,
    pub mss: usize,
    pub stall_until: u64,
    pub blackhole: bool,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub t_fin_rcvd: u64,
    pub t_rst_rcvd: u64,
    pub t_closed: u64,
    pub t_accept: u64,
    pub abort_before_accept: bool,
    /// first bytes sent after the end of the peer's stream had arrived: when, by which thread
    pub after_fin: Option<(u64, usize)>,
}
impl Ep {
    fn new() -> Ep {
        Ep { established: false, refused: false, accepted: false, rcvq: VecDeque::new(), rcv_cap: 65536, sndq: VecDeque::new(), snd_cap: 65536, wire_in: VecDeque::new(), wire_bytes: 0, last_deliv: 0,
            fin_queued: false, fin_sent: false, fin_rcvd: false, rcv_shut: false, snd_shut: false, err: 0, dead: false, closed: false, rst_sent: false, port: 0, peer_port: 0, desc: None, lat: 50 * US, jitter: 0,
            mss: 65536, stall_until: 0, blackhole: false, bytes_in: 0, bytes_out: 0, t_fin_rcvd: 0, t_rst_rcvd: 0, t_closed: 0, t_accept: 0, abort_before_accept: false, after_fin: None }
    }
}
pub struct Listener { pub port: u16, pub backlog: usize, pub queue: VecDeque<usize>, pub open: bool, pub desc: Option<usize>, pub accepted: u64 }

pub struct Net {
    pub fds: BTreeMap<i32, usize>,
    pub descs: HashMap<usize, Desc>,
    pub next_desc: usize,
    pub eps: Vec<Ep>,
    pub ls: Vec<Listener>,
    pub ports: HashMap<u16, usize>,
    pub bound: HashMap<u16, u32>,
    pub next_port: u16,
    pub conns_made: u64,
    pub max_fds: usize,
    pub last_epoll: Option<(usize, i32)>,
    pub refuse_ports: HashMap<u16, u8>,
}
impl Net {
    pub fn new() -> Net { Net { fds: BTreeMap::new(), descs: HashMap::new(), next_desc: 1, eps: vec![], ls: vec![], ports: HashMap::new(), bound: HashMap::new(), next_port: 40000, conns_made: 0, max_fds: 0, last_epoll: None, refuse_ports: HashMap::new() } }
}

#[derive(Clone, Copy, Debug)]
pub struct Link { pub lat: u64, pub jitter: u64, pub mss: usize, pub rcvbuf: usize, pub sndbuf: usize }

impl Sim {
    // ---- descriptors ----
    pub fn is_fd(&self, fd: i32) -> bool { fd >= FD0 && self.net.fds.contains_key(&fd) }
    fn fd_desc(&self, fd: i32) -> R<usize> { self.net.fds.get(&fd).copied().ok_or(libc::EBADF) }
    fn alloc_fd(&mut self, desc: usize) -> R<i32> {
        if self.k.fd_limit > 0 && self.net.fds.len() >= self.k.fd_limit as usize { self.probe("fd limit reached"); return Err(libc::EMFILE); }
        let mut fd = FD0;
        for k in self.net.fds.keys() { if *k == fd { fd += 1 } else { break } }
        self.net.fds.insert(fd, desc);
        self.net.max_fds = self.net.max_fds.max(self.net.fds.len());
        Ok(fd)
    }
    pub fn new_fd(&mut self, obj: Obj) -> R<i32> {
        let id = self.net.next_desc; self.net.next_desc += 1;
        let fd = self.alloc_fd(id)?;
        self.net.descs.insert(id, Desc { obj, refs: 1, nonblock: false, epolls: vec![], rcvtimeo: 0, sndtimeo: 0 });
        Ok(fd)
    }
    pub fn dup_fd(&mut self, fd: i32) -> R<i32> {
        let d = self.fd_desc(fd)?;
        if self.fault(F::DupEmfile) { return Err(libc::EMFILE); }
        let n = self.alloc_fd(d)?;
        self.net.descs.get_mut(&d).unwrap().refs += 1;
        Ok(n)
    }
    pub fn desc(&mut self, fd: i32) -> R<&mut Desc> { let d = self.fd_desc(fd)?; Ok(self.net.descs.get_mut(&d).unwrap()) }
    pub fn close_fd(&mut self, fd: i32) -> R<i32> {
        let d = self.net.fds.remove(&fd).ok_or(libc::EBADF)?;
        self.tr(|| format!("close({fd})"));
        let desc = self.net.descs.get_mut(&d).unwrap();
        desc.refs -= 1;
        if desc.refs > 0 { return Ok(0); }
        let desc = self.net.descs.remove(&d).unwrap();
        for e in &desc.epolls { if let Some(Desc { obj: Obj::Epoll { items }, .. }) = self.net.descs.get_mut(e) { items.retain(|i| i.desc != d); } }
        match desc.obj {
            Obj::Sock { ep: Some(ep), .. } => self.ep_close(ep),
            Obj::Sock { bound, .. } => { if bound != 0 { self.unbind(bound) } }
            Obj::Listener { l } => {
                self.net.ls[l].open = false;
                let p = self.net.ls[l].port; self.net.ports.remove(&p); self.unbind(p);
                let q: Vec<usize> = self.net.ls[l].queue.drain(..).collect();
                for ep in q { self.ep_abort(ep); }
            }
            Obj::Epoll { items } => { for i in items { if let Some(x) = self.net.descs.get_mut(&i.desc) { x.epolls.retain(|e| *e != d); } } }
            Obj::File { h } => self.fs.close(h),
            _ => {}
        }
        Ok(0)
    }
    fn unbind(&mut self, p: u16) { if let Some(n) = self.net.bound.get_mut(&p) { *n -= 1; if *n == 0 { self.net.bound.remove(&p); } } }

    // ---- readiness ----
    fn mask(&self, d: usize) -> u32 {
        let Some(desc) = self.net.descs.get(&d) else { return 0 };
        let mut m = 0u32;
        match &desc.obj {
            Obj::Sock { ep: Some(ep), .. } => {
                let e = &self.net.eps[*ep];
                if !e.established && !e.refused { return 0; }
                let rs = e.rcv_shut || e.fin_rcvd || e.dead;
                let ss = e.snd_shut || e.dead;
                if !e.rcvq.is_empty() || rs { m |= libc::EPOLLIN as u32; }
                if rs { m |= libc::EPOLLRDHUP as u32; }
                if rs && ss { m |= libc::EPOLLHUP as u32; }
                if e.err != 0 { m |= libc::EPOLLERR as u32; }
                if ss || self.ep_room(*ep) * 3 >= e.snd_cap { m |= libc::EPOLLOUT as u32; }
            }
            Obj::Sock { .. } => m = (libc::EPOLLOUT | libc::EPOLLHUP) as u32,
            Obj::Listener { l } => if !self.net.ls[*l].queue.is_empty() { m |= libc::EPOLLIN as u32 },
            Obj::Event { n } => { if *n > 0 { m |= libc::EPOLLIN as u32 } m |= libc::EPOLLOUT as u32 }
            Obj::Timer { expired, .. } => if *expired > 0 { m |= libc::EPOLLIN as u32 },
            Obj::File { .. } => m = (libc::EPOLLIN | libc::EPOLLOUT) as u32,
            Obj::Epoll { .. } => {}
        }
        m
    }
    fn changed(&mut self, d: usize) {
        let Some(desc) = self.net.descs.get(&d) else { return };
        let es = desc.epolls.clone();
        for e in es { self.notify(chan(CH_EPOLL, e)); }
        self.notify(chan(CH_POLL, d));
    }
    fn ep_changed(&mut self, ep: usize) { self.notify(chan(CH_EP, ep)); if let Some(d) = self.net.eps[ep].desc { self.changed(d); } }

    // ---- epoll / eventfd / timerfd ----
    pub fn epoll_create(&mut self) -> R<i32> { if self.fault(F::EpollCreateEmfile) { return Err(libc::EMFILE); } let fd = self.new_fd(Obj::Epoll { items: vec![] })?; self.net.last_epoll = Some((self.cur, fd)); Ok(fd) }
    pub fn eventfd(&mut self, init: u64, flags: i32) -> R<i32> {
        // When this fails the polling crate (2.8) forgets the epoll descriptor it created just before. That is a
        // defect of that dependency: the descriptor is dropped here so that it does not count as a leak of wruster.
        let last = self.net.last_epoll.take();
        let r = if self.fault(F::EventfdEmfile) { Err(libc::EMFILE) } else { self.new_fd(Obj::Event { n: init }) };
        let fd = match r { Ok(fd) => fd, Err(e) => { if let Some((t, fd)) = last { if t == self.cur { let _ = self.close_fd(fd); } } return Err(e); } }; self.desc(fd)?.nonblock = flags & libc::EFD_NONBLOCK != 0; Ok(fd)
    }
    pub fn timerfd_create(&mut self, flags: i32) -> R<i32> {
        if self.fault(F::TimerfdFail) { return Err(libc::EMFILE); }
        let fd = self.new_fd(Obj::Timer { gen: 0, deadline: 0, interval: 0, expired: 0 })?; self.desc(fd)?.nonblock = flags & libc::TFD_NONBLOCK != 0; Ok(fd)
    }
    pub fn timerfd_settime(&mut self, fd: i32, abs: bool, value: u64, interval_: u64) -> R<i32> {
        let now = self.now; let d = self.fd_desc(fd)?;
        let (g, t) = match &mut self.net.descs.get_mut(&d).unwrap().obj {
            Obj::Timer { gen, deadline, interval, expired } => { *gen += 1; *expired = 0; *interval = interval_; *deadline = if value == 0 { 0 } else if abs { value } else { now + value }; (*gen, *deadline) }
            _ => return Err(libc::EINVAL),
        };
        if t != 0 { self.at(t, Ev::Timer { desc: d, gen: g }); }
        Ok(0)
    }
    pub fn net_timer(&mut self, d: usize, g: u64) {
        let now = self.now;
        let mut again = None;
        if let Some(Desc { obj: Obj::Timer { gen, expired, interval, .. }, .. }) = self.net.descs.get_mut(&d) { if *gen == g { *expired += 1; if *interval > 0 { again = Some(now + *interval) } } else { return } } else { return }
        if let Some(t) = again { self.at(t, Ev::Timer { desc: d, gen: g }); }
        self.changed(d);
    }
    pub fn epoll_ctl(&mut self, epfd: i32, op: i32, fd: i32, ev: Option<(u32, u64)>) -> R<i32> {
        let e = self.fd_desc(epfd)?; let d = self.fd_desc(fd)?;
        if op == libc::EPOLL_CTL_ADD && self.fault(F::EpollAddEnomem) { return Err(libc::ENOMEM); }
        let items = match &mut self.net.descs.get_mut(&e).unwrap().obj { Obj::Epoll { items } => items, _ => return Err(libc::EINVAL) };
        let pos = items.iter().position(|i| i.fd == fd && i.desc == d);
        match op {
            libc::EPOLL_CTL_ADD => { if pos.is_some() { return Err(libc::EEXIST); } let (events, data) = ev.ok_or(libc::EFAULT)?; items.push(EpItem { fd, desc: d, events, data, on: true, et_seen: 0 }); let x = self.net.descs.get_mut(&d).unwrap(); if !x.epolls.contains(&e) { x.epolls.push(e); } }
            libc::EPOLL_CTL_MOD => { let p = pos.ok_or(libc::ENOENT)?; let (events, data) = ev.ok_or(libc::EFAULT)?; items[p].events = events; items[p].data = data; items[p].on = true; items[p].et_seen = 0; }
            libc::EPOLL_CTL_DEL => { let p = pos.ok_or(libc::ENOENT)?; items.remove(p); let more = items.iter().any(|i| i.desc == d); if !more { self.net.descs.get_mut(&d).unwrap().epolls.retain(|x| *x != e); } }
            _ => return Err(libc::EINVAL),
        }
        if op != libc::EPOLL_CTL_DEL && self.mask(d) != 0 { self.notify(chan(CH_EPOLL, e)); }
        Ok(0)
    }
    pub fn epoll_wait(&mut self, epfd: i32, max: usize, timeout_ms: i64) -> R<Vec<(u32, u64)>> {
        let e = self.fd_desc(epfd)?;
        let deadline = if timeout_ms < 0 { None } else { Some(self.now + timeout_ms as u64 * MS) };
        if timeout_ms != 0 && self.fault(F::EpollWaitEintr) { return Err(libc::EINTR); }
        loop {
            let items = match &self.net.descs.get(&e).ok_or(libc::EBADF)?.obj { Obj::Epoll { items } => items.clone(), _ => return Err(libc::EINVAL) };
            let mut out = vec![];
            for (i, it) in items.iter().enumerate() {
                if !it.on || out.len() >= max { continue; }
                let m = self.mask(it.desc) & (it.events | (libc::EPOLLHUP | libc::EPOLLERR) as u32);
                if m == 0 { continue; }
                if it.events & libc::EPOLLET as u32 != 0 && m & !it.et_seen == 0 { continue; }
                if !out.is_empty() && self.fault(F::EpollSpurious) { break; }
                out.push((m, it.data));
                if let Obj::Epoll { items } = &mut self.net.descs.get_mut(&e).unwrap().obj { items[i].et_seen = m; if it.events & libc::EPOLLONESHOT as u32 != 0 { items[i].on = false; } }
            }
            if !out.is_empty() { self.note(20, out.len() as u64); self.tr(|| format!("epoll_wait({epfd}) = {out:x?}")); return Ok(out); }
            if timeout_ms == 0 { return Ok(out); }
            self.tr(|| format!("epoll_wait({epfd}) blocks"));
            if !self.block(&[chan(CH_EPOLL, e)], deadline, "epoll_wait") { return Ok(vec![]); }
        }
    }
    pub fn poll(&mut self, fds: &mut [libc::pollfd], timeout_ms: i64) -> R<i32> {
        let deadline = if timeout_ms < 0 { None } else { Some(self.now + timeout_ms as u64 * MS) };
        loop {
            let mut n = 0; let mut chans = vec![];
            for f in fds.iter_mut() {
                f.revents = 0;
                match self.fd_desc(f.fd) { Ok(d) => { let m = self.mask(d) as i16; f.revents = m & (f.events | libc::POLLHUP | libc::POLLERR); chans.push(chan(CH_POLL, d)); } Err(_) => if f.fd >= FD0 { f.revents = libc::POLLNVAL } }
                if f.revents != 0 { n += 1; }
            }
            if n > 0 || timeout_ms == 0 { return Ok(n); }
            if !self.block(&chans, deadline, "poll") { return Ok(0); }
        }
    }

    // ---- listening ----
    pub fn listen_port(&mut self, port: u16, backlog: usize, desc: Option<usize>) -> R<usize> {
        if self.net.ports.contains_key(&port) { return Err(libc::EADDRINUSE); }
        let l = self.net.ls.len();
        self.net.ls.push(Listener { port, backlog: backlog.max(1), queue: VecDeque::new(), open: true, desc, accepted: 0 });
        self.net.ports.insert(port, l);
        Ok(l)
    }
    pub fn sock_bind(&mut self, fd: i32, port: u16) -> R<i32> {
        let mut p = port;
        if p == 0 { loop { p = self.net.next_port; self.net.next_port = self.net.next_port.checked_add(1).unwrap_or(40000); if !self.net.bound.contains_key(&p) { break; } } }
        if self.net.bound.contains_key(&p) { return Err(libc::EADDRINUSE); }
        match &mut self.desc(fd)?.obj { Obj::Sock { bound, .. } => { if *bound != 0 { return Err(libc::EINVAL); } *bound = p } _ => return Err(libc::ENOTSOCK) }
        *self.net.bound.entry(p).or_insert(0) += 1;
        Ok(0)
    }
    pub fn sock_listen(&mut self, fd: i32, backlog: i32) -> R<i32> {
        let d = self.fd_desc(fd)?;
        let p = match &self.net.descs[&d].obj { Obj::Sock { bound, .. } if *bound != 0 => *bound, Obj::Listener { .. } => return Ok(0), _ => return Err(libc::EINVAL) };
        let l = self.listen_port(p, backlog as usize, Some(d))?;
        self.net.descs.get_mut(&d).unwrap().obj = Obj::Listener { l };
        self.tr(|| format!("listen on {p}"));
        Ok(0)
    }
    pub fn accept(&mut self, fd: i32, flags: i32) -> R<(i32, u16)> {
        let d = self.fd_desc(fd)?;
        let l = match &self.net.descs[&d].obj { Obj::Listener { l } => *l, _ => return Err(libc::EINVAL) };
        if self.fault(F::AcceptEintr) { return Err(libc::EINTR); }
        loop {
            if !self.net.ls[l].queue.is_empty() {
                if self.fault(F::AcceptEmfile) { return Err(libc::EMFILE); }
                if self.fault(F::AcceptEnfile) { return Err(libc::ENFILE); }
                if self.fault(F::AcceptNobufs) { return Err(libc::ENOBUFS); }
                if self.fault(F::AcceptAborted) { let ep = self.net.ls[l].queue.pop_front().unwrap(); self.ep_abort(ep); return Err(libc::ECONNABORTED); }
                if self.fault(F::AcceptGone) { let ep = self.net.ls[l].queue.pop_front().unwrap(); self.ep_abort(ep); continue; }
                if self.fault(F::AcceptEproto) { let ep = self.net.ls[l].queue.pop_front().unwrap(); self.ep_abort(ep); return Err(libc::EPROTO); }
                let ep = *self.net.ls[l].queue.front().unwrap();
                let nfd = self.new_fd(Obj::Sock { ep: Some(ep), bound: 0 })?;
                self.net.ls[l].queue.pop_front();
                self.net.ls[l].accepted += 1;
                let nd = self.fd_desc(nfd)?;
                self.net.descs.get_mut(&nd).unwrap().nonblock = flags & libc::SOCK_NONBLOCK != 0;
                let now = self.now;
                let e = &mut self.net.eps[ep];
                e.desc = Some(nd); e.accepted = true; e.t_accept = now;
                let pp = e.peer_port;
                self.note(21, ep as u64);
                self.tr(|| format!("accept({fd}) = {nfd} conn {} from port {pp}", ep / 2));
                self.notify(chan(CH_EP, ep ^ 1));
                return Ok((nfd, pp));
            }
            if self.net.descs[&d].nonblock { return Err(libc::EAGAIN); }
            self.block(&[chan(CH_POLL, d), chan(CH_LISTEN, l)], None, "accept");
        }
    }
    /// Accept for harness servers (no descriptor). None on deadline.
    pub fn actor_accept(&mut self, l: usize, deadline: u64) -> Option<usize> {
        loop {
            if let Some(ep) = self.net.ls[l].queue.pop_front() { let now = self.now; let e = &mut self.net.eps[ep]; e.accepted = true; e.t_accept = now; self.net.ls[l].accepted += 1; return Some(ep); }
            if !self.block(&[chan(CH_LISTEN, l)], Some(deadline), "actor accept") { return None; }
        }
    }
    pub fn actor_listen_close(&mut self, l: usize) {
        self.net.ls[l].open = false; let p = self.net.ls[l].port; self.net.ports.remove(&p);
        let q: Vec<usize> = self.net.ls[l].queue.drain(..).collect();
        for ep in q { self.ep_abort(ep); }
    }

    // ---- connecting ----
    /// Starts a connection to `port`; returns the client endpoint.
    pub fn connect_start(&mut self, port: u16, link: Link, client_is_sut: bool) -> usize {
        let c = self.net.eps.len();
        let src = self.net.next_port; self.net.next_port = self.net.next_port.checked_add(1).unwrap_or(40000);
        let (sb, rb) = (self.k.sndbuf as usize, self.k.rcvbuf as usize);
        let mut a = Ep::new(); let mut b = Ep::new();
        a.port = src; a.peer_port = port; b.port = port; b.peer_port = src;
        for e in [&mut a, &mut b] { e.lat = link.lat; e.jitter = link.jitter; e.mss = link.mss.max(1); }
        if client_is_sut { a.snd_cap = sb; a.rcv_cap = rb; b.snd_cap = link.sndbuf; b.rcv_cap = link.rcvbuf; } else { b.snd_cap = sb; b.rcv_cap = rb; a.snd_cap = link.sndbuf; a.rcv_cap = link.rcvbuf; }
        self.net.eps.push(a); self.net.eps.push(b);
        self.net.conns_made += 1;
        let t = self.now + self.latency(c);
        self.at(t, Ev::Syn { conn: c });
        c
    }
    fn latency(&mut self, ep: usize) -> u64 {
        let (l, j) = (self.net.eps[ep].lat, self.net.eps[ep].jitter);
        if j == 0 { return l; }
        let v = self.choose(K_LAT, 1001, |r| if r.chance(400) { 0 } else { r.below(1001) as u32 }) as u64;
        l + j * v / 1000
    }
    pub fn net_syn(&mut self, c: usize) {
        let port = self.net.eps[c].peer_port;
        match self.net.refuse_ports.get(&port).copied() {
            Some(1) => { self.count_fault(F::ConnRefused); let t = self.now + self.latency(c); self.net.eps[c].refused = true; self.net.eps[c].err = libc::ECONNREFUSED; self.at(t, Ev::SynAck { ep: c }); return; }
            Some(2) => { self.count_fault(F::ConnBlackhole); self.net.eps[c].blackhole = true; return; }
            _ => {}
        }
        match self.net.ports.get(&port).copied() {
            None => { let t = self.now + self.latency(c); self.net.eps[c].err = libc::ECONNREFUSED; self.net.eps[c].refused = true; self.at(t, Ev::SynAck { ep: c }); }
            Some(l) => {
                if self.net.ls[l].queue.len() > self.net.ls[l].backlog { let t = self.now + SEC; self.probe("backlog full, SYN retried"); self.at(t, Ev::Syn { conn: c }); return; }
                let t = self.now + self.latency(c ^ 1);
                self.net.eps[c ^ 1].established = true;
                self.net.ls[l].queue.push_back(c ^ 1);
                self.tr(|| format!("conn {} queued at port {port}", c / 2));
                self.note(22, c as u64);
                if let Some(d) = self.net.ls[l].desc { self.changed(d); }
                self.notify(chan(CH_LISTEN, l));
                self.net.eps[c].last_deliv = t;
                self.at(t, Ev::SynAck { ep: c });
            }
        }
    }
    pub fn net_synack(&mut self, c: usize) { if !self.net.eps[c].refused { self.net.eps[c].established = true; } self.ep_changed(c); if self.net.eps[c].closed && !self.net.eps[c].refused { } self.net_pump(c); }
    /// Waits for a started connection. Ok(()) or errno.
    pub fn connect_wait(&mut self, c: usize, deadline: Option<u64>) -> R<()> {
        loop {
            let e = &mut self.net.eps[c];
            if e.refused { e.dead = true; let r = e.err; e.err = 0; return Err(if r == 0 { libc::ECONNREFUSED } else { r }); }
            if e.established { if e.err != 0 { let r = e.err; e.err = 0; return Err(r); } return Ok(()); }
            if !self.block(&[chan(CH_EP, c)], deadline, "connect") { return Err(libc::ETIMEDOUT); }
        }
    }

    // ---- data ----
    fn ep_room(&self, ep: usize) -> usize { let e = &self.net.eps[ep]; e.snd_cap.saturating_sub(e.sndq.len()) }
    /// Moves bytes from the send buffer onto the wire as the peer's window allows.
    pub fn net_pump(&mut self, ep: usize) {
        let peer = ep ^ 1;
        loop {
            let e = &self.net.eps[ep];
            if e.dead || !e.established { return; }
            if e.sndq.is_empty() {
                if e.fin_queued && !e.fin_sent { self.net.eps[ep].fin_sent = true; self.put_wire(ep, Wire::Fin); }
                return;
            }
            let p = &self.net.eps[peer];
            let used = p.rcvq.len() + p.wire_bytes;
            let win = p.rcv_cap.saturating_sub(used);
            if win == 0 && !p.closed { return; }
            let win = if p.closed { p.rcv_cap } else { win };
            // silly-window avoidance: do not dribble unless the receiver is nearly drained
            let mut n = e.sndq.len().min(e.mss).min(win);
            if self.k.seg_random && n > 1 {
                let v = self.choose(K_SEG, 1001, |r| if r.chance(500) { 0 } else { r.below(1001) as u32 });
                if v > 0 { n = 1 + (n - 1) * (1000 - v as usize) / 1000; }
            }
            let data: Vec<u8> = self.net.eps[ep].sndq.drain(..n).collect();
            self.put_wire(ep, Wire::Data(data));
            self.ep_changed(ep);
        }
    }
    fn put_wire(&mut self, ep: usize, w: Wire) {
        let lat = self.latency(ep);
        let peer = ep ^ 1;
        let e = &self.net.eps[ep];
        let t = (self.now + lat).max(e.stall_until + lat.min(MS)).max(self.net.eps[peer].last_deliv);
        let p = &mut self.net.eps[peer];
        p.last_deliv = t;
        if let Wire::Data(d) = &w { p.wire_bytes += d.len(); }
        p.wire_in.push_back(w);
        self.at(t, Ev::Deliver { ep: peer });
    }
    pub fn net_deliver(&mut self, ep: usize) {
        // segments held back by a partition of the link are delivered after the heal
        let su = self.net.eps[ep ^ 1].stall_until;
        if su > self.now { self.at(su, Ev::Deliver { ep }); return; }
        let Some(w) = self.net.eps[ep].wire_in.pop_front() else { return };
        let now = self.now;
        match w {
            Wire::Data(d) => {
                self.net.eps[ep].wire_bytes -= d.len();
                self.note(23, d.len() as u64 ^ (ep as u64) << 32);
                let e = &mut self.net.eps[ep];
                if e.dead { return; }
                if e.closed || (e.rcv_shut && e.snd_shut) { self.tr(|| format!("conn {} side {}: data for a closed socket -> RST", ep / 2, ep & 1)); self.ep_abort(ep); return; }
                e.bytes_in += d.len() as u64;
                e.rcvq.extend(d.iter());
                self.tr(|| format!("conn {} side {}: {} bytes arrive", ep / 2, ep & 1, d.len()));
            }
            Wire::Fin => { let e = &mut self.net.eps[ep]; e.fin_rcvd = true; e.t_fin_rcvd = now; self.note(24, ep as u64); self.tr(|| format!("conn {} side {}: FIN arrives", ep / 2, ep & 1)); }
            Wire::Rst => {
                let e = &mut self.net.eps[ep];
                if !e.dead {
                    e.dead = true; e.t_rst_rcvd = now;
                    e.err = if e.fin_rcvd { libc::EPIPE } else { libc::ECONNRESET };
                    e.sndq.clear();
                }
                self.note(25, ep as u64);
                self.tr(|| format!("conn {} side {}: RST arrives", ep / 2, ep & 1));
            }
        }
        self.ep_changed(ep);
    }
    /// RST now: drops unsent data, tells the peer.
    pub fn ep_abort(&mut self, ep: usize) {
        let now = self.now;
        let e = &mut self.net.eps[ep];
        if e.rst_sent { return; }
        e.rst_sent = true; e.sndq.clear();
        let was_dead = e.dead;
        e.dead = true; if e.t_closed == 0 { e.t_closed = now; }
        if !was_dead { self.put_wire(ep, Wire::Rst); }
        self.ep_changed(ep);
    }
    pub fn ep_close(&mut self, ep: usize) {
        let now = self.now;
        let e = &mut self.net.eps[ep];
        if e.closed { return; }
        e.closed = true; e.desc = None; if e.t_closed == 0 { e.t_closed = now; }
        self.tr(|| format!("conn {} side {}: close", ep / 2, ep & 1));
        let e = &mut self.net.eps[ep];
        if e.dead || e.refused { return; }
        if !e.established { e.dead = true; return; }
        if !e.rcvq.is_empty() { self.tr(|| format!("conn {} side {}: closed with unread data -> RST", ep / 2, ep & 1)); self.ep_abort(ep); return; }
        e.rcv_shut = true; e.snd_shut = true; e.fin_queued = true;
        self.net_pump(ep);
        self.net_pump(ep ^ 1);
    }
    pub fn ep_shutdown(&mut self, ep: usize, how: i32) -> R<i32> {
        let e = &mut self.net.eps[ep];
        if e.dead || !e.established { return Err(libc::ENOTCONN); }
        if e.fin_rcvd && e.fin_sent && e.snd_shut { /* both directions closed: state CLOSE or TIME_WAIT */ if e.sndq.is_empty() { e.rcv_shut |= how != libc::SHUT_WR; return Err(libc::ENOTCONN); } }
        if how != libc::SHUT_WR { e.rcv_shut = true; }
        if how != libc::SHUT_RD { e.snd_shut = true; e.fin_queued = true; }
        self.net_pump(ep);
        self.ep_changed(ep);
        Ok(0)
    }
    /// Non-blocking receive core. Err(EAGAIN) if nothing.
    pub fn ep_recv(&mut self, ep: usize, buf: &mut [u8], peek: bool) -> R<usize> {
        let e = &mut self.net.eps[ep];
        if !e.established && !e.dead { return Err(libc::ENOTCONN); }
        if !e.rcvq.is_empty() && !buf.is_empty() {
            let n = buf.len().min(e.rcvq.len());
            let (a, b) = e.rcvq.as_slices();
            let k = n.min(a.len());
            buf[..k].copy_from_slice(&a[..k]);
            if n > k { buf[k..n].copy_from_slice(&b[..n - k]); }
            if !peek {
                e.rcvq.drain(..n);
                // window update travels back
                let t = self.now + self.net.eps[ep].lat;
                if !self.net.eps[ep ^ 1].sndq.is_empty() || self.net.eps[ep ^ 1].fin_queued { self.at(t, Ev::Nudge { ep: ep ^ 1 }); }
            }
            return Ok(n);
        }
        if e.err != 0 { let r = e.err; e.err = 0; return Err(r); }
        if e.dead || e.fin_rcvd || e.rcv_shut { return Ok(0); }
        if buf.is_empty() { return Ok(0); }
        Err(libc::EAGAIN)
    }
    pub fn ep_send(&mut self, ep: usize, buf: &[u8]) -> R<usize> {
        let room = self.ep_room(ep);
        let (t, tid) = (self.now, self.cur);
        let e = &mut self.net.eps[ep];
        if (e.fin_rcvd || e.dead) && e.after_fin.is_none() && !buf.is_empty() { e.after_fin = Some((t, tid)); }
        if !e.established && !e.dead { return Err(libc::ENOTCONN); }
        if e.err != 0 { let r = e.err; e.err = 0; return Err(r); }
        if e.dead || e.snd_shut { return Err(libc::EPIPE); }
        if room == 0 { return if buf.is_empty() { Ok(0) } else { Err(libc::EAGAIN) }; }
        let n = room.min(buf.len());
        e.sndq.extend(&buf[..n]);
        e.bytes_out += n as u64;
        self.net_pump(ep);
        Ok(n)
    }
    fn sock_ep(&self, fd: i32) -> R<(usize, usize)> {
        let d = self.fd_desc(fd)?;
        match &self.net.descs[&d].obj { Obj::Sock { ep: Some(e), .. } => Ok((d, *e)), Obj::Sock { .. } => Err(libc::ENOTCONN), _ => Err(libc::ENOTSOCK) }
    }
    fn short(&mut self, f: F, n: usize) -> usize {
        if n > 1 && self.fault(f) { 1 + self.choose(K_SEG, (n - 1).min(1 << 20) as u32, |r| if r.chance(500) { r.below(8) as u32 } else { r.below(n as u64 - 1) as u32 }) as usize } else { n }
    }
    pub fn sock_recv(&mut self, fd: i32, buf: &mut [u8], flags: i32) -> R<usize> {
        let (d, ep) = self.sock_ep(fd)?;
        let nb = self.net.descs[&d].nonblock || flags & libc::MSG_DONTWAIT != 0;
        let to = self.net.descs[&d].rcvtimeo;
        if !nb && self.fault(F::RecvEintr) { return Err(libc::EINTR); }
        if self.fault(F::RecvEnomem) { return Err(libc::ENOMEM); }
        if nb && !self.net.eps[ep].rcvq.is_empty() && self.fault(F::SpuriousReadable) { return Err(libc::EAGAIN); }
        let n = self.short(F::ShortRead, buf.len());
        let deadline = if to == 0 { None } else { Some(self.now + to) };
        loop {
            match self.ep_recv(ep, &mut buf[..n], flags & libc::MSG_PEEK != 0) {
                Err(libc::EAGAIN) if !nb => { if !self.block(&[chan(CH_EP, ep)], deadline, "recv") { return Err(libc::EAGAIN); } }
                r => { self.note(26, match r { Ok(n) => n as u64, Err(e) => 1 << 40 | e as u64 }); self.tr(|| format!("recv(fd {fd}, conn {}) = {r:?}", ep / 2)); return r; }
            }
        }
    }
    pub fn sock_send(&mut self, fd: i32, buf: &[u8], flags: i32) -> R<usize> {
        let (d, ep) = self.sock_ep(fd)?;
        let nb = self.net.descs[&d].nonblock || flags & libc::MSG_DONTWAIT != 0;
        let to = self.net.descs[&d].sndtimeo;
        if !nb && self.fault(F::SendEintr) { return Err(libc::EINTR); }
        if self.fault(F::SendNobufs) { return Err(libc::ENOBUFS); }
        if nb && self.fault(F::SpuriousWritable) { return Err(libc::EAGAIN); }
        let n = self.short(F::ShortWrite, buf.len());
        let deadline = if to == 0 { None } else { Some(self.now + to) };
        let mut done = 0;
        loop {
            match self.ep_send(ep, &buf[done..n]) {
                Ok(k) => { done += k; if nb || done >= n { self.note(27, done as u64); self.tr(|| format!("send(fd {fd}, conn {}, {}) = {done}", ep / 2, buf.len())); return Ok(done); } continue; }
                Err(libc::EAGAIN) if !nb => {}
                Err(e) => { self.note(28, e as u64); self.tr(|| format!("send(fd {fd}, conn {}, {}) = {done} / error {e}", ep / 2, buf.len())); return if done > 0 { Ok(done) } else { Err(e) }; }
            }
            if !self.block(&[chan(CH_EP, ep)], deadline, "send") { return if done > 0 { Ok(done) } else { Err(libc::EAGAIN) }; }
        }
    }
    pub fn sock_shutdown(&mut self, fd: i32, how: i32) -> R<i32> {
        if self.fault(F::ShutdownErr) { return Err(libc::ENOTCONN); }
        let d = self.fd_desc(fd)?;
        match self.net.descs[&d].obj { Obj::Sock { ep: Some(ep), .. } => { self.tr(|| format!("shutdown(fd {fd}, conn {}, {how})", ep / 2)); self.note(29, ep as u64); self.ep_shutdown(ep, how) } Obj::Listener { l } => { self.net.ls[l].open = false; Ok(0) } Obj::Sock { .. } => Err(libc::ENOTCONN), _ => Err(libc::ENOTSOCK) }
    }
    pub fn sock_connect(&mut self, fd: i32, port: u16) -> R<i32> {
        let d = self.fd_desc(fd)?;
        let nb = self.net.descs[&d].nonblock;
        match &self.net.descs[&d].obj { Obj::Sock { ep: None, .. } => {} Obj::Sock { ep: Some(e), .. } => { let e = *e; return if self.net.eps[e].established { Err(libc::EISCONN) } else if nb { Err(libc::EALREADY) } else { let dl = self.now + 127 * SEC; self.connect_wait(e, Some(dl)).map(|_| 0) } } _ => return Err(libc::ENOTSOCK) }
        let link = crate::net::Link { lat: self.k.lat_us as u64 * US, jitter: self.k.jitter_us as u64 * US, mss: self.k.mss as usize, rcvbuf: 65536, sndbuf: 262144 };
        let c = self.connect_start(port, link, true);
        self.net.eps[c].desc = Some(d);
        if let Obj::Sock { ep, .. } = &mut self.net.descs.get_mut(&d).unwrap().obj { *ep = Some(c) }
        self.tr(|| format!("connect(fd {fd}) to port {port}: conn {}", c / 2));
        if nb { return Err(libc::EINPROGRESS); }
        if self.fault(F::ConnectEintr) { return Err(libc::EINTR); }
        let to = self.net.descs[&d].sndtimeo;
        let dl = self.now + if to > 0 { to.min(127 * SEC) } else { 127 * SEC };
        match self.connect_wait(c, Some(dl)) { Ok(()) => Ok(0), Err(e) => Err(if e == libc::ETIMEDOUT && to > 0 && to < 127 * SEC { libc::EINPROGRESS } else { e }) }
    }
    pub fn sock_ports(&self, fd: i32) -> R<(u16, u16)> {
        let d = self.fd_desc(fd)?;
        match &self.net.descs[&d].obj { Obj::Sock { ep: Some(e), bound } => Ok((if *bound != 0 { *bound } else { self.net.eps[*e].port }, self.net.eps[*e].peer_port)), Obj::Sock { ep: None, bound } => Ok((*bound, 0)), Obj::Listener { l } => Ok((self.net.ls[*l].port, 0)), _ => Err(libc::ENOTSOCK) }
    }
    pub fn fd_read(&mut self, fd: i32, buf: &mut [u8]) -> R<usize> {
        let d = self.fd_desc(fd)?;
        match &mut self.net.descs.get_mut(&d).unwrap().obj {
            Obj::Sock { .. } => self.sock_recv(fd, buf, 0),
            Obj::Event { n } => { if *n == 0 { return Err(libc::EAGAIN); } let v = *n; *n = 0; buf[..8].copy_from_slice(&v.to_ne_bytes()); Ok(8) }
            Obj::Timer { expired, .. } => { if *expired == 0 { return Err(libc::EAGAIN); } let v = *expired; *expired = 0; buf[..8].copy_from_slice(&v.to_ne_bytes()); Ok(8) }
            Obj::File { h } => { let h = *h; self.file_read(h, buf, None) }
            _ => Err(libc::EINVAL),
        }
    }
    pub fn fd_write(&mut self, fd: i32, buf: &[u8]) -> R<usize> {
        let d = self.fd_desc(fd)?;
        match &mut self.net.descs.get_mut(&d).unwrap().obj {
            Obj::Sock { .. } => self.sock_send(fd, buf, 0),
            Obj::Event { n } => { let v = u64::from_ne_bytes(buf[..8].try_into().map_err(|_| libc::EINVAL)?); *n = n.saturating_add(v); self.changed(d); Ok(8) }
            _ => Err(libc::EBADF),
        }
    }
    pub fn net_sys_event(&mut self, _a: u64) {}
    /// Holds back everything sent by either side of the connection until `until`.
    pub fn stall_link(&mut self, ep: usize, until: u64) { self.count_fault(F::LinkStall); for e in [ep, ep ^ 1] { let x = &mut self.net.eps[e]; x.stall_until = x.stall_until.max(until); } }
}
