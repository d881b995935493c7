//! Interposed libc entry points. On a simulated thread they are answered by the
//! simulator; everywhere else they are plain system calls.
#![allow(clippy::missing_safety_doc)]
use crate::core::*;
use crate::net::{Obj, R, FD0};
use crate::sys::{self, sc6, set_errno};
use libc::*;

macro_rules! raw { ($n:expr $(, $a:expr)*) => {{ let a: [i64; 6] = { #[allow(unused_mut)] let mut v = [0i64; 6]; let mut _i = 0; $( v[_i] = $a as i64; _i += 1; )* v }; sys::ret(sc6($n as i64, a[0], a[1], a[2], a[3], a[4], a[5])) }} }
macro_rules! out { ($r:expr) => { match $r { Ok(v) => v as _, Err(e) => { set_errno(e); -1 } } } }

/// Simulated call on a simulated descriptor?
unsafe fn on(fd: i32) -> Option<SimRef> {
    if fd < FD0 { return None; }
    let mut s = enter()?;
    s.shim_point();
    if s.is_fd(fd) { Some(s) } else { None }
}
unsafe fn any() -> Option<SimRef> { let mut s = enter()?; s.shim_point(); Some(s) }

// ---- time ----
const MONO0: u64 = 10_000 * SEC;
const WALL0: u64 = 1_790_000_000 * SEC;
unsafe fn clock(s: &Sim, id: i32) -> u64 { match id { CLOCK_REALTIME | CLOCK_REALTIME_COARSE | CLOCK_TAI => (WALL0 + s.now) .wrapping_add(s.wall_off as u64), _ => MONO0 + s.now } }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    // also when called from inside the simulator: there is only one clock on a simulated thread
    if is_sim_thread() && !SIM.is_null() { let s = &*SIM; let t = clock(s, id); (*ts).tv_sec = (t / SEC) as time_t; (*ts).tv_nsec = (t % SEC) as c_long; return 0; }
    raw!(SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle] pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if is_sim_thread() && !SIM.is_null() { let t = clock(&*SIM, CLOCK_REALTIME); (*tv).tv_sec = (t / SEC) as time_t; (*tv).tv_usec = (t % SEC / US) as suseconds_t; return 0; }
    raw!(SYS_gettimeofday, tv, tz) as c_int
}
#[no_mangle] pub unsafe extern "C" fn time(p: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed(); clock_gettime(CLOCK_REALTIME, &mut ts); if !p.is_null() { *p = ts.tv_sec; } ts.tv_sec
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(mut s) = any() { let d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64; s.sleep_for(d, "nanosleep"); return 0; }
    raw!(SYS_nanosleep, req, rem) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(mut s) = any() {
        let v = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
        let d = if flags & TIMER_ABSTIME != 0 { v.saturating_sub(clock(&s, id)) } else { v };
        s.sleep_for(d, "sleep"); return 0;
    }
    -sc6(SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int
}
#[no_mangle] pub unsafe extern "C" fn usleep(us: c_uint) -> c_int { if let Some(mut s) = any() { s.sleep_for(us as u64 * US, "usleep"); return 0; } let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 }; raw!(SYS_nanosleep, &ts as *const _, 0) as c_int }
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int { if let Some(mut s) = any() { s.force_yield(); return 0; } raw!(SYS_sched_yield) as c_int }

// ---- randomness and machine ----
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if is_sim_thread() && !SIM.is_null() {
        let s = &mut *SIM; let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for ch in b.chunks_mut(8) { let v = s.entropy.next().to_le_bytes(); let n = ch.len(); ch.copy_from_slice(&v[..n]); }
        return len as ssize_t;
    }
    raw!(SYS_getrandom, buf, len, flags) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, size: size_t, set: *mut cpu_set_t) -> c_int {
    if let Some(s) = enter() {
        std::ptr::write_bytes(set as *mut u8, 0, size);
        for i in 0..(s.k.cpus as usize).min(size * 8) { *(set as *mut u8).add(i / 8) |= 1 << (i % 8); }
        return 0;
    }
    let r = raw!(SYS_sched_getaffinity, pid, size, set);
    if r < 0 { -1 } else { 0 }
}

// ---- syscall(2): futex, epoll_create1, timerfd_create, getrandom ----
unsafe fn futex(s: &mut Sim, addr: *mut u32, op: i32, val: u32, ts: *const timespec, bits: u32) -> R<i64> {
    let cmd = op & 127;
    let ch = chan(CH_FUTEX, addr as usize);
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            let _ = bits;
            if std::ptr::read_volatile(addr) != val { return Err(EAGAIN); }
            if s.fault(F::FutexSpurious) { return Ok(0); }
            let dl = if ts.is_null() { None } else {
                let v = ((*ts).tv_sec as u64).saturating_mul(SEC).saturating_add((*ts).tv_nsec as u64);
                Some(if cmd == FUTEX_WAIT { s.now.saturating_add(v) } else { let c = if op & FUTEX_CLOCK_REALTIME != 0 { clock(s, CLOCK_REALTIME) } else { clock(s, CLOCK_MONOTONIC) }; s.now.saturating_add(v.saturating_sub(c)) })
            };
            if s.block(&[ch], dl, "futex") { Ok(0) } else { Err(ETIMEDOUT) }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => { let n = s.notify_n(ch, val.min(1 << 30) as usize); Ok(n as i64) }
        _ => Err(ENOSYS),
    }
}
#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    match n {
        SYS_futex => if let Some(mut s) = any() { return out!(futex(&mut s, a as *mut u32, b as i32, c as u32, d as *const timespec, f as u32)); },
        SYS_getrandom => return getrandom(a as *mut c_void, b as size_t, c as u32) as c_long,
        SYS_epoll_create1 => if let Some(mut s) = any() { return out!(s.epoll_create()); },
        SYS_eventfd2 => if let Some(mut s) = any() { return out!(s.eventfd(a as u64, b as i32)); },
        SYS_timerfd_create => if let Some(mut s) = any() { return out!(s.timerfd_create(b as i32)); },
        SYS_gettid => if is_sim_thread() { return 100_000 + TID.with(|t| t.get()) as i64; },
        _ => {}
    }
    sys::ret(sc6(n, a, b, c, d, e, f))
}
#[no_mangle] pub unsafe extern "C" fn gettid() -> pid_t { if is_sim_thread() { return 100_000 + TID.with(|t| t.get()); } raw!(SYS_gettid) as pid_t }

// ---- threads ----
#[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    if let Some(mut s) = any() { if s.fault(F::ThreadEagain) { return EAGAIN; } return s.spawn(t, attr, f, arg); }
    sys::real_create(t, attr, f, arg)
}
#[no_mangle] pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if let Some(mut s) = any() { return s.join(t, r); }
    sys::real_join(t, r)
}

#[no_mangle] pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if crate::prog::started() && is_sim_thread() { crate::prog::on_exit(code); }
    type Fn = unsafe extern "C" fn(c_int) -> !;
    let p = dlsym(RTLD_NEXT, c"exit".as_ptr());
    if !p.is_null() { std::mem::transmute::<*mut c_void, Fn>(p)(code); }
    _exit(code)
}

// ---- epoll, eventfd, timerfd, poll ----
#[no_mangle] pub unsafe extern "C" fn epoll_create1(f: c_int) -> c_int { if let Some(mut s) = any() { return out!(s.epoll_create()); } raw!(SYS_epoll_create1, f) as c_int }
#[no_mangle] pub unsafe extern "C" fn epoll_create(_n: c_int) -> c_int { epoll_create1(0) }
#[no_mangle] pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if let Some(mut s) = on(ep) { let e = if ev.is_null() { None } else { Some(((*ev).events, (*ev).u64)) }; return out!(s.epoll_ctl(ep, op, fd, e)); }
    raw!(SYS_epoll_ctl, ep, op, fd, ev) as c_int
}
#[no_mangle] pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, to: c_int) -> c_int {
    if let Some(mut s) = on(ep) {
        return match s.epoll_wait(ep, max as usize, to as i64) { Ok(v) => { for (i, (m, d)) in v.iter().enumerate() { *evs.add(i) = epoll_event { events: *m, u64: *d }; } v.len() as c_int } Err(e) => { set_errno(e); -1 } };
    }
    raw!(SYS_epoll_pwait, ep, evs, max, to, 0, 8) as c_int
}
#[no_mangle] pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut epoll_event, max: c_int, to: c_int, _s: *const sigset_t) -> c_int { epoll_wait(ep, evs, max, to) }
#[no_mangle] pub unsafe extern "C" fn eventfd(n: c_uint, fl: c_int) -> c_int { if let Some(mut s) = any() { return out!(s.eventfd(n as u64, fl)); } raw!(SYS_eventfd2, n, fl) as c_int }
#[no_mangle] pub unsafe extern "C" fn timerfd_create(c: clockid_t, fl: c_int) -> c_int { if let Some(mut s) = any() { return out!(s.timerfd_create(fl)); } raw!(SYS_timerfd_create, c, fl) as c_int }
#[no_mangle] pub unsafe extern "C" fn timerfd_settime(fd: c_int, fl: c_int, v: *const itimerspec, old: *mut itimerspec) -> c_int {
    if let Some(mut s) = on(fd) {
        let abs = fl & TFD_TIMER_ABSTIME != 0;
        let ns = |t: timespec| (t.tv_sec as u64).saturating_mul(SEC).saturating_add(t.tv_nsec as u64);
        if (*v).it_value.tv_nsec >= SEC as i64 || (*v).it_value.tv_nsec < 0 || (*v).it_value.tv_sec < 0 { set_errno(EINVAL); return -1; }
        let val = ns((*v).it_value); let val = if abs && val > 0 { val.saturating_sub(MONO0).max(1) } else { val };
        return out!(s.timerfd_settime(fd, abs, val, ns((*v).it_interval)));
    }
    raw!(SYS_timerfd_settime, fd, fl, v, old) as c_int
}
#[no_mangle] pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, to: c_int) -> c_int {
    if n > 0 && (*p).fd >= FD0 { if let Some(mut s) = any() { return out!(s.poll(std::slice::from_raw_parts_mut(p, n as usize), to as i64)); } }
    raw!(SYS_poll, p, n, to) as c_int
}
#[no_mangle] pub unsafe extern "C" fn pause() -> c_int { raw!(SYS_pause) as c_int }

// ---- sockets ----
unsafe fn port_of(a: *const sockaddr) -> u16 { u16::from_be((*(a as *const sockaddr_in)).sin_port) }
unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, port: u16) {
    if a.is_null() || l.is_null() { return; }
    let sa = sockaddr_in { sin_family: AF_INET as sa_family_t, sin_port: port.to_be(), sin_addr: in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, 1]) }, sin_zero: [0; 8] };
    let n = (*l as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, a as *mut u8, n); *l = std::mem::size_of::<sockaddr_in>() as socklen_t;
}
#[no_mangle] pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if d == AF_INET || d == AF_INET6 { if let Some(mut s) = any() { let r = s.new_fd(Obj::Sock { ep: None, bound: 0 }); if let Ok(fd) = r { s.desc(fd).unwrap().nonblock = t & SOCK_NONBLOCK != 0; } return out!(r); } }
    raw!(SYS_socket, d, t, p) as c_int
}
#[no_mangle] pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int { if let Some(mut s) = on(fd) { let p = port_of(a); return out!(s.sock_bind(fd, p)); } raw!(SYS_bind, fd, a, l) as c_int }
#[no_mangle] pub unsafe extern "C" fn listen(fd: c_int, b: c_int) -> c_int { if let Some(mut s) = on(fd) { return out!(s.sock_listen(fd, b)); } raw!(SYS_listen, fd, b) as c_int }
#[no_mangle] pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, f: c_int) -> c_int {
    if let Some(mut s) = on(fd) { return match s.accept(fd, f) { Ok((n, p)) => { put_addr(a, l, p); n } Err(e) => { set_errno(e); -1 } }; }
    raw!(SYS_accept4, fd, a, l, f) as c_int
}
#[no_mangle] pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int { accept4(fd, a, l, 0) }
#[no_mangle] pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int { if let Some(mut s) = on(fd) {
        let p = port_of(a);
        // the other addresses of a name: nothing listens there
        let other = (*a).sa_family == AF_INET as sa_family_t && (*(a as *const sockaddr_in)).sin_addr.s_addr.to_ne_bytes()[3] > 100;
        if other { s.count_fault(F::ConnRefused); s.probe("a name with several addresses"); }
        return out!(s.sock_connect(fd, if other { p.wrapping_add(20_000) } else { p }));
    }
     raw!(SYS_connect, fd, a, l) as c_int }
#[no_mangle] pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int { if let Some(mut s) = on(fd) { return out!(s.sock_shutdown(fd, how)); } raw!(SYS_shutdown, fd, how) as c_int }
#[no_mangle] pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int { if let Some(s) = on(fd) { return match s.sock_ports(fd) { Ok((p, _)) => { put_addr(a, l, p); 0 } Err(e) => { set_errno(e); -1 } }; } raw!(SYS_getsockname, fd, a, l) as c_int }
#[no_mangle] pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if let Some(s) = on(fd) { return match s.sock_ports(fd) { Ok((_, 0)) => { set_errno(ENOTCONN); -1 } Ok((_, p)) => { put_addr(a, l, p); 0 } Err(e) => { set_errno(e); -1 } }; }
    raw!(SYS_getpeername, fd, a, l) as c_int
}
#[no_mangle] pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, name: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if let Some(mut s) = on(fd) {
        if s.fault(F::SockOptErr) { set_errno(EINVAL); return -1; }
        if lv == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) {
            let tv = &*(v as *const timeval); let ns = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * US;
            match s.desc(fd) { Ok(d) => if name == SO_RCVTIMEO { d.rcvtimeo = ns } else { d.sndtimeo = ns }, Err(e) => { set_errno(e); return -1; } }
        }
        return 0;
    }
    raw!(SYS_setsockopt, fd, lv, name, v, l) as c_int
}
#[no_mangle] pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, name: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if let Some(mut s) = on(fd) {
        if lv == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) { let d = s.desc(fd).unwrap(); let ns = if name == SO_RCVTIMEO { d.rcvtimeo } else { d.sndtimeo }; *(v as *mut timeval) = timeval { tv_sec: (ns / SEC) as i64, tv_usec: (ns % SEC / US) as i64 }; *l = 16; return 0; }
        let mut r = 0;
        if lv == SOL_SOCKET && name == SO_ERROR { if let Ok(Obj::Sock { ep: Some(ep), .. }) = s.desc(fd).map(|d| d.obj.clone()) { r = s.net.eps[ep].err; s.net.eps[ep].err = 0; } }
        *(v as *mut c_int) = r; *l = 4; return 0;
    }
    raw!(SYS_getsockopt, fd, lv, name, v, l) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_int) -> c_int {
    if let Some(mut s) = on(fd) {
        if req == FIONBIO { if s.fault(F::IoctlErr) { set_errno(EINVAL); return -1; } let nb = *arg != 0; return out!(s.desc(fd).map(|d| { d.nonblock = nb; 0 })); }
        set_errno(ENOTTY); return -1;
    }
    raw!(SYS_ioctl, fd, req, arg) as c_int
}
unsafe fn fcntl_impl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if let Some(mut s) = on(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => out!(s.dup_fd(fd)),
            F_GETFL => { let nb = s.desc(fd).unwrap().nonblock; O_RDWR | if nb { O_NONBLOCK } else { 0 } }
            F_SETFL => { s.desc(fd).unwrap().nonblock = arg as i32 & O_NONBLOCK != 0; 0 }
            _ => 0,
        };
    }
    raw!(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int { fcntl_impl(fd, cmd, arg) }
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int { fcntl_impl(fd, cmd, arg) }
#[no_mangle] pub unsafe extern "C" fn dup(fd: c_int) -> c_int { if let Some(mut s) = on(fd) { return out!(s.dup_fd(fd)); } raw!(SYS_dup, fd) as c_int }
unsafe fn sl<'a>(b: *const c_void, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(b as *const u8, n) } }
unsafe fn slm<'a>(b: *mut c_void, n: usize) -> &'a mut [u8] { if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(b as *mut u8, n) } }
#[no_mangle] pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, f: c_int) -> ssize_t { if let Some(mut s) = on(fd) { return out!(s.sock_recv(fd, slm(b, n), f)); } raw!(SYS_recvfrom, fd, b, n, f, 0, 0) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, f: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t { if let Some(mut s) = on(fd) { return out!(s.sock_recv(fd, slm(b, n), f)); } raw!(SYS_recvfrom, fd, b, n, f, a, l) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, f: c_int) -> ssize_t { if let Some(mut s) = on(fd) { return out!(s.sock_send(fd, sl(b, n), f)); } raw!(SYS_sendto, fd, b, n, f, 0, 0) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, f: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t { if let Some(mut s) = on(fd) { return out!(s.sock_send(fd, sl(b, n), f)); } raw!(SYS_sendto, fd, b, n, f, a, l) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t { if let Some(mut s) = on(fd) { return out!(s.fd_read(fd, slm(b, n))); } raw!(SYS_read, fd, b, n) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t { if let Some(mut s) = on(fd) { return out!(s.fd_write(fd, sl(b, n))); } raw!(SYS_write, fd, b, n) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if let Some(mut s) = on(fd) { for i in 0..n as usize { let x = &*v.add(i); if x.iov_len > 0 { return out!(s.fd_read(fd, slm(x.iov_base, x.iov_len))); } } return 0; }
    raw!(SYS_readv, fd, v, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if let Some(mut s) = on(fd) { let mut all = vec![]; for i in 0..n as usize { let x = &*v.add(i); all.extend_from_slice(sl(x.iov_base, x.iov_len)); } return out!(s.fd_write(fd, &all)); }
    raw!(SYS_writev, fd, v, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if let Some(mut s) = on(fd) { let h = match s.desc(fd).map(|d| d.obj.clone()) { Ok(Obj::File { h }) => h, _ => { set_errno(ESPIPE); return -1; } }; return out!(s.file_read(h, slm(b, n), Some(off as u64))); }
    raw!(SYS_pread64, fd, b, n, off) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int { if let Some(mut s) = on(fd) { return out!(s.close_fd(fd)); } raw!(SYS_close, fd) as c_int }
#[no_mangle] pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, _h: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    let _ = service;
    let name = if node.is_null() { "" } else { std::ffi::CStr::from_ptr(node).to_str().unwrap_or("") };
    // "<n>.multi" has n addresses nobody listens on before the good one
    let mut extra = 0;
    if is_sim_thread() {
        let _g = Guard::new();
        extra = name.strip_suffix(".multi").and_then(|n| n.parse::<u8>().ok()).unwrap_or(0);
        if name != "localhost" && name != "127.0.0.1" && extra == 0 { return EAI_NONAME; }
    }
    let mut next: *mut addrinfo = std::ptr::null_mut();
    for i in 0..=extra {
        let last = if i == 0 { 1 } else { 100 + i };
        let sa = Box::into_raw(Box::new(sockaddr_in { sin_family: AF_INET as sa_family_t, sin_port: 0, sin_addr: in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, last]) }, sin_zero: [0; 8] }));
        next = Box::into_raw(Box::new(addrinfo { ai_flags: 0, ai_family: AF_INET, ai_socktype: SOCK_STREAM, ai_protocol: 0, ai_addrlen: 16, ai_addr: sa as *mut sockaddr, ai_canonname: std::ptr::null_mut(), ai_next: next }));
    }
    *res = next; 0
}
#[no_mangle] pub unsafe extern "C" fn freeaddrinfo(a: *mut addrinfo) { let mut a = a; while !a.is_null() { let b = Box::from_raw(a); drop(Box::from_raw(b.ai_addr as *mut sockaddr_in)); a = b.ai_next; } }

// ---- files ----
unsafe fn cpath<'a>(p: *const c_char) -> &'a str { if p.is_null() { "" } else { std::ffi::CStr::from_ptr(p).to_str().unwrap_or("\u{fffd}") } }
unsafe fn simpath<'a>(p: *const c_char) -> Option<(SimRef, &'a str)> {
    if !is_sim_thread() { return None; }
    let path = cpath(p);
    let blocked = path.starts_with("/proc/self/cgroup") || path.starts_with("/proc/self/mountinfo") || path.starts_with("/sys/fs/cgroup");
    let s0 = enter()?;
    if !(blocked || s0.fs.enabled && (crate::simfs::is_sim_path(path) || path.starts_with('/') && s0.th[s0.cur].sys)) { return None; }
    drop(s0);
    any().map(|s| (s, path))
}
unsafe fn open_impl(p: *const c_char, fl: c_int, m: mode_t) -> c_int {
    if let Some((mut s, path)) = simpath(p) { if !s.fs.enabled { set_errno(ENOENT); return -1; } return out!(s.file_open(path, fl)); }
    raw!(SYS_openat, AT_FDCWD, p, fl, m) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, m: mode_t) -> c_int { open_impl(p, fl, m) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, m: mode_t) -> c_int { open_impl(p, fl, m) }
unsafe fn put_stat(st: *mut stat64, v: (u32, u64, u64)) { std::ptr::write_bytes(st, 0, 1); (*st).st_mode = v.0; (*st).st_size = v.1 as i64; (*st).st_ino = v.2; (*st).st_nlink = 1; (*st).st_blksize = 4096; (*st).st_blocks = (v.1 as i64 + 511) / 512; }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int { if let Some((mut s, path)) = simpath(p) { return match s.file_stat(path, true) { Ok(v) => { put_stat(st, v); 0 } Err(e) => { set_errno(e); -1 } }; } raw!(SYS_newfstatat, AT_FDCWD, p, st, 0) as c_int }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int { if let Some((mut s, path)) = simpath(p) { return match s.file_stat(path, false) { Ok(v) => { put_stat(st, v); 0 } Err(e) => { set_errno(e); -1 } }; } raw!(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW) as c_int }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int { if let Some(mut s) = on(fd) { return match s.file_fstat(fd) { Ok(v) => { put_stat(st, v); 0 } Err(e) => { set_errno(e); -1 } }; } raw!(SYS_fstat, fd, st) as c_int }
#[no_mangle] pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, fl: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    let path = cpath(p);
    let r = if path.is_empty() && dfd >= FD0 { on(dfd).map(|mut s| s.file_fstat(dfd)) } else { simpath(p).map(|(mut s, path)| s.file_stat(path, fl & AT_SYMLINK_NOFOLLOW == 0)) };
    match r {
        None => raw!(SYS_statx, dfd, p, fl, mask, st) as c_int,
        Some(Err(e)) => { set_errno(e); -1 }
        Some(Ok((mode, size, ino))) => { std::ptr::write_bytes(st, 0, 1); (*st).stx_mask = STATX_BASIC_STATS; (*st).stx_mode = mode as u16; (*st).stx_size = size; (*st).stx_ino = ino; (*st).stx_nlink = 1; (*st).stx_blksize = 4096; (*st).stx_blocks = size.div_ceil(512); 0 }
    }
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 { if let Some(mut s) = on(fd) { return out!(s.file_seek(fd, off, wh)); } raw!(SYS_lseek, fd, off, wh) }
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int { if let Some((mut s, path)) = simpath(p) { return out!(s.file_stat(path, true).map(|_| 0)); } raw!(SYS_faccessat, AT_FDCWD, p, m) as c_int }
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, outp: *mut c_char) -> *mut c_char {
    unsafe fn give(s: &str, outp: *mut c_char) -> *mut c_char { let o = if outp.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { outp }; std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, o, s.len()); *o.add(s.len()) = 0; o }
    if let Some((mut s, path)) = simpath(p) { return match s.file_realpath(path) { Ok(v) => give(&v, outp), Err(e) => { set_errno(e); std::ptr::null_mut() } }; }
    // outside the simulation: resolve through /proc/self/fd
    let fd = raw!(SYS_openat, AT_FDCWD, p, O_PATH | O_CLOEXEC, 0) as c_int;
    if fd < 0 { return std::ptr::null_mut(); }
    let link = format!("/proc/self/fd/{fd}\0"); let mut buf = [0u8; 4096];
    let n = raw!(SYS_readlink, link.as_ptr(), buf.as_mut_ptr(), 4095);
    raw!(SYS_close, fd);
    if n < 0 { return std::ptr::null_mut(); }
    give(std::str::from_utf8(&buf[..n as usize]).unwrap_or("/"), outp)
}
