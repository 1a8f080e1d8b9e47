//! The libc entry points the code under test (through tokio, mio and std) uses.
use crate::kernel::*;
use crate::net::*;
use libc::{c_char, c_int, c_long, c_void, sockaddr, socklen_t, ssize_t};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};

/// Referenced from `start` so that the linker takes this object.
pub fn keep() {
    let f: [*const (); 3] = [socket as *const (), getrandom as *const (), crate::tsan::__tsan_init as *const ()];
    std::hint::black_box(f);
}

#[inline(always)]
pub unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
macro_rules! raw {
    ($n:expr $(, $a:expr)*) => {{
        #[allow(unused_mut)]
        let mut v = [0usize; 6];
        #[allow(unused_mut)]
        let mut _i = 0;
        $( v[_i] = $a as usize; _i += 1; )*
        ret(raw6($n as usize, v[0], v[1], v[2], v[3], v[4], v[5]))
    }};
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn fail(e: i32) -> isize {
    set_errno(e);
    -1
}

unsafe fn read_addr(p: *const sockaddr, len: socklen_t) -> Option<SocketAddr> {
    if p.is_null() {
        return None;
    }
    match (*p).sa_family as i32 {
        libc::AF_INET if len as usize >= std::mem::size_of::<libc::sockaddr_in>() => {
            let a = &*(p as *const libc::sockaddr_in);
            Some(SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)), u16::from_be(a.sin_port))))
        }
        libc::AF_INET6 if len as usize >= 24 => {
            let a = &*(p as *const libc::sockaddr_in6);
            Some(SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(a.sin6_addr.s6_addr), u16::from_be(a.sin6_port), 0, if len as usize >= 28 { a.sin6_scope_id } else { 0 })))
        }
        _ => None,
    }
}
unsafe fn write_addr(a: SocketAddr, p: *mut sockaddr, len: *mut socklen_t) {
    if p.is_null() {
        return;
    }
    match a {
        SocketAddr::V4(v) => {
            let mut s: libc::sockaddr_in = std::mem::zeroed();
            s.sin_family = libc::AF_INET as u16;
            s.sin_port = v.port().to_be();
            s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
            let n = std::mem::size_of_val(&s);
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, p as *mut u8, n.min(*len as usize));
            *len = n as u32;
        }
        SocketAddr::V6(v) => {
            let mut s: libc::sockaddr_in6 = std::mem::zeroed();
            s.sin6_family = libc::AF_INET6 as u16;
            s.sin6_port = v.port().to_be();
            s.sin6_addr.s6_addr = v.ip().octets();
            s.sin6_scope_id = v.scope_id();
            let n = std::mem::size_of_val(&s);
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, p as *mut u8, n.min(*len as usize));
            *len = n as u32;
        }
    }
}
fn label(i: usize) -> u32 {
    st().net.socks[i].label
}
fn thread_label() -> u32 {
    let s = st();
    s.threads[s.cur].tag.label
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    let dgram = ty & 0xf == libc::SOCK_DGRAM;
    if !active() || !dgram || (domain != libc::AF_INET && domain != libc::AF_INET6) {
        return raw!(libc::SYS_socket, domain, ty, proto) as c_int;
    }
    yield_point(Yield::Syscall);
    if let Some(e) = sysfault(thread_label(), "socket") {
        return fail(e) as c_int;
    }
    sock_new(domain == libc::AF_INET6, ty & libc::SOCK_NONBLOCK != 0)
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, p: *const sockaddr, len: socklen_t) -> c_int {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_bind, fd, p, len) as c_int };
    yield_point(Yield::Syscall);
    if let Some(e) = sysfault(label(i), "bind") {
        return fail(e) as c_int;
    }
    match read_addr(p, len).ok_or(libc::EINVAL).and_then(|a| sock_bind(i, a)) {
        Ok(()) => 0,
        Err(e) => {
            let fixed = read_addr(p, len).is_some_and(|a| a.port() != 0);
            log(NetEv::Fault { label: label(i), call: if fixed { "clash" } else { "bind" }, n: u64::MAX, errno: e });
            fail(e) as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, p: *const sockaddr, len: socklen_t) -> c_int {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_connect, fd, p, len) as c_int };
    yield_point(Yield::Syscall);
    if let Some(e) = sysfault(label(i), "connect") {
        return fail(e) as c_int;
    }
    match read_addr(p, len).ok_or(libc::EINVAL).and_then(|a| sock_connect(i, a)) {
        Ok(()) => 0,
        Err(e) => {
            log(NetEv::Fault { label: label(i), call: "connect", n: u64::MAX, errno: e });
            fail(e) as c_int
        }
    }
}

unsafe fn copy(b: *const c_void, n: usize) -> Vec<u8> {
    let _own = crate::alloc::own();
    std::slice::from_raw_parts(b as *const u8, n).to_vec()
}
unsafe fn do_send(i: usize, data: Vec<u8>, dst: Option<SocketAddr>, call: &'static str) -> ssize_t {
    yield_point(Yield::Syscall);
    if let Some(e) = sysfault(label(i), call) {
        log(NetEv::SendErr { sock: i, errno: e });
        return fail(e);
    }
    let Some(dst) = dst.or(st().net.socks[i].peer) else { return fail(libc::EDESTADDRREQ) };
    match sock_send(i, dst, data) {
        Ok(n) => n as ssize_t,
        Err(libc::EAGAIN) => fail(libc::EAGAIN),
        Err(e) => {
            log(NetEv::SendErr { sock: i, errno: e });
            fail(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: usize, flags: c_int) -> ssize_t {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_sendto, fd, b, n, flags, 0, 0) };
    do_send(i, copy(b, n), None, "send")
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: usize, flags: c_int, p: *const sockaddr, len: socklen_t) -> ssize_t {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_sendto, fd, b, n, flags, p, len) };
    do_send(i, copy(b, n), read_addr(p, len), "send")
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, flags: c_int) -> ssize_t {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_sendmsg, fd, m, flags) };
    let m = &*m;
    let mut v = vec![];
    {
        let _own = crate::alloc::own();
        for k in 0..m.msg_iovlen {
            let io = &*m.msg_iov.add(k);
            v.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
        }
    }
    do_send(i, v, read_addr(m.msg_name as *const sockaddr, m.msg_namelen), "send")
}

unsafe fn do_recv(i: usize, cap: usize, flags: c_int) -> Result<(Dgram, usize), i32> {
    yield_point(Yield::Syscall);
    if let Some(e) = sysfault(label(i), "recv") {
        log(NetEv::RecvErr { sock: i, errno: e });
        return Err(e);
    }
    loop {
        let r = sock_recv(i, cap, flags & libc::MSG_PEEK != 0);
        if let Err(e) = &r {
            if *e == libc::EAGAIN && !st().net.socks[i].nonblock && flags & libc::MSG_DONTWAIT == 0 {
                block(TState::Sleep { deadline: now() + 100 * US });
                continue;
            }
        }
        return r;
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: usize, flags: c_int) -> ssize_t {
    recvfrom(fd, b, n, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: usize, flags: c_int, p: *mut sockaddr, len: *mut socklen_t) -> ssize_t {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_recvfrom, fd, b, n, flags, p, len) };
    match do_recv(i, n, flags) {
        Ok((d, k)) => {
            std::ptr::copy_nonoverlapping(d.data.as_ptr(), b as *mut u8, k);
            if !p.is_null() {
                write_addr(d.src, p, len);
            }
            if flags & libc::MSG_TRUNC != 0 {
                d.data.len() as ssize_t
            } else {
                k as ssize_t
            }
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut libc::msghdr, flags: c_int) -> ssize_t {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_recvmsg, fd, m, flags) };
    let m = &mut *m;
    let mut cap = 0;
    for k in 0..m.msg_iovlen {
        cap += (*m.msg_iov.add(k)).iov_len;
    }
    match do_recv(i, cap, flags) {
        Ok((d, n)) => {
            let mut off = 0;
            for k in 0..m.msg_iovlen {
                let io = &*m.msg_iov.add(k);
                let x = io.iov_len.min(n - off);
                std::ptr::copy_nonoverlapping(d.data.as_ptr().add(off), io.iov_base as *mut u8, x);
                off += x;
            }
            if !m.msg_name.is_null() {
                let mut l = m.msg_namelen;
                write_addr(d.src, m.msg_name as *mut sockaddr, &mut l);
                m.msg_namelen = l;
            }
            m.msg_controllen = 0;
            m.msg_flags = if d.data.len() > n { libc::MSG_TRUNC } else { 0 };
            n as ssize_t
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, p: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_getsockname, fd, p, len) as c_int };
    if let Some(e) = sysfault(label(i), "getsockname") {
        return fail(e) as c_int;
    }
    let k = &st().net.socks[i];
    let any: SocketAddr = if k.v6 { "[::]:0".parse().unwrap() } else { "0.0.0.0:0".parse().unwrap() };
    write_addr(k.local.unwrap_or(any), p, len);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, p: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_getpeername, fd, p, len) as c_int };
    match st().net.socks[i].peer {
        Some(a) => {
            write_addr(a, p, len);
            0
        }
        None => fail(libc::ENOTCONN) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, n: c_int, v: *const c_void, len: socklen_t) -> c_int {
    let Some(Obj::Sock(_)) = obj(fd) else { return raw!(libc::SYS_setsockopt, fd, l, n, v, len) as c_int };
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, n: c_int, v: *mut c_void, len: *mut socklen_t) -> c_int {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_getsockopt, fd, l, n, v, len) as c_int };
    let mut x: c_int = 0;
    if l == libc::SOL_SOCKET && n == libc::SO_ERROR {
        x = std::mem::take(&mut st().net.socks[i].so_error);
    }
    if !v.is_null() && *len >= 4 {
        *(v as *mut c_int) = x;
        *len = 4;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let Some(Obj::Sock(i)) = obj(fd) else { return raw!(libc::SYS_shutdown, fd, how) as c_int };
    st().net.socks[i].shut = true;
    0
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    match obj(fd) {
        None => raw!(libc::SYS_ioctl, fd, req, arg) as c_int,
        Some(o) => {
            if req == libc::FIONBIO {
                let on = *(arg as *const c_int) != 0;
                match o {
                    Obj::Sock(i) => st().net.socks[i].nonblock = on,
                    Obj::Event(i) => st().net.events[i].nonblock = on,
                    _ => {}
                }
            }
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let Some(o) = obj(fd) else { return raw!(libc::SYS_fcntl, fd, cmd, arg) as c_int };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => dup_fd(fd),
        libc::F_GETFL => match o {
            Obj::Sock(i) if st().net.socks[i].nonblock => libc::O_RDWR | libc::O_NONBLOCK,
            Obj::Event(i) if st().net.events[i].nonblock => libc::O_RDWR | libc::O_NONBLOCK,
            _ => libc::O_RDWR,
        },
        libc::F_SETFL => {
            let on = arg as c_int & libc::O_NONBLOCK != 0;
            match o {
                Obj::Sock(i) => st().net.socks[i].nonblock = on,
                Obj::Event(i) => st().net.events[i].nonblock = on,
                _ => {}
            }
            0
        }
        libc::F_GETFD => libc::FD_CLOEXEC,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    match obj(fd) {
        Some(_) => dup_fd(fd),
        None => raw!(libc::SYS_dup, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() && fd >= FD_BASE {
        yield_point(Yield::Syscall);
        return if close_fd(fd) { 0 } else { fail(libc::EBADF) as c_int };
    }
    raw!(libc::SYS_close, fd) as c_int
}

// ---- epoll, eventfd ----
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !active() {
        return raw!(libc::SYS_epoll_create1, flags) as c_int;
    }
    let n = &mut st().net;
    n.epolls.push(Epoll { list: vec![], ready: Default::default(), refs: 1 });
    new_fd(Obj::Epoll(st().net.epolls.len() - 1))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    let Some(Obj::Epoll(e)) = obj(ep) else { return raw!(libc::SYS_epoll_ctl, ep, op, fd, ev) as c_int };
    yield_point(Yield::Syscall);
    if op == libc::EPOLL_CTL_ADD {
        if let Some(Obj::Sock(i)) = obj(fd) {
            if let Some(e) = sysfault(label(i), "epoll_add") {
                return fail(e) as c_int;
            }
        }
    }
    let (events, data) = if ev.is_null() { (0, 0) } else { ((*ev).events, (*ev).u64) };
    match crate::net::epoll_ctl(e, op, fd, events, data) {
        0 => 0,
        e => fail(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, out: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    let Some(Obj::Epoll(e)) = obj(ep) else { return raw!(libc::SYS_epoll_wait, ep, out, max, timeout) as c_int };
    yield_point(Yield::Syscall);
    if let Some(err) = sysfault(0, "epoll_wait") {
        return fail(err) as c_int;
    }
    let deadline = if timeout < 0 { NEVER } else { now() + timeout as u64 * MS };
    loop {
        let r = epoll_poll(e, max as usize);
        if !r.is_empty() {
            for (k, (ev, data)) in r.iter().enumerate() {
                *out.add(k) = libc::epoll_event { events: *ev, u64: *data };
            }
            return r.len() as c_int;
        }
        if timeout == 0 || now() >= deadline {
            return 0;
        }
        if block(TState::Epoll { ep: e, deadline }) {
            return 0;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: libc::c_uint, flags: c_int) -> c_int {
    if !active() {
        return raw!(libc::SYS_eventfd2, init, flags) as c_int;
    }
    let n = &mut st().net;
    n.events.push(EventFd { n: init as u64, nonblock: flags & libc::EFD_NONBLOCK != 0, refs: 1 });
    new_fd(Obj::Event(st().net.events.len() - 1))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> ssize_t {
    match obj(fd) {
        None => raw!(libc::SYS_read, fd, b, n),
        Some(Obj::Event(i)) => {
            let e = &mut st().net.events[i];
            if e.n == 0 {
                return fail(libc::EAGAIN);
            }
            *(b as *mut u64) = e.n;
            e.n = 0;
            8
        }
        Some(Obj::Sock(_)) => recv(fd, b, n, 0),
        Some(Obj::Epoll(_)) => fail(libc::EINVAL),
    }
}
fn capture(fd: c_int) -> bool {
    active() && (fd == 1 || fd == 2)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> ssize_t {
    if capture(fd) {
        let _own = crate::alloc::own();
        if fd == 1 {
            if let Some(e) = sysfault(0, "stdout") {
                return fail(e) as ssize_t;
            }
        }
        st().out[fd as usize - 1].extend_from_slice(std::slice::from_raw_parts(b as *const u8, n));
        return n as ssize_t;
    }
    match obj(fd) {
        None => raw!(libc::SYS_write, fd, b, n),
        Some(Obj::Event(i)) => {
            st().net.events[i].n += *(b as *const u64);
            notify(Obj::Event(i), 0);
            yield_point(Yield::Syscall);
            8
        }
        Some(Obj::Sock(_)) => send(fd, b, n, 0),
        Some(Obj::Epoll(_)) => fail(libc::EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if capture(fd) {
        let _own = crate::alloc::own();
        let mut t = 0;
        for k in 0..n as usize {
            let io = &*v.add(k);
            st().out[fd as usize - 1].extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
            t += io.iov_len;
        }
        return t as ssize_t;
    }
    raw!(libc::SYS_writev, fd, v, n)
}

// ---- host names ----
#[repr(C)]
struct Found {
    info: libc::addrinfo,
    addr: libc::sockaddr_storage,
}

/// A planned failure is an errno, or a (negative) code of the resolver.
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const libc::c_char, _service: *const libc::c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    let name = if node.is_null() { "" } else { std::ffi::CStr::from_ptr(node).to_str().unwrap_or("") };
    if active() {
        yield_point(Yield::Syscall);
        if let Some(e) = sysfault(thread_label(), "resolve") {
            return if e < 0 {
                e
            } else {
                fail(e);
                libc::EAI_SYSTEM
            };
        }
        count("name_lookup");
        block(TState::Sleep { deadline: now() + st().cfg.latency_us * US });
    }
    let _own = crate::alloc::own();
    let ips: Vec<std::net::IpAddr> = match name.parse() {
        Ok(ip) => vec![ip],
        Err(_) if active() => st().cfg.names.iter().find(|n| n.0 == name).map_or(vec![], |n| n.1.clone()),
        Err(_) => vec![],
    };
    if ips.is_empty() {
        return libc::EAI_NONAME;
    }
    let mut next: *mut libc::addrinfo = std::ptr::null_mut();
    for ip in ips.into_iter().rev() {
        let mut f: Box<Found> = Box::new(std::mem::zeroed());
        let mut len = std::mem::size_of::<libc::sockaddr_storage>() as socklen_t;
        write_addr(SocketAddr::new(ip, 0), &mut f.addr as *mut _ as *mut sockaddr, &mut len);
        f.info.ai_family = f.addr.ss_family as c_int;
        f.info.ai_socktype = if hints.is_null() { libc::SOCK_DGRAM } else { (*hints).ai_socktype };
        f.info.ai_addrlen = len;
        f.info.ai_next = next;
        let f = Box::into_raw(f);
        (*f).info.ai_addr = &mut (*f).addr as *mut _ as *mut sockaddr;
        next = f as *mut libc::addrinfo;
    }
    *res = next;
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut libc::addrinfo) {
    let _own = crate::alloc::own();
    let mut p = res;
    while !p.is_null() {
        let next = (*p).ai_next;
        drop(Box::from_raw(p as *mut Found));
        p = next;
    }
}

// ---- time, entropy ----
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if active() {
        let t: i128 = match id {
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => {
                (MONO_BASE + now()) as i128
            }
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                st().cfg.realtime_base_ns as i128 + st().realtime_off as i128 + now() as i128
            }
            _ => return raw!(libc::SYS_clock_gettime, id, ts) as c_int,
        };
        (*ts).tv_sec = (t.div_euclid(SEC as i128)) as i64;
        (*ts).tv_nsec = (t.rem_euclid(SEC as i128)) as i64;
        yield_point(Yield::Syscall);
        return 0;
    }
    raw!(libc::SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        let d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
        block(TState::Sleep { deadline: now() + d });
        return 0;
    }
    raw!(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        let d = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
        let deadline = if flags & libc::TIMER_ABSTIME != 0 { d.saturating_sub(MONO_BASE) } else { now() + d };
        block(TState::Sleep { deadline });
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep as usize, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        yield_now();
        return 0;
    }
    raw!(libc::SYS_sched_yield) as c_int
}
fn fill_random(b: *mut u8, n: usize) {
    static mut OFFLINE: u64 = 0x1234_5678_9abc_def1;
    for k in 0..n {
        unsafe {
            *b.add(k) = if active() {
                st().entropy.next() as u8
            } else {
                OFFLINE = OFFLINE.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (OFFLINE >> 33) as u8
            };
        }
    }
    if active() {
        count("entropy_reads");
    }
}
/// Reads may be interrupted (a positive fault), fail, or give fewer octets than asked for (a negative one).
unsafe fn random(b: *mut u8, n: usize) -> ssize_t {
    let mut n = n;
    if active() {
        match sysfault(thread_label(), "getrandom") {
            Some(e) if e > 0 => return fail(e) as ssize_t,
            Some(k) => n = n.min(-k as usize),
            None => {}
        }
    }
    fill_random(b, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, _flags: libc::c_uint) -> ssize_t {
    random(b as *mut u8, n)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: usize) -> c_int {
    fill_random(b as *mut u8, n);
    0
}

// ---- futex and friends ----
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_getrandom {
        return random(a as *mut u8, b) as c_long;
    }
    if active() && n == libc::SYS_futex {
        return futex(a, b as i32, c as u32, d, f as u32) as c_long;
    }
    if active() && n == libc::SYS_sched_yield {
        return sched_yield() as c_long;
    }
    ret(raw6(n as usize, a, b, c, d, e, f)) as c_long
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: usize, bits3: u32) -> isize {
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            yield_point(Yield::Syscall);
            let p = addr as *const std::sync::atomic::AtomicU32;
            if (*p).load(std::sync::atomic::Ordering::SeqCst) != val {
                return fail(libc::EAGAIN);
            }
            let deadline = if ts == 0 {
                NEVER
            } else {
                let t = &*(ts as *const libc::timespec);
                let x = (t.tv_sec as u64).saturating_mul(SEC).saturating_add(t.tv_nsec as u64);
                if cmd == libc::FUTEX_WAIT {
                    now().saturating_add(x)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    (x as i128 - st().cfg.realtime_base_ns as i128 - st().realtime_off as i128).max(0) as u64
                } else {
                    x.saturating_sub(MONO_BASE)
                }
            };
            let bits = if cmd == libc::FUTEX_WAIT_BITSET { bits3 } else { !0 };
            if block(TState::Futex { addr, bits, deadline }) {
                return fail(libc::ETIMEDOUT);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mask = if cmd == libc::FUTEX_WAKE_BITSET { bits3 } else { !0 };
            let s = st();
            let mut n = 0u32;
            for i in 0..s.threads.len() {
                if n >= val {
                    break;
                }
                if let TState::Futex { addr: x, bits, .. } = s.threads[i].state {
                    if x == addr && bits & mask != 0 {
                        s.threads[i].timed_out = false;
                        s.make_runnable(i);
                        n += 1;
                    }
                }
            }
            yield_point(Yield::Syscall);
            n as isize
        }
        _ => fail(libc::ENOSYS),
    }
}

// ---- threads ----
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    crate::threads::sim_create(out, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    crate::threads::sim_join(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    crate::threads::sim_detach(t)
}
#[allow(unused)]
type Unused = c_char;
