//! Simulated UDP network, descriptors, epoll and event fds.
use crate::kernel::*;
use std::collections::{BTreeMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::rc::Rc;

pub const FD_BASE: i32 = 1 << 20;

/// What the network does to one datagram.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fate {
    pub drop: bool,
    /// added to the base latency
    pub delay_us: u64,
    /// extra copies, each with its own added delay
    pub dups: Vec<u64>,
    /// (offset modulo length, xor mask)
    pub corrupt: Option<(u32, u8)>,
    /// keep only this many octets
    pub trunc: Option<u32>,
    /// append these octets
    pub pad: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Dgram {
    /// unique per copy on the wire
    pub id: u64,
    /// id of the send it stems from
    pub send_id: u64,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub src_host: u32,
    pub src_sock: Option<usize>,
    pub data: Rc<Vec<u8>>,
}

#[derive(Clone, Debug, Hash)]
pub enum NetEv {
    Open { sock: usize, host: u32, label: u32 },
    Close { sock: usize },
    Bind { sock: usize, addr: SocketAddr },
    Connect { sock: usize, addr: SocketAddr },
    Send { sock: usize, host: u32, label: u32, id: u64, src: SocketAddr, dst: SocketAddr, data: Rc<Vec<u8>> },
    SendErr { sock: usize, errno: i32 },
    Lost { id: u64, why: &'static str },
    Arrive { sock: usize, id: u64, src: SocketAddr, data: Rc<Vec<u8>> },
    Recv { sock: usize, id: u64, send_id: u64, src: SocketAddr, data: Rc<Vec<u8>>, given: usize },
    RecvErr { sock: usize, errno: i32 },
    Drained { label: u32 },
    Fault { label: u32, call: &'static str, n: u64, errno: i32 },
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub seq: u64,
    pub t: u64,
    pub ev: NetEv,
}

pub struct Sock {
    pub host: u32,
    pub label: u32,
    pub v6: bool,
    pub nonblock: bool,
    pub local: Option<SocketAddr>,
    pub peer: Option<SocketAddr>,
    pub rxq: VecDeque<Dgram>,
    pub so_error: i32,
    pub refs: u32,
    pub shut: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Obj {
    Sock(usize),
    Event(usize),
    Epoll(usize),
}
pub struct EventFd {
    pub n: u64,
    pub nonblock: bool,
    pub refs: u32,
}
#[derive(Clone)]
pub struct Interest {
    pub obj: Obj,
    pub fd: i32,
    pub events: u32,
    pub data: u64,
    pub queued: bool,
    pub forced: u32,
    pub dead: bool,
}
pub struct Epoll {
    pub list: Vec<Interest>,
    pub ready: VecDeque<usize>,
    pub refs: u32,
}
type EndpointFn = Box<dyn FnMut(&Dgram)>;
pub struct Net {
    pub socks: Vec<Sock>,
    pub events: Vec<EventFd>,
    pub epolls: Vec<Epoll>,
    pub fds: BTreeMap<i32, Obj>,
    pub fd_next: i32,
    pub log: Vec<Rec>,
    pub dg_next: u64,
    pub fate_n: [u64; 2],
    pub call_n: BTreeMap<(u32, &'static str), u64>,
    pub endpoints: BTreeMap<SocketAddr, EndpointFn>,
    pub server_ports: Vec<u16>,
    pub eph_next: u16,
}

impl Net {
    pub fn new() -> Self {
        Net {
            socks: vec![],
            events: vec![],
            epolls: vec![],
            fds: BTreeMap::new(),
            fd_next: FD_BASE,
            log: vec![],
            dg_next: 0,
            fate_n: [0; 2],
            call_n: BTreeMap::new(),
            endpoints: BTreeMap::new(),
            server_ports: vec![],
            eph_next: 0,
        }
    }
}
impl Default for Net {
    fn default() -> Self {
        Self::new()
    }
}

pub fn host_v4(h: u32) -> IpAddr {
    IpAddr::V4(Ipv4Addr::new(10, 0, (h >> 8) as u8, h as u8))
}
pub fn host_v6(h: u32) -> IpAddr {
    IpAddr::V6(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, h as u16))
}
/// Which host owns an address, seen from host `from`.
pub fn host_of(ip: IpAddr, from: u32) -> Option<u32> {
    match ip {
        IpAddr::V4(a) => {
            let o = a.octets();
            if o[0] == 10 && o[1] == 0 {
                Some((o[2] as u32) << 8 | o[3] as u32)
            } else if o[0] == 127 {
                Some(from)
            } else {
                None
            }
        }
        IpAddr::V6(a) => {
            if a.is_loopback() {
                Some(from)
            } else if matches!(a.segments()[0], 0xfd00 | 0xfe80) {
                Some(a.segments()[7] as u32)
            } else if let Some(v4) = a.to_ipv4_mapped() {
                host_of(IpAddr::V4(v4), from)
            } else {
                None
            }
        }
    }
}

pub fn log(ev: NetEv) {
    let _own = crate::alloc::own();
    let s = st();
    s.seq += 1;
    let r = Rec { seq: s.seq, t: s.now, ev };
    s.net.log.push(r);
}

/// Is a fault planned for this call?  Counts the call either way.
pub fn sysfault(label: u32, call: &'static str) -> Option<i32> {
    let _own = crate::alloc::own();
    let s = st();
    let c = s.net.call_n.entry((label, call)).or_insert(0);
    let n = *c;
    *c += 1;
    let e = *s.cfg.sysfaults.get(&(label, call, n))?;
    count("syscall_error");
    log(NetEv::Fault { label, call, n, errno: e });
    Some(e)
}

pub fn new_fd(obj: Obj) -> i32 {
    let _own = crate::alloc::own();
    let n = &mut st().net;
    // lowest free number, as POSIX prescribes
    let mut fd = FD_BASE;
    while n.fds.contains_key(&fd) {
        fd += 1;
    }
    n.fds.insert(fd, obj);
    fd
}
/// sockets and other descriptors open now
pub fn open_fds() -> usize {
    st().net.fds.len()
}
pub fn obj(fd: i32) -> Option<Obj> {
    if fd < FD_BASE || !active() {
        return None;
    }
    st().net.fds.get(&fd).copied()
}

pub fn sock_new(v6: bool, nonblock: bool) -> i32 {
    let _own = crate::alloc::own();
    let s = st();
    let tag = s.threads[s.cur].tag;
    let i = s.net.socks.len();
    s.net.socks.push(Sock {
        host: tag.host,
        label: tag.label,
        v6,
        nonblock,
        local: None,
        peer: None,
        rxq: VecDeque::new(),
        so_error: 0,
        refs: 1,
        shut: false,
    });
    log(NetEv::Open { sock: i, host: tag.host, label: tag.label });
    new_fd(Obj::Sock(i))
}

pub fn dup_fd(fd: i32) -> i32 {
    let _own = crate::alloc::own();
    let o = st().net.fds[&fd];
    let n = &mut st().net;
    match o {
        Obj::Sock(i) => n.socks[i].refs += 1,
        Obj::Event(i) => n.events[i].refs += 1,
        Obj::Epoll(i) => n.epolls[i].refs += 1,
    }
    new_fd(o)
}

pub fn close_fd(fd: i32) -> bool {
    let _own = crate::alloc::own();
    let Some(o) = st().net.fds.remove(&fd) else { return false };
    let n = &mut st().net;
    let gone = match o {
        Obj::Sock(i) => {
            n.socks[i].refs -= 1;
            if n.socks[i].refs == 0 {
                n.socks[i].rxq.clear();
                log(NetEv::Close { sock: i });
                true
            } else {
                false
            }
        }
        Obj::Event(i) => {
            n.events[i].refs -= 1;
            n.events[i].refs == 0
        }
        Obj::Epoll(i) => {
            n.epolls[i].refs -= 1;
            false
        }
    };
    if gone {
        for ep in st().net.epolls.iter_mut() {
            for it in ep.list.iter_mut() {
                if it.obj == o {
                    it.dead = true;
                }
            }
        }
    }
    true
}

fn port_taken(host: u32, v6: bool, ip: IpAddr, port: u16) -> bool {
    st().net.socks.iter().any(|k| {
        k.refs > 0
            && k.host == host
            && k.v6 == v6
            && k.local.is_some_and(|l| l.port() == port && (l.ip() == ip || l.ip().is_unspecified() || ip.is_unspecified()))
    })
}

pub fn sock_bind(i: usize, mut addr: SocketAddr) -> Result<(), i32> {
    let _own = crate::alloc::own();
    let (host, v6) = (st().net.socks[i].host, st().net.socks[i].v6);
    if addr.is_ipv6() != v6 {
        return Err(libc::EAFNOSUPPORT);
    }
    if !addr.ip().is_unspecified() && host_of(addr.ip(), host) != Some(host) {
        return Err(libc::EADDRNOTAVAIL);
    }
    if addr.port() == 0 {
        let range = st().cfg.ephemeral_range;
        let mut tries = 0;
        loop {
            let n = &mut st().net;
            let p = 32768 + n.eph_next % range;
            n.eph_next = n.eph_next.wrapping_add(1);
            if !port_taken(host, v6, addr.ip(), p) {
                addr.set_port(p);
                break;
            }
            tries += 1;
            if tries > range {
                return Err(libc::EADDRINUSE);
            }
        }
    } else if port_taken(host, v6, addr.ip(), addr.port()) {
        return Err(libc::EADDRINUSE);
    }
    st().net.socks[i].local = Some(addr);
    log(NetEv::Bind { sock: i, addr });
    Ok(())
}

pub fn sock_connect(i: usize, addr: SocketAddr) -> Result<(), i32> {
    let _own = crate::alloc::own();
    let k = &st().net.socks[i];
    if addr.is_ipv6() != k.v6 {
        return Err(libc::EAFNOSUPPORT);
    }
    if no_zone(addr) {
        return Err(libc::EINVAL);
    }
    let host = k.host;
    if k.local.is_none() {
        let any: SocketAddr = if k.v6 { "[::]:0".parse().unwrap() } else { "0.0.0.0:0".parse().unwrap() };
        sock_bind(i, any)?;
    }
    let k = &mut st().net.socks[i];
    let mut l = k.local.unwrap();
    if l.ip().is_unspecified() {
        set_source(&mut l, host, addr);
        k.local = Some(l);
    }
    k.peer = Some(addr);
    log(NetEv::Connect { sock: i, addr });
    Ok(())
}

/// The address a host sends from: loopback, link-local (with the zone) or the ordinary one.
fn set_source(src: &mut SocketAddr, host: u32, dst: SocketAddr) {
    if dst.ip().is_loopback() {
        return src.set_ip(dst.ip());
    }
    match (dst, src) {
        (SocketAddr::V6(d), SocketAddr::V6(s)) => {
            let (IpAddr::V4(v4), IpAddr::V6(v6)) = (host_v4(host), host_v6(host)) else { return };
            if link_local(d.ip()) {
                s.set_scope_id(d.scope_id());
            }
            s.set_ip(if d.ip().to_ipv4_mapped().is_some() {
                v4.to_ipv6_mapped()
            } else if link_local(d.ip()) {
                Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, host as u16)
            } else {
                v6
            });
        }
        (_, s) => s.set_ip(host_v4(host)),
    }
}
fn link_local(a: &Ipv6Addr) -> bool {
    a.segments()[0] & 0xffc0 == 0xfe80
}
/// A link-local address means nothing without its zone.
fn no_zone(a: SocketAddr) -> bool {
    matches!(a, SocketAddr::V6(v) if link_local(v.ip()) && v.scope_id() == 0)
}

fn class_of(dst: SocketAddr) -> u8 {
    u8::from(!st().net.server_ports.contains(&dst.port()))
}

/// Is the send buffer of sockets with this label full now?
fn snd_full(label: u32) -> bool {
    let s = st();
    let us = s.now / US;
    s.cfg.sndfull.iter().any(|w| w.0 == label && w.1 <= us && us < w.2)
}
/// The send buffer of sockets with this label has room again.
pub fn drained(label: u32) {
    count("send_buffer_full");
    log(NetEv::Drained { label });
    for i in 0..st().net.socks.len() {
        if st().net.socks[i].refs > 0 && st().net.socks[i].label == label {
            notify(Obj::Sock(i), 0);
        }
    }
}

/// Sends from a socket (after fault checks).
pub fn sock_send(i: usize, dst: SocketAddr, data: Vec<u8>) -> Result<usize, i32> {
    let _own = crate::alloc::own();
    let k = &mut st().net.socks[i];
    if k.so_error != 0 {
        let e = k.so_error;
        k.so_error = 0;
        return Err(e);
    }
    if data.len() > 65507 {
        return Err(libc::EMSGSIZE);
    }
    if dst.is_ipv6() != k.v6 {
        return Err(libc::EAFNOSUPPORT);
    }
    if dst.port() == 0 || no_zone(dst) {
        return Err(libc::EINVAL);
    }
    if k.local.is_none() {
        let any: SocketAddr = if k.v6 { "[::]:0".parse().unwrap() } else { "0.0.0.0:0".parse().unwrap() };
        sock_bind(i, any)?;
    }
    let k = &st().net.socks[i];
    if k.nonblock && snd_full(k.label) {
        count("send_would_block");
        return Err(libc::EAGAIN);
    }
    let mut src = k.local.unwrap();
    if src.ip().is_unspecified() {
        set_source(&mut src, k.host, dst);
    }
    let n = data.len();
    let s = st();
    s.net.dg_next += 1;
    let id = s.net.dg_next;
    let (host, label) = (k.host, k.label);
    let data = Rc::new(data);
    log(NetEv::Send { sock: i, host, label, id, src, dst, data: data.clone() });
    let d = Dgram { id, send_id: id, src, dst, src_host: host, src_sock: Some(i), data };
    transmit(d);
    Ok(n)
}

/// Puts a datagram on the wire, subject to its fate.
fn transmit(d: Dgram) {
    let _own = crate::alloc::own();
    let s = st();
    let class = class_of(d.dst);
    let n = s.net.fate_n[class as usize];
    s.net.fate_n[class as usize] += 1;
    let us = s.now / US;
    if s.cfg.partitions.iter().any(|p| p.2 == class && p.0 <= us && us < p.1) {
        count("partition_drop");
        log(NetEv::Lost { id: d.id, why: "partition" });
        return;
    }
    let f = s.cfg.fates.get(&(class, n)).cloned().unwrap_or_default();
    apply_fate(d, &f, s.cfg.latency_us);
}

fn apply_fate(mut d: Dgram, f: &Fate, latency_us: u64) {
    let base = latency_us * US;
    for extra in &f.dups {
        count("dgram_dup");
        let s = st();
        s.net.dg_next += 1;
        let c = Dgram { id: s.net.dg_next, ..d.clone() };
        at(base + extra * US, TimedWhat::Deliver(c));
    }
    if f.drop {
        count("dgram_loss");
        log(NetEv::Lost { id: d.id, why: "loss" });
        return;
    }
    if let Some((off, x)) = f.corrupt {
        if !d.data.is_empty() {
            count("dgram_corrupt");
            let mut v = (*d.data).clone();
            let o = off as usize % v.len();
            v[o] ^= x;
            d.data = Rc::new(v);
        }
    }
    if let Some(n) = f.trunc {
        count("dgram_trunc");
        let mut v = (*d.data).clone();
        v.truncate(n as usize);
        d.data = Rc::new(v);
    }
    if let Some(p) = &f.pad {
        count("dgram_pad");
        let mut v = (*d.data).clone();
        v.extend(p);
        d.data = Rc::new(v);
    }
    if f.delay_us > 0 {
        count("dgram_delay");
    }
    at(base + f.delay_us * US, TimedWhat::Deliver(d));
}

/// Puts a datagram on the wire as if from anywhere; arrives after `delay_ns`.
pub fn inject(src: SocketAddr, dst: SocketAddr, src_host: u32, data: Vec<u8>, delay_ns: u64) -> u64 {
    let _own = crate::alloc::own();
    let s = st();
    s.net.dg_next += 1;
    let id = s.net.dg_next;
    let d = Dgram { id, send_id: id, src, dst, src_host, src_sock: None, data: Rc::new(data) };
    at(delay_ns, TimedWhat::Deliver(d));
    id
}

/// Reports "port unreachable" to a socket.
pub fn inject_icmp(sock: usize, errno: i32, delay_ns: u64) {
    at(delay_ns, TimedWhat::Icmp { sock, errno });
}

pub fn add_endpoint(addr: SocketAddr, f: impl FnMut(&Dgram) + 'static) {
    st().net.endpoints.insert(addr, Box::new(f));
}

pub fn find_sock(dst: SocketAddr, src: SocketAddr, src_host: u32) -> Option<usize> {
    let h = host_of(dst.ip(), src_host)?;
    let mut best: Option<(u32, usize)> = None;
    for (i, k) in st().net.socks.iter().enumerate() {
        if k.refs == 0 || k.host != h || k.v6 != dst.is_ipv6() {
            continue;
        }
        let Some(l) = k.local else { continue };
        if l.port() != dst.port() || !(l.ip().is_unspecified() || l.ip() == dst.ip()) {
            continue;
        }
        let mut score = 1;
        if !l.ip().is_unspecified() {
            score += 1;
        }
        if let Some(p) = k.peer {
            if p != src {
                continue;
            }
            score += 2;
        }
        if best.is_none_or(|b| score > b.0) {
            best = Some((score, i));
        }
    }
    best.map(|b| b.1)
}

pub fn deliver(d: Dgram) {
    let _own = crate::alloc::own();
    if let Some(i) = find_sock(d.dst, d.src, d.src_host) {
        let cap = st().cfg.rxq_cap;
        if st().net.socks[i].rxq.len() >= cap {
            count("rxq_overflow");
            log(NetEv::Lost { id: d.id, why: "queue-full" });
            return;
        }
        log(NetEv::Arrive { sock: i, id: d.id, src: d.src, data: d.data.clone() });
        st().net.socks[i].rxq.push_back(d);
        notify(Obj::Sock(i), 0);
        return;
    }
    if let Some(mut f) = st().net.endpoints.remove(&d.dst) {
        let a = d.dst;
        f(&d);
        st().net.endpoints.entry(a).or_insert(f);
        return;
    }
    log(NetEv::Lost { id: d.id, why: "no-socket" });
    if st().cfg.icmp {
        if let Some(i) = d.src_sock {
            if st().net.socks[i].peer == Some(d.dst) {
                let l = st().cfg.latency_us;
                at(l * US, TimedWhat::Icmp { sock: i, errno: libc::ECONNREFUSED });
            }
        }
    }
}

pub fn icmp(sock: usize, errno: i32) {
    let k = &mut st().net.socks[sock];
    if k.refs == 0 {
        return;
    }
    count("icmp_error");
    k.so_error = errno;
    notify(Obj::Sock(sock), 0);
}

/// Spurious readiness.
pub fn notify_sock(sock: usize, bits: u32) {
    if sock < st().net.socks.len() && st().net.socks[sock].refs > 0 {
        count("spurious_ready");
        notify(Obj::Sock(sock), bits);
    }
}

/// Takes the next datagram (or pending error) off a socket.
pub fn sock_recv(i: usize, cap: usize, peek: bool) -> Result<(Dgram, usize), i32> {
    let _own = crate::alloc::own();
    let k = &mut st().net.socks[i];
    if k.so_error != 0 {
        let e = k.so_error;
        k.so_error = 0;
        log(NetEv::RecvErr { sock: i, errno: e });
        return Err(e);
    }
    if peek {
        return match k.rxq.front() {
            Some(d) => Ok((d.clone(), d.data.len().min(cap))),
            None => Err(libc::EAGAIN),
        };
    }
    match k.rxq.pop_front() {
        Some(d) => {
            let n = d.data.len().min(cap);
            log(NetEv::Recv { sock: i, id: d.id, send_id: d.send_id, src: d.src, data: d.data.clone(), given: n });
            Ok((d, n))
        }
        None => Err(libc::EAGAIN),
    }
}

// ---- epoll ----

fn current(o: Obj) -> u32 {
    let n = &st().net;
    match o {
        Obj::Sock(i) => {
            let k = &n.socks[i];
            let mut e = if snd_full(k.label) { 0 } else { libc::EPOLLOUT as u32 };
            if !k.rxq.is_empty() {
                e |= libc::EPOLLIN as u32;
            }
            if k.so_error != 0 {
                e |= (libc::EPOLLERR | libc::EPOLLIN) as u32;
            }
            e
        }
        Obj::Event(i) => {
            let mut e = libc::EPOLLOUT as u32;
            if n.events[i].n > 0 {
                e |= libc::EPOLLIN as u32;
            }
            e
        }
        Obj::Epoll(_) => 0,
    }
}

pub fn notify(o: Obj, forced: u32) {
    let _own = crate::alloc::own();
    for ep in 0..st().net.epolls.len() {
        let e = &mut st().net.epolls[ep];
        let mut hit = false;
        for (x, it) in e.list.iter_mut().enumerate() {
            if it.obj == o && !it.dead {
                it.forced |= forced;
                if !it.queued {
                    it.queued = true;
                    e.ready.push_back(x);
                }
                hit = true;
            }
        }
        if hit {
            wake_epoll(ep);
        }
    }
}

fn wake_epoll(ep: usize) {
    let s = st();
    for i in 0..s.threads.len() {
        if let TState::Epoll { ep: e, .. } = s.threads[i].state {
            if e == ep {
                s.make_runnable(i);
                return;
            }
        }
    }
}

pub fn epoll_ctl(ep: usize, op: i32, fd: i32, events: u32, data: u64) -> i32 {
    let _own = crate::alloc::own();
    let Some(o) = obj(fd) else {
        return 0; // a real descriptor: never becomes ready
    };
    let e = &mut st().net.epolls[ep];
    let pos = e.list.iter().position(|x| x.fd == fd && !x.dead);
    match op {
        libc::EPOLL_CTL_ADD => {
            if pos.is_some() {
                return libc::EEXIST;
            }
            e.list.push(Interest { obj: o, fd, events, data, queued: false, forced: 0, dead: false });
            if current(o) & events != 0 {
                notify(o, 0);
            }
            0
        }
        libc::EPOLL_CTL_MOD => {
            let Some(p) = pos else { return libc::ENOENT };
            e.list[p].events = events;
            e.list[p].data = data;
            if current(o) & events != 0 {
                notify(o, 0);
            }
            0
        }
        libc::EPOLL_CTL_DEL => {
            let Some(p) = pos else { return libc::ENOENT };
            e.list[p].dead = true;
            0
        }
        _ => libc::EINVAL,
    }
}

/// Collects ready events without waiting.
pub fn epoll_poll(ep: usize, max: usize) -> Vec<(u32, u64)> {
    let mut out = vec![];
    let mut again = vec![];
    while out.len() < max {
        let Some(x) = st().net.epolls[ep].ready.pop_front() else { break };
        let it = &mut st().net.epolls[ep].list[x];
        it.queued = false;
        let forced = std::mem::take(&mut it.forced);
        if it.dead {
            continue;
        }
        let (o, ev, data) = (it.obj, it.events, it.data);
        let mask = ev | (libc::EPOLLERR | libc::EPOLLHUP) as u32;
        let e = (current(o) | forced) & mask;
        if e != 0 {
            out.push((e, data));
            if ev & libc::EPOLLET as u32 == 0 {
                again.push(x);
            }
        }
    }
    for x in again {
        let e = &mut st().net.epolls[ep];
        e.list[x].queued = true;
        e.ready.push_back(x);
    }
    out
}
