//! Seeded generation of plans.  Everything is drawn from one PRNG.
use crate::attrs::{Kind, Val};
use crate::plan::*;
use crate::reference as rf;
use crate::world::table;
use simcore::Rng;
use std::net::SocketAddr;

struct G {
    r: Rng,
    focus: &'static str,
    uniq: u64,
}

pub const FOCI: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C23", "C24", "C25", "C27", "C28",
];

fn intern(f: &str) -> &'static str {
    FOCI.iter().find(|x| **x == f).copied().unwrap_or("C02")
}

pub fn gen(seed: u64, focus: &str) -> Plan {
    let focus = intern(focus);
    let stream = focus.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut g = G { r: Rng::derive(seed, stream), focus, uniq: 0 };
    let mut p = match focus {
        "C08" | "C18" | "C19" | "C23" => g.full(),
        "C25" => match g.r.below(8) {
            0 | 1 => g.server(),
            _ => g.full(),
        },
        "C09" | "C10" | "C11" | "C12" | "C24" => {
            if g.r.chance(1, 8) {
                g.full()
            } else {
                g.client()
            }
        }
        "C27" => {
            if g.r.chance(1, 3) {
                g.client()
            } else {
                g.server()
            }
        }
        "C16" => g.entropy(),
        "C28" => g.rounds(),
        "C17" => match g.r.below(4) {
            0 => g.server(),
            1 => g.client(),
            _ => g.full(),
        },
        "C20" => match g.r.below(8) {
            0 | 1 => g.server(),
            2 => g.client(),
            _ => g.full(),
        },
        _ => {
            if matches!(seed % 1_000_000, 3 | 7) {
                g.marathon()
            } else if g.r.chance(1, if focus == "C01" { 6 } else { 12 }) {
                g.full()
            } else {
                g.server()
            }
        }
    };
    p.seed = seed;
    p.focus = focus.to_string();
    if matches!(focus, "C20" | "C25") {
        // comparable across two executables: nothing may depend on how many steps the code takes
        p.threads = 0;
        p.sched = SchedP::Replay(vec![]);
        p.step_ns = 0;
    }
    p
}

const RESP: [u8; 8] = [2, 3, 5, 11, 41, 42, 44, 45];

impl G {
    fn is(&self, f: &[&str]) -> bool {
        f.contains(&self.focus)
    }
    fn p(&mut self, num: u64, den: u64) -> bool {
        self.r.chance(num, den)
    }
    /// log-uniform between lo and hi
    fn logu(&mut self, lo: u64, hi: u64) -> u64 {
        let (a, b) = ((lo.max(1) as f64).ln(), (hi.max(2) as f64).ln());
        let x = self.r.below(1 << 20) as f64 / (1 << 20) as f64;
        ((a + (b - a) * x).exp() as u64).clamp(lo, hi)
    }
    fn one<T: Clone>(&mut self, v: &[T]) -> T {
        self.r.pick(v).clone()
    }
    fn weighted<T: Clone>(&mut self, v: &[(u64, T)]) -> T {
        let s: u64 = v.iter().map(|x| x.0).sum();
        let mut k = self.r.below(s);
        for (w, t) in v {
            if k < *w {
                return t.clone();
            }
            k -= w;
        }
        unreachable!()
    }

    fn base(&mut self) -> Plan {
        let threads = self.weighted(&[(22, 0usize), (10, 1), (34, 2), (20, 3), (14, 4)]);
        let seed = self.r.next();
        let style = self.r.below(5);
        let (p_atomic, p_syscall, p_pick) = match style {
            0 => (0, 0, 0),
            1 => (0, 400, 8000),
            2 => (600, 3000, 16000),
            3 => (3000, 8000, 30000),
            _ => (14000, 20000, 40000),
        };
        let stall = style > 1 && self.p(1, 3);
        let sched = SchedP::Random {
            seed,
            p_atomic,
            p_syscall,
            p_pick,
            p_stall: if stall { self.one(&[200, 2000, 10000]) } else { 0 },
            max_stall_us: self.one(&[5, 80, 1500, 20000]),
        };
        let jumps = if self.p(1, 4) {
            let n = self.r.range(1, 4);
            (0..n)
                .map(|_| {
                    let ms = if self.p(1, 3) { self.logu(1, 400_000_000_000) } else { self.r.range(0, 20_000_000) } as i64;
                    (self.logu(1, 50_000_000), if self.p(1, 2) { ms } else { -ms })
                })
                .collect()
        } else {
            vec![]
        };
        Plan {
            seed: 0,
            focus: String::new(),
            threads,
            sched,
            entropy: self.r.next(),
            step_ns: self.one(&[0, 0, 0, 40, 300]),
            latency_us: self.one(&[0, 10, 300, 300, 5000, 80_000]),
            rxq_cap: self.one(&[4096, 4096, 4096, 64, 6]),
            icmp: self.p(1, 2),
            eph_range: 20000,
            realtime_base_s: self.one(&[1_700_000_000, 0, 4_102_444_800, 951_782_400]),
            clock_jumps: jumps,
            fates: vec![],
            partitions: vec![],
            sysfaults: vec![],
            spurious: vec![],
            sndfull: vec![],
            server: None,
            server2: None,
            ops: vec![],
            clients: vec![],
            calls: vec![],
            fakes: vec![],
            make: None,
            mem: vec![],
            tail_us: 20_000,
        }
    }

    fn secret(&mut self) -> Hx {
        let n = match self.r.below(12) {
            0 => self.r.range(1, 7) as usize,
            1 => self.r.range(17, 70) as usize,
            2 => 64,
            3 => 16,
            4 => self.one(&[63usize, 65, 127, 128, 129, 255, 256, 257, 300]),
            _ => self.r.range(8, 20) as usize,
        };
        let printable = self.p(1, 2);
        let mut v: Vec<u8> = (0..n)
            .map(|_| {
                let b = self.r.next() as u8;
                if printable {
                    b'!' + b % 90
                } else {
                    b
                }
            })
            .collect();
        if self.p(1, 6) {
            // octets that text handling likes to lose
            let odd = self.one(&[b' ', b'\n', b'\r', b'\t', 0, b'"', 0xff]);
            match self.r.below(3) {
                0 => v[0] = odd,
                1 => v[n - 1] = odd,
                _ => v[n / 2] = odd,
            }
        }
        Hx(v)
    }
    /// Another secret, as close as can be.
    /// A caller who has no secret at all.
    fn keyless(&mut self) -> bool {
        self.p(1, if self.is(&["C19", "C18", "C09"]) { 20 } else { 120 })
    }
    fn near(&mut self, s: &[u8]) -> Vec<u8> {
        let mut v = s.to_vec();
        match self.r.below(12) {
            0 => v.push(self.one(&[b' ', b'\n', 0, b'\r', b'\t'])),
            1 => v.insert(0, self.one(&[b' ', b'\n', 0])),
            2 => {
                v.pop();
            }
            3 if !v.is_empty() => {
                v.remove(0);
            }
            4 => v.truncate(self.one(&[16usize, 64, 128, 15, 8])),
            5 => v = v.iter().map(|b| b.to_ascii_lowercase()).collect(),
            6 => v = v.iter().map(|b| b.to_ascii_uppercase()).collect(),
            7 => v.reverse(),
            8 => v = v.iter().copied().filter(|b| !b.is_ascii_whitespace() && *b != 0).collect(),
            9 => v.extend(s),
            10 if v.len() > 1 => {
                let i = self.r.below(v.len() as u64 - 1) as usize;
                v.swap(i, i + 1);
            }
            _ => {}
        }
        if v == s || v.is_empty() {
            v = s.to_vec();
            let o = self.r.below(v.len().max(1) as u64) as usize;
            match v.get_mut(o) {
                Some(x) => *x ^= 1 << self.r.below(8),
                None => v.push(1),
            }
        }
        v
    }
    /// An earlier request, altered but with its authenticator kept.
    fn tampered(&mut self, orig: &[u8]) -> Vec<u8> {
        let mut b = orig.to_vec();
        for _ in 0..self.one(&[1, 1, 1, 2]) {
            let n = b.len();
            match self.r.below(9) {
                0 => b[1] ^= 1 << self.r.below(8),
                1 => b[1] = self.r.next() as u8,
                2 => b[0] = self.one(&[1u8, 4, 12, 40, 43, 2, 5]),
                3 | 4 if n > 22 => {
                    let o = 20 + self.r.below(n as u64 - 20) as usize;
                    b[o] ^= 1 << self.r.below(8);
                }
                5 if n > 22 => {
                    // the last octet
                    b[n - 1] = b[n - 1].wrapping_add(1);
                }
                6 => {
                    // one more attribute
                    let k = self.r.below(12) as usize;
                    let v = self.r.bytes(k);
                    b.extend([self.one(&[1u8, 6, 8, 25, 33]), k as u8 + 2]);
                    b.extend(v);
                    let l = b.len() as u16;
                    b[2..4].copy_from_slice(&l.to_be_bytes());
                }
                7 => {
                    if let Some(p) = rf::parse(&b) {
                        let mut a = p.attrs.clone();
                        match self.r.below(3) {
                            0 => {
                                a.pop();
                            }
                            1 => a.reverse(),
                            _ => {
                                if let Some(x) = a.last_mut() {
                                    let n = x.1.len();
                                    x.1 = self.r.bytes(n);
                                }
                            }
                        }
                        b = rf::assemble(p.code, p.id, &p.auth, &a);
                    }
                }
                _ => {
                    // to another code that is checked as well
                    b[0] = match b[0] {
                        4 => 40,
                        40 => 43,
                        _ => 4,
                    };
                }
            }
        }
        b
    }

    fn unique(&mut self) -> Vec<u8> {
        self.uniq += 1;
        let mut v = self.uniq.to_be_bytes()[4..].to_vec();
        v.extend(self.r.bytes(4));
        v
    }

    /// Octets for an attribute of some dictionary type: what it says, nearly that, or anything.
    fn foreign(&mut self) -> (u8, Hx) {
        let t = table();
        let i = self.r.below(t.len() as u64) as usize;
        let (typ, kind) = (t[i].typ, t[i].kind);
        let right = |g: &mut G| -> usize {
            match kind {
                Kind::Int | Kind::V4 | Kind::Date => 4,
                Kind::Short => 2,
                Kind::V6 => 16,
                Kind::V4Prefix => 6,
                Kind::TInt => 5,
                Kind::Fixed(n) => n,
                Kind::V6Prefix => g.r.range(2, 18) as usize,
                Kind::UserPw => 16 * g.r.range(1, 8) as usize,
                Kind::TunnelPw => 3 + 16 * g.r.range(1, 15) as usize,
                _ => g.r.range(0, 40) as usize,
            }
        };
        let n = right(self);
        let n = match self.r.below(10) {
            0 => n.saturating_sub(1),
            1 => n + 1,
            2 => self.one(&[0usize, 1, 2, 3]),
            3 => self.one(&[15usize, 16, 17, 18, 19, 20, 31, 32, 33, 112, 127, 128, 129, 144, 242, 243, 244, 251, 252, 253]),
            _ => n,
        };
        let mut b = self.r.bytes(n.min(253));
        if matches!(kind, Kind::Str | Kind::TStr) && self.p(3, 4) {
            b = self.text(n.clamp(1, 250)).into_bytes();
            if self.p(1, 6) {
                b.truncate(n);
            }
            if kind == Kind::TStr && self.p(3, 4) {
                b.insert(0, self.one(&[0u8, 1, 2, 0x1e, 0x1f, 0x20, 0x21, 0x7f]));
            }
            if self.p(1, 8) && !b.is_empty() {
                let o = self.r.below(b.len() as u64) as usize;
                b[o] = self.one(&[0u8, 0x80, 0xff, 0xc3]);
            }
        }
        if kind == Kind::TInt && !b.is_empty() {
            b[0] = self.one(&[0u8, 1, 0x1f, 0x20, 0x80, b[0]]);
        }
        if kind == Kind::TunnelPw && b.len() > 1 && self.p(3, 4) {
            b[1] |= 0x80;
        }
        (typ, Hx(b))
    }
    fn raw_attrs(&mut self, max: u64) -> Vec<(u8, Hx)> {
        if self.p(if self.is(&["C27"]) { 4 } else { 1 }, if self.is(&["C06", "C07", "C08"]) { 4 } else { 5 }) {
            let n = self.r.range(1, if self.is(&["C27"]) { 9 } else { 3 });
            let mut v: Vec<(u8, Hx)> = (0..n).map(|_| self.foreign()).collect();
            if self.p(1, 4) {
                let d = self.one(&v);
                let (_, b) = self.foreign();
                v.push((d.0, if self.p(1, 2) { d.1 } else { b }));
            }
            return v;
        }
        let n = if self.p(1, 6) { 0 } else { self.r.range(1, max.max(1)) };
        let mut v = vec![];
        for i in 0..n {
            let t = if self.p(1, 3) { self.one(&[1u8, 4, 5, 18, 24, 25, 26, 31, 33, 79, 80]) } else { self.r.next() as u8 };
            let len = match self.r.below(12) {
                0 => 0,
                1 => 253,
                2 => self.r.range(100, 253) as usize,
                _ => self.r.range(1, 24) as usize,
            };
            let mut b = self.r.bytes(len);
            if i == 0 && len >= 8 {
                let u = self.unique();
                b[..8].copy_from_slice(&u);
            }
            v.push((t, Hx(b)));
        }
        if self.p(1, 8) && !v.is_empty() {
            // repeats of one type, in order
            let t = v[0].0;
            for _ in 0..self.r.range(1, 4) {
                let n = self.r.range(0, 9) as usize;
                let at = self.r.below(v.len() as u64 + 1) as usize;
                let b = self.r.bytes(n);
                v.insert(at, (t, Hx(b)));
            }
        }
        v
    }
    fn plain(v: &[(u8, Hx)]) -> rf::Attrs {
        v.iter().map(|x| (x.0, x.1 .0.clone())).collect()
    }

    fn behave(&mut self) -> Behave {
        let dur = |g: &mut G| match g.r.below(8) {
            0..=2 => 0,
            3 => g.r.range(1, 900),
            4 | 5 => g.logu(1_000, 100_000),
            6 => g.logu(10_000, 5_000_000),
            _ => g.logu(1_000_000, 400_000_000),
        };
        let pre_us = dur(self);
        let post_us = if self.p(1, 2) { 0 } else { dur(self) };
        let end = if self.is(&["C04", "C05"]) {
            self.weighted(&[(40, End::Ok), (22, End::Err), (26, End::Panic), (12, End::Never)])
        } else {
            self.weighted(&[(74, End::Ok), (10, End::Err), (10, End::Panic), (6, End::Never)])
        };
        Behave {
            pre_us,
            yields: self.one(&[0, 0, 1, 3]),
            respond: if self.p(3, 4) { Some(self.resp()) } else { None },
            post_us,
            end,
        }
    }
    fn resp(&mut self) -> RespP {
        let code = if self.p(1, 25) { self.r.next() as u8 } else { self.one(&RESP) };
        let mut attrs = self.raw_attrs(4);
        if self.p(1, if self.is(&["C24", "C08", "C18"]) { 12 } else { 40 }) {
            attrs = self.large();
        }
        RespP { code, attrs, typed: vec![], dels: vec![] }
    }

    // ------------------------------------------------------------ the server alone, scripted peers

    fn peers(&mut self, v6: bool, lo: bool, dual: bool) -> Vec<SocketAddr> {
        let n = match self.r.below(8) {
            0 => 1,
            1..=3 => 2,
            4 | 5 => 3,
            _ => self.r.range(4, 9) as usize,
        };
        let ip = |g: &mut G, k: u64| -> String {
            if lo {
                if v6 { "[::1]".into() } else { format!("127.0.0.{}", 1 + k % 4) }
            } else if v6 && dual && g.p(1, 3) {
                // what a dual-stack socket shows of IPv4 peers
                format!("[::ffff:10.0.1.{}]", 1 + k)
            } else if v6 && dual && g.p(1, 3) {
                format!("[fe80::{:x}%{}]", 0x20 + k % 3, 1 + g.r.below(3))
            } else if v6 {
                format!("[fd00::{:x}]", g.one(&[0x20 + k, 0x2000 + k, 0x200 + (k << 4)]))
            } else {
                let k = k as u8;
                match g.r.below(4) {
                    0 => format!("10.0.1.{}", 1 + k),
                    1 => format!("10.0.{}.1", 1 + k),
                    2 => format!("10.0.2.{}", 1 + 11 * k),
                    _ => format!("192.168.{}.{}", k % 3, 10 + k),
                }
            }
        };
        let mut v: Vec<SocketAddr> = vec![];
        let mut tries = 0;
        while v.len() < n && tries < 60 {
            tries += 1;
            let port = self.one(&[1812u16, 1813, 1, 11, 111, 1645, 5000, 40000, 65535, 256 + 1812, 21, 2]);
            let s = if v.is_empty() || self.p(1, 3) {
                let k = self.r.below(8);
                format!("{}:{}", ip(self, k), port)
            } else {
                // differ from an existing one in the port only, or in the address only
                let o = self.one(&v);
                if self.p(1, 2) || lo {
                    let p2 = self.one(&[port, o.port() ^ 1, o.port() ^ 0x100, o.port().wrapping_add(1).max(1)]);
                    let mut o = o;
                    o.set_port(p2);
                    o.to_string()
                } else {
                    let k = self.r.below(8);
                    format!("{}:{}", ip(self, k), o.port())
                }
            };
            let a: SocketAddr = s.parse().unwrap();
            if a.port() != 0 && !v.contains(&a) {
                v.push(a);
            }
        }
        if self.p(1, 6) {
            // addresses that look alike once written down carelessly
            let o = self.one(&v);
            let c: Option<SocketAddr> = match self.r.below(4) {
                0 | 1 if v6 => match o {
                    // the same address in another zone
                    SocketAddr::V6(mut a) if a.scope_id() != 0 => {
                        a.set_scope_id(a.scope_id() % 3 + 1);
                        Some(SocketAddr::V6(a))
                    }
                    _ => None,
                },
                0 if !lo && !v6 => {
                    // the port's first digit moves to the address
                    let t = o.port().to_string();
                    if t.len() > 1 {
                        format!("{}{}:{}", o.ip(), &t[..1], &t[1..]).parse().ok()
                    } else {
                        None
                    }
                }
                1 if !lo && !v6 => {
                    let t = o.ip().to_string();
                    let (a, b) = t.split_at(t.len() - 1);
                    format!("{a}:{b}{}", o.port()).parse().ok()
                }
                2 => {
                    // the port's last digit may move to the identifier
                    let t = o.port().to_string();
                    let d = self.r.below(10);
                    format!("{}{d}", t).parse().ok().map(|x| SocketAddr::new(o.ip(), x))
                }
                _ => {
                    let t = o.port().to_string();
                    t[..t.len() - 1].parse().ok().map(|x| SocketAddr::new(o.ip(), x))
                }
            };
            if let Some(c) = c {
                if c.port() != 0 && !v.contains(&c) {
                    v.push(c);
                }
            }
        }
        v
    }

    fn server_cfg(&mut self, peers: &[SocketAddr], host: String, span_us: u64) -> ServerP {
        let mut ps: Vec<PeerP> = vec![];
        let varied = self.is(&["C13"]) || self.p(1, 4);
        let shared = if self.p(1, 3) { Some(self.secret()) } else { None };
        for a in peers {
            let addr = if self.p(1, 5) { a.ip().to_string() } else { a.to_string() };
            if ps.iter().any(|p| p.addr == addr) {
                continue;
            }
            let key = |g: &mut G| match &shared {
                Some(s) if !varied => SecretP::Key(s.clone()),
                _ => SecretP::Key(g.secret()),
            };
            let mut secrets = vec![(0, key(self))];
            if varied && self.p(1, 2) {
                for _ in 0..self.r.range(1, 4) {
                    let t = self.r.below(span_us.max(2)) | 1;
                    let s = match self.r.below(7) {
                        0 => SecretP::Empty,
                        1 => SecretP::Fail,
                        2 => SecretP::Panic,
                        _ => key(self),
                    };
                    secrets.push((t, s));
                }
                secrets.sort_by_key(|x| x.0);
                secrets.dedup_by_key(|x| x.0);
            } else if self.p(1, if self.is(&["C13"]) { 5 } else { 30 }) {
                secrets[0].1 = self.one(&[SecretP::Empty, SecretP::Fail, SecretP::Panic]);
            }
            let mut spin = vec![];
            if self.p(1, if self.is(&["C13"]) { 4 } else { 40 }) {
                for _ in 0..self.r.range(2, 4) {
                    let s = match self.r.below(9) {
                        0 => SecretP::Empty,
                        1 => SecretP::Fail,
                        2 => SecretP::Panic,
                        _ => SecretP::Key(self.secret()),
                    };
                    spin.push(s);
                }
                secrets = vec![(0, spin[0].clone())];
            }
            ps.push(PeerP { addr, secrets, spin });
        }
        let buf = if self.is(&["C21"]) {
            if self.p(1, 5) { None } else { Some(self.one(&[0usize, 19, 20, 21, 64, 300, 1499, 1500, 1501, 4095, 4096, 4097, 8000, 65507])) }
        } else if self.p(1, if self.is(&["C06", "C01"]) { 2 } else { 5 }) {
            Some(self.one(&[64usize, 512, 4096, 4096, 4098, 8192, 65535]))
        } else {
            None
        };
        let runs = self.runs(span_us);
        ServerP {
            host,
            port: self.one(&[1812u16, 1813, 3799, 21812]),
            buf,
            skip: if self.is(&["C01"]) { self.p(1, 4) } else { self.p(1, 12) },
            peers: ps,
            dropped: runs.last().is_some_and(|r| r.stop_us.is_some()) && self.p(1, 2),
            runs,
        }
    }
    /// The host written another way.
    fn named(&mut self, host: String) -> String {
        if self.p(1, 250) || self.is(&["C15"]) && self.p(1, 60) {
            return "nowhere.test".into();
        }
        if !self.p(1, if self.is(&["C15", "C07"]) { 3 } else { 12 }) {
            return host;
        }
        let other = match host.as_str() {
            "10.0.0.1" => self.one(&["radius.test", "10.0.0.1"]),
            "[fd00::1]" => self.one(&["fd00::1", "radius6.test", "both.test"]),
            "[::]" => "::",
            "127.0.0.1" => "localhost",
            "[::1]" => self.one(&["::1", "ip6-localhost"]),
            x => return x.into(),
        };
        other.into()
    }

    fn runs(&mut self, span_us: u64) -> Vec<RunP> {
        let many = if self.is(&["C14"]) { true } else if self.is(&["C15"]) { self.p(2, 3) } else { self.p(1, if self.is(&["C01", "C21"]) { 3 } else { 5 }) };
        if !many {
            let gap = if self.p(1, 6) { self.logu(1, 50_000) } else { 0 };
            return vec![RunP::new(gap, None)];
        }
        let n = self.r.range(1, 5);
        let mut v = vec![];
        for k in 0..n {
            let stop = match self.r.below(8) {
                0 => Some(0),
                1 => Some(self.r.range(1, 3000)),
                _ => Some(self.r.below(span_us.max(2000) / n + 1)),
            };
            let mut x = RunP::new(
                if self.p(1, 3) { 0 } else { self.logu(1, (span_us / n).max(10)) },
                if k + 1 == n && self.p(3, 4) { None } else { stop },
            );
            x.cancel = self.p(1, 6);
            if k > 0 && self.p(if self.is(&["C21", "C01"]) { 2 } else { 1 }, 5) {
                x.buf = Some(self.one(&[64usize, 300, 1500, 1501, 4096, 9000]));
            }
            if k > 0 && self.p(if self.is(&["C01"]) { 2 } else { 1 }, 6) {
                x.skip = Some(self.p(1, 2));
            }
            v.push(x);
        }
        if v.iter().any(|r| r.stop_us.is_none()) && v.len() > 1 && self.is(&["C14"]) && self.p(1, 2) {
            let t = self.r.below(span_us.max(2000));
            v.last_mut().unwrap().stop_us = Some(t);
        }
        v
    }

    /// Well-formed attributes of exactly `n` octets (0 or at least 2).
    fn fill(&mut self, n: usize, tiny: bool) -> rf::Attrs {
        let mut v: rf::Attrs = vec![];
        let mut left = n;
        // hundreds of one type
        let same = if self.p(1, 3) { Some(self.r.next() as u8) } else { None };
        while left > 0 {
            let most = if tiny { self.r.range(2, 4) as usize } else if self.p(1, 6) { self.r.range(2, 255) as usize } else { 255 };
            let mut k = most.min(left);
            if left - k == 1 {
                // never leave exactly one octet over
                if k > 2 {
                    k -= 1;
                } else if left <= 255 {
                    k = left;
                } else {
                    k += 1;
                }
            }
            let b = self.r.bytes(k.max(2) - 2);
            let any = self.r.next() as u8;
            v.push((same.filter(|_| any > 5).unwrap_or(any), b));
            left -= k.min(left);
        }
        v
    }
    /// Attributes that bring a packet close to the largest size there is.
    fn large(&mut self) -> Vec<(u8, Hx)> {
        let n = if self.p(1, 2) { self.one(&[4076usize, 4075, 4074, 4077, 4078, 4079]) } else { self.logu(300, 4300) as usize };
        let tiny = self.p(1, 4);
        self.fill(n, tiny).into_iter().map(|(t, v)| (t, Hx(v))).collect()
    }
    fn req_code(&mut self) -> u8 {
        self.weighted(&[(40, 1u8), (24, 4), (12, 12), (12, 40), (12, 43)])
    }
    /// A correctly keyed request of exactly `n` octets, whether or not the protocol allows it.
    fn sized(&mut self, id: u8, secret: &[u8], n: usize) -> Vec<u8> {
        let code = self.req_code();
        let n = n.max(32);
        let mut attrs: rf::Attrs = vec![(33, self.unique())];
        let tiny = self.p(1, 4);
        if n > 30 {
            let more = self.fill(n - 30, tiny);
            attrs.extend(more);
        }
        let auth = self.r.bytes(16);
        rf::build_request(code, id, &auth, &attrs, secret)
    }
    /// A valid request of some size.
    fn request(&mut self, id: u8, secret: &[u8], want_len: Option<usize>) -> Vec<u8> {
        if let Some(n) = want_len {
            return self.sized(id, secret, n.clamp(32, 4096));
        }
        let code = self.req_code();
        let mut attrs = self.raw_attrs(5);
        if !self.p(1, 10) && !attrs.iter().any(|a| a.1 .0.len() >= 8) {
            let u = self.unique();
            attrs.push((33, Hx(u)));
        }
        let mut attrs = Self::plain(&attrs);
        while rf::assemble(1, 0, &[0; 16], &attrs).len() > 4096 {
            attrs.pop();
        }
        let auth = self.r.bytes(16);
        rf::build_request(code, id, &auth, &attrs, secret)
    }

    /// Anything at all, often close to valid.
    fn hostile(&mut self, id: u8, secret: &[u8], other: &[u8]) -> Vec<u8> {
        let n = if self.p(1, 6) { Some(self.r.range(30, 4096) as usize) } else { None };
        let mut b = self.request(id, secret, n);
        match self.r.below(20) {
            0 => vec![],
            1 => {
                let n = self.r.below(40) as usize;
                self.r.bytes(n)
            }
            2 => {
                let n = self.logu(1, 65507) as usize;
                let mut v = self.r.bytes(n.min(8192));
                v.resize(n, 0xaa);
                if n > 4 && self.p(1, 2) {
                    v[0] = 1;
                    v[2..4].copy_from_slice(&(n.min(65535) as u16).to_be_bytes());
                }
                v
            }
            3 => {
                let n = self.r.below(b.len() as u64 + 1) as usize;
                b.truncate(n);
                b
            }
            4 => {
                // declared length
                let l = b.len() as u16;
                let x = self.one(&[0u16, 1, 4, 19, 20, 21, l - 1, l + 1, 4096, 4097, 65535, l ^ 0x100, l.swap_bytes()]);
                b[2..4].copy_from_slice(&x.to_be_bytes());
                b
            }
            5 | 6 => {
                // one attribute's length octet
                if b.len() > 22 {
                    let mut offs = vec![];
                    let mut o = 20;
                    while o + 1 < b.len() {
                        offs.push(o + 1);
                        o += (b[o + 1] as usize).max(2);
                    }
                    let o = self.one(&offs);
                    b[o] = self.one(&[0u8, 1, 2, 3, 255, b[o].wrapping_add(1), b[o].wrapping_sub(1)]);
                }
                b
            }
            7..=9 => {
                let k = if self.p(2, 3) { 1 } else { self.r.range(2, 5) };
                for _ in 0..k {
                    let o = self.r.below(b.len() as u64) as usize;
                    b[o] ^= 1 << self.r.below(8);
                }
                b
            }
            10 => {
                b[0] = self.r.next() as u8;
                b
            }
            11 => self.request(id, other, None),
            12 => {
                let s = self.near(secret);
                let mut v = self.request(id, &s, None);
                if !matches!(v[0], 4 | 40 | 43) {
                    v[0] = self.one(&[4, 40, 43]);
                    let a = rf::response_auth(&v, &[0; 16], &s);
                    v[4..20].copy_from_slice(&a);
                }
                v
            }
            13 => {
                // a response code, correctly formed
                b[0] = self.one(&RESP);
                b
            }
            14 => {
                // hashed request with a zero or random authenticator
                b[0] = self.one(&[4, 40, 43]);
                let a = if self.p(1, 2) { vec![0; 16] } else { self.r.bytes(16) };
                b[4..20].copy_from_slice(&a);
                b
            }
            15 => {
                // trailing octet that is no attribute, inside the declared length
                let k = self.r.range(1, 3) as usize;
                let x = self.r.bytes(k);
                b.extend(x);
                let l = b.len() as u16;
                b[2..4].copy_from_slice(&l.to_be_bytes());
                b
            }
            16 => {
                // keyed with a prefix of the secret
                let k = self.r.below(secret.len().max(1) as u64) as usize;
                let s = secret[..k.min(secret.len())].to_vec();
                self.request(id, &s, None)
            }
            17 => {
                // too large for the protocol, or just not, correctly keyed
                let n = if self.p(3, 4) { self.one(&[4094usize, 4095, 4096, 4097, 4098, 4099, 4100, 4352, 8192]) } else { self.r.range(4097, 7000) as usize };
                self.sized(id, secret, n)
            }
            18 => {
                // correct under the wrong rule: MD5 over the random authenticator
                let mut v = b.clone();
                v[0] = self.one(&[4, 40, 43]);
                let a = self.r.bytes(16);
                let x = rf::response_auth(&v, &a, secret);
                v[4..20].copy_from_slice(&x);
                v
            }
            _ => {
                b[20..].fill(0);
                b
            }
        }
    }

    /// Hundreds of requests in progress at once.
    fn crowd(&mut self) -> Plan {
        let mut p = self.base();
        p.threads = p.threads.min(2);
        if let SchedP::Random { p_atomic, p_stall, .. } = &mut p.sched {
            *p_atomic = (*p_atomic).min(600);
            *p_stall = 0;
        }
        let mut peers = self.peers(false, false, false);
        // now and then thousands at once
        let host = self.p(1, if self.is(&["C03", "C02"]) { 6 } else { 14 });
        p.rxq_cap = if host { 8192 } else { 4096 };
        let want = if host { 60 } else { self.one(&[2usize, 6, 40, 300]) };
        let mut k = 0u32;
        while peers.len() < want {
            let a: SocketAddr = format!("10.{}.{}.{}:{}", 1 + k % 3, k / 250 % 250, 1 + k % 250, self.one(&[1812, 2000, 5000 + k])).parse().unwrap();
            if !peers.contains(&a) {
                peers.push(a);
            }
            k += 1;
        }
        let span = self.one(&[0u64, 1_000, 500_000]);
        let mut server = self.server_cfg(&peers, "0.0.0.0".into(), 1 << 40);
        if !self.is(&["C14"]) {
            server.runs = vec![RunP::new(0, None)];
        }
        for q in server.peers.iter_mut() {
            q.secrets.truncate(1);
            if !matches!(q.secrets[0].1, SecretP::Key(_)) {
                q.secrets[0].1 = SecretP::Key(self.secret());
            }
        }
        p.server = Some(server);
        let n = if host { self.one(&[2_200usize, 5_200, 5_200]) } else { self.one(&[150usize, 280, 530, 1100, 1300]) }.min(peers.len() * 256);
        let mut pairs: Vec<(SocketAddr, u8)> = vec![];
        'all: for id in 0..=255u8 {
            for a in &peers {
                pairs.push((*a, id));
                if pairs.len() >= 2600 + if host { 4_000 } else { 0 } {
                    break 'all;
                }
            }
        }
        let hold = self.one(&[2_000_000u64, 60_000_000]);
        for _ in 0..n {
            if pairs.is_empty() {
                break;
            }
            let k = self.r.below(pairs.len() as u64) as usize;
            let (from, id) = pairs.swap_remove(k);
            let SecretP::Key(key) = p.secret_at(&from, 0).clone() else { continue };
            let data = self.request(id, &key.0, None);
            let at = self.r.below(span + 1);
            let mut b = self.behave();
            b.pre_us = if self.p(9, 10) { hold } else { 0 };
            b.post_us = 0;
            p.ops.push(Op { at_us: at, from: from.to_string(), srv: 0, data: Hx(data), behave: vec![b] });
        }
        // again, while in progress and once everything is over
        for _ in 0..40.min(p.ops.len()) {
            let o = self.one(&p.ops);
            let from: SocketAddr = o.from.parse().unwrap();
            let SecretP::Key(key) = p.secret_at(&from, 0).clone() else { continue };
            let id = o.data.0[1];
            let data = if self.p(1, 3) { o.data.0.clone() } else { self.request(id, &key.0, None) };
            let at = if self.p(1, 3) { hold / 2 } else { hold + 1_000_000 + self.r.below(1000) };
            let b = self.behave();
            p.ops.push(Op { at_us: at, from: o.from, srv: 0, data: Hx(data), behave: vec![b] });
        }
        p.ops.sort_by_key(|o| o.at_us);
        p
    }

    /// A long history: thousands of requests, or days between them.
    fn haul(&mut self) -> Plan {
        let mut p = self.base();
        p.rxq_cap = 4096;
        p.threads = p.threads.min(2);
        p.step_ns = 0;
        if let SchedP::Random { p_atomic, p_stall, .. } = &mut p.sched {
            *p_atomic = (*p_atomic).min(300);
            *p_stall = 0;
        }
        let peers = self.peers(false, false, false);
        let (n, gap) = self.weighted(&[(3u64, (700u64, 3_000u64)), (2, (1_500, 2_000)), (2, (3_000, 1_000)), (1, (4_500, 500)), (4, (60, 1_800_000_000)), (3, (40, 400_000_000_000))]);
        let mut server = self.server_cfg(&peers, "0.0.0.0".into(), n * gap);
        if self.p(2, 3) {
            server.runs = vec![RunP::new(0, None)];
        }
        p.server = Some(server.clone());
        let mut at = 0;
        let mut ids: Vec<u8> = peers.iter().map(|_| self.r.next() as u8).collect();
        for _ in 0..n {
            at += self.one(&[0, gap / 2, gap, gap, 2 * gap]);
            let k = self.r.below(peers.len() as u64) as usize;
            ids[k] = ids[k].wrapping_add(1);
            let from = peers[k];
            let known = match server.peer(&from) {
                Some(q) if !q.spin.is_empty() => self.one(&q.spin),
                _ => server.secret_at(&from, at).clone(),
            };
            let SecretP::Key(key) = known else { continue };
            let data = if self.p(1, 20) { self.hostile(ids[k], &key.0, b"other") } else { self.request(ids[k], &key.0, None) };
            let mut b = self.behave();
            b.pre_us = b.pre_us.min(if self.p(1, 50) { 400_000_000 } else { gap });
            b.post_us = b.post_us.min(200);
            if b.end == End::Never && self.p(9, 10) {
                b.end = End::Ok;
            }
            let op = Op { at_us: at, from: from.to_string(), srv: 0, data: Hx(data), behave: vec![b] };
            if self.p(1, 12) {
                let late = Plan::behave_us(&op.behave);
                let at_us = at + self.one(&[0, 1, late / 2, late + 1_000, late + gap]);
                p.ops.push(Op { at_us, ..op.clone() });
            }
            p.ops.push(op);
        }
        p.ops.sort_by_key(|o| o.at_us);
        p
    }

    /// More requests than two octets can count.
    fn marathon(&mut self) -> Plan {
        let mut p = self.base();
        p.rxq_cap = 4096;
        p.threads = p.threads.min(2);
        p.step_ns = 0;
        p.latency_us = p.latency_us.min(300);
        if let SchedP::Random { p_atomic, p_syscall, p_stall, .. } = &mut p.sched {
            *p_atomic = 0;
            *p_syscall = (*p_syscall).min(300);
            *p_stall = 0;
        }
        let mut peers = self.peers(false, false, false);
        peers.truncate(3);
        let n = 65_600 + self.r.below(2_500);
        let gap = self.one(&[100u64, 800]);
        let mut server = self.server_cfg(&peers, "0.0.0.0".into(), 1 << 40);
        server.runs = vec![RunP::new(0, None)];
        server.buf = None;
        let mut keys = vec![];
        for q in server.peers.iter_mut() {
            q.spin.clear();
            q.secrets.truncate(1);
            if !matches!(q.secrets[0].1, SecretP::Key(_)) {
                q.secrets[0].1 = SecretP::Key(self.secret());
            }
        }
        peers.retain(|a| server.peer(a).is_some());
        for a in &peers {
            let SecretP::Key(k) = server.secret_at(a, 0).clone() else { unreachable!() };
            keys.push(k.0);
        }
        p.server = Some(server);
        // what arrives is drawn from a small stock, so that the plan stays small
        let mut stock: Vec<Vec<(Vec<u8>, Vec<Behave>)>> = vec![];
        for k in &keys {
            let mut v = vec![];
            for id in 0..=255u8 {
                let data = if self.p(1, 60) { self.hostile(id, k, b"other") } else { self.request(id, k, None) };
                let mut b = self.behave();
                b.pre_us = b.pre_us.min(self.one(&[0, 20, gap]));
                b.post_us = b.post_us.min(50);
                if b.end == End::Never || self.p(9, 10) {
                    b.end = End::Ok;
                }
                if let Some(x) = &mut b.respond {
                    x.attrs.truncate(3);
                }
                v.push((data, vec![b]));
            }
            stock.push(v);
        }
        let mut ids: Vec<u8> = peers.iter().map(|_| self.r.next() as u8).collect();
        let mut at = 0;
        for _ in 0..n {
            at += self.one(&[gap / 2, gap, gap, 3 * gap / 2]);
            let k = self.r.below(peers.len() as u64) as usize;
            ids[k] = ids[k].wrapping_add(1);
            let (data, behave) = stock[k][ids[k] as usize].clone();
            p.ops.push(Op { at_us: at, from: peers[k].to_string(), srv: 0, data: Hx(data), behave });
        }
        p
    }

    /// Datagrams arrive faster than they can be taken, and the server is to stop meanwhile.
    fn flood(&mut self) -> Plan {
        let mut p = self.base();
        p.rxq_cap = 20_000;
        p.threads = p.threads.min(2);
        p.step_ns = 300;
        p.latency_us = 0;
        if let SchedP::Random { p_atomic, p_syscall, p_stall, .. } = &mut p.sched {
            *p_atomic = 0;
            *p_syscall = (*p_syscall).min(300);
            *p_stall = 0;
        }
        let mut peers = self.peers(false, false, false);
        peers.truncate(4);
        let mut server = self.server_cfg(&peers, "0.0.0.0".into(), 1 << 40);
        server.runs = vec![RunP::new(0, Some(50_000 + self.r.range(1, 25) * 1_000))];
        if self.p(1, 2) {
            server.runs.push(RunP::new(self.one(&[0, 0, 1_000, 500_000]), None));
        }
        server.buf = None;
        let rubbish: Vec<Vec<u8>> = (0..40)
            .map(|_| {
                let n = self.one(&[0usize, 1, 4, 19, 20, 21, 40]);
                self.r.bytes(n)
            })
            .collect();
        for _ in 0..14_000 {
            let from = self.one(&peers);
            let mut behave = vec![];
            let mut data = self.one(&rubbish);
            if let (true, Some(SecretP::Key(k))) = (self.p(1, 30), server.peer(&from).map(|_| server.secret_at(&from, 50_000).clone())) {
                let id = self.r.next() as u8;
                data = self.request(id, &k.0, None);
                behave = vec![self.behave()];
            }
            p.ops.push(Op { at_us: 50_000, from: from.to_string(), srv: 0, data: Hx(data), behave });
        }
        p.server = Some(server);
        p
    }

    fn server(&mut self) -> Plan {
        if self.p(1, if self.is(&["C14"]) { 400 } else { 8_000 }) {
            return self.flood();
        }
        if self.p(1, if self.is(&["C02", "C03", "C04"]) { 120 } else { 400 }) {
            return self.haul();
        }
        if self.p(1, if self.is(&["C05"]) { 60 } else if self.is(&["C02", "C03"]) { 250 } else { 400 }) {
            return self.crowd();
        }
        let mut p = self.base();
        let v6 = self.p(1, if self.is(&["C05", "C07"]) { 4 } else { 6 });
        let lo = self.p(1, 8);
        let host = match (v6, lo) {
            (false, false) => self.one(&["0.0.0.0".to_string(), "10.0.0.1".into()]),
            (true, false) => self.one(&["[::]".to_string(), "[fd00::1]".into()]),
            (false, true) => "127.0.0.1".into(),
            (true, true) => "[::1]".into(),
        };
        let dual = host == "[::]";
        let peers = self.peers(v6, lo, dual);
        let shape = self.r.below(16);
        let n_ops = match shape {
            0..=5 => self.r.range(2, 8),
            6..=11 => self.r.range(6, 40),
            12 | 13 => self.r.range(30, 120),
            14 => self.r.range(100, 400),
            _ => {
                if self.is(&["C02", "C04", "C03", "C07"]) && self.p(1, 8) {
                    1200
                } else {
                    self.r.range(30, 300)
                }
            }
        } as usize;
        // the stretch of time things happen in
        let span = self.one(&[0u64, 10, 2_000, 100_000, 3_000_000, 100_000_000, 2_000_000_000]);
        let host = self.named(host);
        let mut server = self.server_cfg(&peers, host.clone(), span.max(1000));
        // a server that is its own peer would talk to itself for ever
        let own = |port: u16| peers.iter().any(|a| a.ip().to_canonical().is_loopback() && a.port() == port);
        while own(server.port) {
            server.port += 7;
        }
        let two = self.p(1, if self.is(&["C05", "C03", "C13"]) { 7 } else { 14 });
        if two {
            let mut s2 = self.server_cfg(&peers, host, span.max(1000));
            while s2.port == server.port || own(s2.port) {
                s2.port += 1;
            }
            if self.p(1, 3) {
                s2.peers = server.peers.clone();
            }
            p.server2 = Some(s2);
        }
        let buf = server.buf.unwrap_or(1500);
        p.server = Some(server);
        let base_id = self.r.next() as u8;
        let pool: Vec<u8> = match self.r.below(5) {
            0 => vec![base_id],
            1 => vec![base_id, base_id ^ (1 << self.r.below(8))],
            2 => (0..8).map(|b| base_id ^ (1 << b)).chain([base_id]).collect(),
            3 => vec![0, 255, 127, 128, base_id],
            _ => (0..=255).collect(),
        };
        let mut pool = pool;
        if peers.len() > 1 && self.p(1, 8) {
            // identifiers that read alike next to a port's last digit
            for a in &peers {
                let d = (a.port() % 10) as u32;
                for k in [d * 10 + (base_id as u32 % 10), d * 100 + (base_id as u32 % 100)] {
                    if k < 256 {
                        pool.push(k as u8);
                        pool.push((base_id as u32 % if k < 100 { 10 } else { 100 }) as u8);
                    }
                }
            }
        }
        let p_hostile = if self.is(&["C06", "C01"]) { 45 } else { self.one(&[0, 5, 20, 40]) };
        let p_dup = if self.is(&["C03", "C02"]) { 40 } else { self.one(&[5, 20, 40]) };
        let p_follow = if self.is(&["C04"]) { 45 } else { self.one(&[0, 15, 35]) };
        let p_big = if self.is(&["C21", "C07"]) { 40 } else { self.one(&[0, 0, 10]) };
        let p_pad = self.one(&[0, 0, 8]);
        let same_instant = self.p(1, 3);
        let mut ops: Vec<Op> = vec![];
        for i in 0..n_ops {
            let mut at = if same_instant && self.p(2, 3) {
                span / 2
            } else {
                self.r.below(span + 1)
            };
            if shape == 15 && n_ops > 500 {
                at = i as u64 * 3_000;
            }
            let peer = self.one(&peers);
            let id = self.one(&pool);
            let mut srv = if two { self.r.below(2) as usize } else { 0 };
            let mut behave: Vec<Behave> = vec![];
            for _ in 0..self.one(&[1, 1, 1, 2]) {
                let mut b = self.behave();
                if shape == 15 && n_ops > 500 {
                    b.pre_us = 0;
                    b.post_us = 0;
                    if b.end == End::Never {
                        b.end = End::Ok;
                    }
                }
                behave.push(b);
            }
            let roll = self.r.below(100);
            if !ops.is_empty() && roll < p_dup {
                // a retransmission (same octets), while it is handled or around it
                let o = self.one(&ops);
                let d = Plan::behave_us(&o.behave);
                let at = o.at_us
                    + match self.r.below(6) {
                        0 | 1 => 0,
                        2 => self.r.below(30),
                        3 => self.r.below(d + 1),
                        4 => d + self.r.below(4_000),
                        _ => self.logu(1, 2 * d.max(5_000)),
                    };
                if two && self.p(1, 4) {
                    srv = 1 - o.srv;
                } else {
                    srv = o.srv;
                }
                ops.push(Op { at_us: at, srv, ..o });
                continue;
            }
            let mut from = peer;
            let mut id = id;
            if !ops.is_empty() && roll < p_dup + p_follow {
                // a new request with the same peer and identifier, around the end of an earlier one
                let o = self.one(&ops);
                let f: SocketAddr = o.from.parse().unwrap();
                if o.data.0.len() >= 20 {
                    from = f;
                    id = o.data.0[1];
                    if !self.p(1, 5) {
                        srv = o.srv;
                    }
                    let d = Plan::behave_us(&o.behave);
                    at = o.at_us
                        + match self.r.below(5) {
                            0 => self.r.below(d + 1),
                            1 => d + self.r.below(100),
                            2 => d + self.r.below(5_000),
                            _ => d + 5_000 + self.logu(1, 1_000_000),
                        };
                }
            }
            let server = p.servers().nth(srv).unwrap().clone();
            let known = match server.peer(&from) {
                Some(q) if !q.spin.is_empty() => self.one(&q.spin),
                _ => server.secret_at(&from, at).clone(),
            };
            let secret = match &known {
                SecretP::Key(k) => k.0.clone(),
                _ => {
                    // whatever it was keyed with before or after
                    let s = &server;
                    let mut c: Vec<Vec<u8>> = vec![b"guess".to_vec(), vec![]];
                    for q in &s.peers {
                        for x in &q.secrets {
                            if let SecretP::Key(k) = &x.1 {
                                c.push(k.0.clone());
                            }
                        }
                    }
                    self.one(&c)
                }
            };
            let tamper = !ops.is_empty() && self.p(1, 3);
            let mut data = if self.r.below(100) < p_hostile {
                let orig = if tamper { ops.iter().rev().find(|o| o.data.0.len() > 20 && matches!(o.data.0[0], 4 | 40 | 43)).cloned() } else { None };
                if let Some(o) = orig {
                    let d = Plan::behave_us(&o.behave);
                    let at = o.at_us + self.one(&[0, d / 2, d + 1_000, d + 100_000]) + self.r.below(3_000);
                    let data = self.tampered(&o.data.0);
                    ops.push(Op { at_us: at, from: o.from, srv: o.srv, data: Hx(data), behave });
                    continue;
                }
                let other = {
                    let q = self.one(&peers);
                    match server.secret_at(&q, at) {
                        SecretP::Key(k) if k.0 != secret => k.0.clone(),
                        _ => b"wrong-secret".to_vec(),
                    }
                };
                self.hostile(id, &secret, &other)
            } else {
                let want = if self.r.below(100) < p_big {
                    let c = [buf.saturating_sub(1), buf, buf + 1, buf + 2, 1499, 1500, 1501, 4095, 4096, self.r.range(30, 4096) as usize];
                    let w = self.one(&c);
                    (30..=4096).contains(&w).then_some(w)
                } else {
                    None
                };
                self.request(id, &secret, want)
            };
            if self.r.below(100) < p_pad && !data.is_empty() {
                let n = self.logu(1, 600) as usize;
                let x = if self.p(1, 2) { vec![0; n] } else { self.r.bytes(n) };
                data.extend(x);
            }
            ops.push(Op { at_us: at, from: from.to_string(), srv, data: Hx(data), behave });
        }
        // shutdown interplay: some things right around a stop
        if let Some(s) = &p.server {
            let mut t = 0;
            let mut marks = vec![];
            for r in &s.runs {
                t += r.gap_us;
                marks.push(t);
                if let Some(x) = r.stop_us {
                    t += x;
                    marks.push(t);
                } else {
                    break;
                }
            }
            if s.runs.len() > 1 {
                for o in ops.iter_mut() {
                    if self.p(1, 3) {
                        let m = self.one(&marks);
                        o.at_us = (m + self.r.below(4000)).saturating_sub(self.one(&[0, 100, 2000, 3000]));
                    }
                }
            }
        }
        ops.sort_by_key(|o| o.at_us);
        p.ops = ops;
        self.server_faults(&mut p, n_ops as u64, span);
        p
    }

    fn server_faults(&mut self, p: &mut Plan, n_ops: u64, span: u64) {
        let hot = self.is(&["C15"]);
        if hot || self.p(1, 6) {
            for _ in 0..self.r.range(1, 3) {
                let call = self.weighted(&[(4, "recv"), (4, "getsockname"), (2, "send"), (3, "epoll_wait")]);
                if call == "recv" && !hot && !self.p(1, 3) {
                    continue;
                }
                let errno = match call {
                    "recv" => self.one(&[
                        libc::ECONNREFUSED,
                        libc::ECONNRESET,
                        libc::ENOBUFS,
                        libc::ENOMEM,
                        libc::EIO,
                        libc::ENETDOWN,
                        libc::EHOSTUNREACH,
                        libc::EBADF,
                        libc::EPERM,
                    ]),
                    "getsockname" => self.one(&[libc::ENOBUFS, libc::ENOMEM, libc::EBADF]),
                    "send" => self.one(&[libc::ENETUNREACH, libc::EPERM, libc::ENOBUFS, libc::EHOSTUNREACH, libc::EMSGSIZE]),
                    _ => libc::EINTR,
                };
                let n = if self.p(1, 3) { self.r.below(3) } else { self.r.below(2 * n_ops + 2) };
                p.sysfaults.push(SysFaultP { label: 0, call: call.into(), n, errno });
            }
        }
        if self.p(1, if self.is(&["C05", "C03", "C04"]) { 4 } else { 10 }) {
            for _ in 0..self.r.range(1, 3) {
                let t = self.r.below(span + 2);
                p.sndfull.push((0, t, t + self.logu(1, span + 1_000)));
            }
        }
        if self.p(1, if self.is(&["C04", "C05", "C06"]) { 8 } else { 20 }) {
            // nobody reads what the process prints, or the disk it goes to is full
            let (a, k) = (self.r.below(4), self.r.range(1, 40));
            let errno = self.one(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EBADF]);
            for n in a..a + k {
                p.sysfaults.push(SysFaultP { label: 0, call: "stdout".into(), n, errno });
            }
        }
        if hot && self.p(1, 12) && p.server.as_ref().is_some_and(|s| s.host.contains(".t")) && p.server2.is_none() {
            let errno = self.one(&[libc::EAI_AGAIN, libc::EAI_FAIL, libc::EAI_NONAME, libc::EIO, libc::EMFILE]);
            p.sysfaults.push(SysFaultP { label: 0, call: "resolve".into(), n: 0, errno });
        }
        if hot && self.p(1, 10) {
            let call = self.one(&["socket", "bind", "epoll_add"]);
            let errno = self.one(&[libc::EADDRINUSE, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::EADDRNOTAVAIL]);
            p.sysfaults.push(SysFaultP { label: 0, call: call.into(), n: 0, errno });
        }
        if hot || self.p(1, 5) {
            for _ in 0..self.r.range(1, 6) {
                p.spurious.push((self.r.below(span + 2), None));
            }
        }
    }

    // ------------------------------------------------------------ the client alone, scripted servers

    fn act(&mut self, calls: usize, me: usize, dest: &str, to: Option<u64>, sec: &[u8]) -> Act {
        let attrs = if self.p(1, 16) { self.large() } else { self.raw_attrs(4) };
        let code = if self.p(1, 12) { self.r.next() as u8 } else { self.one(&RESP) };
        let other = self.r.below(calls as u64) as usize;
        let d: SocketAddr = dest.parse().unwrap();
        let good = ActKind::Good { code, attrs: attrs.clone() };
        let kind = if self.is(&["C10"]) && self.p(3, 4) {
            good
        } else {
            match self.r.below(if self.is(&["C09"]) { 34 } else { 26 }) {
                0..=9 => good,
                10 => ActKind::Pad { code, attrs, pad: Hx(vec![0; self.logu(1, 5000) as usize]) },
                11 | 26 => ActKind::WrongSecret { code, attrs, secret: if self.p(2, 3) { Hx(self.near(sec)) } else { self.secret() } },
                12 | 13 | 27 | 28 => ActKind::Flip { code, attrs, off: self.r.next() as u32, mask: 1 << self.r.below(8) },
                14 => ActKind::Trunc { code, attrs, n: self.r.below(60) as u32 },
                15 | 29 | 30 => {
                    let from = match self.r.below(3) {
                        0 => SocketAddr::new(d.ip(), d.port() ^ 1),
                        1 if d.is_ipv4() => "10.0.77.7:1812".parse().unwrap(),
                        1 => "[fd00::77]:1812".parse().unwrap(),
                        _ => SocketAddr::new(if d.is_ipv4() { "10.0.77.8".parse().unwrap() } else { "fd00::78".parse().unwrap() }, d.port()),
                    };
                    ActKind::FromOther { code, attrs, from: from.to_string() }
                }
                16 | 31 => ActKind::ReplayOf { call: other },
                17 | 32 if other != me => ActKind::CrossOf { call: other, code, attrs },
                18 | 33 => ActKind::EchoAuth { code, attrs },
                19 => ActKind::ZeroAuth { code, attrs },
                20 => ActKind::OtherId { code, attrs, xor: 1 << self.r.below(8) },
                21 => ActKind::Echo,
                22 => {
                    let n = self.logu(1, 3000) as usize;
                    let n = if self.p(1, 4) { 0 } else { n };
                    ActKind::Raw(Hx(self.r.bytes(n)))
                }
                23 => {
                    let n = self.r.below(40) as usize;
                    let body = match self.r.below(6) {
                        0 => Hx([vec![1, 255], vec![5; 253]].concat().repeat(17)),
                        1 | 2 => {
                            // well-formed, around the largest size
                            let n = self.one(&[4074usize, 4075, 4076, 4077, 4078, 4079, 4080, 4200]);
                            let mut b = vec![];
                            for (t, v) in self.fill(n, false) {
                                b.extend([t, v.len() as u8 + 2]);
                                b.extend(v);
                            }
                            Hx(b)
                        }
                        _ => Hx(self.r.bytes(n)),
                    };
                    ActKind::SignedRaw { code, body }
                }
                _ => ActKind::Icmp { errno: self.one(&[libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ENETUNREACH]) },
            }
        };
        let delay_us = match (to, self.r.below(10)) {
            (Some(t), 0..=1) => t.saturating_sub(self.r.range(0, 3000)),
            (Some(t), 2) => t + self.r.range(0, 3000),
            (Some(t), 3..=5) => self.r.below(t + 1),
            (Some(t), 6) => t + self.logu(1000, 10_000_000),
            (None, 0..=2) => self.logu(1_000_000, 600_000_000_000),
            (_, 7) => 0,
            _ => self.logu(1, 200_000),
        };
        Act { delay_us, kind }
    }

    fn timeouts(&mut self) -> (Option<u64>, Option<u64>) {
        let c = match self.r.below(4) {
            0 => None,
            1 => Some(0),
            _ => Some(self.logu(1000, 10_000_000)),
        };
        let s = match self.r.below(8) {
            0 | 1 => None,
            2 => Some(self.one(&[0, 1, 1000, 999, 1001])),
            3 => match self.r.below(6) {
                // around sizes that counters of milli- or microseconds have
                0 => {
                    let t = self.one(&[1u64 << 32, (1 << 32) * 1000, (1 << 31) * 1000, 65_536_000, 1 << 31, 3_600_000_000, 86_400_000_000]);
                    Some(t + self.r.below(2_000_000) - 1_000_000)
                }
                1 => Some(self.logu(100_000_000_000, 30_000_000_000_000)),
                _ => Some(self.logu(1_000_000, 200_000_000_000)),
            },
            _ => Some(self.logu(1_000, 20_000_000)),
        };
        (c, s)
    }

    fn oversized(&mut self, c: &mut CallP) {
        // one attribute is n octets long on the wire
        let n = self.one(&[255usize, 200, 100, 37]);
        c.attrs = vec![(18, Hx(self.r.bytes(n - 2)))];
        let target = self.one(&[4096usize, 65536, 65536 + 4096, 2 * 65536, 65536 + 2048, 131072 + 100]);
        let k = ((target - 20) / n) as u32;
        c.copies = match self.r.below(5) {
            0 => k,
            1 => k + 1,
            2 => k.saturating_sub(1).max(1),
            3 => k + self.r.range(0, 30) as u32,
            _ => {
                // exactly around the target
                let rest = target - 20 - k as usize * n;
                let d = self.one(&[0i64, 1, 2, -1, 3]);
                let want = rest as i64 + d;
                if want >= 2 {
                    // as a typed value, which is added after the copies
                    let i = table().iter().position(|a| a.typ == 24).unwrap();
                    c.typed.push((i, Val::B(vec![3; want as usize - 2])));
                }
                k
            }
        };
    }

    fn client(&mut self) -> Plan {
        let mut p = self.base();
        let nd = self.r.range(1, 4);
        let mut fakes: Vec<String> = vec![];
        for _ in 0..nd {
            let port = self.one(&[1812, 1813, 3799]);
            let k = self.r.range(1, 3);
            let a = match self.r.below(8) {
                0 => format!("[fd00::{:x}]:{port}", 0x50 + k),
                1 => format!("127.0.0.1:{port}"),
                2 if self.p(1, 2) => format!("[fe80::{:x}%{}]:{port}", 0x60 + k, self.r.range(1, 2)),
                2 => format!("[::1]:{port}"),
                _ => format!("10.0.200.{k}:{port}"),
            };
            if !fakes.contains(&a) {
                fakes.push(a);
            }
        }
        let ncl = self.r.range(1, 3) as usize;
        for _ in 0..ncl {
            let mut t = self.timeouts();
            if self.is(&["C10"]) && self.p(1, 2) {
                t.1 = Some(self.logu(1_000, 100_000_000));
            }
            p.clients.push(t);
        }
        let n = match self.r.below(8) {
            0..=2 => self.r.range(1, 3),
            3..=5 => self.r.range(3, 12),
            6 => self.r.range(10, 40),
            _ if self.is(&["C12"]) && self.p(1, 40) => self.r.range(500, 1_100),
            _ if self.is(&["C12"]) && self.p(1, 8) => self.r.range(100, 300),
            _ if self.p(1, 20) => self.r.range(300, 1200),
            _ => self.r.range(30, 90),
        } as usize;
        let same_id = self.p(1, 3);
        let same_secret = self.p(2, 3);
        let sec0 = self.secret();
        let id0 = self.r.next() as u8;
        let span = if n > 300 && !self.is(&["C12"]) { self.one(&[100_000_000u64, 100_000_000_000]) } else { self.one(&[0u64, 50, 5_000, 2_000_000, 100_000_000]) };
        if self.is(&["C12"]) || self.p(1, 5) {
            p.eph_range = self.one(&[1, 2, 3, 5, 50, 20000]);
        }
        for c in 0..n {
            let client = self.r.below(ncl as u64) as usize;
            let mut dest = self.one(&fakes);
            if self.p(1, 20) {
                // nobody there
                dest = self.one(&["10.0.201.9:1812".to_string(), "[fd00::99]:1812".into()]);
            }
            let code = if self.is(&["C24"]) && self.p(1, 5) { self.r.next() as u8 } else { self.weighted(&[(40, 1u8), (25, 4), (15, 12), (10, 40), (10, 43)]) };
            let mut cp = CallP {
                at_us: if self.p(1, 2) { span / 2 } else { self.r.below(span + 1) },
                host: self.one(&[10, 10, 11]),
                client,
                dest: dest.clone(),
                secret: if self.keyless() { Hx(vec![]) } else if same_secret { sec0.clone() } else { self.secret() },
                code,
                id: if same_id { Some(id0) } else if self.p(1, 2) { Some(self.r.next() as u8) } else { None },
                attrs: if self.p(1, 16) { self.large() } else { self.raw_attrs(4) },
                typed: vec![],
                dels: vec![],
                copies: 1,
                cancel_us: None,
                acts: vec![],
                behave: vec![],
            };
            if self.is(&["C24"]) && self.p(1, 2) {
                if self.p(1, 3) {
                    let n = self.one(&[252usize, 253, 254, 255, 256, 257, 300, 509, 510, 511, 512, 1000, 65533, 65535, 65536]);
                    let at = self.r.below(cp.attrs.len() as u64 + 1) as usize;
                    cp.attrs.insert(at, (self.r.next() as u8, Hx(vec![1; n])));
                } else {
                    self.oversized(&mut cp);
                }
            } else if self.p(1, 30) {
                self.oversized(&mut cp);
            }
            let to = p.clients[client].1;
            if self.p(if self.is(&["C12"]) { 3 } else { 1 }, 10) {
                cp.cancel_us = Some(match self.r.below(4) {
                    0 => 0,
                    1 => self.logu(1, 3000),
                    _ => self.logu(1, to.unwrap_or(1_000_000).max(2)),
                });
            }
            if self.is(&["C17"]) || self.p(1, 8) {
                if code == 1 {
                    self.add_password(&mut cp);
                }
            }
            let k = match self.r.below(10) {
                0 | 1 => 0,
                2..=6 => 1,
                7 | 8 => 2,
                _ => self.r.range(3, 8),
            };
            for _ in 0..k {
                let sec = cp.secret.0.clone();
                let a = self.act(n, c, &dest, to, &sec);
                cp.acts.push(a);
            }
            p.calls.push(cp);
        }
        p.fakes = fakes;
        if self.is(&["C10"]) && self.p(2, 3) {
            p.step_ns = 0;
            if let SchedP::Random { p_stall, .. } = &mut p.sched {
                *p_stall = 0;
            }
        }
        self.net_faults(&mut p, n as u64, span);
        let hot = self.is(&["C11"]);
        if hot || self.p(1, 6) {
            for _ in 0..self.r.range(1, 1 + n as u64 / 2) {
                let c = self.r.below(n as u64) as u32;
                let call = self.one(&["socket", "bind", "epoll_add", "connect", "send", "recv"]);
                let errno = match call {
                    "socket" => self.one(&[libc::EMFILE, libc::ENFILE, libc::EACCES, libc::EAFNOSUPPORT]),
                    "bind" => self.one(&[libc::EADDRINUSE, libc::EACCES, libc::ENOMEM]),
                    "epoll_add" => self.one(&[libc::ENOSPC, libc::ENOMEM]),
                    "connect" => self.one(&[libc::ENETUNREACH, libc::EHOSTUNREACH, libc::EACCES, libc::EADDRNOTAVAIL]),
                    "send" => self.one(&[libc::ECONNREFUSED, libc::EPERM, libc::ENOBUFS, libc::EMSGSIZE, libc::ENETUNREACH, libc::EIO]),
                    _ => self.one(&[libc::ECONNREFUSED, libc::ENOMEM, libc::EIO, libc::ENETDOWN, libc::EHOSTUNREACH]),
                };
                let n = if call == "recv" { self.r.below(2) } else { 0 };
                p.sysfaults.push(SysFaultP { label: c + 1, call: call.into(), n, errno });
            }
        }
        if self.p(1, if self.is(&["C10"]) { 2 } else { 6 }) {
            for _ in 0..self.r.range(1, 1 + n as u64 / 2) {
                let c = self.r.below(n as u64) as usize;
                let t = p.calls[c].at_us;
                let to = p.clients[p.calls[c].client].1.unwrap_or(100_000);
                let from = t.saturating_sub(self.one(&[0, 0, 1, 50]));
                let len = self.one(&[1, 100, to / 2, to.saturating_sub(1), to, to + 1, to.saturating_mul(2).min(1 << 40), 1_000_000]);
                p.sndfull.push((c as u32 + 1, from, t + len));
            }
        }
        for _ in 0..self.one(&[0, 0, 1, 4]) {
            p.spurious.push((self.r.below(span + 3000), Some(self.r.below(n as u64) as usize)));
        }
        if self.p(1, 8) {
            p.sysfaults.push(SysFaultP { label: 0, call: "epoll_wait".into(), n: self.r.below(10), errno: libc::EINTR });
        }
        p
    }

    fn fate(&mut self, class: u8, n: u64) -> FateP {
        let mut f = FateP { class, n, ..FateP::default() };
        match self.r.below(9) {
            0 | 1 => f.drop = true,
            2 | 3 => f.delay_us = self.logu(1, 3_000_000),
            4 | 5 => {
                for _ in 0..self.r.range(1, 3) {
                    let d = self.logu(1, 2_000_000);
                    f.dups.push(if self.p(1, 2) { d } else { self.r.below(20) });
                }
            }
            6 => f.corrupt = Some((self.r.next() as u32, 1 << self.r.below(8))),
            7 => f.trunc = Some(self.r.below(80) as u32),
            _ => f.pad = Some(Hx(vec![0; self.logu(1, 500) as usize])),
        }
        f
    }
    fn net_faults(&mut self, p: &mut Plan, n: u64, span: u64) {
        if self.p(2, 3) {
            let rate = self.one(&[2u64, 10, 30]);
            for class in 0..2 {
                for k in 0..n * 2 {
                    if self.r.below(100) < rate {
                        let f = self.fate(class, k);
                        p.fates.push(f);
                    }
                }
            }
        }
        if self.p(1, 8) {
            let a = self.r.below(span + 1000);
            p.partitions.push((a, a + self.logu(100, 5_000_000), self.r.below(2) as u8));
        }
    }

    // ------------------------------------------------------------ real clients, real server

    fn text(&mut self, max: usize) -> String {
        let n = match self.r.below(8) {
            0 => 1,
            1 => max,
            2 => self.r.range(1, max as u64) as usize,
            _ => self.r.range(1, 24.min(max as u64)) as usize,
        };
        let mut s = String::new();
        let wide = self.p(1, 6);
        while s.len() < n {
            if wide && s.len() + 3 <= n {
                s.push(self.one(&['é', 'ß', '語', 'λ']));
            } else {
                s.push((b' ' + (self.r.below(95)) as u8) as char);
            }
        }
        while s.len() > max {
            s.pop();
        }
        s
    }
    fn octets(&mut self, max: usize) -> Vec<u8> {
        let n = match self.r.below(8) {
            0 => 0,
            1 => max,
            2 => self.r.range(0, max as u64) as usize,
            _ => self.r.range(1, 24.min(max as u64)) as usize,
        };
        self.r.bytes(n)
    }
    fn tag(&mut self) -> Option<u8> {
        match self.r.below(4) {
            0 => None,
            1 => Some(self.one(&[1, 0x1f])),
            _ => Some(self.r.range(1, 0x1f) as u8),
        }
    }
    fn password(&mut self, max: usize) -> Vec<u8> {
        let n = match self.r.below(8) {
            0 => self.one(&[15usize, 16, 17, 31, 32, 33, 112, 127, 128]),
            1 => max,
            2 => self.r.range(0, 6) as usize,
            _ => self.r.range(6, max as u64) as usize,
        };
        let printable = self.p(1, 2);
        let holes = !printable && self.p(1, 2);
        let n = n.min(max);
        (0..n)
            .map(|i| {
                if holes && i + 1 < n && self.p(1, 8) {
                    return 0;
                }
                let b = 1 + self.r.below(255) as u8;
                if printable {
                    b' ' + b % 95
                } else {
                    b
                }
            })
            .collect()
    }
    fn num32(&mut self) -> u32 {
        match self.r.below(4) {
            0 => self.one(&[0, 1, 255, 256, 0x7fff_ffff, 0x8000_0000, u32::MAX, 0xff00, 0x0100_0000]),
            1 => self.r.below(300) as u32,
            _ => self.r.next() as u32,
        }
    }
    /// None: the kind is not used here
    fn value(&mut self, k: Kind) -> Val {
        match k {
            Kind::Str => Val::S(self.text(253)),
            Kind::Octets => Val::B(self.octets(253)),
            Kind::Concat => {
                let n = if self.p(1, 3) { self.r.range(250, 1100) as usize } else { self.r.range(1, 60) as usize };
                Val::B(self.r.bytes(n))
            }
            Kind::Fixed(n) => {
                let wrong = self.p(1, 8);
                let w = self.one(&[n + 1, n - 1, n - 1, 0, 1, n / 2, 2 * n, n + 16, 253, 256 + n]);
                Val::B(self.r.bytes(if wrong { w } else { n }))
            }
            Kind::Int => Val::U32(self.num32()),
            Kind::Short => Val::U16(self.num32() as u16),
            Kind::V4 => Val::V4(self.r.bytes(4).try_into().unwrap()),
            Kind::V6 => Val::V6(self.r.bytes(16).try_into().unwrap()),
            Kind::V4Prefix => {
                let n = if self.p(1, 12) { self.one(&[0, 1, 3, 5, 8, 16, 260]) } else { 4 };
                Val::B(self.r.bytes(n))
            }
            Kind::V6Prefix => {
                let n = if self.p(1, 12) { self.one(&[17, 18, 32, 253, 256, 260, 272]) } else { self.r.range(0, 16) as usize };
                Val::B(self.r.bytes(n))
            }
            Kind::Date => Val::Date(self.num32() as i64),
            Kind::TStr => Val::TS(self.tag(), self.text(252)),
            Kind::TInt => Val::TU(self.tag(), self.num32()),
            Kind::UserPw => {
                if self.p(1, 10) {
                    let n = self.r.range(129, 300) as usize;
                    let unit = self.password(24);
                    let mut v: Vec<u8> = if unit.is_empty() { vec![b'x'; n] } else { unit.iter().cycle().take(n).copied().collect() };
                    if v.last() == Some(&0) {
                        v[n - 1] = b'x';
                    }
                    Val::B(v)
                } else {
                    Val::B(self.password(128))
                }
            }
            Kind::TunnelPw => {
                let n = self.one(&[230, 230, 230, 239, 240, 241, 260]);
                Val::TP(self.tag(), self.password(n))
            }
            Kind::Vsa => Val::Vsa {
                vendor: self.one(&[9, 14988, 311, 0, -1, i32::MAX, 0x0102_0304, 24757]),
                typ: self.r.next() as u8,
                tag: if self.p(1, 2) { Some(self.r.next() as u8) } else { None },
                text: self.text(244),
            },
        }
    }
    fn typed_set(&mut self, n: u64, passwords: bool, response: bool) -> Vec<(usize, Val)> {
        let t = table();
        let mut v: Vec<(usize, Val)> = vec![];
        let mut size = 0;
        for _ in 0..n {
            let i = if !v.is_empty() && self.p(1, 4) {
                v[self.r.below(v.len() as u64) as usize].0
            } else {
                self.r.below(t.len() as u64) as usize
            };
            let k = t[i].kind;
            if matches!(k, Kind::UserPw) && (!passwords || response) {
                continue;
            }
            if matches!(k, Kind::TunnelPw) && !passwords && !response {
                continue;
            }
            // two dictionary entries never share a type number in one packet
            if v.iter().any(|x| x.0 != i && t[x.0].typ == t[i].typ) {
                continue;
            }
            let val = self.value(k);
            size += match &val {
                Val::B(b) => b.len() + 20,
                Val::S(s) => s.len() + 4,
                _ => 262,
            };
            if size > 3500 {
                break;
            }
            v.push((i, val));
        }
        v
    }
    fn add_password(&mut self, c: &mut CallP) {
        let t = table();
        if c.attrs.iter().any(|a| a.0 == 2 || a.0 == 69) {
            return;
        }
        let i = t.iter().position(|a| a.kind == Kind::UserPw).unwrap();
        let v = self.value(Kind::UserPw);
        c.typed.push((i, v));
        if self.p(1, 3) {
            let i = t.iter().position(|a| a.kind == Kind::TunnelPw).unwrap();
            let v = self.value(Kind::TunnelPw);
            c.typed.push((i, v));
        }
    }

    fn full(&mut self) -> Plan {
        let mut p = self.base();
        let v6 = self.p(1, 6);
        let lo = self.p(1, 10);
        let (host, ip) = match (v6, lo) {
            (false, false) => (self.one(&["0.0.0.0".to_string(), "10.0.0.1".into()]), "10.0.0.1"),
            (true, false) => ("[::]".to_string(), "[fd00::1]"),
            (false, true) => ("127.0.0.1".into(), "127.0.0.1"),
            (true, true) => ("[::1]".into(), "[::1]"),
        };
        let span = self.one(&[0u64, 30, 5_000, 1_000_000, 60_000_000]);
        let hosts: Vec<u32> = if lo { vec![1] } else { vec![10, 11, 12] };
        let host = self.named(host);
        let mut server = self.server_cfg(&[], host, span.max(1000));
        let mut secs: Vec<Hx> = vec![];
        for h in &hosts {
            let a = if lo {
                ip.trim_matches(|c| c == '[' || c == ']').to_string()
            } else if v6 {
                simcore::host_v6(*h).to_string()
            } else {
                simcore::host_v4(*h).to_string()
            };
            let s = self.secret();
            secs.push(s.clone());
            let mut secrets = vec![(0, SecretP::Key(s))];
            if self.is(&["C13", "C17"]) && self.p(1, 4) {
                secrets.push((self.r.below(span.max(2)) | 1, self.one(&[SecretP::Empty, SecretP::Fail, SecretP::Panic])));
            }
            server.peers.push(PeerP { addr: a, secrets, spin: vec![] });
        }
        if server.buf.is_some_and(|b| b < 4096) && self.p(3, 4) {
            server.buf = Some(4096);
        }
        if server.buf.is_none() && self.p(2, 3) {
            server.buf = Some(4096);
        }
        let dest = format!("{ip}:{}", server.port);
        p.server = Some(server);
        let ncl = self.r.range(1, 2) as usize;
        for _ in 0..ncl {
            let mut t = self.timeouts();
            if self.p(2, 3) {
                t.1 = Some(self.logu(50_000, 30_000_000));
            }
            p.clients.push(t);
        }
        let n = match self.r.below(6) {
            0..=2 => self.r.range(1, 6),
            3 | 4 => self.r.range(4, 24),
            _ => self.r.range(20, 60),
        } as usize;
        let fixed_id = self.p(1, 4).then(|| self.r.next() as u8);
        for c in 0..n {
            let hi = self.r.below(hosts.len() as u64) as usize;
            let code = if self.is(&["C19"]) { 1 } else { self.weighted(&[(50, 1u8), (20, 4), (10, 12), (10, 40), (10, 43)]) };
            let wrong_secret = code == 1 && self.p(if self.is(&["C19"]) { 1 } else { 0 }, 4);
            let mut cp = CallP {
                at_us: if self.p(1, 2) { span / 2 } else { self.r.below(span + 1) },
                host: hosts[hi],
                client: self.r.below(ncl as u64) as usize,
                dest: dest.clone(),
                secret: if self.keyless() { Hx(vec![]) } else if wrong_secret { self.secret() } else { secs[hi].clone() },
                code,
                id: fixed_id.or(if self.p(1, 2) { Some(c as u8) } else { None }),
                attrs: vec![],
                typed: vec![],
                dels: vec![],
                copies: 1,
                cancel_us: if self.p(1, 20) { Some(self.logu(1, 100_000)) } else { None },
                acts: vec![],
                behave: vec![],
            };
            let want_typed = self.is(&["C08", "C19", "C23", "C20", "C17", "C25"]);
            if want_typed || self.p(1, 3) {
                let k = self.r.range(1, if self.is(&["C23", "C25"]) { 14 } else { 6 });
                cp.typed = self.typed_set(k, code == 1, false);
                if self.is(&["C19", "C17"]) && code == 1 && !cp.typed.iter().any(|x| matches!(table()[x.0].kind, Kind::UserPw | Kind::TunnelPw)) {
                    self.add_password(&mut cp);
                }
            }
            cp.attrs = if cp.typed.is_empty() && self.p(1, 12) { self.large() } else { self.raw_attrs(3) };
            // raw attributes never collide with typed ones
            let t = table();
            let used: Vec<u8> = t.iter().map(|a| a.typ).collect();
            for a in cp.attrs.iter_mut() {
                while used.contains(&a.0) {
                    a.0 = self.r.next() as u8;
                }
            }
            if self.p(1, 5) {
                let k = if cp.typed.is_empty() || self.p(1, 4) {
                    self.r.below(t.len() as u64) as usize
                } else {
                    cp.typed[self.r.below(cp.typed.len() as u64) as usize].0
                };
                cp.dels.push(k);
            }
            for _ in 0..self.one(&[1, 1, 2]) {
                let mut b = self.behave();
                if self.is(&["C08", "C18", "C19", "C23", "C25"]) {
                    b.end = self.weighted(&[(90, End::Ok), (4, End::Err), (3, End::Panic), (3, End::Never)]);
                    if b.pre_us > 10_000_000 {
                        b.pre_us /= 100;
                    }
                }
                let mut r = self.resp();
                if want_typed || self.p(1, 3) {
                    let k = self.r.range(1, if self.is(&["C23", "C25"]) { 14 } else { 6 });
                    r.typed = self.typed_set(k, false, true);
                    if self.p(1, 5) && !r.typed.is_empty() {
                        r.dels.push(r.typed[self.r.below(r.typed.len() as u64) as usize].0);
                    }
                }
                for a in r.attrs.iter_mut() {
                    while used.contains(&a.0) {
                        a.0 = self.r.next() as u8;
                    }
                }
                b.respond = if self.p(9, 10) { Some(r) } else { None };
                cp.behave.push(b);
            }
            p.calls.push(cp);
        }
        // hostile traffic in the background
        if !lo && self.p(1, 3) {
            for _ in 0..self.r.range(1, 12) {
                let id = self.r.next() as u8;
                let s = secs[0].0.clone();
                let data = if self.p(1, 2) { self.hostile(id, &s, b"other") } else { self.request(id, &s, None) };
                let from = if v6 { format!("[{}]:{}", simcore::host_v6(hosts[0]), self.r.range(1, 30000)) } else { format!("{}:{}", simcore::host_v4(hosts[0]), self.r.range(1, 30000)) };
                let b = self.behave();
                p.ops.push(Op { at_us: self.r.below(span + 1), from, srv: 0, data: Hx(data), behave: vec![b] });
            }
            p.ops.sort_by_key(|o| o.at_us);
        }
        self.net_faults(&mut p, n as u64, span);
        if self.p(1, 5) {
            self.server_faults(&mut p, n as u64, span);
        }
        p
    }

    // ------------------------------------------------------------ randomness of new packets

    fn entropy(&mut self) -> Plan {
        let mut p = self.base();
        let bulk = self.p(1, 12);
        let threads = if bulk { 1 } else { self.r.range(1, 5) as usize };
        p.make = Some(MakeP {
            threads,
            packets: if bulk { 60_000 } else { self.one(&[3, 16, 300, 1500]) },
            salts: if bulk { 3_000 } else { self.one(&[0, 4, 200]) },
        });
        if bulk {
            p.sched = SchedP::Replay(vec![]);
        }
        if self.p(1, 3) {
            for _ in 0..self.r.range(1, 6) {
                let label = crate::world::MAKE_LABEL + self.r.below(threads as u64) as u32;
                // interrupted, cut short, or failing for good
                let errno = self.one(&[libc::EINTR, libc::EINTR, -1, -7, -31, libc::EIO, libc::EAGAIN]);
                p.sysfaults.push(SysFaultP { label, call: "getrandom".into(), n: self.r.below(if bulk { 80 } else { 4 }), errno });
            }
        }
        p
    }
    // ------------------------------------------------------------ the same kind of traffic, round after round

    fn rounds(&mut self) -> Plan {
        let mut p = self.base();
        p.rxq_cap = 4096;
        p.threads = p.threads.min(2);
        p.step_ns = 0;
        p.latency_us = p.latency_us.min(5000);
        p.clock_jumps.clear();
        if let SchedP::Random { p_atomic, p_syscall, p_stall, .. } = &mut p.sched {
            *p_atomic = (*p_atomic).min(600);
            *p_syscall = (*p_syscall).min(3000);
            *p_stall = 0;
        }
        const ROUNDS: u64 = 8;
        const LEN: u64 = 60_000_000;
        let what = self.r.below(5);
        if what < 3 {
            self.server_rounds(&mut p, ROUNDS, LEN);
        }
        if what > 1 {
            self.client_rounds(&mut p, ROUNDS, LEN);
        }
        p.mem = (0..ROUNDS).map(|k| k * LEN + 50_000_000).collect();
        p
    }
    fn server_rounds(&mut self, p: &mut Plan, rounds: u64, len: u64) {
        let buf = self.one(&[None, Some(512usize), Some(4096)]);
        let key = |g: &mut G| SecretP::Key(g.secret());
        let mut peers = vec![];
        for k in 1..=6 {
            let s = if k == 6 { self.one(&[SecretP::Empty, SecretP::Fail, SecretP::Panic]) } else { key(self) };
            let mut v = vec![(0, s)];
            if self.p(1, 6) {
                // a new secret every round
                for r in 1..rounds {
                    let s = key(self);
                    v.push((r * len - 2_000_000, s));
                }
            }
            peers.push(PeerP { addr: format!("10.0.1.{k}"), secrets: v, spin: vec![] });
        }
        let restarts = self.one(&[0u64, 0, 1, 6]);
        let mut runs = vec![];
        // the n-th pause is 5 s long and full of short serve calls
        for _ in 0..if restarts == 0 { 0 } else { rounds - 1 } {
            let mut x = RunP::new(0, Some(52_000_000));
            x.cancel = self.p(1, 2);
            runs.push(x);
            let mut left = len - 52_000_000;
            for _ in 1..restarts {
                let mut x = RunP::new(1_000, Some(self.one(&[0, 500, 20_000])));
                x.cancel = self.p(1, 2);
                left -= x.gap_us + x.stop_us.unwrap();
                runs.push(x);
            }
            // aligns the next one with its round
            let i = runs.len();
            runs.push(RunP::new(left, Some(0)));
            runs[i].stop_us = Some(0);
        }
        runs.push(RunP::new(0, None));
        let server = ServerP { host: "0.0.0.0".into(), port: 1812, buf, skip: self.p(1, 8), peers, runs, dropped: false };
        let per = self.one(&[60u64, 100, 150]);
        let kinds = self.one(&[0u64, 0, 1, 2, 3, 4, 5]);
        let ports = self.one(&[1u64, 40, 60_000]);
        let mut serial = 0u64;
        for r in 0..rounds {
            let t0 = r * len + 1_000_000;
            for k in 0..per {
                serial += 1;
                let at = if r < 2 { t0 } else { t0 + k * 5_000_000 / per + self.r.below(2_000) };
                let kind = if kinds == 0 || self.p(1, 3) { self.r.below(9) } else { kinds };
                let host = if kind == 5 { self.one(&[6, 7]) } else { self.r.range(1, 5) };
                let from = format!("10.0.1.{host}:{}", 2000 + serial % ports);
                let a: SocketAddr = from.parse().unwrap();
                let secret = match server.secret_at(&a, at) {
                    SecretP::Key(k) => k.0.clone(),
                    _ => b"any".to_vec(),
                };
                let id = (serial / ports) as u8;
                let mut b = self.behave();
                let most = if r < 2 { 40_000 } else { 3_000 };
                b.pre_us = if r < 2 { 30_000 } else { b.pre_us.min(most) };
                b.post_us = b.post_us.min(most);
                b.end = match kind {
                    1 => End::Panic,
                    2 => End::Err,
                    _ => self.weighted(&[(8, End::Ok), (1, End::Err), (1, End::Panic)]),
                };
                let data = match kind {
                    3 => self.hostile(id, &secret, b"other"),
                    4 => {
                        let mut d = self.request(id, &secret, None);
                        d[0] = self.one(&[4, 40, 43]);
                        d
                    }
                    _ => self.request(id, &secret, None),
                };
                let op = Op { at_us: at, from, srv: 0, data: Hx(data), behave: vec![b] };
                if kind == 6 || kind == 7 {
                    for _ in 0..2 {
                        p.ops.push(Op { at_us: at + self.r.below(1500), ..op.clone() });
                    }
                }
                p.ops.push(op);
            }
        }
        p.ops.sort_by_key(|o| o.at_us);
        p.server = Some(server);
        if self.p(1, 3) {
            for r in 0..rounds {
                for _ in 0..4 {
                    p.spurious.push((r * len + self.r.below(6_000_000), None));
                }
            }
            let n = p.ops.len() as u64;
            for _ in 0..12 {
                p.sysfaults.push(SysFaultP { label: 0, call: "send".into(), n: self.r.below(n), errno: libc::EPERM });
            }
        }
    }
    fn client_rounds(&mut self, p: &mut Plan, rounds: u64, len: u64) {
        let fakes = vec!["10.0.200.1:1812".to_string(), "10.0.200.2:1812".into(), "10.0.200.3:1645".into()];
        for _ in 0..2 {
            let c = self.one(&[None, Some(1_000_000)]);
            p.clients.push((c, Some(self.one(&[300_000u64, 2_000_000, 9_000_000]))));
        }
        let per = self.one(&[40u64, 80]);
        let kinds = self.one(&[0u64, 0, 1, 2, 3, 4, 5]);
        let n = (rounds * per) as usize;
        for r in 0..rounds {
            let t0 = r * len + 1_000_000;
            for k in 0..per {
                let c = p.calls.len();
                let kind = if kinds == 0 || self.p(1, 3) { self.r.below(8) } else { kinds };
                let client = self.r.below(2) as usize;
                let dest = if kind == 3 { self.one(&["10.0.201.9:1812".to_string(), "[fd00::99]:1812".into()]) } else { self.one(&fakes) };
                let mut cp = CallP {
                    at_us: if r < 2 { t0 } else { t0 + k * 5_000_000 / per },
                    host: self.one(&[10, 11]),
                    client,
                    dest: dest.clone(),
                    secret: self.secret(),
                    code: self.weighted(&[(4, 1u8), (2, 4), (1, 43)]),
                    id: if self.p(1, 2) { Some(c as u8) } else { None },
                    attrs: self.raw_attrs(4),
                    typed: vec![],
                    dels: vec![],
                    copies: 1,
                    cancel_us: None,
                    acts: vec![],
                    behave: vec![],
                };
                let to = p.clients[client].1;
                let sec = cp.secret.0.clone();
                let acts = match kind {
                    1 | 3 => 0,
                    4 => 4,
                    _ => 1,
                };
                for _ in 0..acts {
                    let mut a = self.act(n, c, &dest, to, &sec);
                    a.delay_us = a.delay_us.min(12_000_000);
                    cp.acts.push(a);
                }
                if kind == 2 {
                    cp.cancel_us = Some(self.logu(1, to.unwrap()));
                }
                if kind == 5 {
                    self.oversized(&mut cp);
                    cp.copies = cp.copies.min(400);
                }
                if kind == 6 {
                    let call = self.one(&["bind", "connect", "send", "recv"]);
                    let errno = self.one(&[libc::ENOMEM, libc::EACCES, libc::ECONNREFUSED]);
                    p.sysfaults.push(SysFaultP { label: c as u32 + 1, call: call.into(), n: 0, errno });
                }
                p.calls.push(cp);
            }
        }
        p.fakes = fakes;
    }
}
