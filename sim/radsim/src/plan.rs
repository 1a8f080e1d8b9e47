//! A plan is everything that decides one simulated run.
use crate::attrs::Val;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Default, PartialEq)]
pub struct Hx(pub Vec<u8>);
impl std::fmt::Debug for Hx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
impl Serialize for Hx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16)).collect::<Result<Vec<u8>, _>>();
        b.map(Hx).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SchedP {
    Random { seed: u64, p_atomic: u32, p_syscall: u32, p_pick: u32, p_stall: u32, max_stall_us: u32 },
    Replay(Vec<(u64, u32, u32)>),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct FateP {
    /// 0: towards the server's port, 1: anything else
    pub class: u8,
    /// the n-th datagram of that class
    pub n: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub drop: bool,
    #[serde(default, skip_serializing_if = "is_default")]
    pub delay_us: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub dups: Vec<u64>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub corrupt: Option<(u32, u8)>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub trunc: Option<u32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub pad: Option<Hx>,
}
fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SysFaultP {
    /// 0: the server's socket; c + 1: the socket of client call c
    pub label: u32,
    pub call: String,
    pub n: u64,
    pub errno: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SecretP {
    Key(Hx),
    Empty,
    Fail,
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PeerP {
    /// "ip:port", or "ip" for every port
    pub addr: String,
    /// (from, secret), ascending; the first starts at 0
    pub secrets: Vec<(u64, SecretP)>,
    /// if not empty: the n-th question gets the n-th of these, over and over
    #[serde(default, skip_serializing_if = "is_default")]
    pub spin: Vec<SecretP>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunP {
    /// pause before serving
    pub gap_us: u64,
    /// the shutdown future resolves this long after serving starts
    pub stop_us: Option<u64>,
    /// at that time the serve call is dropped instead
    #[serde(default, skip_serializing_if = "is_default")]
    pub cancel: bool,
    /// settings changed before serving
    #[serde(default, skip_serializing_if = "is_default")]
    pub buf: Option<usize>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub skip: Option<bool>,
}
impl RunP {
    pub fn new(gap_us: u64, stop_us: Option<u64>) -> Self {
        RunP { gap_us, stop_us, cancel: false, buf: None, skip: None }
    }
}
impl ServerP {
    /// (receive buffer, validation off) during the k-th serve call
    pub fn settings(&self, k: usize) -> (usize, bool) {
        let mut s = (self.buf.unwrap_or(1500), self.skip);
        for r in self.runs.iter().take(k + 1) {
            s = (r.buf.unwrap_or(s.0), r.skip.unwrap_or(s.1));
        }
        s
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ServerP {
    pub host: String,
    pub port: u16,
    pub buf: Option<usize>,
    pub skip: bool,
    pub peers: Vec<PeerP>,
    pub runs: Vec<RunP>,
    /// the server is dropped after its last serve call
    #[serde(default, skip_serializing_if = "is_default")]
    pub dropped: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Ok,
    Err,
    Panic,
    Never,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RespP {
    pub code: u8,
    #[serde(default, skip_serializing_if = "is_default")]
    pub attrs: Vec<(u8, Hx)>,
    /// (index into the attribute table, value)
    #[serde(default, skip_serializing_if = "is_default")]
    pub typed: Vec<(usize, Val)>,
    /// indices of attributes deleted again at the end
    #[serde(default, skip_serializing_if = "is_default")]
    pub dels: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Behave {
    pub pre_us: u64,
    pub yields: u8,
    pub respond: Option<RespP>,
    pub post_us: u64,
    pub end: End,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub at_us: u64,
    pub from: String,
    /// which of the servers
    #[serde(default, skip_serializing_if = "is_default")]
    pub srv: usize,
    pub data: Hx,
    /// one entry per handler call, the last one repeats
    pub behave: Vec<Behave>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ActKind {
    /// a correct response
    Good { code: u8, attrs: Vec<(u8, Hx)> },
    WrongSecret { code: u8, attrs: Vec<(u8, Hx)>, secret: Hx },
    /// correct response with one octet changed
    Flip { code: u8, attrs: Vec<(u8, Hx)>, off: u32, mask: u8 },
    Trunc { code: u8, attrs: Vec<(u8, Hx)>, n: u32 },
    Pad { code: u8, attrs: Vec<(u8, Hx)>, pad: Hx },
    /// correct response, but from this address
    FromOther { code: u8, attrs: Vec<(u8, Hx)>, from: String },
    /// what was first sent in answer to another call
    ReplayOf { call: usize },
    /// correctly keyed for another call's request
    CrossOf { call: usize, code: u8, attrs: Vec<(u8, Hx)> },
    /// response authenticator copied from the request
    EchoAuth { code: u8, attrs: Vec<(u8, Hx)> },
    ZeroAuth { code: u8, attrs: Vec<(u8, Hx)> },
    /// keyed correctly but with another identifier
    OtherId { code: u8, attrs: Vec<(u8, Hx)>, xor: u8 },
    Echo,
    Raw(Hx),
    /// octets with a correct response authenticator whatever they are
    SignedRaw { code: u8, body: Hx },
    Icmp { errno: i32 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Act {
    pub delay_us: u64,
    pub kind: ActKind,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CallP {
    pub at_us: u64,
    pub host: u32,
    pub client: usize,
    pub dest: String,
    pub secret: Hx,
    pub code: u8,
    pub id: Option<u8>,
    pub attrs: Vec<(u8, Hx)>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub typed: Vec<(usize, Val)>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub dels: Vec<usize>,
    /// repeats of the raw attributes (to make packets that do not fit)
    #[serde(default, skip_serializing_if = "is_default")]
    pub copies: u32,
    pub cancel_us: Option<u64>,
    /// the scripted peer's reaction
    pub acts: Vec<Act>,
    /// the real server's reaction
    pub behave: Vec<Behave>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MakeP {
    pub threads: usize,
    pub packets: usize,
    pub salts: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub focus: String,
    pub threads: usize,
    pub sched: SchedP,
    pub entropy: u64,
    pub step_ns: u64,
    pub latency_us: u64,
    pub rxq_cap: usize,
    pub icmp: bool,
    pub eph_range: u16,
    pub realtime_base_s: i64,
    pub clock_jumps: Vec<(u64, i64)>,
    pub fates: Vec<FateP>,
    pub partitions: Vec<(u64, u64, u8)>,
    pub sysfaults: Vec<SysFaultP>,
    /// spurious readiness of the server socket (None) or of a call's socket
    pub spurious: Vec<(u64, Option<usize>)>,
    /// (label, from, to): the send buffer of that socket is full
    #[serde(default, skip_serializing_if = "is_default")]
    pub sndfull: Vec<(u32, u64, u64)>,
    pub server: Option<ServerP>,
    /// another server in the same process
    #[serde(default, skip_serializing_if = "is_default")]
    pub server2: Option<ServerP>,
    pub ops: Vec<Op>,
    /// (connection timeout, socket timeout) in microseconds
    pub clients: Vec<(Option<u64>, Option<u64>)>,
    pub calls: Vec<CallP>,
    pub fakes: Vec<String>,
    pub make: Option<MakeP>,
    /// when to look at what the code holds
    #[serde(default, skip_serializing_if = "is_default")]
    pub mem: Vec<u64>,
    pub tail_us: u64,
}

impl Plan {
    pub fn behave_us(b: &[Behave]) -> u64 {
        b.iter().map(|x| x.pre_us + x.post_us).max().unwrap_or(0)
    }
    /// When the run ends: after everything planned could have happened.
    pub fn horizon_us(&self) -> u64 {
        let mut h = 0;
        for o in &self.ops {
            h = h.max(o.at_us + Self::behave_us(&o.behave));
        }
        for c in &self.calls {
            let net = self.fates.iter().map(|f| f.delay_us + f.dups.iter().max().copied().unwrap_or(0)).max().unwrap_or(0);
            let acts = c.acts.iter().map(|a| a.delay_us).max().unwrap_or(0);
            let to = self.clients.get(c.client).and_then(|x| x.1).unwrap_or(0);
            h = h.max(c.at_us + Self::behave_us(&c.behave) + acts.max(to) + 2 * net + 4 * self.latency_us);
        }
        for s in self.servers() {
            let mut t = 0;
            for r in &s.runs {
                t += r.gap_us + r.stop_us.unwrap_or(0);
            }
            h = h.max(t);
        }
        h = h.max(self.mem.last().copied().unwrap_or(0));
        h += self.sndfull.iter().map(|w| w.2 - w.1).sum::<u64>();
        h + self.tail_us
    }
    pub fn servers(&self) -> impl Iterator<Item = &ServerP> {
        self.server.iter().chain(self.server2.iter())
    }
    pub fn secret_at<'a>(&'a self, addr: &std::net::SocketAddr, t_us: u64) -> &'a SecretP {
        self.server.as_ref().map_or(&SecretP::Fail, |s| s.secret_at(addr, t_us))
    }
}
impl ServerP {
    pub fn peer(&self, addr: &std::net::SocketAddr) -> Option<&PeerP> {
        let full = addr.to_string();
        let ip = addr.ip().to_string();
        self.peers.iter().find(|p| p.addr == full).or_else(|| self.peers.iter().find(|p| p.addr == ip))
    }
    pub fn secret_at<'a>(&'a self, addr: &std::net::SocketAddr, t_us: u64) -> &'a SecretP {
        match self.peer(addr) {
            None => &SecretP::Fail,
            Some(p) => p.secrets.iter().rev().find(|x| x.0 <= t_us).map(|x| &x.1).unwrap_or(&SecretP::Fail),
        }
    }
    /// All values the peer's secret takes in a window.
    pub fn secrets_in<'a>(&'a self, addr: &std::net::SocketAddr, from_us: u64, to_us: u64) -> Vec<&'a SecretP> {
        let mut v = vec![self.secret_at(addr, from_us)];
        let mut extra: Vec<u64> = vec![];
        for p in &self.peers {
            for x in &p.secrets {
                if x.0 > from_us && x.0 <= to_us {
                    extra.push(x.0);
                }
            }
        }
        for t in extra {
            let k = self.secret_at(addr, t);
            if !v.contains(&k) {
                v.push(k);
            }
        }
        v
    }
}
