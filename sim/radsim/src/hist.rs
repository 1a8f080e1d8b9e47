//! The recorded history of one run.
use crate::attrs::Val;
use crate::reference::Attrs;
use std::net::SocketAddr;

#[derive(Clone, Debug, Hash)]
pub struct Typed {
    pub attr: usize,
    pub get: Option<Option<Val>>,
    pub all: Option<Option<Vec<Val>>>,
}
/// A packet as read back through the public accessors.
#[derive(Clone, Debug, Hash)]
pub struct Seen {
    pub code: u8,
    pub id: u8,
    pub auth: Vec<u8>,
    pub secret: Vec<u8>,
    /// in order, where the library can re-encode the packet
    pub ordered: Option<Attrs>,
    pub by_type: Vec<(u8, Vec<Vec<u8>>)>,
    pub typed: Vec<Typed>,
    /// tunnel passwords opened with the request's authenticator
    pub tunnel: Vec<Option<Val>>,
    pub dbg: String,
}
#[derive(Clone, Debug, Hash)]
pub enum CallRes {
    Ok(Box<Seen>),
    Err { kind: &'static str, addr: Option<String>, text: String, dbg: String },
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Src {
    Op(usize),
    Call(usize),
}
#[derive(Clone, Debug, Hash)]
pub enum Ev {
    Listen { s: usize, errno: Option<i32>, ok: bool, addr: Option<SocketAddr>, says: Result<SocketAddr, i32> },
    RunStart { s: usize, k: usize },
    Stop { s: usize, k: usize },
    RunEnd { s: usize, k: usize, errno: Option<i32>, err: Option<String> },
    Drop { s: usize },
    /// `nth`: which value of a spinning secret was given
    Fetch { s: usize, addr: SocketAddr, nth: Option<usize> },
    HStart { s: usize, inv: usize, remote: SocketAddr, local: SocketAddr, seen: Box<Seen>, src: Option<Src>, beh: usize },
    HReply { inv: usize, to: SocketAddr, code: u8, bytes: Vec<u8>, err: Option<i32> },
    HEncodeErr { inv: usize, text: String },
    HEnd { inv: usize, how: &'static str },
    CallMade { c: usize, wire: Result<Vec<u8>, String>, auth: Vec<u8>, id: u8, refused: Vec<usize>, vsa_len_bad: bool, gets: Vec<Typed> },
    CallStart { c: usize },
    CallEnd { c: usize, res: CallRes },
    CallCancelled { c: usize },
    /// what the typed functions complained of
    Errors { texts: Vec<String> },
    Made { thread: usize, auth: Vec<u8>, id: u8, given: Option<u8> },
    Salt { thread: usize, salt: Vec<u8> },
    Panic { msg: String, file: String, line: u32 },
    Log { text: String },
    Jump { ms: i64 },
    /// what the code under test holds: octets of memory and open descriptors
    Mem { live: usize, fds: usize },
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub seq: u64,
    pub t: u64,
    pub ev: Ev,
}
#[derive(Default)]
pub struct Hist {
    pub ev: Vec<Rec>,
    pub inv: usize,
    pub calls_made: usize,
}
static mut HIST: *mut Hist = std::ptr::null_mut();
pub fn reset() {
    unsafe { HIST = Box::into_raw(Box::default()) }
}
#[allow(static_mut_refs)]
pub fn h() -> &'static mut Hist {
    unsafe { &mut *HIST }
}
pub fn on() -> bool {
    unsafe { !HIST.is_null() }
}
pub fn rec(ev: Ev) {
    let _own = simcore::alloc::own();
    let seq = simcore::next_seq();
    h().ev.push(Rec { seq, t: simcore::now(), ev });
}
/// A copy that belongs to the history, not to the code under test.
pub fn keep<T: Clone>(x: &T) -> T {
    let _own = simcore::alloc::own();
    x.clone()
}
