//! Judges the recorded history of a run.
use crate::hist::{h, Ev, Seen, Src};
use crate::model::*;
use crate::plan::*;
use crate::reference as rf;
use crate::world::{plan, server_label, SERVER_HOST};
use simcore::{st, NetEv, US};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::SocketAddr;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<&'static str>,
    pub kind: String,
    pub msg: String,
}
#[derive(Default)]
pub struct Report {
    pub viol: Vec<Viol>,
    pub known: BTreeSet<&'static str>,
    /// how often each property was actually put to the test
    pub tested: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub errors: Vec<String>,
}
impl Report {
    pub fn bad(&mut self, tags: &[&'static str], kind: &str, msg: String) {
        let mut t: Vec<&'static str> = vec![];
        for x in tags {
            if !t.contains(x) {
                t.push(x);
            }
        }
        self.viol.push(Viol { tags: t, kind: kind.to_string(), msg });
    }
    pub fn t(&mut self, id: &'static str) {
        *self.tested.entry(id).or_insert(0) += 1;
    }
    pub fn probe(&mut self, id: &'static str) {
        *self.probes.entry(id).or_insert(0) += 1;
    }
}

pub const NOT: u64 = u64::MAX;

/// Quiescent points: every thread blocked, nothing left to do at that instant.
pub struct Quiet(pub Vec<(u64, u64)>);
impl Quiet {
    /// the first one at or after an event; NOT if the run ended before
    pub fn after(&self, seq: u64) -> u64 {
        let i = self.0.partition_point(|q| q.0 < seq);
        self.0.get(i).map_or(NOT, |q| q.0)
    }
    pub fn t_after(&self, seq: u64) -> u64 {
        let i = self.0.partition_point(|q| q.0 < seq);
        self.0.get(i).map_or(NOT, |q| q.1)
    }
    /// the first one at or after a time
    pub fn at(&self, t: u64) -> u64 {
        let i = self.0.partition_point(|q| q.1 < t);
        self.0.get(i).map_or(NOT, |q| q.0)
    }
    pub fn last_t(&self) -> u64 {
        self.0.last().map_or(0, |q| q.1)
    }
    pub fn last_seq(&self) -> u64 {
        self.0.last().map_or(0, |q| q.0)
    }
}

pub struct RecvE {
    pub seq: u64,
    pub t: u64,
    pub src: SocketAddr,
    pub data: Rc<Vec<u8>>,
    pub given: usize,
    pub id: u64,
    pub can: bool,
    pub must: bool,
    pub pkt: Option<rf::Pkt>,
    pub keys: Vec<Vec<u8>>,
    pub by: Option<usize>,
    pub q: u64,
    pub bufsz: usize,
    pub skip: bool,
}
impl RecvE {
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.given]
    }
}
pub struct HandE<'a> {
    pub inv: usize,
    pub seq: u64,
    pub t: u64,
    pub remote: SocketAddr,
    pub local: SocketAddr,
    pub seen: &'a Seen,
    pub src: Option<Src>,
    pub beh: usize,
    pub end: Option<(u64, u64, &'static str)>,
    pub recv: Option<usize>,
}
/// Datagrams a serve call may take while its shutdown is due; it looks at the shutdown with even odds every 128 of them.
const FLOOD: usize = 6_000;
struct RunE {
    start: u64,
    stop: Option<u64>,
    end: Option<u64>,
    errno: Option<i32>,
    err: Option<String>,
}

pub fn by_type(attrs: &rf::Attrs) -> Vec<(u8, Vec<Vec<u8>>)> {
    let mut m: BTreeMap<u8, Vec<Vec<u8>>> = BTreeMap::new();
    for (t, v) in attrs {
        m.entry(*t).or_default().push(v.clone());
    }
    m.into_iter().collect()
}
/// None: the packet object says what the octets say
pub fn seen_differs(s: &Seen, p: &rf::Pkt) -> Option<&'static str> {
    if s.code != rf::code_as_seen(p.code) {
        return Some("code");
    }
    if s.id != p.id {
        return Some("identifier");
    }
    if s.auth != p.auth {
        return Some("authenticator");
    }
    if s.ordered.as_ref().is_some_and(|o| *o != p.attrs) {
        return Some("attribute list");
    }
    if s.by_type != by_type(&p.attrs) {
        return Some("attributes by lookup");
    }
    None
}

pub struct Ctx<'a> {
    pub p: &'static Plan,
    pub q: Quiet,
    pub hands: Vec<HandE<'a>>,
    pub recvs: Vec<RecvE>,
    /// (inv, to, code, bytes, err, seq)
    pub replies: Vec<(usize, SocketAddr, u8, &'a Vec<u8>, Option<i32>, u64)>,
    pub slack_ns: u64,
}

pub fn judge(outcome: &str) -> Report {
    let mut r = Report::default();
    let p = plan();
    let s = st();
    let stalls: u64 = s.recorded.iter().map(|x| x.2 as u64).sum();
    let slack_ns = 4_000_000 + stalls * US + s.steps * s.cfg.step_ns;
    let mut cx = Ctx { p, q: Quiet(s.quiescent.clone()), hands: vec![], recvs: vec![], replies: vec![], slack_ns };
    if outcome == "main-died" {
        r.errors.push("the world's own task ended early".into());
    }
    if outcome != "end" && outcome != "main-died" {
        let mut tags = vec![];
        if p.server.is_some() {
            tags.extend(["C02", "C03", "C05", "C06", "C14", "C15"]);
        }
        if !p.calls.is_empty() {
            tags.extend(["C10", "C11", "C12"]);
        }
        r.bad(&tags, &format!("stuck-{outcome}"), format!("the system came to a standstill: {outcome}"));
    }
    panics(&mut r);
    for n in (0..p.servers().count()).rev() {
        server(&mut r, &mut cx, n);
    }
    if !p.calls.is_empty() {
        crate::oracle_client::client(&mut r, &cx);
    }
    if p.make.is_some() {
        crate::oracle_client::entropy(&mut r);
    }
    if !p.mem.is_empty() && outcome == "end" {
        holdings(&mut r);
    }
    crate::oracle_client::leaks(&mut r);
    if p.focus == "C23" {
        // the named values this build sends
        for (typ, sent, assigned, name) in crate::attrs::values() {
            if sent != assigned {
                r.bad(&["C23"], "named-value", format!("{name} (attribute {typ}) is sent as {sent}; its dictionary assigns {assigned}"));
            }
        }
    }
    r
}

/// What is held once a round of work is over may not grow from round to round.
fn holdings(r: &mut Report) {
    let ev = &h().ev;
    // (octets, descriptors, work done so far) at every probe with nothing in progress
    let mut at: Vec<(usize, usize, u64)> = vec![];
    let (mut done, mut busy, mut serving) = (0u64, 0i64, 0usize);
    let want = plan().servers().count();
    for e in ev {
        match &e.ev {
            Ev::HStart { .. } | Ev::CallMade { .. } => busy += 1,
            Ev::HEnd { .. } | Ev::CallEnd { .. } | Ev::CallCancelled { .. } => {
                busy -= 1;
                done += 1;
            }
            Ev::Fetch { .. } => done += 1,
            Ev::RunStart { .. } => serving += 1,
            Ev::RunEnd { .. } => {
                serving -= 1;
                done += 1;
            }
            Ev::Mem { live, fds } if busy == 0 && serving == want => at.push((*live, *fds, done)),
            _ => {}
        }
    }
    if at.len() < 6 {
        return;
    }
    // the first two rounds settle the sizes of buffers
    let work: Vec<u64> = (0..at.len()).map(|k| at[k].2 - if k > 0 { at[k - 1].2 } else { 0 }).collect();
    if work[2..].iter().max().unwrap() > &(2 * work[0].min(work[1]) + 4) {
        return;
    }
    r.t("C28");
    let at = &at[2..];
    let (a, b) = at.split_at(at.len() / 2);
    let n = b.last().unwrap().2 - a[0].2;
    let most = |f: fn(&(usize, usize, u64)) -> usize| (a.iter().map(f).max().unwrap(), b.iter().map(f).min().unwrap());
    let (x, y) = most(|m| m.1);
    if y > x {
        r.bad(&["C28", "C12"], "descriptors-grow", format!("with nothing in progress {y} descriptors are open, {x} rounds before ({n} pieces of work later)"));
    }
    let (x, y) = most(|m| m.0);
    if y > x + 1024 {
        r.bad(&["C28"], "memory-grows", format!("with nothing in progress {y} octets are held, {x} rounds before ({n} pieces of work later)"));
    }
}

fn panics(r: &mut Report) {
    let p = plan();
    for e in &h().ev {
        if let Ev::Panic { msg, file, line } = &e.ev {
            if msg.contains("SIM-PANIC") {
                continue;
            }
            if p.make.is_some() && st().net.log.iter().any(|x| matches!(x.ev, NetEv::Fault { call: "getrandom", errno, .. } if errno > 0 && errno != libc::EINTR)) {
                continue;
            }
            // println! panics when it cannot print; it does so in the task of the request only
            if msg.starts_with("failed printing to stdout") && st().net.log.iter().any(|x| matches!(x.ev, NetEv::Fault { call: "stdout", .. })) {
                continue;
            }
            if file.contains("radsim/src") || file.contains("simcore/src") {
                r.errors.push(format!("harness panic: {msg} at {file}:{line}"));
                continue;
            }
            let mut tags = vec!["C27"];
            if p.server.is_some() {
                tags.push("C06");
                if file.contains("server.rs") {
                    tags.push("C05");
                }
            }
            if !p.calls.is_empty() {
                tags.push("C11");
            }
            if p.make.is_some() {
                tags.push("C16");
            }
            r.bad(&tags, "panic", format!("library panic at t={} us: {msg} ({file}:{line})", e.t / US));
        }
    }
}

/// Whether a handler call may stem from a datagram.
fn fits(d: &RecvE, x: &HandE) -> bool {
    d.can && d.seq < x.seq && x.seq <= d.q && d.src == x.remote && d.pkt.as_ref().is_some_and(|k| seen_differs(x.seen, k).is_none())
}

/// Find a datagram for a call; calls that have one may have to take another (an augmenting path).
fn rearrange(recvs: &mut [RecvE], hands: &mut [HandE], hi: usize, tried: &mut Vec<usize>) -> bool {
    for i in 0..recvs.len() {
        if tried.contains(&i) || !fits(&recvs[i], &hands[hi]) || !recvs[i].keys.contains(&hands[hi].seen.secret) {
            continue;
        }
        tried.push(i);
        if recvs[i].by.is_none_or(|o| rearrange(recvs, hands, o, tried)) {
            recvs[i].by = Some(hi);
            hands[hi].recv = Some(i);
            return true;
        }
    }
    false
}

fn server<'a>(r: &mut Report, cx: &mut Ctx<'a>, n: usize) {
    let p = cx.p;
    let sp = p.servers().nth(n).unwrap();
    let label = server_label(n);
    cx.hands.clear();
    cx.recvs.clear();
    cx.replies.clear();
    let log = &st().net.log;
    let mut listen: Option<SocketAddr> = None;
    let mut listened = false;
    let mut dropped: Option<u64> = None;
    let mut runs: Vec<RunE> = vec![];
    let mut hands: Vec<HandE> = vec![];
    let mut idx: HashMap<usize, usize> = HashMap::new();
    for e in &h().ev {
        match &e.ev {
            Ev::Listen { s, ok, errno, addr, says } if *s == n => {
                listened = *ok;
                listen = *addr;
                let met = |calls: &[&str]| -> Vec<i32> {
                    let at = |x: &simcore::Rec| match &x.ev {
                        NetEv::Fault { label: l, call, errno, .. } if *l == label && x.seq < e.seq && calls.contains(call) => Some(*errno),
                        _ => None,
                    };
                    log.iter().filter_map(at).collect()
                };
                // one address after the other is tried
                let ips = if met(&["resolve"]).is_empty() { crate::world::ips_of(&sp.host) } else { vec![] };
                let f = met(&["socket", "bind", "clash", "epoll_add"]);
                if f.len() < ips.len() {
                    r.t("C07");
                    if !*ok {
                        r.bad(&["C15", "C07"], "listen-refused", format!("listening at {}:{} failed ({errno:?}) although {} could be bound", sp.host, sp.port, ips[f.len()]));
                    } else if *addr != Some(SocketAddr::new(ips[f.len()], sp.port)) {
                        r.bad(&["C15", "C07"], "listen-elsewhere", format!("listening at {}:{} bound {addr:?}", sp.host, sp.port));
                    }
                } else {
                    r.t("C15");
                    let want = f.last().copied().or(met(&["resolve"]).last().copied().filter(|x| *x > 0));
                    if *ok {
                        r.bad(&["C15"], "listen-ok", format!("listen at {} met errno {want:?} and reported success", sp.host));
                    } else if *errno != want {
                        r.bad(&["C15"], "listen-error", format!("listen at {} met errno {want:?} and reported {errno:?}", sp.host));
                    }
                }
                if *ok {
                    let f = log.iter().find_map(|x| match &x.ev {
                        NetEv::Fault { label: l, call: "getsockname", errno, .. } if *l == label && x.seq < e.seq => Some(*errno),
                        _ => None,
                    });
                    r.t("C07");
                    match (f, says) {
                        (None, Ok(a)) if Some(*a) == *addr => {}
                        (Some(x), Err(y)) if x == *y => {}
                        // asked more than once
                        (Some(_), Ok(a)) if Some(*a) == *addr => {}
                        _ => r.bad(&["C07", "C15"], "listen-address", format!("the server is bound to {addr:?} and reports {says:?} as its address (fault {f:?})")),
                    }
                }
            }
            Ev::RunStart { s, .. } if *s == n => runs.push(RunE { start: e.seq, stop: None, end: None, errno: None, err: None }),
            Ev::Stop { s, .. } if *s == n => runs.last_mut().unwrap().stop = Some(e.seq),
            Ev::RunEnd { s, errno, err, .. } if *s == n => {
                let x = runs.last_mut().unwrap();
                x.end = Some(e.seq);
                x.errno = *errno;
                x.err = err.clone();
            }
            Ev::Drop { s } if *s == n => dropped = Some(e.seq),
            Ev::HStart { s, inv, remote, local, seen, src, beh } if *s == n => {
                idx.insert(*inv, hands.len());
                hands.push(HandE { inv: *inv, seq: e.seq, t: e.t, remote: *remote, local: *local, seen, src: *src, beh: *beh, end: None, recv: None });
            }
            Ev::HEnd { inv, how } => {
                if let Some(&i) = idx.get(inv) {
                    hands[i].end = Some((e.seq, e.t, how));
                }
            }
            Ev::HReply { inv, to, code, bytes, err } if idx.contains_key(inv) => cx.replies.push((*inv, *to, *code, bytes, *err, e.seq)),
            _ => {}
        }
    }
    if !listened {
        return;
    }
    let Some(sock) = log.iter().rev().find_map(|e| match &e.ev {
        NetEv::Bind { sock, addr } if st().net.socks[*sock].host == SERVER_HOST && st().net.socks[*sock].label == label && addr.port() == sp.port => Some(*sock),
        _ => None,
    }) else {
        return;
    };
    // ---- datagrams taken off the socket
    // what applies to something received at `seq` and processed by `q`
    let settings = |seq: u64, q: u64| -> Vec<(usize, bool)> {
        let k = runs.iter().rposition(|x| x.start < seq).unwrap_or(0);
        let mut v = vec![sp.settings(k)];
        v.extend((k + 1..runs.len()).filter(|&i| runs[i].start <= q).map(|i| sp.settings(i)));
        v
    };
    let mut recvs: Vec<RecvE> = vec![];
    let fetches: Vec<(u64, SocketAddr, usize)> = h()
        .ev
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Fetch { s, addr, nth: Some(k) } if *s == n => Some((e.seq, *addr, *k)),
            _ => None,
        })
        .collect();
    let mut gsn_faults: Vec<u64> = vec![];
    let mut recv_errs: Vec<(u64, i32)> = vec![];
    let mut transient: Vec<u64> = vec![];
    for e in log {
        match &e.ev {
            NetEv::Recv { sock: k, id, src, data, given, .. } if *k == sock => {
                let q = cx.q.after(e.seq);
                let tq = cx.q.t_after(e.seq);
                let to = if tq == NOT { e.t + cx.slack_ns } else { tq };
                let b = &data[..*given];
                let set = settings(e.seq, if q == NOT { e.seq } else { q });
                let bufsz = set[0].0;
                let skips = [set.iter().any(|x| x.1), set.iter().all(|x| x.1)];
                let mut can = false;
                let mut must = true;
                let mut keys = vec![];
                let spin = sp.peer(src).map_or(&[][..], |x| &x.spin);
                let answers: Vec<&SecretP> = if spin.is_empty() {
                    sp.secrets_in(src, e.t / US, to / US + 1)
                } else {
                    fetches.iter().filter(|f| f.1 == *src && f.0 > e.seq && f.0 <= q).map(|f| &spin[f.2]).collect()
                };
                if !spin.is_empty() && answers.is_empty() {
                    // nobody asked: nothing can have been verified, but it may have had to be
                    must = spin.iter().all(|s| matches!(s, SecretP::Key(k) if !k.0.is_empty() && rf::request_authentic(b, &k.0) && (rf::parse(b).is_some() || !skips[0])));
                }
                for s in answers {
                    let (may, sure) = match s {
                        SecretP::Key(key) if !key.0.is_empty() => {
                            let formed = rf::parse(b).is_some();
                            let real = rf::request_authentic(b, &key.0);
                            let may = real || (skips[0] && formed);
                            if may {
                                keys.push(key.0.clone());
                            }
                            (may, real && (formed || !skips[0]) || (skips[1] && formed))
                        }
                        _ => (false, false),
                    };
                    can |= may;
                    must &= sure;
                }
                if *given < data.len().min(bufsz) {
                    let again = runs.iter().position(|x| x.start > e.seq).unwrap_or(runs.len()) > 1;
                    r.bad(
                        if again { &["C21", "C14"] } else { &["C21"] },
                        "buffer",
                        format!("a datagram of {} octets was received into {} octets; the configured buffer is {bufsz}", data.len(), given),
                    );
                }
                recvs.push(RecvE { seq: e.seq, t: e.t, src: *src, data: data.clone(), given: *given, id: *id, can, must, pkt: rf::parse(b), keys, by: None, q, bufsz, skip: skips[0] });
            }
            NetEv::RecvErr { sock: k, errno } if *k == sock => recv_errs.push((e.seq, *errno)),
            NetEv::Fault { label: l, call, .. } if *l == label => {
                if *call == "stdout" {
                    continue;
                }
                if *call == "getsockname" {
                    gsn_faults.push(e.seq);
                }
                transient.push(e.seq);
            }
            _ => {}
        }
    }
    // ---- every handler call stems from one delivered, valid datagram
    let mut by_pair: HashMap<(SocketAddr, u8), Vec<usize>> = HashMap::new();
    for (i, d) in recvs.iter().enumerate() {
        if let Some(k) = &d.pkt {
            by_pair.entry((d.src, k.id)).or_default().push(i);
        }
    }
    for hi in 0..hands.len() {
        let x = &hands[hi];
        // of two equal datagrams, the one the secret belongs to
        let own = by_pair.get(&(x.remote, x.seen.id)).map_or(&[][..], |v| v);
        let hit = own.iter().copied().find(|&k| recvs[k].by.is_none() && fits(&recvs[k], x) && recvs[k].keys.contains(&x.seen.secret));
        let hit = match hit {
            None => {
                // which of several equal datagrams each call stems from is worked out together
                rearrange(&mut recvs, &mut hands, hi, &mut vec![]);
                hands[hi].recv.or_else(|| recvs.iter().position(|d| d.by.is_none() && fits(d, &hands[hi])))
            }
            hit => hit,
        };
        let x = &mut hands[hi];
        if let Some(i) = hit {
            recvs[i].by = Some(hi);
            x.recv = Some(i);
            r.t("C01");
            r.t("C07");
            r.t("C02");
            if !x.seen.typed.is_empty() {
                r.t("C27");
            }
            if let Some(w) = reads_differ(&recvs[i].pkt.as_ref().unwrap().attrs, &x.seen.typed, &x.seen.auth, &x.seen.secret, &mut r.known) {
                r.bad(&["C27", "C07", "C23"], "typed-reading", format!("request from {}: {w}", x.remote));
            }
            if Some(x.local) != listen {
                r.bad(&["C07"], "local-address", format!("request reports local address {} instead of {:?}", x.local, listen));
            }
            if !recvs[i].keys.contains(&x.seen.secret) {
                r.bad(&["C13"], "secret", format!("request from {} carries a secret that is not the one provided for it", x.remote));
            }
            let bufsz = recvs[i].bufsz;
            if recvs[i].data.len() > bufsz && recvs[i].pkt.as_ref().is_some_and(|k| k.len > bufsz) {
                r.bad(&["C21"], "oversize-handled", "a packet larger than the receive buffer was handled".into());
            }
            continue;
        }
        explain(r, sp, x, &recvs);
    }
    // ---- every valid delivered datagram is handled, unless its pair is busy
    let mut intervals: HashMap<(SocketAddr, u8), Vec<usize>> = HashMap::new();
    for (i, x) in hands.iter().enumerate() {
        intervals.entry((x.remote, x.seen.id)).or_default().push(i);
    }
    let end_seq = |x: &HandE| x.end.map_or(NOT, |e| e.0);
    // the handler calls begun so far, those still going on, and those that end badly
    let (mut begun, mut active, mut bad, mut bad_of) = (0, vec![], 0usize, HashMap::new());
    for i in 0..recvs.len() {
        let d = &recvs[i];
        let fits = d.given == d.data.len();
        if !d.can {
            match (&d.pkt, fits) {
                (None, true) => {
                    r.t("C06");
                    r.probe("malformed_received");
                }
                (None, false) => r.t("C21"),
                (Some(_), _) => {
                    r.t("C01");
                    r.probe("inauthentic_received");
                    if sp.secret_at(&d.src, d.t / US) == &SecretP::Empty || !matches!(sp.secret_at(&d.src, d.t / US), SecretP::Key(_)) {
                        r.t("C13");
                    }
                }
            }
            continue;
        }
        let pk = d.pkt.as_ref().unwrap();
        let key = (d.src, pk.id);
        if d.data.len() + 40 >= d.bufsz || d.bufsz != 1500 {
            r.t("C21");
        }
        let empty = vec![];
        let runs_of = intervals.get(&key).unwrap_or(&empty);
        if runs_of.iter().any(|&y| hands[y].end.is_some_and(|e| e.0 < d.seq)) && d.must {
            r.t("C04");
            if runs_of.iter().any(|&y| hands[y].end.is_some_and(|e| e.0 < d.seq && e.2 == "panic")) {
                r.probe("reuse_after_panic");
            }
        }
        while begun < hands.len() && hands[begun].seq < d.seq {
            let y = &hands[begun];
            active.push(begun);
            if matches!(y.end, Some((_, _, "err" | "panic"))) {
                bad += 1;
                *bad_of.entry((y.remote, y.seen.id)).or_insert(0usize) += 1;
            }
            begun += 1;
        }
        active.retain(|&k| end_seq(&hands[k]) > d.seq);
        let others_busy = active.iter().any(|&k| (hands[k].remote, hands[k].seen.id) != key);
        let others_bad = bad > bad_of.get(&key).copied().unwrap_or(0);
        if others_busy || others_bad {
            r.t("C05");
        }
        if sp.peers.len() > 1 || sp.peers.iter().any(|x| x.secrets.len() > 1 || !x.spin.is_empty()) {
            r.t("C13");
        }
        if d.by.is_some() {
            r.probe("handled");
            continue;
        }
        if !d.must || d.q == NOT {
            continue;
        }
        let next = recvs.get(i + 1).map_or(NOT, |x| x.seq);
        if gsn_faults.iter().any(|&f| f > d.seq && f < next) {
            r.probe("local_address_fault");
            r.t("C15");
            continue;
        }
        let busy = runs_of.iter().any(|&y| {
            let a = hands[y].recv.map_or(hands[y].seq, |k| recvs[k].seq);
            let b = hands[y].end.map_or(NOT, |e| cx.q.after(e.0));
            a <= d.q && b >= d.seq
        });
        if busy {
            r.t("C03");
            r.probe("duplicate_dropped");
            continue;
        }
        let mut tags = vec!["C02"];
        if runs_of.iter().any(|&y| end_seq(&hands[y]) < d.seq) {
            tags.push("C04");
        }
        if others_busy || others_bad {
            tags.push("C05");
        }
        if recvs[..i].iter().any(|x| !x.can) {
            tags.push("C06");
        }
        if d.skip || d.data.len() == pk.len {
            tags.push("C01");
        }
        if d.bufsz != 1500 || d.data.len() > 1000 {
            tags.push("C21");
        }
        if d.data.len() > pk.len {
            tags.push("C07");
        }
        if runs.iter().any(|x| x.end.is_some_and(|e| e < d.seq)) {
            tags.push("C14");
        }
        if !transient.is_empty() || !recv_errs.is_empty() || st().counters.contains_key("spurious_ready") {
            tags.push("C15");
        }
        if sp.peers.len() > 1 || sp.peers.iter().any(|x| x.secrets.len() > 1 || !x.spin.is_empty()) {
            tags.push("C13");
        }
        r.bad(
            &tags,
            "not-handled",
            format!(
                "valid request (code {}, identifier {}, {} octets) from {} received at t={} us was never handled although nothing was in progress for it",
                pk.code,
                pk.id,
                d.data.len(),
                d.src,
                d.t / US
            ),
        );
    }
    // ---- at most one in flight per pair
    for (key, v) in &intervals {
        for w in v.windows(2) {
            let (a, b) = (&hands[w[0]], &hands[w[1]]);
            if end_seq(a) > b.seq {
                r.bad(
                    &["C03"],
                    "overlap",
                    format!("two handler calls in progress for {} identifier {}: started at t={} us and t={} us", key.0, key.1, a.t / US, b.t / US),
                );
            }
        }
    }
    // ---- handlers run to completion
    for x in &hands {
        match x.end {
            Some((seq, _, "dropped")) => {
                r.bad(&["C14", "C02", "C05"], "handler-dropped", format!("handler call for {} was dropped before it finished (event {seq})", x.remote));
            }
            None => {
                let b = match x.src {
                    Some(Src::Op(i)) => p.ops[i].behave.get(x.beh),
                    Some(Src::Call(c)) => p.calls[c].behave.get(x.beh),
                    None => None,
                };
                let (dur, never) = b.map_or((0, false), |b| (b.pre_us + b.post_us, b.end == End::Never));
                // its reply may have to wait for room in the send buffer
                let full = p.sndfull.iter().map(|w| w.2 - w.1).sum::<u64>();
                let due = x.t + (dur + full) * US + 4_000_000 + cx.slack_ns;
                if !never && cx.q.last_t() > due {
                    let mut tags = vec!["C05"];
                    if runs.iter().any(|k| k.stop.is_some_and(|e| e > x.seq)) {
                        tags.push("C14");
                    }
                    r.bad(&tags, "handler-stuck", format!("handler call for {} started at t={} us never finished", x.remote, x.t / US));
                }
            }
            _ => {}
        }
    }
    // ---- the serve call
    for (i, k) in runs.iter().enumerate() {
        let lim = k.end.unwrap_or(NOT);
        if let Some(us) = sp.runs.get(i).and_then(|x| x.stop_us) {
            // its timer runs from the first look at the shutdown future, in steps of a millisecond
            let due = cx.q.t_after(k.start).saturating_add(us * US + 2_000_000);
            r.t("C14");
            let q = cx.q.at(due.saturating_add(cx.slack_ns));
            if q != NOT && k.end.is_none_or(|e| e > q) {
                r.bad(&["C14"], "shutdown-unnoticed", format!("the shutdown future was due by t={} us and the serve call went on", due / US));
            }
            // whatever keeps arriving
            let got = recvs.iter().filter(|x| x.seq > k.start && x.seq < lim && x.t > due).count();
            if got > FLOOD {
                r.bad(&["C14"], "shutdown-starved", format!("{got} datagrams were received after the shutdown future was due, before the serve call ended"));
            }
        }
        let fault = recv_errs.iter().find(|f| f.0 > k.start && f.0 < lim && f.1 != libc::EAGAIN && f.1 != libc::EINTR);
        if let Some(stop) = k.stop {
            r.t("C14");
            let q = cx.q.after(stop);
            if q != NOT && k.end.is_none_or(|e| e > q) {
                r.bad(&["C14"], "shutdown-late", "the serve call did not return promptly after the shutdown future resolved".into());
            }
        }
        if let Some(f) = fault {
            r.t("C15");
            let q = cx.q.after(f.0);
            if q != NOT && k.end.is_none_or(|e| e > q) {
                r.bad(&["C15"], "recv-error-swallowed", format!("the socket's receive failed with errno {} and the serve call went on", f.1));
            }
        }
        if k.end.is_some() {
            match (&k.err, fault, k.stop) {
                (None, None, None) => r.bad(&["C14", "C15", "C06", "C02"], "run-ended", "the serve call returned success without a shutdown".into()),
                (None, Some(f), None) => r.bad(&["C15"], "recv-error-success", format!("the serve call returned success after errno {}", f.1)),
                (Some(e), None, s) => r.bad(if s.is_some() { &["C14", "C15", "C06", "C02", "C05"] } else { &["C15", "C06", "C02", "C05"] }, "run-failed", format!("the serve call failed without a receive failure: {e}")),
                (Some(e), Some(f), _) => {
                    if k.errno != Some(f.1) {
                        r.bad(&["C15"], "recv-error-changed", format!("receive failed with errno {}, the serve call reported {e}", f.1));
                    }
                }
                _ => {}
            }
        }
    }
    // ---- a dropped server lets go of its socket once nothing uses it
    if let Some(d) = dropped {
        let last = hands.iter().map(|x| x.end.map_or(NOT, |e| e.0)).chain([d]).max().unwrap();
        let q = if last == NOT { NOT } else { cx.q.after(last) };
        if q != NOT {
            r.t("C14");
            if !log.iter().any(|e| e.seq <= q && matches!(e.ev, NetEv::Close { sock: k } if k == sock)) {
                r.bad(&["C14"], "socket-kept", "the server was dropped and its last handler call has ended, but its socket is still open".into());
            }
        }
    }
    // ---- nothing is taken off the socket and handled outside a serve call
    for d in &recvs {
        if d.by.is_some() && !runs.iter().any(|k| k.start < d.seq && k.end.is_none_or(|e| e > d.seq)) {
            r.bad(&["C14"], "handled-after-shutdown", format!("a datagram received at t={} us, while the server was not serving, was handled", d.t / US));
        }
    }
    // ---- what arrives while serving is taken off the socket
    let got: HashMap<u64, u64> = recvs.iter().map(|d| (d.id, d.seq)).collect();
    for e in log {
        let NetEv::Arrive { sock: k, id, data, .. } = &e.ev else { continue };
        if *k != sock {
            continue;
        }
        let active = runs.iter().find(|k| k.start < e.seq && k.end.is_none_or(|x| x > e.seq));
        let (from, run) = match active {
            Some(k) => (e.seq, k),
            None => match runs.iter().find(|k| k.start > e.seq) {
                Some(k) => (k.start, k),
                None => continue,
            },
        };
        let q = cx.q.after(from);
        if q == NOT || run.end.is_some_and(|x| x <= q) || run.stop.is_some_and(|x| x <= q) {
            continue;
        }
        if active.is_none() {
            r.t("C14");
        }
        if got.get(id).is_some_and(|s| *s <= q) {
            continue;
        }
        let mut tags = vec!["C02", "C05"];
        if recvs.iter().any(|x| !x.can && x.seq < e.seq) {
            tags.push("C06");
        }
        if active.is_none() || runs.len() > 1 {
            tags.push("C14");
        }
        if !transient.is_empty() || !recv_errs.is_empty() || st().counters.contains_key("spurious_ready") {
            tags.push("C15");
        }
        r.bad(&tags, "not-received", format!("a datagram of {} octets that arrived at t={} us while serving was not taken off the socket", data.len(), e.t / US));
    }
    // ---- replies
    let mut sent: Vec<(u64, SocketAddr, &Rc<Vec<u8>>)> = vec![];
    for e in log {
        if let NetEv::Send { sock: k, dst, data, .. } = &e.ev {
            if *k == sock {
                sent.push((e.seq, *dst, data));
            }
        }
    }
    let mut used = vec![false; cx.replies.len()];
    let last = cx.q.last_seq();
    for (seq, dst, data) in &sent {
        let hit = (0..used.len()).find(|&k| !used[k] && cx.replies[k].4.is_none() && cx.replies[k].1 == *dst && cx.replies[k].3 == &***data);
        match hit {
            Some(k) => used[k] = true,
            None if *seq > last => {}
            None => r.bad(&["C01", "C13", "C18"], "unasked-reply", format!("the server sent {} octets to {dst} that no handler asked for", data.len())),
        }
    }
    // ---- the handler's packet is encoded exactly when the protocol can carry it
    let encs = h().ev.iter().filter_map(|e| match &e.ev {
        Ev::HReply { inv, .. } => Some((*inv, None)),
        Ev::HEncodeErr { inv, text } => Some((*inv, Some(text))),
        _ => None,
    });
    for (inv, err) in encs {
        let Some(x) = idx.get(&inv).map(|&i| &hands[i]) else { continue };
        let b = match x.src {
            Some(Src::Op(i)) => p.ops[i].behave.get(x.beh),
            Some(Src::Call(c)) => p.calls[c].behave.get(x.beh),
            None => None,
        };
        let Some(resp) = b.and_then(|b| b.respond.as_ref()) else { continue };
        let m = model(&resp.attrs, 1, &resp.typed, &resp.dels, &x.seen.auth, &x.seen.secret);
        let (size, big) = m.size();
        if m.unclear() {
            continue;
        }
        let refuse = big || size > 4096 || !rf::sendable(rf::code_as_seen(resp.code));
        if refuse || size > 3000 {
            r.t("C24");
        }
        if refuse != err.is_some() {
            r.bad(
                &["C24", "C08"],
                if refuse { "encoded-unsendable" } else { "refused-sendable" },
                format!("response with code {} of {size} octets (value above 253: {big}): encoding says {err:?}", resp.code),
            );
        }
    }
    for (inv, _, code, bytes, err, _) in &cx.replies {
        let Some(&i) = idx.get(inv) else { continue };
        let x = &hands[i];
        if err.is_some() {
            r.t("C15");
        }
        let Some(ri) = x.recv else { continue };
        let req = recvs[ri].bytes();
        if !matches!(code, 2 | 3 | 5 | 11 | 41 | 42 | 44 | 45) {
            continue;
        }
        r.t("C18");
        let why = if bytes.len() < 20 {
            Some("shorter than a header")
        } else if bytes[0] != *code {
            Some("code differs")
        } else if bytes[1] != req[1] {
            Some("identifier differs from the request's")
        } else if u16::from_be_bytes([bytes[2], bytes[3]]) as usize != bytes.len() {
            Some("length field differs from its size")
        } else if !rf::response_authentic(bytes, req, &x.seen.secret) {
            Some("response authenticator does not verify")
        } else {
            None
        };
        if let Some(w) = why {
            r.bad(&["C18", "C08"], "response", format!("response to {} (code {code}): {w}", x.remote));
            continue;
        }
        if bytes.len() > 4096 {
            r.bad(&["C24"], "response-size", format!("response of {} octets", bytes.len()));
        }
        let b = match x.src {
            Some(Src::Op(i)) => p.ops[i].behave.get(x.beh),
            Some(Src::Call(c)) => p.calls[c].behave.get(x.beh),
            None => None,
        };
        if let (Some(resp), Some(pk)) = (b.and_then(|b| b.respond.as_ref()), rf::parse(bytes)) {
            let m = model(&resp.attrs, 1, &resp.typed, &resp.dels, &req[4..20], &x.seen.secret);
            r.t("C23");
            if let Some(w) = m.differs(&pk.attrs, &mut r.known) {
                r.bad(&["C23", "C08"], "response-attributes", format!("response to {}: {w}", x.remote));
            }
        }
    }
    verdicts(r, cx, &hands, &recvs, &idx);
    request_verdicts(r, cx, sp, &recvs);
    cx.hands = hands;
    cx.recvs = recvs;
}

/// The library's own verdict on responses, genuine and altered, against the reference.
fn verdicts(r: &mut Report, cx: &Ctx, hands: &[HandE], recvs: &[RecvE], idx: &HashMap<usize, usize>) {
    use radius::core::packet::Packet;
    let mut rng = simcore::Rng::derive(cx.p.seed, 4242);
    let mut pool: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
    for (inv, _, _, bytes, _, _) in cx.replies.iter().take(24) {
        let Some(&i) = idx.get(inv) else { continue };
        let Some(ri) = hands[i].recv else { continue };
        pool.push((bytes.to_vec(), recvs[ri].bytes().to_vec(), hands[i].seen.secret.clone()));
    }
    // responses as they arrived at the clients
    for e in &st().net.log {
        if pool.len() > 60 {
            break;
        }
        if let NetEv::Recv { sock, data, .. } = &e.ev {
            let l = st().net.socks[*sock].label;
            if l > 0 && l as usize <= cx.p.calls.len() {
                let c = l as usize - 1;
                let w = h().ev.iter().find_map(|x| match &x.ev {
                    Ev::CallMade { c: k, wire: Ok(w), .. } if *k == c => Some(w.clone()),
                    _ => None,
                });
                if let Some(w) = w {
                    pool.push(((**data).clone(), w, cx.p.calls[c].secret.0.clone()));
                }
            }
        }
    }
    let n = pool.len();
    for k in 0..n {
        let (resp, req, sec) = pool[k].clone();
        let mut cases: Vec<(&str, Vec<u8>, Vec<u8>, Vec<u8>)> = vec![("as is", resp.clone(), req.clone(), sec.clone())];
        for _ in 0..3 {
            let mut b = resp.clone();
            if b.is_empty() {
                continue;
            }
            let o = if rng.chance(1, 2) { rng.below(b.len().min(24) as u64) } else { rng.below(b.len() as u64) } as usize;
            b[o] ^= 1 << rng.below(8);
            cases.push(("one bit flipped", b, req.clone(), sec.clone()));
        }
        let mut b = resp.clone();
        b.extend(rng.bytes(3));
        cases.push(("padded", b, req.clone(), sec.clone()));
        let mut b = resp.clone();
        b.truncate(rng.below(resp.len() as u64 + 1) as usize);
        cases.push(("cut", b, req.clone(), sec.clone()));
        let o = rng.below(n as u64) as usize;
        cases.push(("crossed", resp.clone(), pool[o].1.clone(), sec.clone()));
        cases.push(("other secret", resp.clone(), req.clone(), pool[o].2.clone()));
        let mut s2 = sec.clone();
        if !s2.is_empty() {
            let l = s2.len();
            match rng.below(4) {
                0 => s2[l - 1] ^= 1,
                1 => s2.truncate(l - 1),
                2 => s2.push(0),
                _ => s2.clear(),
            }
            cases.push(("altered secret", resp.clone(), req.clone(), s2));
        }
        let mut q2 = req.clone();
        if q2.len() >= 20 {
            q2[4 + rng.below(16) as usize] ^= 1 << rng.below(8);
            cases.push(("altered request", resp.clone(), q2, sec.clone()));
            let mut q3 = req.clone();
            q3.truncate(rng.below(20) as usize);
            cases.push(("cut request", resp.clone(), q3, sec.clone()));
        }
        for (what, a, b, s) in cases {
            let want = rf::response_authentic_raw(&a, &b, &s);
            let got = std::panic::catch_unwind(|| Packet::is_authentic_response(&a, &b, &s)).ok();
            r.t("C18");
            if got != Some(want) {
                r.bad(
                    &["C18", "C09"],
                    "verdict",
                    format!("response check ({what}) says {got:?}, the reference says {want}: response {} request {} secret {}", hex(&a), hex(&b), hex(&s)),
                );
                return;
            }
        }
    }
}

/// The library's own verdict on requests, genuine and altered, against the reference.
fn request_verdicts(r: &mut Report, cx: &Ctx, sp: &ServerP, recvs: &[RecvE]) {
    use radius::core::packet::Packet;
    let mut rng = simcore::Rng::derive(cx.p.seed, 4243);
    for d in recvs.iter().take(16) {
        let SecretP::Key(k) = sp.secret_at(&d.src, d.t / US) else { continue };
        let (data, key) = (d.data.to_vec(), k.0.clone());
        let mut cases: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![("as is", data.clone(), key.clone()), ("empty secret", data.clone(), vec![])];
        let mut b = data.clone();
        b.truncate(rng.below(b.len() as u64 + 1) as usize);
        cases.push(("cut", b, key.clone()));
        for _ in 0..2 {
            let mut b = data.clone();
            if b.is_empty() {
                continue;
            }
            let o = if rng.chance(1, 2) { rng.below(b.len().min(24) as u64) } else { rng.below(b.len() as u64) } as usize;
            b[o] ^= 1 << rng.below(8);
            cases.push(("one bit flipped", b, key.clone()));
        }
        let mut b = data.clone();
        b.extend(rng.bytes(2));
        cases.push(("padded", b, key.clone()));
        let mut s2 = key.clone();
        match rng.below(3) {
            0 => s2.push(0),
            1 if !s2.is_empty() => s2.truncate(key.len() - 1),
            _ => s2.push(rng.below(256) as u8),
        }
        cases.push(("altered secret", data.clone(), s2));
        for (what, b, s) in cases {
            let Some(want) = rf::request_authentic_raw(&b, &s) else { continue };
            let got = std::panic::catch_unwind(|| Packet::is_authentic_request(&b, &s)).ok();
            r.t("C01");
            if got != Some(want) {
                let tags: &[&str] = if s.is_empty() { &["C01", "C13"] } else { &["C01"] };
                r.bad(tags, "request-verdict", format!("request check ({what}) says {got:?}, the reference says {want}: request {} secret {}", hex(&b), hex(&s)));
                return;
            }
        }
    }
}

/// A handler call that no delivered datagram accounts for.
fn explain(r: &mut Report, sp: &ServerP, x: &HandE, recvs: &[RecvE]) {
    let what = format!("handler call {} at t={} us for {} (code {}, identifier {})", x.inv, x.t / US, x.remote, x.seen.code, x.seen.id);
    let earlier: Vec<&RecvE> = recvs.iter().filter(|d| d.seq < x.seq).collect();
    let same = |d: &&&RecvE| d.pkt.as_ref().is_some_and(|k| seen_differs(x.seen, k).is_none());
    // the same content from the same sender
    let twins: Vec<&&RecvE> = earlier.iter().filter(|d| d.src == x.remote).filter(same).collect();
    if let Some(d) = twins.iter().find(|d| d.can && d.by.is_none()) {
        return r.bad(&["C05", "C02"], "handled-late", format!("{what}: its datagram was received at t={} us but handling started only later", d.t / US));
    }
    if twins.iter().any(|d| d.can) {
        return r.bad(&["C02"], "handled-twice", format!("{what}: more handler calls than deliveries"));
    }
    if let Some(d) = twins.last() {
        let sec = sp.secret_at(&d.src, d.t / US);
        if !matches!(sec, SecretP::Key(_)) {
            return r.bad(&["C13", "C01"], "handled-without-secret", format!("{what}: the provider gave no usable secret for it"));
        }
        return r.bad(&["C01", "C13"], "inauthentic-handled", format!("{what}: the request is not authentic under the sender's secret"));
    }
    if let Some(d) = earlier.iter().filter(same).next() {
        return r.bad(&["C07"], "wrong-sender", format!("{what}: that content came from {}", d.src));
    }
    // a datagram from that sender it was probably made of
    let near = earlier.iter().rev().find(|d| d.src == x.remote && d.given >= 20 && d.bytes()[4..20] == x.seen.auth[..]).or_else(|| {
        earlier.iter().rev().find(|d| d.src == x.remote && d.given >= 2 && d.bytes()[1] == x.seen.id && d.by.is_none())
    });
    match near {
        Some(d) if d.pkt.is_none() && d.given < d.data.len() => {
            r.bad(&["C21", "C06", "C02"], "truncated-handled", format!("{what}: {} of {} octets of its datagram fit the buffer", d.given, d.data.len()))
        }
        Some(d) if d.pkt.is_none() => r.bad(&["C06", "C02", "C01"], "malformed-handled", format!("{what}: its datagram is malformed: {}", hex(d.bytes()))),
        Some(d) => {
            let w = seen_differs(x.seen, d.pkt.as_ref().unwrap()).unwrap_or("sender");
            r.bad(&["C07", "C02"], "wrong-content", format!("{what}: {w} differs from the delivered datagram {}", hex(d.bytes())))
        }
        None => r.bad(&["C02", "C07"], "from-nothing", format!("{what}: no such datagram was delivered")),
    }
}
