//! Runs a plan: the real server, the real client, scripted peers.
use crate::attrs::{self, Attr, Val};
use crate::hist::*;
use crate::plan::*;
use crate::reference as rf;
use async_trait::async_trait;
use radius::client::{Client, ClientError};
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::core::vsa::{StringVSA, TaggedStringVSA, VSA};
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use simcore::{Tag, TimedWhat, MS, US};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::net::UdpSocket;

static mut PLAN: *const Plan = std::ptr::null();
static mut TABLE: *const Vec<Attr> = std::ptr::null();
pub fn plan() -> &'static Plan {
    unsafe { &*PLAN }
}
pub fn set_plan(p: Plan) {
    unsafe { PLAN = Box::into_raw(Box::new(p)) }
}
pub fn init_table() {
    unsafe { TABLE = Box::into_raw(Box::new(attrs::table())) }
}
pub fn table() -> &'static Vec<Attr> {
    unsafe { &*TABLE }
}

/// Table entries of one type number.
fn by_number(typ: u8) -> Vec<usize> {
    table().iter().enumerate().filter(|(_, a)| a.typ == typ).map(|(i, _)| i).collect()
}

/// Shared scratch of the scripted parts; touched by the baton holder only.
#[derive(Default)]
pub struct Script {
    /// wire authenticator -> source and number of handler calls so far
    by_auth: HashMap<Vec<u8>, (Src, usize)>,
    /// call -> octets first sent in answer to it
    answered: BTreeMap<usize, Vec<u8>>,
    /// call -> request as it arrived at the scripted peer
    asked: BTreeMap<usize, Vec<u8>>,
    /// how often a spinning secret was asked for
    fetched: BTreeMap<(usize, SocketAddr), usize>,
}
static mut SCRIPT: *mut Script = std::ptr::null_mut();
fn script() -> &'static mut Script {
    unsafe { &mut *SCRIPT }
}

pub const SERVER_HOST: u32 = 1;
/// label of the n-th server's socket; calls are labelled from 1
pub fn server_label(n: usize) -> u32 {
    if n == 0 { 0 } else { 60_000 + n as u32 }
}

/// Marks the wrapped code as running on a host, on behalf of a call.
struct OnHost<F> {
    tag: Tag,
    fut: Pin<Box<F>>,
}
impl<F: Future> Future for OnHost<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let old = simcore::set_tag(self.tag);
        let r = self.fut.as_mut().poll(cx);
        simcore::set_tag(old);
        r
    }
}
fn on_host<F: Future>(host: u32, label: u32, fut: F) -> OnHost<F> {
    OnHost { tag: Tag { host, label }, fut: Box::pin(fut) }
}

async fn sleep_us(us: u64) {
    if us > 0 {
        tokio::time::sleep(Duration::from_micros(us)).await;
    }
}
async fn until_us(us: u64) {
    let now = simcore::now() / US;
    if us > now {
        sleep_us(us - now).await;
    }
}

// ---------------------------------------------------------------- reading

/// Worlds that two builds go through, one thread at a time.
pub fn compared() -> bool {
    matches!(plan().focus.as_str(), "C20" | "C25")
}
fn errors() {
    if compared() {
        let texts = std::mem::take(&mut *crate::attrs::ERRORS.lock().unwrap());
        rec(Ev::Errors { texts });
    }
}

fn read_typed(p: &Packet, idx: &[usize]) -> Vec<Typed> {
    let mut done = vec![];
    let mut out = vec![];
    for &i in idx {
        if done.contains(&i) {
            continue;
        }
        done.push(i);
        let a = &table()[i];
        out.push(Typed { attr: i, get: (a.get)(p), all: a.all.map(|f| f(p)) });
    }
    errors();
    out
}

fn look(p: &Packet, typed: &[usize], req_auth: Option<&[u8]>) -> Seen {
    let ordered = p.encode().ok().and_then(|b| rf::parse_attrs(&b[20..]));
    let mut by_type = vec![];
    let many = ordered.as_ref().filter(|o| o.len() > 60);
    for t in 0..=255u8 {
        // large packets: what is there, and a few types that may not be
        if many.is_some_and(|o| t % 32 != p.get_identifier() % 32 && !o.iter().any(|a| a.0 == t)) {
            continue;
        }
        let v: Vec<Vec<u8>> = p.lookup_all(t).iter().map(|a| a.encode_bytes()).collect();
        let first = p.lookup(t).map(|a| a.encode_bytes());
        if !v.is_empty() || first.is_some() {
            // a lookup that disagrees with lookup_all shows up as an extra value
            let mut v = v;
            if first.as_ref() != v.first() {
                v.insert(0, first.unwrap_or_default());
            }
            by_type.push((t, v));
        }
    }
    // every typed reading of what is there
    let mut idx = typed.to_vec();
    if by_type.iter().map(|x| x.1.len()).sum::<usize>() <= 80 {
        idx.extend(by_type.iter().flat_map(|x| by_number(x.0)));
    }
    let mut tunnel = vec![];
    if let Some(ra) = req_auth {
        for a in p.lookup_all(radius::core::rfc2868::TUNNEL_PASSWORD_TYPE) {
            tunnel.push(
                a.encode_tunnel_password(p.get_secret(), ra)
                    .ok()
                    .map(|(v, t)| Val::TP(if t.is_zero() { None } else { Some(t.get_value()) }, v)),
            );
        }
    }
    Seen {
        code: p.get_code() as u8,
        id: p.get_identifier(),
        auth: p.get_authenticator().clone(),
        secret: p.get_secret().clone(),
        ordered,
        by_type,
        typed: read_typed(p, &idx),
        tunnel,
        dbg: if matches!(plan().focus.as_str(), "C17" | "C20" | "C06") { format!("{p:?}") } else { String::new() },
    }
}

fn typed_idx(typed: &[(usize, Val)], dels: &[usize], salt: usize) -> Vec<usize> {
    let mut v: Vec<usize> = typed.iter().map(|x| x.0).collect();
    v.extend(dels);
    // one that is most likely absent
    v.push((salt * 31 + 17) % table().len());
    v
}

/// Adds what the plan says; returns the indices of refused values and whether a VSA misreports its length.
fn fill(p: &mut Packet, attrs: &[(u8, Hx)], copies: u32, typed: &[(usize, Val)], dels: &[usize]) -> (Vec<usize>, bool) {
    let mut refused = vec![];
    let mut bad = false;
    for _ in 0..copies.max(1) {
        for (t, v) in attrs {
            p.add(AVP::from_bytes(*t, &v.0));
        }
    }
    for (n, (i, v)) in typed.iter().enumerate() {
        if let Val::Vsa { vendor, typ, tag, text } = v {
            let (len, want) = match tag {
                None => (StringVSA::new(*vendor, *typ, text).len(), 2 + text.len()),
                Some(t) => (TaggedStringVSA::new(*vendor, *typ, *t, text).len(), 3 + text.len()),
            };
            bad |= len != want;
        }
        if !(table()[*i].add)(p, v) {
            refused.push(n);
        }
    }
    for i in dels {
        (table()[*i].del)(p);
    }
    errors();
    (refused, bad)
}

// ---------------------------------------------------------------- server side

pub struct SimErr(#[allow(dead_code)] &'static str);
impl std::fmt::Debug for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("scripted handler failure")
    }
}
struct Handler(usize);
#[async_trait]
impl RequestHandler<u32, SimErr> for Handler {
    async fn handle_radius_request(&self, conn: &UdpSocket, request: &Request) -> Result<u32, SimErr> {
        let pk = request.get_packet();
        let (inv, beh, typed, dummy) = {
            let inv = h().inv;
            h().inv += 1;
            let mut src = None;
            let mut nth = 0;
            if let Some(e) = script().by_auth.get_mut(pk.get_authenticator()) {
                src = Some(e.0);
                nth = e.1;
                e.1 += 1;
            }
            let (list, typed): (&[Behave], Vec<usize>) = match src {
                Some(Src::Op(i)) => (&plan().ops[i].behave, vec![]),
                Some(Src::Call(c)) => {
                    let c = &plan().calls[c];
                    (&c.behave, typed_idx(&c.typed, &c.dels, inv))
                }
                None => (&[], vec![]),
            };
            let nth = nth.min(list.len().saturating_sub(1));
            let seen = simcore::no_preempt(|| Box::new(look(pk, &typed, None)));
            rec(Ev::HStart {
                s: self.0,
                inv,
                remote: request.get_remote_addr(),
                local: request.get_local_addr(),
                seen,
                src,
                beh: nth,
            });
            (inv, list.get(nth).cloned(), typed, 0u8)
        };
        let _ = (typed, dummy);
        struct Guard(usize, bool);
        impl Drop for Guard {
            fn drop(&mut self) {
                if !self.1 && simcore::active() {
                    rec(Ev::HEnd { inv: self.0, how: if std::thread::panicking() { "panic" } else { "dropped" } });
                }
            }
        }
        let mut g = Guard(inv, false);
        let Some(b) = beh else {
            g.1 = true;
            rec(Ev::HEnd { inv, how: "ok" });
            return Ok(0);
        };
        sleep_us(b.pre_us).await;
        for _ in 0..b.yields {
            tokio::task::yield_now().await;
        }
        let mut failed = false;
        if let Some(r) = &b.respond {
            let mut p = pk.make_response_packet(Code::from(r.code));
            fill(&mut p, &r.attrs, 1, &r.typed, &r.dels);
            match p.encode() {
                Ok(bytes) => {
                    let to = request.get_remote_addr();
                    let res = conn.send_to(&bytes, to).await;
                    let err = res.err().map(|e| e.raw_os_error().unwrap_or(-1));
                    failed = err.is_some();
                    rec(Ev::HReply { inv, to, code: r.code, bytes: keep(&bytes), err });
                }
                Err(e) => {
                    failed = true;
                    rec(Ev::HEncodeErr { inv, text: keep(&e.to_string()) });
                }
            }
        }
        sleep_us(b.post_us).await;
        match b.end {
            End::Never => {
                std::future::pending::<()>().await;
                unreachable!()
            }
            End::Panic => panic!("SIM-PANIC in handler"),
            End::Err => {
                g.1 = true;
                rec(Ev::HEnd { inv, how: "err" });
                Err(SimErr("scripted"))
            }
            End::Ok => {
                g.1 = true;
                let how = if failed { "err" } else { "ok" };
                rec(Ev::HEnd { inv, how });
                if failed {
                    Err(SimErr("reply failed"))
                } else {
                    Ok(7)
                }
            }
        }
    }
}

struct Provider(usize);
impl SecretProvider for Provider {
    fn fetch_secret(&self, remote_addr: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        let sp = plan().servers().nth(self.0).unwrap();
        let spin = sp.peer(&remote_addr).map_or(&[][..], |p| &p.spin);
        let nth = (!spin.is_empty()).then(|| simcore::no_preempt(|| {
            let n = script().fetched.entry((self.0, remote_addr)).or_insert(0);
            *n += 1;
            (*n - 1) % spin.len()
        }));
        rec(Ev::Fetch { s: self.0, addr: remote_addr, nth });
        match nth.map_or_else(|| sp.secret_at(&remote_addr, simcore::now() / US), |n| &spin[n]) {
            SecretP::Key(k) => Ok(k.0.clone()),
            SecretP::Empty => Ok(vec![]),
            SecretP::Fail => Err(SecretProviderError::FailedFetchingError("scripted failure".to_owned())),
            SecretP::Panic => panic!("SIM-PANIC in secret provider"),
        }
    }
}

/// The host names there are.
const NAMES: [(&str, &[&str]); 5] = [
    ("localhost", &["127.0.0.1"]),
    ("ip6-localhost", &["::1"]),
    ("radius.test", &["10.0.0.1"]),
    ("radius6.test", &["fd00::1"]),
    ("both.test", &["fd00::1", "10.0.0.1"]),
];

/// The addresses a host denotes: an address, in brackets or not, or a name.
pub fn ips_of(host: &str) -> Vec<std::net::IpAddr> {
    match host.trim_matches(|c| c == '[' || c == ']').parse() {
        Ok(ip) => vec![ip],
        Err(_) => NAMES.iter().filter(|n| n.0 == host).flat_map(|n| n.1).map(|x| x.parse().unwrap()).collect(),
    }
}

async fn serve(n: usize, sp: &'static ServerP) {
    let s = Server::<u32, SimErr, Handler, Provider>::listen(&sp.host, sp.port, Handler(n), Provider(n)).await;
    let mut s = match s {
        Ok(s) => {
            let addr = simcore::st().net.socks.iter().find(|k| k.host == SERVER_HOST && k.label == server_label(n) && k.refs > 0).and_then(|k| k.local);
            let says = s.get_listen_address().map_err(|e| e.raw_os_error().unwrap_or(-1));
            rec(Ev::Listen { s: n, errno: None, ok: true, addr, says });
            s
        }
        Err(e) => {
            rec(Ev::Listen { s: n, errno: e.raw_os_error(), ok: false, addr: None, says: Err(0) });
            return;
        }
    };
    if let Some(b) = sp.buf {
        s.set_buffer_size(b);
    }
    if sp.skip {
        s.set_skip_authenticity_validation(true);
    }
    for (k, r) in sp.runs.iter().enumerate() {
        sleep_us(r.gap_us).await;
        if let Some(b) = r.buf {
            s.set_buffer_size(b);
        }
        if let Some(b) = r.skip {
            s.set_skip_authenticity_validation(b);
        }
        rec(Ev::RunStart { s: n, k });
        if let (true, Some(t)) = (r.cancel, r.stop_us) {
            let mut fut = Box::pin(s.run(std::future::pending::<()>()));
            let mut timer = Box::pin(sleep_us(t));
            let res = std::future::poll_fn(|cx| {
                if let Poll::Ready(x) = fut.as_mut().poll(cx) {
                    return Poll::Ready(Some(x));
                }
                timer.as_mut().poll(cx).map(|_| None)
            })
            .await;
            if res.is_none() {
                rec(Ev::Stop { s: n, k });
            }
            drop(fut);
            let res = res.unwrap_or(Ok(()));
            rec(Ev::RunEnd {
                s: n,
                k,
                errno: res.as_ref().err().and_then(|e| e.raw_os_error()),
                err: res.err().map(|e| e.to_string()),
            });
            continue;
        }
        let stop = async {
            match r.stop_us {
                None => std::future::pending::<()>().await,
                Some(t) => sleep_us(t).await,
            }
            rec(Ev::Stop { s: n, k });
        };
        let res = s.run(stop).await;
        rec(Ev::RunEnd {
            s: n,
            k,
            errno: res.as_ref().err().and_then(|e| e.raw_os_error()),
            err: res.err().map(|e| e.to_string()),
        });
    }
    if sp.dropped {
        drop(s);
        rec(Ev::Drop { s: n });
        return;
    }
    // the server stays alive (its socket open) to the end
    std::future::pending::<()>().await;
    drop(s);
}

// ---------------------------------------------------------------- client side

fn describe(e: ClientError) -> CallRes {
    let (text, dbg) = (e.to_string(), format!("{e:?}"));
    let (kind, addr) = match &e {
        ClientError::FailedUdpSocketBindingError(_) => ("bind", None),
        ClientError::FailedEstablishingUdpConnectionError(a, _) => ("connect", Some(a.clone())),
        ClientError::FailedRadiusPacketEncodingError(_) => ("encode", None),
        ClientError::FailedSendingRadiusPacketError(a, _) => ("send", Some(a.clone())),
        ClientError::FailedReceivingResponseError(a, _) => ("recv", Some(a.clone())),
        ClientError::FailedDecodingRadiusResponseError(_) => ("decode", None),
        ClientError::ConnectionTimeoutError() => ("conn-timeout", None),
        ClientError::SocketTimeoutError() => ("timeout", None),
    };
    CallRes::Err { kind, addr, text, dbg }
}

async fn call(c: usize, client: Arc<Client>) {
    let cp = &plan().calls[c];
    until_us(cp.at_us).await;
    let dest: SocketAddr = cp.dest.parse().unwrap();
    let code = Code::from(cp.code);
    let mut p = match cp.id {
        Some(i) if c % 3 == 2 => {
            let mut p = Packet::new(code, &cp.secret.0);
            p.set_identifier(i);
            p
        }
        Some(i) => Packet::new_with_identifier(code, &cp.secret.0, i),
        None => Packet::new(code, &cp.secret.0),
    };
    let (refused, vsa_len_bad) = fill(&mut p, &cp.attrs, cp.copies, &cp.typed, &cp.dels);
    let wire = p.encode().map_err(|e| e.to_string());
    if let Ok(w) = &wire {
        let _own = simcore::alloc::own();
        script().by_auth.insert(w[4..20].to_vec(), (Src::Call(c), 0));
    }
    let gets = simcore::no_preempt(|| read_typed(&p, &typed_idx(&cp.typed, &cp.dels, c)));
    // what the server sees as the request's authenticator
    let wire_auth = wire.as_ref().map_or(vec![], |w| w[4..20].to_vec());
    rec(Ev::CallMade { c, wire: keep(&wire), auth: keep(p.get_authenticator()), id: p.get_identifier(), refused: keep(&refused), vsa_len_bad, gets });
    drop((wire, refused));
    rec(Ev::CallStart { c });
    let fut = on_host(cp.host, c as u32 + 1, async {
        let r = client.send_packet(&dest, &p).await;
        // before anything else can run: the result as the caller sees it
        simcore::no_preempt(|| {
            let res = match r {
                Ok(q) => {
                    let beh = cp.behave.iter().filter_map(|b| b.respond.as_ref());
                    let mut idx = vec![];
                    for r in beh {
                        idx.extend(typed_idx(&r.typed, &r.dels, c));
                    }
                    CallRes::Ok(Box::new(look(&q, &idx, Some(&wire_auth))))
                }
                Err(e) => describe(e),
            };
            rec(Ev::CallEnd { c, res });
        });
    });
    match cp.cancel_us {
        None => fut.await,
        Some(t) => {
            if t == 0 {
                // poll once, then drop
                let mut fut = Box::pin(fut);
                let r = std::future::poll_fn(|cx| Poll::Ready(fut.as_mut().poll(cx).is_ready())).await;
                drop(fut);
                if !r {
                    rec(Ev::CallCancelled { c });
                }
            } else if tokio::time::timeout(Duration::from_micros(t), fut).await.is_err() {
                rec(Ev::CallCancelled { c });
            }
        }
    }
}

/// A scripted peer got a datagram.
fn fake(d: &simcore::Dgram) {
    let Some(sock) = d.src_sock else { return };
    let label = simcore::st().net.socks[sock].label;
    if label == 0 {
        return;
    }
    let c = label as usize - 1;
    let Some(cp) = plan().calls.get(c) else { return };
    if d.data.len() < 20 {
        return;
    }
    let req = d.data.clone();
    script().asked.entry(c).or_insert_with(|| (*req).clone());
    let secret = &cp.secret.0;
    let at = |v: &[(u8, Hx)]| v.iter().map(|x| (x.0, x.1 .0.clone())).collect::<Vec<_>>();
    for a in &cp.acts {
        let mut from = d.dst;
        let bytes = match &a.kind {
            ActKind::Good { code, attrs } => rf::build_response(*code, &req, &at(attrs), secret),
            ActKind::WrongSecret { code, attrs, secret } => rf::build_response(*code, &req, &at(attrs), &secret.0),
            ActKind::Flip { code, attrs, off, mask } => {
                let mut b = rf::build_response(*code, &req, &at(attrs), secret);
                let n = b.len();
                b[*off as usize % n] ^= mask;
                b
            }
            ActKind::Trunc { code, attrs, n } => {
                let mut b = rf::build_response(*code, &req, &at(attrs), secret);
                b.truncate(*n as usize);
                b
            }
            ActKind::Pad { code, attrs, pad } => {
                let mut b = rf::build_response(*code, &req, &at(attrs), secret);
                b.extend(&pad.0);
                b
            }
            ActKind::FromOther { code, attrs, from: f } => {
                from = f.parse().unwrap();
                rf::build_response(*code, &req, &at(attrs), secret)
            }
            ActKind::ReplayOf { call } => match script().answered.get(call) {
                Some(b) => b.clone(),
                None => continue,
            },
            ActKind::CrossOf { call, code, attrs } => match script().asked.get(call) {
                Some(r) if *call != c => rf::build_response(*code, r, &at(attrs), &plan().calls[*call].secret.0),
                _ => continue,
            },
            ActKind::EchoAuth { code, attrs } => rf::assemble(*code, req[1], &req[4..20], &at(attrs)),
            ActKind::ZeroAuth { code, attrs } => rf::assemble(*code, req[1], &[0; 16], &at(attrs)),
            ActKind::OtherId { code, attrs, xor } => {
                let mut r = (*req).clone();
                r[1] ^= xor;
                rf::build_response(*code, &r, &at(attrs), secret)
            }
            ActKind::Echo => (*req).clone(),
            ActKind::Raw(b) => b.0.clone(),
            ActKind::SignedRaw { code, body } => {
                let mut v = vec![*code, req[1]];
                v.extend(((20 + body.0.len()) as u16).to_be_bytes());
                v.extend(&req[4..20]);
                v.extend(&body.0);
                let x = rf::response_auth(&v, &req[4..20], secret);
                v[4..20].copy_from_slice(&x);
                v
            }
            ActKind::Icmp { errno } => {
                simcore::inject_icmp(sock, *errno, a.delay_us * US);
                continue;
            }
        };
        script().answered.entry(c).or_insert_with(|| bytes.clone());
        simcore::count(match &a.kind {
            ActKind::Good { .. } => "resp_good",
            ActKind::FromOther { .. } => "resp_misdirected",
            ActKind::ReplayOf { .. } => "resp_replayed",
            ActKind::CrossOf { .. } => "resp_crossed",
            ActKind::Flip { .. } | ActKind::Trunc { .. } => "resp_corrupted",
            ActKind::Pad { .. } => "resp_padded",
            _ => "resp_forged",
        });
        let host = simcore::host_of(from.ip(), d.src_host).unwrap_or(0);
        let host = if from.ip().is_loopback() { d.src_host } else { host };
        simcore::inject(from, d.src, host, bytes, a.delay_us * US);
    }
}

// ---------------------------------------------------------------- packet construction on threads

/// Threads that make packets have labels from here on.
pub const MAKE_LABEL: u32 = 5000;

fn make_one(th: usize, i: usize, with_salt: bool, secret: &[u8]) {
        let given = i % 8 == 7;
        let p = if given {
            Packet::new_with_identifier(Code::AccessRequest, secret, i as u8)
        } else {
            Packet::new(if i % 3 == 0 { Code::AccountingRequest } else { Code::AccessRequest }, secret)
        };
        rec(Ev::Made { thread: th, auth: p.get_authenticator().clone(), id: p.get_identifier(), given: given.then_some(i as u8) });
        if with_salt {
            let mut p = p;
            let _ = radius::core::rfc2868::add_tunnel_password(&mut p, None, b"tunnel-pass");
            if let Some(a) = p.lookup(radius::core::rfc2868::TUNNEL_PASSWORD_TYPE) {
                rec(Ev::Salt { thread: th, salt: a.encode_bytes()[1..3].to_vec() });
            }
        }
}

fn make_packets(m: &MakeP) {
    let mut hs = vec![];
    for th in 0..m.threads {
        let (n, salts) = (m.packets, m.salts);
        hs.push(std::thread::spawn(move || {
            simcore::set_tag(Tag { host: SERVER_HOST, label: MAKE_LABEL + th as u32 });
            let secret = b"entropy-secret";
            for i in 0..n {
                // without entropy there may be no packet, but never a predictable one
                let _ = std::panic::catch_unwind(|| make_one(th, i, i < salts, secret));
            }
        }));
    }
    for x in hs {
        let _ = x.join();
    }
}

// ---------------------------------------------------------------- the whole

fn intern_call(s: &str) -> &'static str {
    for k in ["socket", "bind", "connect", "send", "recv", "getsockname", "epoll_add", "epoll_wait", "stdout", "getrandom", "resolve"] {
        if k == s {
            return k;
        }
    }
    "none"
}

pub fn sim_cfg(p: &Plan) -> simcore::SimCfg {
    simcore::SimCfg {
        sched: match &p.sched {
            SchedP::Random { seed, p_atomic, p_syscall, p_pick, p_stall, max_stall_us } => simcore::Sched::Random {
                seed: *seed,
                p_atomic: *p_atomic,
                p_syscall: *p_syscall,
                p_pick: *p_pick,
                p_stall: *p_stall,
                max_stall_us: *max_stall_us,
            },
            SchedP::Replay(v) => simcore::Sched::Replay(v.iter().map(|x| (x.0, (x.1, x.2))).collect()),
        },
        entropy: p.entropy,
        step_ns: p.step_ns,
        max_steps: 20_000_000,
        max_time_ns: (p.horizon_us() + 3_600_000_000) * US,
        realtime_base_ns: p.realtime_base_s * simcore::SEC as i64,
        latency_us: p.latency_us,
        rxq_cap: p.rxq_cap,
        icmp: p.icmp,
        fates: p
            .fates
            .iter()
            .map(|f| {
                (
                    (f.class, f.n),
                    simcore::Fate {
                        drop: f.drop,
                        delay_us: f.delay_us,
                        dups: f.dups.clone(),
                        corrupt: f.corrupt,
                        trunc: f.trunc,
                        pad: f.pad.as_ref().map(|x| x.0.clone()),
                    },
                )
            })
            .collect(),
        sysfaults: p.sysfaults.iter().map(|f| ((f.label, intern_call(&f.call), f.n), f.errno)).collect(),
        partitions: p.partitions.clone(),
        sndfull: p.sndfull.clone(),
        ephemeral_range: p.eph_range,
        names: NAMES.iter().map(|n| (n.0, n.1.iter().map(|x| x.parse().unwrap()).collect())).collect(),
    }
}

/// Runs the plan in this process; does not return.
pub fn run(finisher: fn(&str) -> !) -> ! {
    let p = plan();
    reset();
    unsafe { SCRIPT = Box::into_raw(Box::default()) };
    simcore::start(sim_cfg(p), finisher);
    // everything happens on a fresh thread, so that thread-local random state is the simulation's
    let t = std::thread::spawn(move || {
        if let Some(m) = &p.make {
            make_packets(m);
        }
        let rt = if p.threads == 0 {
            tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(p.threads).enable_all().build().unwrap()
        };
        rt.block_on(world(p));
        simcore::abort_run("end");
    });
    let _ = t.join();
    simcore::abort_run("main-died");
}

async fn world(p: &'static Plan) {
    for (n, s) in p.servers().enumerate() {
        simcore::st().net.server_ports.push(s.port);
        tokio::spawn(on_host(SERVER_HOST, server_label(n), serve(n, s)));
    }
    for f in &p.fakes {
        simcore::add_endpoint(f.parse().unwrap(), fake);
    }
    simcore::no_preempt(|| schedule(p));
    let clients: Vec<Arc<Client>> = p
        .clients
        .iter()
        .map(|(a, b)| Arc::new(Client::new(a.map(Duration::from_micros), b.map(Duration::from_micros))))
        .collect();
    let start = move |c: usize| tokio::spawn(call(c, clients[p.calls[c].client].clone()));
    if p.mem.is_empty() {
        (0..p.calls.len()).for_each(|c| drop(start(c)));
    } else {
        // one after another, so that what a call holds is held from its start on
        tokio::spawn(async move {
            for c in 0..p.calls.len() {
                until_us(p.calls[c].at_us).await;
                start(c);
            }
        });
    }
    until_us(p.horizon_us()).await;
}

/// Everything that happens at set times.
fn schedule(p: &'static Plan) {
    for (i, o) in p.ops.iter().enumerate() {
        if o.data.0.len() >= 20 {
            script().by_auth.entry(o.data.0[4..20].to_vec()).or_insert((Src::Op(i), 0));
        }
        let s = p.servers().nth(o.srv).unwrap();
        let src: SocketAddr = o.from.parse().unwrap();
        let Some(&host) = ips_of(&s.host).first() else { continue };
        let ip = if host.is_unspecified() {
            if src.is_ipv6() {
                simcore::host_v6(SERVER_HOST)
            } else {
                simcore::host_v4(SERVER_HOST)
            }
        } else {
            host
        };
        simcore::inject(src, SocketAddr::new(ip, s.port), SERVER_HOST, o.data.0.clone(), o.at_us * US);
    }
    for (at, ms) in &p.clock_jumps {
        let ms = *ms;
        simcore::at(
            at * US,
            TimedWhat::Call(Box::new(move || {
                simcore::st().realtime_off += ms * MS as i64;
                simcore::count("clock_jump");
                rec(Ev::Jump { ms });
            })),
        );
    }
    for (at, who) in &p.spurious {
        let who = *who;
        simcore::at(
            at * US,
            TimedWhat::Call(Box::new(move || {
                let label = who.map_or(0, |c| c as u32 + 1);
                let host_ok = |k: &simcore::Sock| if label == 0 { k.host == SERVER_HOST } else { true };
                let hit = simcore::st().net.socks.iter().position(|k| k.refs > 0 && k.label == label && host_ok(k) && k.local.is_some());
                if let Some(i) = hit {
                    simcore::notify_sock(i, (libc::EPOLLIN | libc::EPOLLOUT) as u32);
                }
            })),
        );
    }
    for w in &p.sndfull {
        let l = w.0;
        simcore::at(w.2 * US, TimedWhat::Call(Box::new(move || simcore::drained(l))));
    }
    for at in &p.mem {
        simcore::at(at * US, TimedWhat::Call(Box::new(|| rec(Ev::Mem { live: simcore::alloc::live(), fds: simcore::open_fds() }))));
    }
}
