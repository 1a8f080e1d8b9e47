//! Judging the client side, randomness and leaks.
use crate::attrs::{Kind, Val};
use crate::hist::{h, CallRes, Ev, Seen, Src, Typed};
use crate::model::*;
use crate::oracle::*;
use crate::plan::*;
use crate::reference as rf;
use crate::world::{plan, table};
use simcore::{st, NetEv, US};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::rc::Rc;

struct Made<'a> {
    wire: &'a Result<Vec<u8>, String>,
    refused: &'a Vec<usize>,
    vsa_bad: bool,
    gets: &'a Vec<Typed>,
    auth: &'a Vec<u8>,
    id: u8,
}
#[derive(Default)]
struct Sock {
    idx: usize,
    opened: u64,
    closed: Option<u64>,
}
#[derive(Default)]
struct Call<'a> {
    made: Option<Made<'a>>,
    start: Option<(u64, u64)>,
    end: Option<(u64, u64, &'a CallRes)>,
    cancelled: Option<u64>,
    socks: Vec<Sock>,
    sends: Vec<(u64, u64, SocketAddr, &'a Rc<Vec<u8>>)>,
    arrives: Vec<(u64, u64, SocketAddr, &'a Rc<Vec<u8>>)>,
    recvs: Vec<(u64, SocketAddr, &'a Rc<Vec<u8>>)>,
    fails: Vec<(u64, u64, &'static str, i32)>,
}

fn pw_pair<'a>(m: &'a Model, i: usize) -> Option<Vec<&'a [u8]>> {
    let k = table()[i].kind;
    if !matches!(k, Kind::UserPw | Kind::TunnelPw) {
        return None;
    }
    Some(
        m.slots
            .iter()
            .filter_map(|s| match &s.from {
                Some((x, Val::B(b))) if *x == i => Some(&b[..]),
                Some((x, Val::TP(_, b))) if *x == i => Some(&b[..]),
                _ => None,
            })
            .collect(),
    )
}

pub fn client(r: &mut Report, cx: &Ctx) {
    let p = cx.p;
    let mut calls: Vec<Call> = (0..p.calls.len()).map(|_| Call::default()).collect();
    for e in &h().ev {
        match &e.ev {
            Ev::CallMade { c, wire, refused, vsa_len_bad, gets, auth, id } => {
                calls[*c].made = Some(Made { wire, refused, vsa_bad: *vsa_len_bad, gets, auth, id: *id })
            }
            Ev::CallStart { c } => calls[*c].start = Some((e.seq, e.t)),
            Ev::CallEnd { c, res } => calls[*c].end = Some((e.seq, e.t, res)),
            Ev::CallCancelled { c } => calls[*c].cancelled = Some(e.seq),
            _ => {}
        }
    }
    let socks = &st().net.socks;
    let of = |k: usize| -> Option<usize> {
        let l = socks[k].label;
        (l > 0 && (l as usize) <= p.calls.len()).then(|| l as usize - 1)
    };
    for e in &st().net.log {
        match &e.ev {
            NetEv::Open { sock, label, .. } if *label > 0 => {
                if let Some(c) = of(*sock) {
                    calls[c].socks.push(Sock { idx: *sock, opened: e.seq, closed: None });
                }
            }
            NetEv::Close { sock } => {
                if let Some(c) = of(*sock) {
                    for s in calls[c].socks.iter_mut().filter(|s| s.idx == *sock) {
                        s.closed = Some(e.seq);
                    }
                }
            }
            NetEv::Send { sock, dst, data, .. } => {
                if let Some(c) = of(*sock) {
                    calls[c].sends.push((e.seq, e.t, *dst, data));
                }
            }
            NetEv::SendErr { sock, errno } => {
                if let Some(c) = of(*sock) {
                    calls[c].fails.push((e.seq, e.t, "send", *errno));
                }
            }
            NetEv::RecvErr { sock, errno } => {
                if let Some(c) = of(*sock) {
                    calls[c].fails.push((e.seq, e.t, "recv", *errno));
                }
            }
            NetEv::Arrive { sock, src, data, .. } => {
                if let Some(c) = of(*sock) {
                    calls[c].arrives.push((e.seq, e.t, *src, data));
                }
            }
            NetEv::Recv { sock, src, data, .. } => {
                if let Some(c) = of(*sock) {
                    calls[c].recvs.push((e.seq, *src, data));
                }
            }
            NetEv::Fault { label, call, errno, .. } if *label > 0 && *label as usize <= p.calls.len() => {
                let k = match *call {
                    "socket" | "bind" | "epoll_add" => "bind",
                    "connect" => "connect",
                    _ => continue,
                };
                calls[*label as usize - 1].fails.push((e.seq, e.t, k, *errno));
            }
            _ => {}
        }
    }
    let crowd = p.calls.len() > 1;
    for c in 0..calls.len() {
        construction(r, cx, c, &calls[c]);
        one_call(r, cx, c, &calls, crowd);
    }
    handler_reads(r, cx, &calls);
}

/// The packet as built and encoded before the call.
fn construction(r: &mut Report, cx: &Ctx, c: usize, k: &Call) {
    let cp = &cx.p.calls[c];
    let Some(m) = &k.made else { return };
    let md = model(&cp.attrs, cp.copies, &cp.typed, &cp.dels, m.auth, &cp.secret.0);
    if !cp.typed.is_empty() {
        r.t("C23");
    }
    if *m.refused != md.refused {
        let pw = cp.typed.iter().any(|t| table()[t.0].kind == Kind::UserPw);
        let tags: &[&str] = if pw { &["C23", "C19"] } else { &["C23"] };
        r.bad(tags, "refusals", format!("call {c}: values refused: {:?}, expected {:?}", m.refused, md.refused));
        return;
    }
    if m.vsa_bad {
        r.bad(&["C23"], "vsa-length", format!("call {c}: a vendor-specific value misreports its length"));
    }
    if cp.id.is_some_and(|i| i != m.id) {
        r.bad(&["C16", "C11"], "given-identifier", format!("call {c}: identifier {} was asked for, the packet has {}", cp.id.unwrap(), m.id));
    }
    let (size, big) = md.size();
    let unsendable = !rf::sendable(rf::code_as_seen(cp.code));
    let unclear = md.unclear();
    let want_refuse = big || size > 4096 || unsendable;
    if want_refuse || size > 3000 {
        r.t("C24");
    }
    if !unclear && want_refuse != m.wire.is_err() {
        r.bad(
            &["C24"],
            if want_refuse { "encoded-unsendable" } else { "refused-sendable" },
            format!("call {c}: packet with code {} of {size} octets (value above 253: {big}): encoding says {:?}", cp.code, m.wire.as_ref().map(|w| w.len())),
        );
        return;
    }
    if let Ok(w) = m.wire {
        if w.len() < 20 || w.len() > 4096 || u16::from_be_bytes([w[2], w[3]]) as usize != w.len() {
            r.bad(&["C24"], "length-field", format!("call {c}: encoded to {} octets, length field {:?}", w.len(), w.get(2..4)));
            return;
        }
        let Some(pk) = rf::parse(w) else {
            r.bad(&["C24", "C23"], "unparsable", format!("call {c}: encoded packet is malformed: {}", hex(w)));
            return;
        };
        if let Some(d) = md.differs(&pk.attrs, &mut r.known) {
            let pw = d.contains("User-Password") || d.contains("Tunnel-Password");
            let tags: &[&str] = if pw { &["C19", "C23"] } else { &["C23"] };
            r.bad(tags, "request-attributes", format!("call {c}: {d}"));
        }
        if pk.code != rf::code_as_seen(cp.code) || pk.id != m.id {
            r.bad(&["C24", "C07"], "request-header", format!("call {c}: code {} identifier {} on the wire", pk.code, pk.id));
        }
        if matches!(cp.code, 1 | 4 | 12 | 40 | 43) && !cp.secret.0.is_empty() {
            r.t("C01");
            if !rf::request_authentic(w, &cp.secret.0) {
                r.bad(&["C01", "C02"], "request-not-authentic", format!("call {c}: a request encoded by the library does not verify under its own secret: {}", hex(w)));
            }
        }
        if md.slots.iter().any(|s| matches!(&s.from, Some((i, _)) if table()[*i].kind == Kind::UserPw)) {
            r.t("C19");
        }
    }
    for t in m.gets {
        if let Some(d) = md.read_differs(t) {
            let pw = matches!(table()[t.attr].kind, Kind::UserPw | Kind::TunnelPw);
            let tags: &[&str] = if pw { &["C19", "C23"] } else { &["C23"] };
            r.bad(tags, "own-read-back", format!("call {c}: {d}"));
        }
    }
}

fn one_call(r: &mut Report, cx: &Ctx, c: usize, calls: &[Call], crowd: bool) {
    let cp = &cx.p.calls[c];
    let k = &calls[c];
    let (Some((s_seq, s_t)), Some(m)) = (k.start, &k.made) else { return };
    let to = cx.p.clients[cp.client].1;
    let dest: SocketAddr = cp.dest.parse().unwrap();
    let last_t = cx.q.last_t();
    // ---- sockets are closed when the call is over
    let over = k.end.map(|e| e.0).or(k.cancelled);
    if let Some(o) = over {
        let q = cx.q.after(o);
        if q != NOT {
            r.t("C12");
            for s in &k.socks {
                if s.opened < q && s.closed.is_none_or(|x| x > q) {
                    r.bad(&["C12"], "socket-leak", format!("call {c} is over but its socket is still open"));
                }
            }
        }
    }
    // ---- at most one datagram, and the right one
    if k.sends.len() > 1 {
        r.bad(&["C11"], "resent", format!("call {c} put {} datagrams on the wire", k.sends.len()));
    }
    for s in &k.sends {
        let ok = m.wire.as_ref().is_ok_and(|w| *w == ***s.3) && s.2 == dest;
        if !ok {
            let mut tags = vec!["C11"];
            if crowd {
                tags.push("C12");
            }
            if m.wire.is_err() {
                tags.push("C24");
            }
            r.bad(&tags, "sent-wrong", format!("call {c} sent {} octets to {} that are not its encoded request to {dest}", s.3.len(), s.2));
        }
    }
    if k.cancelled.is_some() {
        r.probe("cancelled");
        r.t("C12");
        return;
    }
    let (end, res) = match &k.end {
        Some((q, t, x)) => (Some((*q, *t)), Some(*x)),
        None => (None, None),
    };
    let kind = match res {
        None => "none",
        Some(CallRes::Ok(_)) => "ok",
        Some(CallRes::Err { kind, .. }) => kind,
    };
    // ---- failures
    let fail = k.fails.iter().filter(|f| end.is_none_or(|e| f.0 < e.0)).min_by_key(|f| f.0);
    let timed_out_ok = |t: u64| to.is_some_and(|x| t >= s_t + x * US);
    if let Some(f) = fail {
        r.t("C11");
        let q = cx.q.after(f.0);
        if q == NOT && end.is_none() {
            return;
        }
        if kind == "timeout" && end.is_some_and(|e| timed_out_ok(e.1)) && matches!(f.2, "send" | "recv") {
            return;
        }
        if kind == "ok" && f.2 == "recv" {
            r.bad(&["C11"], "fault-success", format!("call {c}: receiving failed with errno {} and the call succeeded", f.3));
            return;
        }
        if kind != f.2 || end.is_none_or(|e| e.0 > q) {
            r.bad(&["C11"], "fault-kind", format!("call {c}: {} failed with errno {} but the call ended as {kind}", f.2, f.3));
            return;
        }
        if let Some(CallRes::Err { addr, text, .. }) = res {
            if f.2 != "bind" && addr.as_deref() != Some(&dest.to_string()) {
                r.bad(&["C11"], "fault-address", format!("call {c}: failure of {} reports address {addr:?} instead of {dest} ({text})", f.2));
            }
        }
        return;
    }
    if m.wire.is_err() {
        r.t("C24");
        let q = cx.q.after(s_seq);
        if q != NOT && (kind != "encode" || end.is_none_or(|e| e.0 > q)) {
            r.bad(&["C24", "C11"], "encode-refusal", format!("call {c}: the packet cannot be encoded but the call ended as {kind}"));
        }
        return;
    }
    let wire = m.wire.as_ref().unwrap();
    let secret = &cp.secret.0;
    // ---- when it could send: at once, or when its send buffer has room
    let ready = cx.q.t_after(s_seq);
    let mut free = None;
    let mut full: Vec<_> = cx.p.sndfull.iter().filter(|w| w.0 as usize == c + 1).collect();
    full.sort();
    for w in full {
        if w.2 * US > s_t && w.1 * US <= free.unwrap_or(ready) {
            free = free.max(Some(w.2 * US));
        }
    }
    let prompt = match free {
        None => cx.q.after(s_seq),
        Some(t) => st().net.log.iter().find(|e| e.t >= t && matches!(e.ev, NetEv::Drained { label } if label as usize == c + 1)).map_or(NOT, |e| cx.q.after(e.seq)),
    };
    if free.is_some() {
        r.t("C10");
        r.probe("send_blocked");
    }
    // the timeout covers sending and waiting
    let give_up = to.map_or(NOT, |x| ready.saturating_add(x * US).saturating_add(cx.slack_ns));
    let Some(sent) = k.sends.first() else {
        let q = prompt;
        if free.is_some() && to.is_some() && end.map_or(last_t, |e| e.1) > give_up {
            r.bad(&["C10"], "timeout-late", format!("call {c}: timeout of {to:?} us passed while its send buffer was full, ended as {kind} at {:?} us", end.map(|e| e.1 / US)));
            return;
        }
        // the deadline may pass before the socket is writable
        let expired = kind == "timeout" && end.is_some_and(|e| timed_out_ok(e.1));
        if q != NOT && !expired {
            let tags: &[&str] = if crowd { &["C11", "C12"] } else { &["C11"] };
            r.bad(tags, "not-sent", format!("call {c}: nothing was sent; the call ended as {kind}"));
        }
        return;
    };
    r.t("C11");
    if prompt != NOT && sent.0 > prompt {
        let tags: &[&str] = if crowd { &["C12", "C11"] } else { &["C11"] };
        r.bad(tags, "sent-late", format!("call {c} began at t={} us but its datagram went out only at t={} us", s_t / US, sent.1 / US));
        return;
    }
    let lo = to.map_or(NOT, |x| s_t.saturating_add(x * US));
    let hi = to.map_or(NOT, |x| sent.1.saturating_add(x * US).saturating_add(cx.slack_ns)).min(if free.is_some() { give_up } else { NOT });
    let authentic = |d: &[u8]| rf::response_authentic(d, wire, secret);
    // ---- an authentic response that comes first and in time is the result
    let first = k.arrives.first();
    let mut in_time = false;
    if let Some(a) = first {
        let (q, tq) = (cx.q.after(a.0), cx.q.t_after(a.0));
        if a.2 == dest && authentic(a.3) && q != NOT && tq < lo {
            in_time = true;
            r.t("C10");
            r.t("C08");
            if crowd {
                r.t("C12");
            }
            if kind != "ok" || end.is_none_or(|e| e.0 > q) {
                let mut tags = vec!["C10", "C08"];
                if crowd {
                    tags.push("C12");
                }
                r.bad(
                    &tags,
                    "response-lost",
                    format!("call {c}: the authentic response arrived at t={} us (request sent at {} us, timeout {to:?} us) but the call ended as {kind}", a.1 / US, sent.1 / US),
                );
                return;
            }
        }
        if !authentic(a.3) {
            r.t("C09");
        }
    }
    match res {
        None => {}
        Some(CallRes::Ok(seen)) => {
            r.t("C09");
            r.probe("call_ok");
            let e = end.unwrap();
            let good: Vec<&(u64, SocketAddr, &Rc<Vec<u8>>)> = k.recvs.iter().filter(|d| d.0 < e.0 && d.1 == dest && authentic(d.2)).collect();
            if good.is_empty() {
                let mut tags = vec!["C09"];
                if crowd && k.recvs.iter().any(|d| calls.iter().enumerate().any(|(o, x)| o != c && x.made.as_ref().is_some_and(|m| m.wire.as_ref().is_ok_and(|w| rf::response_authentic(d.2, w, &cx.p.calls[o].secret.0))))) {
                    tags.push("C12");
                }
                r.bad(&tags, "accepted-forgery", format!("call {c} succeeded although no authentic response from {dest} had been received"));
            } else if let Some(d) = good.iter().find(|d| seen_differs(seen, &rf::parse(d.2).unwrap()).is_none()) {
                response_reads(r, cx, c, wire, d.2, seen);
                if !seen.typed.is_empty() {
                    r.t("C27");
                }
                if let Some(w) = reads_differ(&rf::parse(d.2).unwrap().attrs, &seen.typed, &seen.auth, &seen.secret, &mut r.known) {
                    r.bad(&["C27", "C08", "C23"], "typed-reading", format!("call {c}: response: {w}"));
                }
                if seen.secret != *secret {
                    r.bad(&["C08"], "response-secret", format!("call {c}: the returned packet carries another secret"));
                }
            } else {
                let w = seen_differs(seen, &rf::parse(good[0].2).unwrap()).unwrap();
                r.bad(&["C08", "C12"], "response-content", format!("call {c}: {w} of the returned packet differs from the response {}", hex(good[0].2)));
            }
        }
        Some(CallRes::Err { kind: "timeout", .. }) => {
            r.t("C10");
            r.probe("call_timeout");
            let e = end.unwrap();
            match to {
                None => r.bad(&["C10"], "timeout-unset", format!("call {c} timed out without a socket timeout")),
                Some(x) if e.1 < lo => {
                    r.bad(&["C10"], "timeout-early", format!("call {c} timed out {} us after it began; its timeout is {x} us", (e.1 - s_t) / US))
                }
                _ => {}
            }
        }
        Some(CallRes::Err { kind: "decode", .. }) => {
            let e = end.unwrap();
            if !k.recvs.iter().any(|d| d.0 < e.0 && !authentic(d.2)) {
                r.bad(&["C08", "C10", "C12"], "decode-error", format!("call {c} reports an undecodable response but received none"));
            } else {
                r.probe("call_rejected_response");
            }
        }
        Some(CallRes::Err { kind, text, .. }) => {
            let tags: &[&str] = if matches!(*kind, "conn-timeout" | "recv") { &["C10", "C11"] } else { &["C11"] };
            r.bad(tags, "unfounded-failure", format!("call {c} reports {kind} ({text}) but no such thing happened"));
        }
    }
    // ---- not appreciably later than the timeout
    if to.is_some() && !in_time {
        let late = match end {
            Some(e) => e.1 > hi,
            None => last_t > hi,
        };
        if late {
            r.bad(&["C10", "C11"], "timeout-late", format!("call {c}: timeout of {to:?} us after t={} us passed, ended as {kind} at {:?} us", sent.1 / US, end.map(|e| e.1 / US)));
        }
    }
}

/// Values the client reads from the response against what the handler put in.
fn response_reads(r: &mut Report, cx: &Ctx, c: usize, wire: &[u8], data: &[u8], seen: &Seen) {
    let len = u16::from_be_bytes([data[2], data[3]]) as usize;
    let Some(rep) = cx.replies.iter().find(|x| x.3[..] == data[..len]) else { return };
    let Some(x) = cx.hands.iter().find(|x| x.inv == rep.0) else { return };
    if x.src != Some(Src::Call(c)) {
        return;
    }
    let Some(resp) = cx.p.calls[c].behave.get(x.beh).and_then(|b| b.respond.as_ref()) else { return };
    r.t("C08");
    if seen.code != rf::code_as_seen(resp.code) {
        r.bad(&["C08"], "response-code", format!("call {c}: handler answered with code {}, the client reads {}", resp.code, seen.code));
    }
    let m = model(&resp.attrs, 1, &resp.typed, &resp.dels, &wire[4..20], &seen.secret);
    if !resp.typed.is_empty() {
        r.t("C23");
    }
    for t in &seen.typed {
        if table()[t.attr].kind == Kind::TunnelPw {
            let want = m.values(t.attr).unwrap_or_default();
            let got: Vec<Val> = seen.tunnel.iter().flatten().cloned().collect();
            r.t("C19");
            if got != want {
                r.bad(&["C08", "C19"], "tunnel-password", format!("call {c}: tunnel passwords open to {got:?}, the handler put in {want:?}"));
            }
            if m.read_differs(t).is_some() {
                r.known.insert("tunnel-password-in-response");
            }
            continue;
        }
        if let Some(d) = m.read_differs(t) {
            r.bad(&["C08", "C23"], "response-read", format!("call {c}, response: {d}"));
        }
    }
}

/// Values the handler reads from the request against what the caller put in.
fn handler_reads(r: &mut Report, cx: &Ctx, calls: &[Call]) {
    for x in &cx.hands {
        let Some(Src::Call(c)) = x.src else { continue };
        let Some(m) = &calls[c].made else { continue };
        let Ok(w) = m.wire else { continue };
        let Some(ri) = x.recv else { continue };
        let b = cx.recvs[ri].bytes();
        if b.len() < w.len() || b[..w.len()] != w[..] {
            continue; // altered on the way
        }
        let cp = &cx.p.calls[c];
        let same_secret = x.seen.secret == cp.secret.0;
        let md = model(&cp.attrs, cp.copies, &cp.typed, &cp.dels, m.auth, &cp.secret.0);
        for t in &x.seen.typed {
            if let Some(plain) = pw_pair(&md, t.attr) {
                if same_secret {
                    r.t("C19");
                    if let Some(d) = md.read_differs(t) {
                        r.bad(&["C19", "C23"], "password", format!("call {c}, in the handler: {d}"));
                    }
                } else if let Some(Some(v)) = &t.get {
                    r.t("C19");
                    let got = match v {
                        Val::B(b) | Val::TP(_, b) => &b[..],
                        _ => &[],
                    };
                    if got.len() >= 6 && plain.first().is_some_and(|x| *x == got) {
                        r.bad(&["C19"], "password-wrong-secret", format!("call {c}: the password was recovered under a different secret"));
                    }
                }
                continue;
            }
            r.t("C23");
            if let Some(d) = md.read_differs(t) {
                r.bad(&["C23", "C07"], "handler-read", format!("call {c}, in the handler: {d}"));
            }
        }
    }
}

// ---------------------------------------------------------------- randomness

pub fn entropy(r: &mut Report) {
    let mut auths: Vec<&Vec<u8>> = vec![];
    let mut ids: Vec<u8> = vec![];
    let mut salts: Vec<&Vec<u8>> = vec![];
    let mut last: HashMap<usize, &Vec<u8>> = HashMap::new();
    let (mut pairs, mut dist) = (0u64, 0u64);
    for e in &h().ev {
        match &e.ev {
            Ev::Made { thread, auth, id, given } => {
                r.t("C16");
                if given.is_some_and(|n| n != *id) {
                    r.bad(&["C16"], "given-identifier", format!("identifier {} was asked for, the packet has {id}", given.unwrap()));
                }
                if auth.len() != 16 {
                    r.bad(&["C16"], "auth-length", format!("authenticator of {} octets", auth.len()));
                    return;
                }
                if given.is_none() {
                    ids.push(*id);
                }
                if let Some(l) = last.insert(*thread, auth) {
                    pairs += 1;
                    dist += l.iter().zip(auth).map(|(a, b)| (a ^ b).count_ones() as u64).sum::<u64>();
                }
                auths.push(auth);
            }
            Ev::Salt { salt, .. } => {
                r.t("C16");
                if salt[0] & 0x80 == 0 {
                    r.bad(&["C16"], "salt-top-bit", format!("tunnel-password salt {} lacks the top bit", hex(salt)));
                    return;
                }
                salts.push(salt);
            }
            _ => {}
        }
    }
    let set: HashSet<&Vec<u8>> = auths.iter().copied().collect();
    if set.len() != auths.len() {
        r.bad(&["C16"], "auth-repeat", format!("{} packets, {} distinct authenticators", auths.len(), set.len()));
    }
    // halves repeat only by (bad) construction
    if auths.len() > 2 {
        for (a, b) in [(0, 8), (8, 16), (4, 12)] {
            let s: HashSet<&[u8]> = auths.iter().map(|x| &x[a..b]).collect();
            if s.len() != auths.len() {
                r.bad(&["C16"], "auth-half-repeat", format!("octets {a}..{b} of the authenticator repeat: {} packets, {} values", auths.len(), s.len()));
                break;
            }
        }
    }
    let balanced = |n: usize, ones: u64| -> bool {
        let sd = (n as f64).sqrt() / 2.0;
        (ones as f64 - n as f64 / 2.0).abs() <= 8.0 * sd + 1.0
    };
    if auths.len() >= 256 {
        for bit in 0..128 {
            let ones = auths.iter().filter(|a| a[bit / 8] >> (bit % 8) & 1 == 1).count() as u64;
            if !balanced(auths.len(), ones) {
                r.bad(&["C16"], "auth-bias", format!("bit {bit} of the authenticator is set in {ones} of {} packets", auths.len()));
                break;
            }
        }
        if pairs > 200 {
            let mean = dist as f64 / pairs as f64;
            if (mean - 64.0).abs() > 8.0 * 5.66 / (pairs as f64).sqrt() + 0.1 {
                r.bad(&["C16"], "auth-correlated", format!("consecutive authenticators differ in {mean:.2} bits on average"));
            }
        }
    }
    if ids.len() >= 256 {
        for bit in 0..8 {
            let ones = ids.iter().filter(|a| *a >> bit & 1 == 1).count() as u64;
            if !balanced(ids.len(), ones) {
                r.bad(&["C16"], "id-bias", format!("bit {bit} of the identifier is set in {ones} of {} packets", ids.len()));
                break;
            }
        }
        let steps: HashSet<u8> = ids.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
        if steps.len() < 64 {
            r.bad(&["C16"], "id-sequential", format!("only {} different steps between consecutive identifiers", steps.len()));
        }
    }
    together(r);
    if ids.len() >= 20_000 {
        let d: HashSet<u8> = ids.iter().copied().collect();
        if d.len() != 256 {
            r.bad(&["C16"], "id-range", format!("{} of 256 identifiers occur in {} packets", d.len(), ids.len()));
        }
        for pos in 0..16 {
            let d: HashSet<u8> = auths.iter().map(|a| a[pos]).collect();
            if d.len() != 256 {
                r.bad(&["C16"], "auth-range", format!("octet {pos} of the authenticator takes {} of 256 values", d.len()));
                break;
            }
        }
    }
    if salts.len() >= 128 {
        for bit in 0..15 {
            let ones = salts.iter().filter(|s| u16::from_be_bytes([s[0], s[1]]) >> bit & 1 == 1).count() as u64;
            if !balanced(salts.len(), ones) {
                r.bad(&["C16"], "salt-bias", format!("bit {bit} of the salt is set in {ones} of {} packets", salts.len()));
                break;
            }
        }
        let d: HashSet<&Vec<u8>> = salts.iter().copied().collect();
        if d.len() * 2 < salts.len().min(2000) {
            r.bad(&["C16"], "salt-repeat", format!("{} salts, {} distinct", salts.len(), d.len()));
        }
    }
}

/// No octet of a packet's authenticator or identifier goes along with another one, or with one of the packet before.
fn together(r: &mut Report) {
    let mut seen: Vec<(usize, [u8; 17])> = vec![];
    for e in &h().ev {
        if let Ev::Made { thread, auth, id, given: None } = &e.ev {
            let mut x = [*id; 17];
            x[..16].copy_from_slice(auth);
            seen.push((*thread, x));
        }
    }
    seen.sort_by_key(|x| x.0);
    let n = seen.len();
    if n < 64 {
        return;
    }
    let mean = n as f64 / 256.0;
    let most = (mean + 9.0 * mean.sqrt() + 24.0) as u32;
    let name = |i: usize| if i == 16 { "the identifier".to_string() } else { format!("octet {i} of the authenticator") };
    for before in [false, true] {
        for i in 0..17 {
            for j in if before { 0 } else { i + 1 }..17 {
                let mut c = [[0u32; 256]; 2];
                for k in usize::from(before)..n {
                    let (a, b) = (seen[k].1[i], seen[k - usize::from(before)].1[j]);
                    if before && seen[k].0 != seen[k - 1].0 {
                        continue;
                    }
                    c[0][(a ^ b) as usize] += 1;
                    c[1][a.wrapping_sub(b) as usize] += 1;
                }
                if let Some(x) = c.iter().flatten().find(|x| **x > most) {
                    let of = if before { " of the packet before" } else { "" };
                    r.bad(&["C16"], "auth-related", format!("{} differs in the same way from {}{of} in {x} of {n} packets", name(i), name(j)));
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- leaks

/// Windows of 8 octets of a secret, and ways they show up in text.
fn forms(s: &[u8]) -> Vec<Vec<u8>> {
    if s.len() < 8 {
        return vec![];
    }
    let mut v = vec![];
    for w in [&s[..8], &s[s.len() - 8..]] {
        v.push(w.to_vec());
        v.push(w.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ").into_bytes());
        v.push(w.iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes());
        v.push(w.iter().map(|b| format!("{b:02X}")).collect::<String>().into_bytes());
        v.push(w.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ").into_bytes());
        v.push(w.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":").into_bytes());
        v.push(w.iter().map(|b| format!("{b:x}")).collect::<Vec<_>>().join(", ").into_bytes());
        v.push(w.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(", ").into_bytes());
        v.push(w.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(", ").into_bytes());
        v.push(w.iter().map(|b| format!("{b:X}")).collect::<Vec<_>>().join(", ").into_bytes());
        v.push(w.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(" ").into_bytes());
        v.push(w.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(":").into_bytes());
        v.push(w.iter().map(|b| format!("{b:#x}")).collect::<Vec<_>>().join(", ").into_bytes());
        v.push(w.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ").into_bytes());
        v.push(w.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",").into_bytes());
        v.push(w.escape_ascii().to_string().into_bytes());
        v.push(w.iter().map(|b| format!("{b:#04x}")).collect::<Vec<_>>().join(", ").into_bytes());
        v.push(format!("{:?}", String::from_utf8_lossy(w)).trim_matches('"').as_bytes().to_vec());
        v.push(String::from_utf8_lossy(w).as_bytes().to_vec());
    }
    // anywhere inside: as it is
    for k in 1..s.len() / 16 {
        v.push(s[16 * k..(16 * k + 8).min(s.len())].to_vec());
    }
    v.retain(|x| x.len() >= 8);
    v.sort();
    v.dedup();
    v
}
fn finds(hay: &[u8], needle: &[u8]) -> bool {
    unsafe { !libc::memmem(hay.as_ptr() as *const _, hay.len(), needle.as_ptr() as *const _, needle.len()).is_null() }
}

pub fn leaks(r: &mut Report) {
    let p = plan();
    let mut secrets: Vec<&[u8]> = vec![];
    for s in p.servers() {
        for q in &s.peers {
            for x in &q.secrets {
                if let SecretP::Key(k) = &x.1 {
                    secrets.push(&k.0);
                }
            }
        }
    }
    let mut pws: Vec<&[u8]> = vec![];
    for c in &p.calls {
        secrets.push(&c.secret.0);
        let resp = c.behave.iter().filter_map(|b| b.respond.as_ref()).flat_map(|x| x.typed.iter());
        for (i, v) in c.typed.iter().chain(resp) {
            match (table()[*i].kind, v) {
                (Kind::UserPw, Val::B(b)) | (Kind::TunnelPw, Val::TP(_, b)) if b.len() >= 8 && !b.iter().all(|x| *x == b[0]) => pws.push(b),
                _ => {}
            }
        }
    }
    secrets.sort();
    secrets.dedup();
    if secrets.is_empty() {
        return;
    }
    let mut places: Vec<(&str, &[u8], bool)> = vec![];
    for e in &h().ev {
        match &e.ev {
            Ev::Log { text } => places.push(("a log record", text.as_bytes(), true)),
            Ev::HStart { seen, .. } => places.push(("a packet's debug rendering", seen.dbg.as_bytes(), false)),
            Ev::HEncodeErr { text, .. } => places.push(("an error value", text.as_bytes(), false)),
            Ev::CallEnd { res: CallRes::Ok(s), .. } => places.push(("a packet's debug rendering", s.dbg.as_bytes(), false)),
            Ev::CallEnd { res: CallRes::Err { text, dbg, .. }, .. } => {
                places.push(("an error value", text.as_bytes(), false));
                places.push(("an error value", dbg.as_bytes(), false));
            }
            Ev::CallMade { wire: Err(e), .. } => places.push(("an error value", e.as_bytes(), false)),
            Ev::RunEnd { err: Some(e), .. } => places.push(("an error value", e.as_bytes(), false)),
            Ev::Panic { msg, .. } => places.push(("a panic message", msg.as_bytes(), false)),
            _ => {}
        }
    }
    for e in &st().net.log {
        if let NetEv::Send { data, .. } = &e.ev {
            places.push(("a datagram", data, true));
        }
    }
    places.push(("standard output", &st().out[0], false));
    places.push(("standard error", &st().out[1], false));
    r.t("C17");
    // pretty-printed lists, one element a line, read as if on one line
    let mut flat: Vec<(&str, Vec<u8>, bool)> = vec![];
    for x in &places {
        if x.0 != "a datagram" && x.1.contains(&b'\n') {
            let words: Vec<&[u8]> = x.1.split(|b| b.is_ascii_whitespace()).filter(|w| !w.is_empty()).collect();
            flat.push((x.0, words.join(&b' '), x.2));
        }
    }
    for x in &flat {
        places.push((x.0, &x.1, x.2));
    }
    // one haystack per class keeps this cheap
    let mut all: Vec<u8> = vec![];
    for x in &places {
        all.extend_from_slice(x.1);
        all.push(0);
    }
    for (list, pw) in [(&secrets, false), (&pws, true)] {
        for s in list.iter() {
            for f in forms(s) {
                if !finds(&all, &f) {
                    continue;
                }
                for x in &places {
                    if (!pw || x.2) && finds(x.1, &f) {
                        let what = if pw { "a plain-text password" } else { "the shared secret" };
                        r.bad(&["C17"], "leak", format!("{what} appears in {}", x.0));
                        return;
                    }
                }
            }
        }
    }
}
