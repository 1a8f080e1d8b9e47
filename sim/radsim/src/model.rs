//! What a packet filled according to the plan must look like.
use crate::attrs::{Kind, Val};
use crate::hist::Typed;
use crate::plan::Hx;
use crate::reference as rf;
use crate::world::table;
use std::collections::BTreeSet;

pub enum Exp {
    Exact(Vec<u8>),
    /// RFC 2868 integer: the tag, then three octets; the library sends four (a known finding)
    TaggedInt(u8, u32),
    /// RFC 2868 password: tag, salt, hidden (length octet and password); the library leaves the
    /// length octet out (a known finding)
    Tunnel(u8, Vec<u8>, Vec<u8>, Vec<u8>),
}
impl Exp {
    /// its size in the library's layout
    fn size(&self) -> usize {
        match self {
            Exp::Exact(v) => v.len(),
            Exp::TaggedInt(..) => 5,
            Exp::Tunnel(_, p, ..) => 3 + p.len().div_ceil(16).max(1) * 16,
        }
    }
    /// by how much it may be off in another layout
    fn slack(&self) -> usize {
        match self {
            Exp::Exact(_) => 0,
            Exp::TaggedInt(..) => 1,
            Exp::Tunnel(..) => 16,
        }
    }
    fn fits(&self, w: &[u8], known: &mut BTreeSet<&'static str>) -> bool {
        match self {
            Exp::Exact(v) => *v == w,
            Exp::TaggedInt(t, x) => {
                let b = x.to_be_bytes();
                if w.first() != Some(t) {
                    return false;
                }
                if b[0] == 0 && w[1..] == b[1..] {
                    return true;
                }
                if w[1..] == b {
                    known.insert("tagged-integer-layout");
                    return true;
                }
                false
            }
            Exp::Tunnel(t, p, auth, secret) => {
                if w.len() < 19 || (w.len() - 3) % 16 != 0 || w[0] != *t {
                    return false;
                }
                let (plain, rfc) = opened(w, auth, secret);
                if rfc.as_ref() == Some(p) && w.len() == 3 + (p.len() + 1).div_ceil(16) * 16 {
                    return true;
                }
                if plain.starts_with(p) && plain[p.len()..].iter().all(|x| *x == 0) && w.len() == self.size() {
                    known.insert("tunnel-password-layout");
                    return true;
                }
                false
            }
        }
    }
}
/// The hidden octets of a tunnel password (from octet 3 on) in clear, and the password in them according to RFC 2868, if any.
fn opened(w: &[u8], auth: &[u8], secret: &[u8]) -> (Vec<u8>, Option<Vec<u8>>) {
    let plain = rf::open_password(&w[3..], &[auth, &w[1..3]].concat(), secret);
    let n = plain[0] as usize;
    let rfc = (n < plain.len() && plain[1 + n..].iter().all(|x| *x == 0)).then(|| plain[1..1 + n].to_vec());
    (plain, rfc)
}
pub struct Slot {
    pub typ: u8,
    pub exp: Exp,
    pub from: Option<(usize, Val)>,
}
pub struct Model {
    pub slots: Vec<Slot>,
    /// indices into the typed list that must be refused
    pub refused: Vec<usize>,
}

pub fn must_refuse(k: Kind, v: &Val, secret: &[u8]) -> bool {
    match (k, v) {
        // nothing to hide it with
        (Kind::UserPw | Kind::TunnelPw, _) if secret.is_empty() => true,
        (Kind::Fixed(n), Val::B(b)) => b.len() != n,
        (Kind::V4Prefix, Val::B(b)) => b.len() != 4,
        (Kind::V6Prefix, Val::B(b)) => b.len() > 16,
        (Kind::UserPw, Val::B(b)) => b.len() > 128,
        (Kind::TunnelPw, Val::TP(_, b)) => b.len() > 240,
        _ => false,
    }
}

pub fn vsa_bytes(vendor: i32, typ: u8, tag: Option<u8>, text: &str) -> Vec<u8> {
    let mut v = vendor.to_be_bytes().to_vec();
    v.push(typ);
    v.push((2 + usize::from(tag.is_some()) + text.len()) as u8);
    v.extend(tag);
    v.extend(text.as_bytes());
    v
}

/// `auth`: the authenticator passwords are hidden with
pub fn model(attrs: &[(u8, Hx)], copies: u32, typed: &[(usize, Val)], dels: &[usize], auth: &[u8], secret: &[u8]) -> Model {
    let mut slots = vec![];
    let mut refused = vec![];
    for _ in 0..copies.max(1) {
        for (t, v) in attrs {
            slots.push(Slot { typ: *t, exp: Exp::Exact(v.0.clone()), from: None });
        }
    }
    for (n, (i, v)) in typed.iter().enumerate() {
        let a = &table()[*i];
        if must_refuse(a.kind, v, secret) {
            refused.push(n);
            continue;
        }
        let from = Some((*i, v.clone()));
        let exp = match (a.kind, v) {
            (Kind::Concat, Val::B(b)) => {
                for (k, c) in b.chunks(253).enumerate() {
                    slots.push(Slot { typ: a.typ, exp: Exp::Exact(c.to_vec()), from: if k == 0 { from.clone() } else { Some((*i, Val::B(vec![]))) } });
                }
                continue;
            }
            (Kind::UserPw, Val::B(b)) => Exp::Exact(rf::hide_password(b, auth, secret)),
            // reserved, length in bits, address
            (Kind::V4Prefix | Kind::V6Prefix, Val::B(b)) => Exp::Exact([&[0, b.len() as u8 * 8], &b[..]].concat()),
            (_, Val::TS(t, s)) => Exp::Exact(t.iter().copied().chain(s.bytes()).collect()),
            (_, Val::TU(t, x)) => Exp::TaggedInt(t.unwrap_or(0), *x),
            (_, Val::TP(t, p)) => Exp::Tunnel(t.unwrap_or(0), p.clone(), auth.to_vec(), secret.to_vec()),
            (_, Val::S(s)) => Exp::Exact(s.as_bytes().to_vec()),
            (_, Val::B(b)) => Exp::Exact(b.clone()),
            (_, Val::U32(x)) => Exp::Exact(x.to_be_bytes().to_vec()),
            (_, Val::Date(x)) => Exp::Exact((*x as u32).to_be_bytes().to_vec()),
            (_, Val::U16(x)) => Exp::Exact(x.to_be_bytes().to_vec()),
            (_, Val::V4(x)) => Exp::Exact(x.to_vec()),
            (_, Val::V6(x)) => Exp::Exact(x.to_vec()),
            (_, Val::Vsa { vendor, typ, tag, text }) => Exp::Exact(vsa_bytes(*vendor, *typ, *tag, text)),
        };
        slots.push(Slot { typ: a.typ, exp, from });
    }
    for i in dels {
        let t = table()[*i].typ;
        slots.retain(|s| s.typ != t);
    }
    Model { slots, refused }
}

impl Model {
    /// total size on the wire, and whether some value is above what an attribute can carry
    pub fn size(&self) -> (usize, bool) {
        let mut n = 20;
        let mut big = false;
        for s in &self.slots {
            let k = s.exp.size();
            big |= k > 253;
            n += 2 + k;
        }
        (n, big)
    }
    /// whether it depends on the layout of some value if the packet can be sent
    pub fn unclear(&self) -> bool {
        let slack: usize = self.slots.iter().map(|s| s.exp.slack()).sum();
        let n = self.size().0;
        slack > 0 && n + slack > 4096 && n < 4096 + slack
    }
    /// None: as expected
    pub fn differs(&self, wire: &rf::Attrs, known: &mut BTreeSet<&'static str>) -> Option<String> {
        if wire.len() != self.slots.len() {
            return Some(format!("{} attributes on the wire, {} expected", wire.len(), self.slots.len()));
        }
        for (n, (w, s)) in wire.iter().zip(&self.slots).enumerate() {
            if w.0 != s.typ {
                return Some(format!("attribute {n} has type {} on the wire, expected {}", w.0, s.typ));
            }
            if !s.exp.fits(&w.1, known) {
                let name = s.from.as_ref().map_or("raw", |f| table()[f.0].name);
                let want = match &s.exp {
                    Exp::Exact(v) => crate::plan::hex(v),
                    Exp::TaggedInt(t, x) => format!("tag {t} and {x}"),
                    Exp::Tunnel(t, p, ..) => format!("tag {t} and hidden {}", crate::plan::hex(p)),
                };
                return Some(format!("attribute {n} ({name}) is {} on the wire, expected {want}", crate::plan::hex(&w.1)));
            }
        }
        None
    }
    /// The values of attribute `i` that were added and not deleted; None: cannot be told (mixed with raw ones).
    pub fn values(&self, i: usize) -> Option<Vec<Val>> {
        let typ = table()[i].typ;
        let mut out = vec![];
        let concat = table()[i].kind == Kind::Concat;
        for s in self.slots.iter().filter(|s| s.typ == typ) {
            match &s.from {
                Some((k, v)) if *k == i => out.push(match v {
                    Val::Vsa { vendor, typ, tag, text } => Val::B(vsa_bytes(*vendor, *typ, *tag, text)),
                    v => v.clone(),
                }),
                Some(_) => return None,
                None => return None,
            }
        }
        if concat && !out.is_empty() {
            let mut all = vec![];
            for v in &out {
                if let Val::B(b) = v {
                    all.extend(b);
                }
            }
            return Some(vec![Val::B(all)]);
        }
        Some(out)
    }
    /// Compares one typed read-back; None: fine.
    pub fn read_differs(&self, t: &Typed) -> Option<String> {
        let want = self.values(t.attr)?;
        let a = &table()[t.attr];
        let first = want.first().cloned().map(Some);
        if t.get != first {
            return Some(format!("{}: first value read as {:?}, expected {:?}", a.name, t.get, first));
        }
        if let Some(all) = &t.all {
            if all.as_ref() != Some(&want) {
                return Some(format!("{}: all values read as {:?}, expected {:?}", a.name, all, want));
            }
        }
        None
    }
}

/// What one attribute's octets say under a dictionary type.
enum Reading {
    Is(Val),
    /// as the RFC has it / as the library does (a known finding)
    Either(Option<Val>, Option<Val>, &'static str),
    Malformed,
    /// not judged
    Unclear,
}
fn reading(k: Kind, b: &[u8], auth: &[u8], secret: &[u8]) -> Reading {
    use Reading::*;
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).ok();
    match k {
        Kind::UserPw | Kind::TunnelPw if secret.is_empty() => Malformed,
        Kind::Str => text(b).map_or(Malformed, |s| Is(Val::S(s))),
        Kind::Octets | Kind::Fixed(_) | Kind::Vsa | Kind::Concat => Is(Val::B(b.to_vec())),
        Kind::Int => b.try_into().map_or(Malformed, |x| Is(Val::U32(u32::from_be_bytes(x)))),
        Kind::Date => b.try_into().map_or(Malformed, |x| Is(Val::Date(u32::from_be_bytes(x) as i64))),
        Kind::Short => b.try_into().map_or(Malformed, |x| Is(Val::U16(u16::from_be_bytes(x)))),
        Kind::V4 => b.try_into().map_or(Malformed, |x| Is(Val::V4(x))),
        Kind::V6 => b.try_into().map_or(Malformed, |x| Is(Val::V6(x))),
        Kind::V4Prefix if b.len() == 6 => Is(Val::B(b[2..].to_vec())),
        Kind::V4Prefix => Malformed,
        Kind::V6Prefix if b.len() < 2 => Malformed,
        Kind::V6Prefix if b.len() > 18 => Unclear,
        Kind::V6Prefix => Is(Val::B(b[2..].to_vec())),
        Kind::TStr => match b.first() {
            None => Malformed,
            Some(0) => Malformed,
            Some(t @ 1..=0x1f) => text(&b[1..]).map_or(Malformed, |s| Is(Val::TS(Some(*t), s))),
            Some(_) => text(b).map_or(Malformed, |s| Is(Val::TS(None, s))),
        },
        Kind::TInt => match b {
            [t, x @ ..] if x.len() == 4 && *t <= 0x1f => Is(Val::TU((*t > 0).then_some(*t), u32::from_be_bytes(x.try_into().unwrap()))),
            // as RFC 2868 lays it out: the library sees no value in it
            [t, x @ ..] if x.len() == 3 && *t <= 0x1f => {
                Either(Some(Val::TU((*t > 0).then_some(*t), u32::from_be_bytes([0, x[0], x[1], x[2]]))), None, "tagged-integer-reading")
            }
            _ => Malformed,
        },
        Kind::UserPw => {
            if !(16..=128).contains(&b.len()) {
                return Malformed;
            }
            if b.len() % 16 != 0 {
                return Unclear;
            }
            let p = rf::open_password(b, auth, secret);
            let end = p.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
            Is(Val::B(p[..end].to_vec()))
        }
        Kind::TunnelPw => {
            if b.len() < 19 || b.len() > 243 || (b.len() - 3) % 16 != 0 || b[1] & 0x80 == 0 {
                Malformed
            } else {
                let tag = (b[0] != 0).then_some(b[0]);
                let (plain, rfc) = opened(b, auth, secret);
                let end = plain.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
                Either(rfc.map(|p| Val::TP(tag, p)), Some(Val::TP(tag, plain[..end].to_vec())), "tunnel-password-reading")
            }
        }
    }
}

/// Compares typed reads of a received packet with what its octets say; None: fine.
pub fn reads_differ(attrs: &rf::Attrs, typed: &[Typed], auth: &[u8], secret: &[u8], known: &mut BTreeSet<&'static str>) -> Option<String> {
    for t in typed {
        let a = &table()[t.attr];
        let mine: Vec<&Vec<u8>> = attrs.iter().filter(|x| x.0 == a.typ).map(|x| &x.1).collect();
        if mine.is_empty() {
            if t.get.is_some() || t.all.as_ref().is_some_and(|x| x.as_ref().is_none_or(|v| !v.is_empty())) {
                return Some(format!("{} is absent but reads as {:?} / {:?}", a.name, t.get, t.all));
            }
            continue;
        }
        if a.kind == Kind::Concat {
            let want: Vec<u8> = mine.iter().flat_map(|x| x.iter().copied()).collect();
            if t.get != Some(Some(Val::B(want))) {
                return Some(format!("{} reads as {:?}", a.name, t.get));
            }
            continue;
        }
        let rs: Vec<Reading> = mine.iter().map(|b| reading(a.kind, b, auth, secret)).collect();
        let mut wrong = |r: &Reading, got: Option<&Val>| match r {
            Reading::Is(v) => got != Some(v),
            Reading::Malformed => got.is_some(),
            Reading::Either(rfc, lib, key) => {
                if got == rfc.as_ref() {
                    return false;
                }
                known.insert(key);
                got != lib.as_ref()
            }
            Reading::Unclear => false,
        };
        if t.get.as_ref().is_none_or(|g| wrong(&rs[0], g.as_ref())) {
            return Some(format!("{} with octets {} reads as {:?}", a.name, crate::plan::hex(mine[0]), t.get));
        }
        if let Some(all) = &t.all {
            let bad = match all {
                // an error: at least one has none
                None => rs.iter().all(|r| wrong(r, None)),
                Some(v) => v.len() != rs.len() || v.iter().zip(&rs).any(|(v, r)| wrong(r, Some(v))),
            };
            if bad {
                return Some(format!("all of {} read as {:?}", a.name, all));
            }
        }
    }
    None
}
