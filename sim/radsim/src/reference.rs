//! Independent reference implementation of the RADIUS wire rules (RFC 2865,
//! 2866, 5176, 1321), used only by the oracles and the scripted peers.

pub fn md5(input: &[u8]) -> [u8; 16] {
    // constants computed, not copied
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    let k = K.get_or_init(|| {
        let mut k = [0u32; 64];
        for (i, v) in k.iter_mut().enumerate() {
            *v = ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32;
        }
        k
    });
    const R: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut m = input.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((input.len() as u64).wrapping_mul(8)).to_le_bytes());
    let (mut a0, mut b0, mut c0, mut d0) = (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    for ch in m.chunks(64) {
        let w: Vec<u32> = ch.chunks(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
        let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(t.rotate_left(R[i / 16][i % 4]));
        }
        a0 = a0.wrapping_add(a);
        b0 = b0.wrapping_add(b);
        c0 = c0.wrapping_add(c);
        d0 = d0.wrapping_add(d);
    }
    let mut out = [0u8; 16];
    for (i, v) in [a0, b0, c0, d0].iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&v.to_le_bytes());
    }
    out
}

pub type Attrs = Vec<(u8, Vec<u8>)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Pkt {
    pub code: u8,
    pub id: u8,
    pub len: usize,
    pub auth: [u8; 16],
    pub attrs: Attrs,
}

pub fn parse_attrs(mut b: &[u8]) -> Option<Attrs> {
    let mut v = vec![];
    while !b.is_empty() {
        if b.len() < 2 || (b[1] as usize) < 2 || b[1] as usize > b.len() {
            return None;
        }
        let n = b[1] as usize;
        v.push((b[0], b[2..n].to_vec()));
        b = &b[n..];
    }
    Some(v)
}

/// A well-formed packet at the start of `b` (what follows is padding).
pub fn parse(b: &[u8]) -> Option<Pkt> {
    if b.len() < 20 {
        return None;
    }
    let len = u16::from_be_bytes([b[2], b[3]]) as usize;
    if !(20..=4096).contains(&len) || len > b.len() {
        return None;
    }
    let attrs = parse_attrs(&b[20..len])?;
    let mut auth = [0; 16];
    auth.copy_from_slice(&b[4..20]);
    Some(Pkt { code: b[0], id: b[1], len, auth, attrs })
}

pub fn is_hashed_request(code: u8) -> bool {
    matches!(code, 4 | 40 | 43)
}
pub fn is_plain_request(code: u8) -> bool {
    matches!(code, 1 | 12)
}

/// Is this well-formed packet an authentic request under `secret`?
pub fn request_authentic(b: &[u8], secret: &[u8]) -> bool {
    let Some(p) = parse(b) else { return false };
    if secret.is_empty() {
        return false;
    }
    if is_plain_request(p.code) {
        return true;
    }
    if !is_hashed_request(p.code) {
        return false;
    }
    let mut v = b[..4].to_vec();
    v.extend([0; 16]);
    v.extend(&b[20..p.len]);
    v.extend(secret);
    md5(&v) == p.auth
}

/// As above; nothing is said on octets whose header is in order but whose attributes are not.
pub fn request_authentic_raw(b: &[u8], secret: &[u8]) -> Option<bool> {
    let len = if b.len() < 20 { 0 } else { u16::from_be_bytes([b[2], b[3]]) as usize };
    if len < 20 || len > b.len() || parse(b).is_some() {
        return Some(request_authentic(b, secret));
    }
    None
}

/// Does this response verify against the request (as sent) under `secret`?
pub fn response_authentic(resp: &[u8], req: &[u8], secret: &[u8]) -> bool {
    let Some(p) = parse(resp) else { return false };
    !secret.is_empty() && response_auth(&resp[..p.len], &req[4..20], secret) == p.auth
}
/// As above for octets that need not parse as attributes.
pub fn response_authentic_raw(resp: &[u8], req: &[u8], secret: &[u8]) -> bool {
    if resp.len() < 20 || req.len() < 20 || secret.is_empty() {
        return false;
    }
    let len = u16::from_be_bytes([resp[2], resp[3]]) as usize;
    if len < 20 || len > resp.len() {
        return false;
    }
    response_auth(&resp[..len], &req[4..20], secret) == resp[4..20]
}
pub fn response_auth(resp: &[u8], req_auth: &[u8], secret: &[u8]) -> [u8; 16] {
    let mut v = resp[..4].to_vec();
    v.extend(req_auth);
    v.extend(&resp[20..]);
    v.extend(secret);
    md5(&v)
}

pub fn assemble(code: u8, id: u8, auth: &[u8], attrs: &Attrs) -> Vec<u8> {
    let mut v = vec![code, id, 0, 0];
    v.extend(auth);
    for (t, x) in attrs {
        v.push(*t);
        v.push((x.len() + 2) as u8);
        v.extend(x);
    }
    let n = v.len() as u16;
    v[2..4].copy_from_slice(&n.to_be_bytes());
    v
}
/// A request as a correct sender puts it on the wire; `auth` is used where the code takes a random one.
pub fn build_request(code: u8, id: u8, auth: &[u8], attrs: &Attrs, secret: &[u8]) -> Vec<u8> {
    let mut v = assemble(code, id, auth, attrs);
    if !is_plain_request(code) {
        let a = if is_hashed_request(code) { vec![0; 16] } else { auth.to_vec() };
        let mut x = v[..4].to_vec();
        x.extend(a);
        x.extend(&v[20..]);
        x.extend(secret);
        v[4..20].copy_from_slice(&md5(&x));
    }
    v
}
/// A response to `req` as a correct server puts it on the wire.
pub fn build_response(code: u8, req: &[u8], attrs: &Attrs, secret: &[u8]) -> Vec<u8> {
    let mut v = assemble(code, req[1], &req[4..20], attrs);
    if !is_plain_request(code) {
        let base = if is_hashed_request(code) { vec![0; 16] } else { req[4..20].to_vec() };
        let a = response_auth(&v, &base, secret);
        v[4..20].copy_from_slice(&a);
    }
    v
}

/// RFC 2865 section 5.2
pub fn hide_password(plain: &[u8], auth: &[u8], secret: &[u8]) -> Vec<u8> {
    let mut p = plain.to_vec();
    if p.is_empty() {
        p.push(0);
    }
    while p.len() % 16 != 0 {
        p.push(0);
    }
    let mut prev = auth.to_vec();
    let mut out = vec![];
    for ch in p.chunks(16) {
        let mut k = secret.to_vec();
        k.extend(&prev);
        let b = md5(&k);
        prev = ch.iter().zip(b).map(|(x, y)| x ^ y).collect();
        out.extend(&prev);
    }
    out
}

pub fn open_password(hidden: &[u8], auth: &[u8], secret: &[u8]) -> Vec<u8> {
    let mut prev = auth.to_vec();
    let mut out = vec![];
    for ch in hidden.chunks(16) {
        let mut k = secret.to_vec();
        k.extend(&prev);
        out.extend(ch.iter().zip(md5(&k)).map(|(x, y)| x ^ y));
        prev = ch.to_vec();
    }
    out
}

/// Codes the library's enum knows; any other one reads back as 0.
pub fn code_as_seen(c: u8) -> u8 {
    if matches!(c, 1..=5 | 11..=13 | 40..=45 | 255) {
        c
    } else {
        0
    }
}
pub fn sendable(c: u8) -> bool {
    matches!(c, 1..=5 | 11 | 12 | 40..=45)
}

#[cfg(test)]
mod tests {
    #[test]
    fn md5_known() {
        let h: String = super::md5(b"abc").iter().map(|b| format!("{b:02x}")).collect();
        assert_eq!(h, "900150983cd24fb0d6963f7d28e17f72");
    }
}
