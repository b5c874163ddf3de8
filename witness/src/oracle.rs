//! Independent reference: RFC 3986 / RFC 5849 / RFC 2104 / FIPS 180 written from the standards,
//! sharing no code with the crate under test or its dependencies.

pub fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'-' | b'.' | b'_' | b'~')
}

pub fn enc(s: &str) -> String {
    let mut r = String::new();
    for &b in s.as_bytes() {
        if unreserved(b) {
            r.push(b as char);
        } else {
            r.push('%');
            r.push(char::from(b"0123456789ABCDEF"[usize::from(b >> 4)]));
            r.push(char::from(b"0123456789ABCDEF"[usize::from(b & 15)]));
        }
    }
    r
}

/// Decodes percent escapes (strictly).
pub fn dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3)?;
            r.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    Some(r)
}

pub fn sha1(msg: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for chunk in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, &wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & c) | (!b & d), 0x5A827999u32),
                20..=39 => (b ^ c ^ d, 0x6ED9EBA1),
                40..=59 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for (i, x) in h.iter().enumerate() {
        out[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

pub fn hmac_sha1(key: &[u8], msg: &[u8]) -> [u8; 20] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..20].copy_from_slice(&sha1(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&sha1(&inner));
    sha1(&outer)
}

fn b64_with(data: &[u8], alphabet: &[u8; 64], pad: bool) -> String {
    let mut r = String::new();
    for c in data.chunks(3) {
        let v = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..=c.len() {
            r.push(char::from(alphabet[(v >> (18 - 6 * i)) as usize & 63]));
        }
        if pad {
            for _ in c.len()..3 {
                r.push('=');
            }
        }
    }
    r
}
pub fn b64(data: &[u8]) -> String {
    b64_with(data, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", true)
}
pub fn b64url_nopad(data: &[u8]) -> String {
    b64_with(data, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", false)
}

/// One parameter as sent: name and once-encoded value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct P {
    pub k: String,
    pub v: String,
    pub oauth: bool,
}

pub fn key_text(cs: &str, ts: Option<&str>) -> String {
    format!("{}&{}", enc(cs), ts.map(enc).unwrap_or_default())
}

/// RFC 5849 section 3.4.1: the whole normalized parameter string is encoded once more as a unit.
pub fn base_string(method: &str, uri: &str, params: &[P]) -> String {
    let norm: Vec<String> = params.iter().map(|p| format!("{}={}", p.k, p.v)).collect();
    format!("{}&{}&{}", method, enc(uri), enc(&norm.join("&")))
}

pub fn header(params: &[P], signature_enc: &str) -> String {
    let mut r = String::from("OAuth ");
    for p in params.iter().filter(|p| p.oauth) {
        r += &format!("{}=\"{}\",", p.k, p.v);
    }
    r + &format!("oauth_signature=\"{}\"", signature_enc)
}

pub fn form(params: &[P], signature_enc: Option<&str>) -> String {
    let mut v: Vec<String> = params.iter().map(|p| format!("{}={}", p.k, p.v)).collect();
    if let Some(s) = signature_enc {
        v.push(format!("oauth_signature={}", s));
    }
    v.join("&")
}

pub const SLOTS: [&str; 8] = [
    "oauth_callback",
    "oauth_consumer_key",
    "oauth_nonce",
    "oauth_signature_method",
    "oauth_timestamp",
    "oauth_token",
    "oauth_verifier",
    "oauth_version",
];

/// Expected call sequence of a serializer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Param(String, String),
    Enc(String, String),
    Slot(usize),
    End,
}

/// Merges sorted pairs with the slots: a slot precedes a pair iff its name is smaller.
pub fn merge(pairs: &[Ev]) -> Vec<Ev> {
    let mut out = vec![];
    let mut slot = 0;
    for p in pairs {
        let k = match p {
            Ev::Param(k, _) | Ev::Enc(k, _) => k,
            _ => unreachable!(),
        };
        while slot < 8 && SLOTS[slot].as_bytes() < k.as_bytes() {
            out.push(Ev::Slot(slot));
            slot += 1;
        }
        out.push(p.clone());
    }
    while slot < 8 {
        out.push(Ev::Slot(slot));
        slot += 1;
    }
    out.push(Ev::End);
    out
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vectors() {
        assert_eq!(b64(&sha1(b"abc")), b64(&[0xa9, 0x99, 0x3e, 0x36, 0x47, 0x06, 0x81, 0x6a, 0xba, 0x3e, 0x25, 0x71, 0x78, 0x50, 0xc2, 0x6c, 0x9c, 0xd0, 0xd8, 0x9d]));
        // RFC 2202 test case 6
        assert_eq!(
            hmac_sha1(&[0xaa; 80], b"Test Using Larger Than Block-Size Key - Hash Key First")[..4],
            [0xaa, 0x4a, 0xe5, 0xe1]
        );
        assert_eq!(b64(b"fo"), "Zm8=");
    }
}
