//! C01 C02 C03 C05 C06 C07 C08 C12 C17 C18
use crate::auth::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::{self, enc};
use crate::rec::*;
use crate::DEBUG;
use either::Either;
use oauth1_request as oauth;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::{Serializer, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::{Credentials, Request};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::{self, Display, Write};

pub fn table() -> Vec<(&'static str, u64, CaseFn)> {
    vec![
        ("C01", 3 * 29 * 64, c01 as CaseFn),
        ("C02", 29 * 64, c02),
        ("C03", 2 * 29 * 64, c03),
        ("C05", C05_CHARS + C05_SEQ, c05),
        ("C06", 141 * 4, c06),
        ("C07", 40, c07),
        ("C08", 64, c08),
        ("C12", 300, c12),
        ("C17", 200, c17),
        ("C18", 100, c18),
    ]
}
const ROUTES: [Route; 7] = [Route::Direct, Route::DirectBuf, Route::Builder, Route::BuilderBuf, Route::Into, Route::IntoBuf, Route::BuilderToken];
fn small(idx: u64, dest: Dest) -> Auth {
    let mask = idx % 64;
    Auth::small(mask | ((idx / 5) % 4) << 6, ((idx / 64) % 29) as usize, dest, ROUTES[(idx % 7) as usize])
}
fn sig(r: &mut R) -> String {
    enc(&r.short_text())
}
fn c01(idx: u64, r: &mut R) -> Case {
    if (3..6).contains(&idx) {
        return Auth::check_slow(idx * 5, [Dest::Header, Dest::Form, Dest::Query][idx as usize % 3]);
    }
    let a = if idx < 3 * 29 * 64 { small(idx, [Dest::Header, Dest::Form, Dest::Query][(idx / 64 / 29) as usize % 3]) } else { Auth::gen(r) };
    let s = sig(r);
    let res = a.check_rec::<true>(&s).and_then(|_| a.check_rec::<false>(&s)).and_then(|_| {
        if a.use_nonce && a.use_ts && idx % 3 == 0 { a.check_hmac() } else { Ok(()) }
    });
    // the header/form text is C02/C03; here only what was signed (the HMAC value covers it too)
    let res = match res {
        Err(e) if e.starts_with("output") && !e.contains("oauth_signature") => Ok(()),
        x => x,
    };
    let mut c = Case::one(format!("{a:?}"), true, res);
    c.evals = 2;
    c
}
fn dest_case(a: Auth, r: &mut R) -> Case {
    let s = sig(r);
    let res = match r.below(4) {
        0 => a.check_hmac(),
        1 => a.check_plain(),
        2 => a.check_rec::<false>(&s),
        _ => a.check_rec::<true>(&s),
    };
    Case::one(format!("{a:?}"), true, res)
}
fn c02(idx: u64, r: &mut R) -> Case {
    if (2..5).contains(&idx) {
        return Auth::check_slow(idx * 5, Dest::Header);
    }
    let a = if idx < 29 * 64 { small(idx, Dest::Header) } else { Auth { dest: Dest::Header, ..Auth::gen(r) } };
    dest_case(a, r)
}
fn c03(idx: u64, r: &mut R) -> Case {
    if (2..6).contains(&idx) {
        return Auth::check_slow(idx * 5, if idx % 2 == 0 { Dest::Form } else { Dest::Query });
    }
    let a = if idx < 2 * 29 * 64 {
        small(idx, if idx % 2 == 0 { Dest::Form } else { Dest::Query })
    } else {
        Auth { dest: if r.flip() { Dest::Form } else { Dest::Query }, ..Auth::gen(r) }
    };
    let decodes = a.params.iter().all(|p| p.2 || oracle::dec(&enc(&p.1.text)).as_deref() == Some(p.1.text.as_bytes()));
    assert!(decodes);
    dest_case(a, r)
}

// ---- C05 ----
const C05_CHARS: u64 = 0x110000 / 0x800;
const C05_SEQ: u64 = 1 + 6 + 36 + 216 + 1296 + 7776;
const CLASSES: [&str; 6] = ["a", "~", "&", "%", "é", "\u{10348}"];
/// Feeds `vals` (plain and as already encoded) and checks all places where encodings appear.
fn c05_check(vals: &[Chunky]) -> Result<(), String> {
    // already-encoded and plain values in the signed text and the form
    for encoded in [false, true] {
        let rec = Rec::<true>::new("s");
        let o = Options::new();
        let mut ser = Authorizer::form("GET", "u", Credentials::new("k", "s"), None, &o, rec.clone());
        for v in vals {
            if encoded {
                ser.serialize_parameter_encoded("k", v);
            } else {
                ser.serialize_parameter("k", v);
            }
        }
        let form = ser.end();
        let mut want_form = String::new();
        let mut want_base = String::from("GET&u&");
        for (i, v) in vals.iter().enumerate() {
            let once = if encoded { v.text.clone() } else { enc(&v.text) };
            if i > 0 {
                want_form.push('&');
                want_base += "%26";
            }
            want_form += &format!("k={once}");
            want_base += &format!("k%3D{}", enc(&once));
        }
        if !vals.is_empty() {
            want_form.push('&');
        }
        want_form += "oauth_signature=s";
        if form != want_form || rec.base() != want_base {
            if vals.len() > 1 {
                for v in vals {
                    c05_check(std::slice::from_ref(v)).map_err(|e| format!("value {v:?}: {e}"))?;
                }
            }
            eq(if encoded { "form with already encoded values" } else { "form with plain values" }, &form, &want_form)?;
            eq(if encoded { "signed text with already encoded values" } else { "signed text with plain values" }, &rec.base(), &want_base)?;
        }
    }
    Ok(())
}
fn c05(idx: u64, r: &mut R) -> Case {
    if idx < C05_CHARS {
        let lo = idx as u32 * 0x800;
        let vals: Vec<Chunky> = (lo..lo + 0x800).filter_map(char::from_u32).map(|c| Chunky { text: c.to_string(), cuts: vec![], by_char: c as u32 % 2 == 1 }).collect();
        let res = c05_check(&vals);
        return Case { input: format!("single-character values U+{lo:04X}..U+{:04X}", lo + 0x7ff), keys: vals.iter().map(|v| hash(&v.text)).collect(), evals: vals.len() as u64 * 2, result: res };
    }
    if idx < C05_CHARS + C05_SEQ {
        let mut n = idx - C05_CHARS;
        let mut len = 0;
        let mut cnt = 1;
        while n >= cnt {
            n -= cnt;
            cnt *= 6;
            len += 1;
        }
        let mut parts = vec![];
        for _ in 0..len {
            parts.push(CLASSES[(n % 6) as usize]);
            n /= 6;
        }
        let text: String = parts.concat();
        let vals: Vec<Chunky> = (0..1u32 << (len as u32).saturating_sub(1))
            .map(|m| {
                let mut cuts = vec![];
                let mut at = 0;
                for (i, p) in parts.iter().enumerate() {
                    if i > 0 && m >> (i - 1) & 1 == 1 {
                        cuts.push(at);
                    }
                    at += p.len();
                }
                Chunky { text: text.clone(), cuts, by_char: false }
            })
            .collect();
        let res = c05_check(&vals);
        return Case { input: format!("{text:?} in all {} ways of cutting it between characters", vals.len()), keys: vals.iter().map(|v| hash(&(&v.text, &v.cuts))).collect(), evals: vals.len() as u64 * 2, result: res };
    }
    let t = r.text();
    let v = r.chunky(&t);
    let mut res = c05_check(std::slice::from_ref(&v));
    // the URI (once) and protocol parameter values
    if res.is_ok() {
        let mut a = Auth::gen(r);
        a.uri = { let u = t.replace('?', "x"); r.chunky(&u) };
        a.callback = Some(t.clone());
        a.verifier = Some(t.clone());
        a.nonce = Some(t.clone());
        a.client.0 = t.clone();
        if let Some(k) = &mut a.token {
            k.0 = t.clone();
        }
        res = a.check_rec::<true>("s");
    }
    Case::one(format!("{v:?}"), !t.is_empty(), res)
}

// ---- C06 ----
fn c06_one(cs: &str, ts: Option<&str>, r: &mut R) -> Result<(), String> {
    let mut s = oauth::HMAC_SHA1.sign_with(cs, ts);
    let mut base = String::from("GET&");
    s.request_method("GET");
    let mut seq = vec![];
    let u = r.short_text();
    s.uri(r.chunky(&u));
    base += &format!("{u}&");
    for i in 0..r.below(4) {
        if i > 0 {
            s.delimiter();
            base += "%26";
        }
        let v = r.short_text();
        let c = r.chunky(&v);
        let (k, v) = match r.below(8) {
            0 => { s.callback(&c); ("oauth_callback", v) }
            1 => { s.consumer_key(&c); ("oauth_consumer_key", v) }
            2 => { s.nonce(&c); ("oauth_nonce", v) }
            3 => { s.token(&c); ("oauth_token", v) }
            4 => { s.verifier(&c); ("oauth_verifier", v) }
            5 => { s.signature_method(); ("oauth_signature_method", "HMAC-SHA1".into()) }
            6 => { let t = r.next(); s.timestamp(t); ("oauth_timestamp", t.to_string()) }
            _ => { s.parameter("key", &c); ("key", v) }
        };
        seq.push(k);
        base += &format!("{k}%3D{v}");
    }
    if r.flip() {
        s.version();
        base += "oauth_version%3D1.0";
    }
    eq("name", s.get_signature_method_name(), "HMAC-SHA1")?;
    let key = oracle::key_text(cs, ts);
    let want = enc(&oracle::b64(&oracle::hmac_sha1(key.as_bytes(), base.as_bytes())));
    let copy = s.clone();
    let got = s.end().to_string();
    eq("signature made by a copy", &copy.end().to_string(), &got)?;
    if got != want {
        return Err(format!("client secret {cs:?} ({} bytes), token secret {ts:?}, key text {key:?} ({} bytes), signed text {base:?}\n      got: {got}\n expected: {want}", cs.len(), key.len()));
    }
    Ok(())
}
fn fill(style: u64, n: usize) -> String {
    match style {
        0 => "a".repeat(n),
        1 => "b%".chars().cycle().take(n).collect(),
        2 => "é".chars().cycle().take(n).collect(),
        _ => "x&yz/".chars().cycle().skip(n % 3).take(n).collect(),
    }
}
fn c06(idx: u64, r: &mut R) -> Case {
    if idx < 141 * 4 {
        let (n, style) = ((idx % 141) as usize, idx / 141);
        let cs = fill(style, n);
        let mut keys = vec![];
        let mut res = c06_one(&cs, None, r);
        for m in 0..141usize {
            if style > 0 && m % 5 != n % 5 {
                continue;
            }
            keys.push(hash(&(style, n, m)));
            res = res.and_then(|_| c06_one(&cs, Some(&fill((style + m as u64 / 7) % 4, m)), r));
        }
        return Case { input: format!("client secret of {n} characters, style {style}, all token secret lengths 0..140"), evals: keys.len() as u64 + 1, keys, result: res };
    }
    if r.flip() {
        let a = Auth::gen(r);
        return Case::one(format!("{a:?}"), true, a.check_hmac());
    }
    let cs = r.text();
    let ts = if r.flip() { Some(r.text()) } else { None };
    let res = c06_one(&cs, ts.as_deref(), r);
    Case::one(format!("client secret {cs:?}, token secret {ts:?}"), true, res)
}

// ---- C07 ----
const DER: &str = "MIICdgIBADANBgkqhkiG9w0BAQEFAASCAmAwggJcAgEAAoGBALRiMLAh9iimur8VA7qVvdqxevEuUkW4K+2KdMXmnQbG9Aa7k7eBjK1S+0LYmVjPKlJGNXHDGuy5Fw/d7rjVJ0BLB+ubPK8iA/Tw3hLQgXMRRGRXXCn8ikfuQfjUS1uZSatdLB81mydBETlJhI6GH4twrbDJCR2Bwy/XWXgqgGRzAgMBAAECgYBYWVtleUzavkbrPjy0T5FMou8HX9u2AC2ry8vD/l7cqedtwMPp9k7TubgNFo+NGvKsl2ynyprOZR1xjQ7WgrgVB+mmuScOM/5HVceFuGRDhYTCObE+y1kxRloNYXnx3ei1zbeYLPCHdhxRYW7T0qcynNmwrn05/KO2RLjgQNalsQJBANeA3Q4Nugqy4QBUCEC09SqylT2K9FrrItqL2QKc9v0ZzO2uwllCbg0dwpVuYPYXYvikNHHg+aCWF+VXsb9rpPsCQQDWR9TT4ORdzoj+NccnqkMsDmzt0EfNaAOwHOmVJ2RVBspPcxt5iN4HI7HNeG6U5YsFBb+/GZbgfBT3kpNGWPTpAkBI+gFhjfJvRw38n3g/+UeAkwMI2TJQS4n8+hid0uus3/zOjDySH3XHCUnocn1xOJAyZODBo47E+67R4jV1/gzbAkEAklJaspRPXP877NssM5nAZMU0/O/NGCZ+3jPgDUno6WbJn5cqm8MqWhW1xGkImgRk+fkDBquiq4gPiT898jusgQJAd5Zrr6Q8AO/0isr/3aa6O6NLQxISLKcPDk2NOccAfS/xOtfOz4sJYM3+Bs4Io9+dZGSDCA54Lw03eHTNQghS0A==";
macro_rules! rsa_check {
    ($rsa:ident, $sm:path, $a:expr, $key_no:expr, $how:expr, $pad:expr) => {{
        use $rsa::pkcs8::DecodePrivateKey;
        use base64::Engine;
        thread_local!(static KEYS: Vec<$rsa::RsaPrivateKey> = {
            let der = base64::engine::general_purpose::STANDARD.decode(DER).unwrap();
            let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(7);
            vec![$rsa::RsaPrivateKey::from_pkcs8_der(&der).unwrap(), $rsa::RsaPrivateKey::new(&mut rng, 512).unwrap(), $rsa::RsaPrivateKey::new(&mut rng, 776).unwrap()]
        });
        let key = KEYS.with(|k| k[$key_no].clone());
        let k2 = key.clone();
        let sig = move |base: &str| enc(&oracle::b64(&k2.sign($pad, &oracle::sha1(base.as_bytes())).unwrap()));
        use $sm as Sm;
        let a: &Auth = $a;
        match $how {
            0 => a.check(Sm::new(key), "RSA-SHA1", true, true, || None, sig),
            1 => { let sm = Sm::from(key); a.check(&sm, "RSA-SHA1", true, true, || None, sig) }
            _ => { let sm: &Sm = key.as_ref(); a.check(sm, "RSA-SHA1", true, true, || None, sig) }
        }
    }};
}
fn c07(idx: u64, r: &mut R) -> Case {
    let a = if idx < 20 { small(idx * 37, [Dest::Header, Dest::Form, Dest::Query][idx as usize % 3]) } else { Auth::gen(r) };
    let mut res = a.check_plain();
    if res.is_ok() {
        let key = a.key();
        res = a.check(Plaintext::<ChunkBuf>::with_buf(), "PLAINTEXT", true, true, || None, |_| enc(&key));
    }
    if res.is_ok() {
        let key = a.key();
        res = a.check(Plaintext::<String>::default(), "PLAINTEXT", true, true, || None, |_| enc(&key));
    }
    let (k, how) = (r.below(3), r.below(3));
    if res.is_ok() && r.one_in(3) || idx < 40 {
        res = res.and_then(|_| rsa_check!(rsa06, oauth::signature_method::rsa_sha1_06::RsaSha1, &a, k, how, rsa06::PaddingScheme::new_pkcs1v15_sign(Some(rsa06::hash::Hash::SHA1))));
        res = res.and_then(|_| rsa_check!(rsa09, oauth::signature_method::rsa_sha1_09::RsaSha1, &a, k, how, rsa09::Pkcs1v15Sign::new::<sha1::Sha1>()));
    }
    Case::one(format!("RSA key {k}, used {}: {a:?}", ["by value", "by reference", "through AsRef"][how]), true, res)
}

// ---- C08 ----
fn drive<S: Sign>(mut s: S, seed: u64, out: &mut Vec<String>) -> String {
    let mut r = R::new(seed);
    for _ in 0..r.below(14) {
        let v = r.short_text();
        let c = r.chunky(&v);
        match r.below(16) {
            0 => s.request_method("GET"),
            1 => s.uri(c),
            2 => s.parameter("key", c),
            3 => s.delimiter(),
            4 => s.callback(c),
            5 => s.consumer_key(c),
            6 => s.nonce(c),
            7 => s.token(c),
            8 => s.verifier(c),
            9 => s.signature_method(),
            10 => s.timestamp(r.next()),
            11 => s.version(),
            12 => out.push(format!("use_nonce {}", s.use_nonce())),
            13 => out.push(format!("use_timestamp {}", s.use_timestamp())),
            _ => out.push(format!("name {}", s.get_signature_method_name())),
        }
    }
    s.end().to_string()
}
fn c08_pair<const OVER: bool>(a: &Auth, seed: u64, left: bool, nested: bool) -> Result<(), String>
where
    Rec<OVER>: SignatureMethod,
{
    let mk = || {
        let mut x = Rec::<OVER>::new("sig%20");
        x.use_nonce = a.use_nonce;
        x.use_ts = a.use_ts;
        x.name = if seed % 2 == 0 { "REC" } else { "OTHER-1" };
        x
    };
    let (d, e) = (mk(), mk());
    let out_d = a.run(d.clone());
    let out_e = if nested {
        if left {
            a.run(Either::<Either<_, oauth::HmacSha1>, Plaintext>::Left(Either::Left(e.clone())))
        } else {
            a.run(Either::<Plaintext, Either<oauth::HmacSha1, _>>::Right(Either::Right(e.clone())))
        }
    } else if left {
        a.run(Either::<_, oauth::HmacSha1>::Left(e.clone()))
    } else {
        a.run(Either::<oauth::HmacSha1, _>::Right(e.clone()))
    };
    eq("calls made to the inner method through Either and directly", &e.log.borrow().calls, &d.log.borrow().calls)?;
    eq("output through Either and directly", &out_e, &out_d)?;
    let (d, e) = (mk(), mk());
    let (mut od, mut oe) = (vec![], vec![]);
    let rd = drive(d.clone().sign_with("c", Some("t")), seed, &mut od);
    let re = if left {
        drive(Either::<_, Plaintext>::Left(e.clone()).sign_with("c", Some("t")), seed, &mut oe)
    } else {
        drive(Either::<Plaintext, _>::Right(e.clone()).sign_with("c", Some("t")), seed, &mut oe)
    };
    eq("queries answered through Either and directly", &oe, &od)?;
    eq("operations reaching the inner sign through Either and directly", &e.log.borrow().calls, &d.log.borrow().calls)?;
    eq("signature through Either and directly", &re, &rd)
}
fn c08(idx: u64, r: &mut R) -> Case {
    let mut a = Auth::gen(r);
    a.timestamp = a.timestamp.or(Some(17));
    a.pin();
    let seed = if idx < 64 { idx } else { r.next() };
    let (left, nested) = (r.flip(), r.one_in(3));
    let mut res = c08_pair::<true>(&a, seed, left, nested).and_then(|_| c08_pair::<false>(&a, seed, left, nested));
    if res.is_ok() {
        let h = a.run(oauth::HMAC_SHA1);
        let p = a.run(oauth::PLAINTEXT);
        type E = Either<oauth::HmacSha1, Plaintext>;
        res = eq("HMAC-SHA1 as Left", &a.run(E::Left(oauth::HMAC_SHA1)), &h).and_then(|_| eq("PLAINTEXT as Right", &a.run(E::Right(oauth::PLAINTEXT)), &p));
    }
    let mut c = Case::one(format!("variant {}, operations from seed {seed}; {a:?}", if left { "Left" } else { "Right" }), true, res);
    c.evals = 6;
    c
}

// ---- C12 ----
fn nonce_of(rand: &[u8]) -> Result<String, String> {
    let rec = Rec::<true>::new("s");
    let r2 = rec.clone();
    let mut o = Options::new();
    o.timestamp(std::num::NonZeroU64::new(5));
    rand::rngs::control::set(Some(rand.to_vec()));
    let res = guard(|| {
        let ser = Authorizer::authorization("GET", "u", Credentials::new("k", "s"), None, &o, rec);
        ().serialize(ser)
    });
    rand::rngs::control::set(None);
    let out = res.map_err(|p| format!("random bytes {rand:?}: nonce generation failed: {p}"))?;
    let n = out.split("oauth_nonce=\"").nth(1).and_then(|s| s.split('"').next()).ok_or("no nonce in the header")?.to_owned();
    if n.len() > 12 || !n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') {
        return Err(format!("random bytes {rand:?}: malformed nonce {n:?}"));
    }
    let signed = r2.base();
    if !signed.contains(&format!("oauth_nonce%3D{n}%26")) {
        return Err(format!("random bytes {rand:?}: nonce {n:?} of the header is not the one signed: {signed:?}"));
    }
    Ok(n)
}
fn c12(idx: u64, r: &mut R) -> Case {
    if (2..5).contains(&idx) {
        return Auth::check_slow(idx * 5, [Dest::Header, Dest::Form, Dest::Query][idx as usize % 3]);
    }
    let mut res = Ok(());
    let mut evals = 0;
    let mut keys = vec![];
    // distinct numbers give distinct nonces: a base number, all its one-bit neighbours and all
    // ways of its bytes being shifted behind leading zeros
    let base: Vec<u8> = match idx {
        0 => vec![0; 9],
        1 => vec![255; 9],
        n if n < 20 => { let mut v = vec![0; 9]; v[(n % 9) as usize] = if n < 11 { 1 } else { 0xfb }; v }
        _ => { let z = r.below(10); (0..9).map(|i| if i < z { 0 } else { r.next() as u8 }).collect() }
    };
    let mut all: Vec<Vec<u8>> = vec![base.clone()];
    for bit in 0..72 {
        let mut v = base.clone();
        v[bit / 8] ^= 1 << (bit % 8);
        all.push(v);
    }
    for sh in 1..9 {
        let mut v = vec![0; sh];
        v.extend_from_slice(&base[..9 - sh]);
        all.push(v);
        let mut v = base[sh..].to_vec();
        v.resize(9, 0);
        all.push(v);
    }
    all.sort();
    all.dedup();
    let mut seen: HashMap<String, Vec<u8>> = HashMap::new();
    for x in &all {
        evals += 1;
        keys.push(hash(x));
        match nonce_of(x) {
            Err(e) => { res = Err(e); break; }
            Ok(n) => {
                if let Some(y) = seen.insert(n.clone(), x.clone()) {
                    res = Err(format!("random bytes {x:?} and {y:?} give the same nonce {n:?}"));
                    break;
                }
            }
        }
    }
    // really random: fresh for each authorization
    if res.is_ok() {
        let mut a = Auth::gen(r);
        a.use_nonce = true;
        a.nonce = None;
        a.rand = vec![];
        let s: Vec<Result<String, String>> = (0..2).map(|_| {
            let rec = Rec::<true>::new("s");
            a.run(rec.clone())?;
            let found = rec.log.borrow().calls.iter().find(|c| c.starts_with("nonce(")).cloned().unwrap_or_default();
            Ok(found)
        }).collect();
        res = match (&s[0], &s[1]) {
            (Ok(x), Ok(y)) if x != y => Ok(()),
            _ => Err(format!("two authorizations gave the nonces {s:?}; {a:?}")),
        };
    }
    // explicit values win; use_nonce / use_timestamp respected
    if res.is_ok() {
        let a = Auth::gen(r);
        evals += 2;
        res = a.check_rec::<true>("s").and_then(|_| a.check_rec::<false>("s")).map_err(|e| format!("{a:?}\n{e}"));
    }
    Case { input: format!("random bytes {base:?}, its 72 one-bit neighbours and shifts; one generated request"), keys, evals, result: res }
}

// ---- C17 ----
fn construct(a: &Auth) -> Result<(), String> {
    let o = a.options();
    let creds = || Credentials::new(&*a.client.0, &*a.client.1);
    let rec = || Rec::<true>::new("s");
    let d: Vec<(&str, Result<(), String>)> = vec![
        ("authorization", guard(|| drop(Authorizer::authorization(&a.method, &a.uri, creds(), None, &o, rec())))),
        ("authorization_with_buf", guard(|| drop(Authorizer::authorization_with_buf(ChunkBuf::default(), &a.method, &a.uri, creds(), None, &o, rec())))),
        ("form", guard(|| drop(Authorizer::form(&a.method, &a.uri, creds(), None, &o, rec())))),
        ("form_with_buf", guard(|| drop(Authorizer::form_with_buf(ChunkBuf::default(), &a.method, &a.uri, creds(), None, &o, rec())))),
        ("query", guard(|| drop(Authorizer::query(&a.method, ChunkBuf::of(&a.uri), creds(), None, &o, rec())))),
    ];
    let q = a.uri.text.contains('?');
    for (n, r) in d {
        match (q, &r) {
            (true, Ok(())) if DEBUG => return Err(format!("{n}: URI {:?} accepted in a debug build", a.uri)),
            (false, Err(p)) => return Err(format!("{n}: URI {:?} without `?` panicked: {p}", a.uri)),
            _ => {}
        }
    }
    Ok(())
}
fn order(a: &Auth, names: &[(String, usize)]) -> Result<(), String> {
    let o = a.options();
    let rec = Rec::<true>::new("s");
    let tok = a.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1));
    let buf = ChunkBuf::default();
    let (cr, m) = (Credentials::new(&*a.client.0, &*a.client.1), &*a.method);
    let mut ser = match a.dest {
        Dest::Header => Authorizer::authorization_with_buf(buf, m, "u", cr, tok, &o, rec),
        Dest::Form => Authorizer::form_with_buf(buf, m, "u", cr, tok, &o, rec),
        Dest::Query => Authorizer::query(m, buf, cr, tok, &o, rec),
    };
    let mut prev: Option<&str> = None;
    for (i, (k, what)) in names.iter().enumerate() {
        let (name, fed) = match what {
            8 | 9 => (&**k, true),
            0 => ("oauth_callback", a.callback.is_some()),
            5 => ("oauth_token", a.token.is_some()),
            6 => ("oauth_verifier", a.verifier.is_some()),
            7 => ("oauth_version", a.version),
            &s => (oracle::SLOTS[s], true),
        };
        let bad = fed && prev.map_or(false, |p| name.as_bytes() < p.as_bytes());
        let r = guard(|| match what {
            8 => ser.serialize_parameter(k, "v"),
            9 => ser.serialize_parameter_encoded(k, "v"),
            s => feed_slot(&mut ser, *s),
        });
        match (bad, r) {
            (true, Ok(())) if DEBUG => return Err(format!("name {i} ({name:?}) after {prev:?} accepted in a debug build")),
            (false, Err(p)) => return Err(format!("name {i} ({name:?}) after {prev:?} panicked: {p}")),
            (true, _) => return Ok(()),
            _ => {}
        }
        if fed {
            prev = Some(name);
        }
    }
    guard(move || drop(ser.end())).map_err(|p| format!("end panicked: {p}"))
}
fn c17(idx: u64, r: &mut R) -> Case {
    let mut a = Auth::gen(r);
    let t = if idx < 200 {
        // one `?` at every position, cut everywhere
        let mut s: String = "http://é.x/%3F/ab".chars().take(idx as usize % 18).collect();
        s.push(if idx % 4 == 0 { '!' } else { '?' });
        s + &"tail&x=?"[..(idx as usize / 20) % 8]
    } else if r.flip() {
        r.text()
    } else {
        let mut t = r.short_text();
        t.push('?');
        t + &r.short_text()
    };
    a.uri = r.chunky(&t);
    let mut names: Vec<(String, usize)> = (0..1 + r.below(12)).map(|_| { let w = if r.flip() { r.below(8) } else { 8 + r.below(2) }; (if r.one_in(10) { r.short_text() } else { r.key() }, w) }).collect();
    if r.flip() {
        names.sort_by_key(|(k, w)| if *w < 8 { oracle::SLOTS[*w].to_owned() } else { k.clone() });
        if r.one_in(3) && names.len() > 1 {
            let i = r.below(names.len() - 1);
            names.swap(i, i + 1);
        }
    }
    let res = construct(&a).and_then(|_| order(&a, &names));
    let mut c = Case::one(format!("URI {:?}; names fed {:?}", a.uri, names), true, res);
    c.evals = 5 + names.len() as u64;
    c
}

// ---- C18 ----
thread_local!(static PLAN: RefCell<(Option<usize>, bool, Option<FailW>)> = RefCell::new((None, false, None)));
/// A `FailW` whose default value follows the thread's plan.
struct PlannedW(FailW);
impl Default for PlannedW {
    fn default() -> Self {
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let w = FailW::new("", p.0, p.1);
            p.2 = Some(w.clone());
            PlannedW(w)
        })
    }
}
impl Write for PlannedW {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.write_str(s)
    }
}
impl Display for PlannedW {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
fn c18_run(a: &Auth, kind: usize, w: FailW) -> Result<(), String> {
    let o = a.options();
    let (cr, m) = (Credentials::new(&*a.client.0, &*a.client.1), &*a.method);
    let tok = a.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1));
    let req = Seq { params: a.params.clone() };
    let rec = Rec::<true>::new("sig%3D");
    rand::rngs::control::set(Some(a.rand.clone()));
    let res = guard(|| match kind {
        0 => drop(req.serialize(Authorizer::authorization_with_buf(w, m, &a.uri, cr, tok, &o, rec))),
        1 => drop(req.serialize(Authorizer::form_with_buf(w, m, &a.uri, cr, tok, &o, oauth::HMAC_SHA1))),
        2 => drop(req.serialize(Authorizer::query(m, w, cr, tok, &o, rec))),
        3 => drop(req.serialize(Urlencoder::form_with_buf(w))),
        4 => drop(req.serialize(Urlencoder::query(w))),
        5 => drop(a.builder(oauth::HMAC_SHA1).authorize_with_buf(w, m, &a.uri, &req)),
        6 => drop(a.builder(oauth::HMAC_SHA1).to_form_with_buf(w, m, &a.uri, &req)),
        7 => drop(a.builder(oauth::PLAINTEXT).to_query(m, w, &req)),
        _ => drop(req.serialize(Authorizer::authorization_with_buf(w, m, &a.uri, cr, tok, &o, Either::<_, oauth::HmacSha1>::Left(oauth::PLAINTEXT)))),
    });
    rand::rngs::control::set(None);
    res
}
fn c18(_idx: u64, r: &mut R) -> Case {
    let mut a = Auth::gen(r);
    a.timestamp = a.timestamp.or(Some(17));
    if a.nonce.is_none() && r.flip() {
        a.nonce = Some("n".into());
    }
    a.pin();
    let kind = r.below(9);
    let init = match kind {
        2 | 4 | 7 => a.uri.text.clone(),
        _ => a.prefix.clone(),
    };
    let mut evals = 1;
    let mut keys = vec![];
    let full = FailW::new(&init, None, false);
    let mut res = c18_run(&a, kind, full.clone()).map_err(|p| format!("panicked without a failing buffer: {p}"));
    let (text, n) = { let l = full.log.borrow(); (l.accepted.clone(), l.writes) };
    if res.is_ok() {
        let step = 1 + n / 400;
        'o: for k in (0..n).step_by(step) {
            for sticky in [false, true] {
                let w = FailW::new(&init, Some(k), sticky);
                let got = c18_run(&a, kind, w.clone());
                evals += 1;
                keys.push(hash(&(format!("{a:?}"), kind, k, sticky)));
                let l = w.log.borrow();
                if got.is_ok() && l.accepted != text {
                    res = Err(format!("write {k} of {n} refused ({}), returned normally\n accepted: {:?}\n expected: {text:?}", if sticky { "and all later ones" } else { "only that one" }, l.accepted));
                    break 'o;
                }
            }
        }
    }
    if res.is_ok() {
        // the buffer of a PLAINTEXT signature
        let run = |k: Option<usize>, sticky: bool| {
            PLAN.with(|p| *p.borrow_mut() = (k, sticky, None));
            let out = guard(|| Plaintext::<PlannedW>::with_buf().sign_with(&a.client.1, a.token.as_ref().map(|t| &*t.1)).end().to_string());
            let w = PLAN.with(|p| p.borrow().2.clone()).unwrap();
            let n = w.log.borrow().writes;
            (out, n)
        };
        let (full, n) = run(None, false);
        match full {
            Err(p) => res = Err(format!("PLAINTEXT panicked without a failing buffer: {p}")),
            Ok(full) => {
                for k in 0..n.min(600) {
                    for sticky in [false, true] {
                        evals += 1;
                        if let (Ok(got), _) = run(Some(k), sticky) {
                            if got != full && res.is_ok() {
                                res = Err(format!("PLAINTEXT buffer: write {k} of {n} refused, signature {got:?}, expected {full:?}"));
                            }
                        }
                    }
                }
            }
        }
    }
    Case { input: format!("entry point {kind}, every refused write (once / from then on) of {n}; {a:?}"), keys, evals, result: res }
}
