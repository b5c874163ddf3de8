//! C13 C14 C15
use crate::engine::*;
use crate::gen::*;
use oauth1_request as oauth;
use oauth_credentials::{Credentials, Token};
use serde::de::{DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::fmt::{self, Debug, Display};
use std::rc::Rc;

pub fn table() -> Vec<(&'static str, u64, CaseFn)> {
    vec![("C13", 50, c13 as CaseFn), ("C14", 50, c14), ("C15", C15_ENUM, c15)]
}

// ---- C13 ----
fn c13(idx: u64, r: &mut R) -> Case {
    let t: Vec<String> = (0..4).map(|i| if idx < 50 { format!("{}{}", ["id", "sec", "tid", "tsec"][i], idx) } else { let s = r.text(); format!("{i}{s}") }).collect();
    let [ci, cs, ti, ts] = [&*t[0], &t[1], &t[2], &t[3]];
    let res = (|| {
        let c = Credentials::new(ci.to_owned(), cs.to_owned());
        let k = Credentials::new(Rc::<str>::from(ti), Rc::<str>::from(ts));
        eq("Credentials::new fields", &(&*c.identifier, &*c.secret), &(ci, cs))?;
        eq("Credentials accessors", &(c.identifier(), c.secret()), &(ci, cs))?;
        let check = |what: &str, c: Credentials<&str>, i: &str, s: &str| eq(what, &(c.identifier, c.secret), &(i, s));
        check("Credentials::as_ref", c.as_ref(), ci, cs)?;
        check("Credentials::from(&)", Credentials::from(&c), ci, cs)?;
        check("copy", { let x = c.as_ref(); let y = x; #[allow(clippy::clone_on_copy)] let _ = x.clone(); y }, ci, cs)?;
        check("clone", c.clone().as_ref(), ci, cs)?;
        let mut seen = vec![];
        let m = c.clone().map(|s| { seen.push(s.clone()); format!("<{s}>") });
        seen.sort();
        let mut w = vec![ci.to_owned(), cs.to_owned()];
        w.sort();
        eq("Credentials::map calls", &seen, &w)?;
        eq("Credentials::map", &(&*m.identifier, &*m.secret), &(&*format!("<{ci}>"), &*format!("<{cs}>")))?;
        let token = |what: &str, t: Token<&str, &str>| {
            eq(what, &(t.client.identifier, t.client.secret, t.token.identifier, t.token.secret), &(ci, cs, ti, ts))
        };
        let tok = Token::new(c.clone(), k.clone());
        token("Token::new", Token { client: Credentials { identifier: &*tok.client.identifier, secret: &*tok.client.secret }, token: Credentials { identifier: &*tok.token.identifier, secret: &*tok.token.secret } })?;
        let parts = Token::from_parts(ci, cs, Box::<str>::from(ti), Box::<str>::from(ts));
        token("Token::from_parts", Token { client: parts.client, token: Credentials { identifier: &*parts.token.identifier, secret: &*parts.token.secret } })?;
        token("Token::as_ref", tok.as_ref())?;
        token("Token::from(&)", Token::from(&tok))?;
        token("Token::from_ref", Token::from_ref(&c, &k))?;
        token("Token::client/token", Token { client: tok.client(), token: tok.token() })?;
        token("Token clone", tok.clone().as_ref())?;
        // maps, with component-type-changing functions recording their calls
        let calls = |v: &mut Vec<String>| { let mut x = std::mem::take(v); x.sort(); x };
        let sorted = |v: &[&str]| { let mut x: Vec<String> = v.iter().map(|s| s.to_string()).collect(); x.sort(); x };
        let mut seen: Vec<String> = vec![];
        let x = tok.clone().map_client(|s| { seen.push(s.clone()); Cow::Owned::<str>(format!("c{s}")) });
        eq("Token::map_client calls", &calls(&mut seen), &sorted(&[ci, cs]))?;
        eq("Token::map_client", &(&*x.client.identifier, &*x.client.secret, &*x.token.identifier, &*x.token.secret), &(&*format!("c{ci}"), &*format!("c{cs}"), ti, ts))?;
        let x = tok.clone().map_token(|s| { seen.push(s.to_string()); format!("t{s}") });
        eq("Token::map_token calls", &calls(&mut seen), &sorted(&[ti, ts]))?;
        eq("Token::map_token", &(&*x.client.identifier, &*x.client.secret, &*x.token.identifier, &*x.token.secret), &(ci, cs, &*format!("t{ti}"), &*format!("t{ts}")))?;
        let mut n = 0;
        let all = Token::from_parts(ci.to_owned(), cs.to_owned(), ti.to_owned(), ts.to_owned());
        let x = all.map(|s| { n += 1; seen.push(s.clone()); format!("{n}:{s}") });
        eq("Token::map calls", &calls(&mut seen), &sorted(&[ci, cs, ti, ts]))?;
        let strip = |s: &String| s.split_once(':').unwrap().1.to_owned();
        eq("Token::map", &[strip(&x.client.identifier), strip(&x.client.secret), strip(&x.token.identifier), strip(&x.token.secret)], &[ci.to_owned(), cs.to_owned(), ti.to_owned(), ts.to_owned()])?;
        let mut idx: Vec<u8> = [&x.client.identifier, &x.client.secret, &x.token.identifier, &x.token.secret].iter().map(|s| s.as_bytes()[0]).collect();
        idx.sort();
        eq("Token::map: one call per component", &*idx, &b"1234"[..])
    })();
    let mut c = Case::one(format!("components {t:?}"), true, res);
    c.evals = 12;
    c
}

// ---- C14 ----
#[derive(Clone)]
struct Loud(String);
impl Debug for Loud {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("Loud").field(&self.0).finish()
    }
}
impl AsRef<str> for Loud {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
fn texts<T: Debug>(x: &T) -> Vec<String> {
    vec![format!("{x:?}"), format!("{x:#?}"), format!("{x:40?}"), format!("{x:.2?}"), format!("{x:x?}"), format!("{x:#X?}"), format!("{:?}", Some(x)), format!("{:#?}", [x])]
}
fn shows(what: &str, t: &[String], parts: &[&str]) -> Result<(), String> {
    for s in &t[..2] {
        for p in parts {
            let p = format!("{p:?}");
            if !s.contains(&p) {
                return Err(format!("{what}: {s:?} does not show the identifier {p}"));
            }
        }
    }
    Ok(())
}
fn c14(idx: u64, r: &mut R) -> Case {
    let (i1, i2) = if idx < 50 { ("ident-one".to_owned(), "ident-two".to_owned()) } else { (r.short_text(), r.text()) };
    let sec: Vec<String> = (0..4)
        .map(|j| if idx < 8 { ["", "x", "<hidden>", "s3cr3t!", "secret", "ident-one", "\"", "\n"][(idx as usize + j * 3) % 8].to_owned() } else { r.text() })
        .collect();
    let opts = (r.short_text(), r.short_text());
    let res = (|| {
        macro_rules! pair {
            ($what:expr, $mk:expr, $ids:expr) => {{
                let mk = $mk;
                let (a, b) = (texts(&mk(&sec[0], &sec[1])), texts(&mk(&sec[2], &sec[3])));
                for (x, y) in a.iter().zip(&b) {
                    if x != y {
                        return Err(format!("{}: with secrets {:?} and {:?} the debug text differs\n {x:?}\n {y:?}", $what, &sec[..2], &sec[2..]));
                    }
                }
                shows($what, &a, $ids)?;
            }};
        }
        pair!("Credentials<String>", |s: &String, _: &String| Credentials::new(i1.clone(), s.clone()), &[&i1]);
        pair!("Credentials<&str>", |s: &String, _: &String| Credentials::new(&*i1, Box::leak(s.clone().into_boxed_str()) as &str), &[&i1]);
        pair!("Credentials<user type>", |s: &String, _: &String| Credentials::new(Loud(i1.clone()), Loud(s.clone())), &[&i1]);
        pair!("Token", |s: &String, t: &String| Token::from_parts(i1.clone(), s.clone(), Cow::Borrowed(&*i2).into_owned(), t.clone()), &[&i1, &i2]);
        pair!("Token<user type>", |s: &String, t: &String| Token::from_parts(Loud(i1.clone()), Loud(s.clone()), i2.clone(), t.clone()), &[&i1, &i2]);
        pair!("Builder", |s: &String, t: &String| {
            let mut b = oauth::Builder::with_token(Token::from_parts(i1.clone(), s.clone(), i2.clone(), t.clone()), oauth::HMAC_SHA1);
            b.callback(&*opts.0).nonce(&*opts.1);
            b
        }, &[&i1, &i2]);
        pair!("Builder without token", |s: &String, _: &String| oauth::Builder::<_, String>::new(Credentials::new(i1.clone(), s.clone()), oauth::PLAINTEXT), &[&i1]);
        let h = texts(&oauth::HMAC_SHA1);
        let p = texts(&oauth::PLAINTEXT);
        for s in sec.iter().filter(|s| s.len() > 9) {
            for t in h.iter().chain(&p) {
                if t.contains(&**s) {
                    return Err(format!("debug text {t:?} of a signature method shows the secret {s:?}"));
                }
            }
        }
        Ok(())
    })();
    let mut c = Case::one(format!("identifiers {i1:?} {i2:?}, secrets {sec:?}"), true, res);
    c.evals = 7 * 8;
    c
}

// ---- C15 ----
#[derive(Clone, Debug)]
enum Item {
    Id(String),
    Secret(String),
    Other(String, String),
    /// the format fails instead of yielding a key / the value of the given field
    FailKey,
    FailValue(&'static str),
}
#[derive(Debug, PartialEq)]
struct Err15(String);
impl Display for Err15 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Err15 {}
impl serde::ser::Error for Err15 {
    fn custom<T: Display>(t: T) -> Self {
        Err15(t.to_string())
    }
}
impl serde::de::Error for Err15 {
    fn custom<T: Display>(t: T) -> Self {
        Err15(t.to_string())
    }
}
#[derive(Clone, Copy, Debug)]
enum KeyRepr {
    Str,
    Bytes,
    Owned,
}
struct Map<'a> {
    items: &'a [Item],
    pos: usize,
    repr: KeyRepr,
    seen: &'a mut Vec<String>,
}
fn name(i: &Item) -> &str {
    match i {
        Item::Id(_) => "oauth_token",
        Item::Secret(_) => "oauth_token_secret",
        Item::Other(k, _) => k,
        Item::FailKey => "",
        Item::FailValue(k) => k,
    }
}
impl<'de, 'a> MapAccess<'de> for Map<'a> {
    type Error = Err15;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Err15> {
        match self.items.get(self.pos) {
            None => Ok(None),
            Some(Item::FailKey) => Err(Err15(format!("format error at item {}", self.pos))),
            Some(i) => {
                let k = name(i).to_owned();
                match self.repr {
                    KeyRepr::Str => seed.deserialize((&*k).into_deserializer()),
                    KeyRepr::Owned => seed.deserialize(k.into_deserializer()),
                    KeyRepr::Bytes => seed.deserialize(serde::de::value::BytesDeserializer::new(k.as_bytes())),
                }
                .map(Some)
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Err15> {
        let i = &self.items[self.pos];
        self.pos += 1;
        let v = match i {
            Item::Id(v) | Item::Secret(v) | Item::Other(_, v) => v.clone(),
            _ => return Err(Err15(format!("format error at item {}", self.pos - 1))),
        };
        self.seen.push(v.clone());
        seed.deserialize(v.into_deserializer())
    }
}
struct De<'a>(Map<'a>, bool);
impl<'de, 'a> Deserializer<'de> for De<'a> {
    type Error = Err15;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Err15> {
        v.visit_map(self.0)
    }
    // as serde's own `flatten` does: only what the struct asks for
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, Err15> {
        let items: Vec<Item> = self.0.items.iter().filter(|i| self.1 || matches!(i, Item::FailKey) || fields.contains(&name(i))).cloned().collect();
        v.visit_map(Map { items: &items, pos: 0, repr: self.0.repr, seen: self.0.seen })
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any }
}
/// A format that insists on the announced number of fields and records what it is told.
struct Strict;
struct StrictStruct(&'static str, usize, Vec<(String, String)>);
impl serde::Serializer for Strict {
    type Ok = (String, Vec<(String, String)>);
    type Error = Err15;
    type SerializeSeq = serde::ser::Impossible<Self::Ok, Err15>;
    type SerializeTuple = serde::ser::Impossible<Self::Ok, Err15>;
    type SerializeTupleStruct = serde::ser::Impossible<Self::Ok, Err15>;
    type SerializeTupleVariant = serde::ser::Impossible<Self::Ok, Err15>;
    type SerializeMap = serde::ser::Impossible<Self::Ok, Err15>;
    type SerializeStruct = StrictStruct;
    type SerializeStructVariant = serde::ser::Impossible<Self::Ok, Err15>;
    fn serialize_struct(self, name: &'static str, len: usize) -> Result<StrictStruct, Err15> {
        Ok(StrictStruct(name, len, vec![]))
    }
    fn serialize_bool(self, _: bool) -> Result<Self::Ok, Err15> { Err(Err15("bool".into())) }
    fn serialize_i8(self, _: i8) -> Result<Self::Ok, Err15> { Err(Err15("i8".into())) }
    fn serialize_i16(self, _: i16) -> Result<Self::Ok, Err15> { Err(Err15("i16".into())) }
    fn serialize_i32(self, _: i32) -> Result<Self::Ok, Err15> { Err(Err15("i32".into())) }
    fn serialize_i64(self, _: i64) -> Result<Self::Ok, Err15> { Err(Err15("i64".into())) }
    fn serialize_u8(self, _: u8) -> Result<Self::Ok, Err15> { Err(Err15("u8".into())) }
    fn serialize_u16(self, _: u16) -> Result<Self::Ok, Err15> { Err(Err15("u16".into())) }
    fn serialize_u32(self, _: u32) -> Result<Self::Ok, Err15> { Err(Err15("u32".into())) }
    fn serialize_u64(self, _: u64) -> Result<Self::Ok, Err15> { Err(Err15("u64".into())) }
    fn serialize_f32(self, _: f32) -> Result<Self::Ok, Err15> { Err(Err15("f32".into())) }
    fn serialize_f64(self, _: f64) -> Result<Self::Ok, Err15> { Err(Err15("f64".into())) }
    fn serialize_char(self, _: char) -> Result<Self::Ok, Err15> { Err(Err15("char".into())) }
    fn serialize_str(self, _: &str) -> Result<Self::Ok, Err15> { Err(Err15("str".into())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Err15> { Err(Err15("bytes".into())) }
    fn serialize_none(self) -> Result<Self::Ok, Err15> { Err(Err15("none".into())) }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Self::Ok, Err15> { Err(Err15("some".into())) }
    fn serialize_unit(self) -> Result<Self::Ok, Err15> { Err(Err15("unit".into())) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Err15> { Err(Err15("unit struct".into())) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Self::Ok, Err15> { Err(Err15("unit variant".into())) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Self::Ok, Err15> { Err(Err15("newtype struct".into())) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Err15> { Err(Err15("newtype variant".into())) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Err15> { Err(Err15("seq".into())) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Err15> { Err(Err15("tuple".into())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Err15> { Err(Err15("tuple struct".into())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Err15> { Err(Err15("tuple variant".into())) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Err15> { Err(Err15("map".into())) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Err15> { Err(Err15("struct variant".into())) }
}
impl serde::ser::SerializeStruct for StrictStruct {
    type Ok = (String, Vec<(String, String)>);
    type Error = Err15;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<(), Err15> {
        self.2.push((key.to_owned(), serde_json::to_string(v).map_err(|e| Err15(e.to_string()))?));
        Ok(())
    }
    fn end(self) -> Result<Self::Ok, Err15> {
        if self.1 != self.2.len() {
            return Err(Err15(format!("{} fields announced, {} given", self.1, self.2.len())));
        }
        Ok((self.0.to_owned(), self.2))
    }
}
/// The specification.
fn want15(items: &[Item]) -> Result<(String, String), Vec<String>> {
    let (mut id, mut sec) = (None, None);
    for (n, i) in items.iter().enumerate() {
        match i {
            Item::Id(v) => match id {
                Some(_) => return Err(vec!["duplicate field `oauth_token`".into()]),
                None => id = Some(v.clone()),
            },
            Item::Secret(v) => match sec {
                Some(_) => return Err(vec!["duplicate field `oauth_token_secret`".into()]),
                None => sec = Some(v.clone()),
            },
            Item::Other(..) => {}
            Item::FailKey => return Err(vec![format!("format error at item {n}")]),
            Item::FailValue(k) => {
                let mut v = vec![format!("format error at item {n}")];
                // a repeated field may be reported before its value is read
                if (*k == "oauth_token" && id.is_some()) || (*k == "oauth_token_secret" && sec.is_some()) {
                    v.push(format!("duplicate field `{k}`"));
                }
                return Err(v);
            }
        }
    }
    match (id, sec) {
        (Some(i), Some(s)) => Ok((i, s)),
        (None, Some(_)) => Err(vec!["missing field `oauth_token`".into()]),
        (Some(_), None) => Err(vec!["missing field `oauth_token_secret`".into()]),
        (None, None) => Err(vec!["missing field `oauth_token`".into(), "missing field `oauth_token_secret`".into()]),
    }
}
const KINDS: u64 = 6;
// all lists of at most 5 items over 6 kinds
const C15_ENUM: u64 = 1 + 6 + 36 + 216 + 1296 + 7776;
fn item(k: u64, r: &mut R) -> Item {
    match k {
        0 => Item::Id(r.short_text()),
        1 => Item::Secret(r.short_text()),
        2 => Item::Other(
            match r.below(12) {
                0 => "oauth_callback_confirmed".into(),
                1 => "oauth_token_".into(),
                2 => "oauth_toke".into(),
                3 => "oauth_token_secre".into(),
                4 => "oauth_token_secrets".into(),
                5 => String::new(),
                6 => "OAUTH_TOKEN".into(),
                7 => "secret".into(),
                8 => "identifier".into(),
                9 => "oauth_secret".into(),
                _ => { let t = r.text(); format!("x{t}") }
            },
            r.short_text(),
        ),
        3 => Item::FailKey,
        4 => Item::FailValue(r.pick(&["oauth_token", "oauth_token_secret"]) as _).fix(r),
        _ => Item::FailValue("unknown"),
    }
}
impl Item {
    fn fix(self, r: &mut R) -> Item {
        Item::FailValue(if r.flip() { "oauth_token" } else { "oauth_token_secret" })
    }
}
fn c15(idx: u64, r: &mut R) -> Case {
    let items: Vec<Item> = if idx < C15_ENUM {
        let (mut n, mut len, mut cnt) = (idx, 0, 1);
        while n >= cnt {
            n -= cnt;
            cnt *= KINDS;
            len += 1;
        }
        (0..len).map(|_| { let k = n % KINDS; n /= KINDS; item(k, r) }).collect()
    } else {
        (0..r.below(12)).map(|_| { let k = if r.one_in(12) { 3 + r.below(3) } else if r.one_in(3) { r.below(2) } else { 2 } as u64; item(k, r) }).collect()
    };
    let repr = [KeyRepr::Str, KeyRepr::Bytes, KeyRepr::Owned][r.below(3)];
    let res = (|| {
        let mut seen = vec![];
        let got = guard(|| Credentials::<String>::deserialize(De(Map { items: &items, pos: 0, repr, seen: &mut seen }, true)).map(|c| (c.identifier, c.secret)))?;
        match (want15(&items), got) {
            (Ok(w), g) => eq("deserialized", &g, &Ok(w))?,
            (Err(w), Err(g)) if w.contains(&g.0) => {}
            (Err(w), g) => return Err(format!("deserialized\n      got: {g:?}\n expected an error out of: {w:?}")),
        }
        let known: Vec<Item> = items.iter().filter(|i| !matches!(i, Item::Other(..)) && (matches!(i, Item::FailKey) || ["oauth_token", "oauth_token_secret"].contains(&name(i)))).cloned().collect();
        let mut seen = vec![];
        let got = guard(|| Credentials::<String>::deserialize(De(Map { items: &items, pos: 0, repr, seen: &mut seen }, false)).map(|c| (c.identifier, c.secret)))?;
        match (want15(&known), got) {
            (Ok(w), g) => eq("deserialized from the named fields", &g, &Ok(w))?,
            (Err(w), Err(g)) if w.contains(&g.0) => {}
            (Err(w), g) => return Err(format!("deserialized from the named fields\n      got: {g:?}\n expected an error out of: {w:?}")),
        }
        // real formats
        let plain: Vec<&Item> = items.iter().filter(|i| !matches!(i, Item::FailKey | Item::FailValue(_))).collect();
        let pl: Vec<Item> = plain.iter().map(|i| (*i).clone()).collect();
        let json = format!("{{{}}}", plain.iter().map(|i| format!("{}:{}", serde_json::to_string(name(i)).unwrap(), serde_json::to_string(match i { Item::Id(v) | Item::Secret(v) | Item::Other(_, v) => &**v, _ => "" }).unwrap())).collect::<Vec<_>>().join(","));
        let got = guard(|| serde_json::from_str::<Credentials>(&json).map(|c| (c.identifier, c.secret)).map_err(|e| e.to_string()))?;
        match (want15(&pl), got) {
            (Ok(w), g) => eq("deserialized from JSON", &g, &Ok(w))?,
            (Err(w), Err(g)) if w.iter().any(|w| g.contains(&**w)) => {}
            (Err(w), g) => return Err(format!("deserialized from {json}\n      got: {g:?}\n expected an error out of: {w:?}")),
        }
        let form = serde_urlencoded::to_string(plain.iter().map(|i| (name(i), match i { Item::Id(v) | Item::Secret(v) | Item::Other(_, v) => &**v, _ => "" })).collect::<Vec<_>>()).unwrap();
        let got = guard(|| serde_urlencoded::from_str::<Credentials>(&form).map(|c| (c.identifier, c.secret)).map_err(|e| e.to_string()))?;
        match (want15(&pl), got) {
            (Ok(w), g) => eq("deserialized from a form", &g, &Ok(w))?,
            (Err(w), Err(g)) if w.iter().any(|w| g.contains(&**w)) => {}
            (Err(w), g) => return Err(format!("deserialized from {form}\n      got: {g:?}\n expected an error out of: {w:?}")),
        }
        // serialization and round trip
        let (i, s) = (r.text(), r.text());
        let c = Credentials::new(&*i, &*s);
        let v = serde_json::to_value(c).map_err(|e| e.to_string())?;
        eq("serialized", &v, &serde_json::json!({"oauth_token": i, "oauth_token_secret": s}))?;
        let mut st = c.serialize(Strict).map_err(|e| e.to_string())?;
        st.1.sort();
        let q = |t: &str| serde_json::to_string(t).unwrap();
        eq("serialized field by field", &st.1, &vec![("oauth_token".to_owned(), q(&i)), ("oauth_token_secret".to_owned(), q(&s))])?;
        let f = serde_urlencoded::to_string(c).map_err(|e| e.to_string())?;
        let mut fields: Vec<(String, String)> = serde_urlencoded::from_str(&f).map_err(|e| e.to_string())?;
        fields.sort();
        eq("serialized as a form", &fields, &vec![("oauth_token".to_owned(), i.clone()), ("oauth_token_secret".to_owned(), s.clone())])?;
        let back: Credentials = serde_json::from_value(v).map_err(|e| e.to_string())?;
        eq("round trip", &(back.identifier, back.secret), &(i, s))?;
        let n = (r.next() % 1000) as u32;
        let v = serde_json::to_value(Credentials { identifier: n, secret: n + 1 }).map_err(|e| e.to_string())?;
        eq("serialized numbers", &v, &serde_json::json!({"oauth_token": n, "oauth_token_secret": n + 1}))?;
        let mut b = vec![];
        Credentials::new(&*"a", "b").serialize(&mut serde_json::Serializer::new(&mut b)).map_err(|e| e.to_string())?;
        Ok(())
    })();
    let mut c = Case::one(format!("keys as {repr:?}, map {items:?}"), true, res);
    c.evals = 8;
    c
}
