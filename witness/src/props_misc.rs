//! C04 C09 C10 C11
use crate::auth::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::{self, enc, Ev};
use crate::rec::*;
use oauth1_request as oauth;
use oauth::request::AssertSorted;
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::{Builder, Credentials, ParameterList, Request, Token};
use std::borrow::Borrow;
use std::fmt::{Debug, Display, Write};
use std::num::NonZeroU64;

pub fn table() -> Vec<(&'static str, u64, CaseFn)> {
    vec![("C04", 400, c04 as CaseFn), ("C09", C09_ENUM, c09), ("C10", 300, c10), ("C11", 64 * 8, c11)]
}

// ---- C04 ----
fn c04(idx: u64, r: &mut R) -> Case {
    let n = if idx < 400 { (idx % 4) as usize } else { r.below(8) };
    let uri = { let t = r.text(); r.chunky(&t) };
    // any names, any order, any mix; slots in between are not part of an unsigned string
    let evs: Vec<(usize, String, Chunky)> = (0..n + if r.flip() { r.below(4) } else { 0 })
        .map(|i| {
            let what = if i < n { 8 + r.below(2) } else { r.below(8) };
            let k = if r.flip() { r.key() } else { r.short_text() };
            let t = match idx % 5 { 0 if idx < 400 => String::new(), _ => if r.one_in(6) { r.text() } else { r.short_text() } };
            (what, k, r.chunky(&t))
        })
        .collect();
    let mut order: Vec<usize> = (0..evs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let evs: Vec<_> = order.into_iter().map(|i| evs[i].clone()).collect();
    let list: Vec<String> = evs.iter().filter(|e| e.0 >= 8).map(|(w, k, v)| format!("{k}={}", if *w == 8 { enc(&v.text) } else { v.text.clone() })).collect();
    let want = list.join("&");
    let want_q = if list.is_empty() { String::new() } else { format!("?{want}") };
    fn feed_one<W: Write>(s: &mut Urlencoder<W>, (w, k, v): &(usize, String, Chunky)) {
        match w {
            8 => s.serialize_parameter(k, v),
            9 => s.serialize_parameter_encoded(k, v),
            n => feed_slot(s, *n),
        }
    }
    fn feed<W: Write>(mut s: Urlencoder<W>, evs: &[(usize, String, Chunky)]) -> W {
        for e in evs {
            feed_one(&mut s, e);
        }
        s.end()
    }
    // a copy taken in between goes on the same
    fn forked<W: Write + Clone>(mut s: Urlencoder<W>, evs: &[(usize, String, Chunky)]) -> (W, W) {
        let (first, rest) = evs.split_at(evs.len() / 2);
        for e in first {
            feed_one(&mut s, e);
        }
        let t = s.clone();
        (feed(s, rest), feed(t, rest))
    }
    let pre = r.short_text();
    let res = (|| {
        eq("form copied half-way", &guard(|| forked(Urlencoder::form(), &evs)), &Ok((want.clone(), want.clone())))?;
        let wq = format!("{}{want_q}", uri.text);
        eq("query copied half-way", &guard(|| forked(Urlencoder::query(uri.to_string()), &evs)), &Ok((wq.clone(), wq)))?;
        eq("form", &guard(|| feed(Urlencoder::form(), &evs)), &Ok(want.clone()))?;
        eq("form_with_buf", &guard(|| feed(Urlencoder::form_with_buf(ChunkBuf(vec![pre.clone()])), &evs).to_string()), &Ok(format!("{pre}{want}")))?;
        eq("query", &guard(|| feed(Urlencoder::query(uri.to_string()), &evs)), &Ok(format!("{}{want_q}", uri.text)))?;
        eq("query into a buffer", &guard(|| feed(Urlencoder::query(ChunkBuf::of(&uri)), &evs).to_string()), &Ok(format!("{}{want_q}", uri.text)))?;
        // through requests
        let mut params: Vec<_> = evs.iter().filter(|e| e.0 >= 8).map(|(w, k, v)| (k.clone(), v.clone(), *w == 9)).collect();
        sort_params(&mut params);
        let text = |p: &[(String, Chunky, bool)]| p.iter().map(|(k, v, e)| format!("{k}={}", if *e { v.text.clone() } else { enc(&v.text) })).collect::<Vec<_>>().join("&");
        let none = params.is_empty();
        let q = |s: &str| if none { uri.text.clone() } else { format!("{}?{s}", uri.text) };
        let seq = Seq { params: params.clone() };
        let t = text(&params);
        eq("to_form", &guard(|| oauth::to_form(&seq)), &Ok(t.clone()))?;
        eq("to_query", &guard(|| oauth::to_query(uri.to_string(), &Some(&seq))), &Ok(q(&t)))?;
        for p in &mut params {
            p.2 = false;
        }
        sort_params(&mut params);
        let pairs: Vec<(String, Chunky)> = params.iter().map(|p| (p.0.clone(), p.1.clone())).collect();
        let t = text(&params);
        eq("to_form of sorted pairs", &guard(|| oauth::to_form(&SlicePairs(&pairs))), &Ok(t.clone()))?;
        eq("to_query of a parameter list", &guard(|| oauth::to_query(uri.to_string(), &ParameterList::<_, _>::new(pairs.clone()))), &Ok(q(&t)))?;
        eq("to_form of the empty request", &guard(|| oauth::to_form(&())), &Ok(String::new()))?;
        eq("to_query of an absent request", &guard(|| oauth::to_query(uri.to_string(), &None::<()>)), &Ok(uri.text.clone()))
    })();
    Case::one(format!("URI {uri:?}, buffer {pre:?}, fed {evs:?}"), !evs.is_empty(), res)
}
struct SlicePairs<'a>(&'a [(String, Chunky)]);
impl<'a> Request for SlicePairs<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> S::Output {
        AssertSorted::new(self.0.iter().map(|(k, v)| (k, v))).serialize(s)
    }
}

// ---- C09 ----
const KEYS: [&str; 31] = [
    "", "0", "a", "oauth", "oauth_c", "oauth_callbac", "oauth_callback", "oauth_callback-", "oauth_consumer_ke", "oauth_consumer_key",
    "oauth_consumer_key0", "oauth_nonc", "oauth_nonce", "oauth_noncf", "oauth_signature", "oauth_signature_method", "oauth_signature_method~",
    "oauth_timestam", "oauth_timestamp", "oauth_timestampA", "oauth_toke", "oauth_token", "oauth_token_secret", "oauth_verifie",
    "oauth_verifier", "oauth_verifierz", "oauth_versio", "oauth_version", "oauth_version.", "oauth~", "z",
];
// multisets of at most 3 keys
const C09_ENUM: u64 = 1 + 31 + 31 * 32 / 2 + 31 * 32 * 33 / 6;
fn multiset(mut n: u64) -> Vec<usize> {
    for size in 0..4usize {
        let mut cur = vec![0usize; size];
        loop {
            if n == 0 {
                return cur;
            }
            n -= 1;
            // next non-descending sequence
            let mut i = size;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                if cur[i] + 1 < KEYS.len() {
                    let v = cur[i] + 1;
                    for c in &mut cur[i..] {
                        *c = v;
                    }
                    break;
                }
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if i == usize::MAX || size == 0 {
                break;
            }
        }
    }
    vec![]
}
fn record(v: Vec<Record>) -> Vec<Ev> {
    let mut out: Vec<Ev> = v
        .into_iter()
        .map(|r| match r {
            Record::Parameter(k, v) => Ev::Param(k, v),
            Record::ParameterEncoded(k, v) => Ev::Enc(k, v),
            Record::Callback => Ev::Slot(0),
            Record::ConsumerKey => Ev::Slot(1),
            Record::Nonce => Ev::Slot(2),
            Record::SignatureMethod => Ev::Slot(3),
            Record::Timestamp => Ev::Slot(4),
            Record::Token => Ev::Slot(5),
            Record::Verifier => Ev::Slot(6),
            Record::Version => Ev::Slot(7),
        })
        .collect();
    out.push(Ev::End);
    out
}
fn feeds(what: &str, req: &impl Request, want: &Vec<Ev>) -> Result<(), String> {
    for i in 0..2 {
        eq(&format!("{what}, time {}", i + 1), &guard(|| req.serialize(LogSer::default())), &Ok(want.clone()))?;
    }
    eq(&format!("{what}, recorded"), &guard(|| record(req.serialize(Recorder::new()))), &Ok(want.clone()))?;
    eq(&format!("{what}, by reference"), &guard(|| (&&req).serialize(LogSer::default())), &Ok(want.clone()))?;
    eq(&format!("{what}, optional"), &guard(|| Some(req).serialize(LogSer::default())), &Ok(want.clone()))
}
fn c09(idx: u64, r: &mut R) -> Case {
    let mut pairs: Vec<(String, Chunky)> = if idx < C09_ENUM {
        multiset(idx).into_iter().map(|i| (KEYS[i].to_owned(), { let t = r.short_text(); r.chunky(&t) })).collect()
    } else {
        let n = if r.one_in(10) { r.below(60) } else { r.below(9) };
        (0..n).map(|_| (if r.one_in(8) { r.short_text() } else { r.key() }, { let t = r.short_text(); r.chunky(&t) })).collect()
    };
    pairs.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    let evs = |p: &[(String, Chunky)]| oracle::merge(&p.iter().map(|(k, v)| Ev::Param(k.clone(), v.text.clone())).collect::<Vec<_>>());
    let res = (|| {
        let want = evs(&pairs);
        feeds("sorted slice", &SlicePairs(&pairs), &want)?;
        feeds("sorted vector", &AssertSorted::new(pairs.clone()), &want)?;
        feeds("chained iterators", &AssertSorted::new(pairs.iter().take(2).chain(pairs.iter().skip(2)).map(|(k, v)| (k.as_str(), v))), &want)?;
        let mut s = AssertSorted::new(pairs.clone());
        eq("by mutable reference", &guard(|| (&mut s).serialize(LogSer::default())), &Ok(want.clone()))?;
        feeds("user-defined request", &Some(&Seq { params: pairs.iter().map(|(k, v)| (k.clone(), v.clone(), false)).collect() }), &want)?;
        let mut lp = pairs.clone();
        lp.sort_by(|a, b| (&a.0, enc(&a.1.text)).cmp(&(&b.0, enc(&b.1.text))));
        feeds("parameter list", &ParameterList::<_, _>::new(pairs.clone()), &evs(&lp))?;
        let slots = evs(&[]);
        feeds("()", &(), &slots)?;
        feeds("absent request", &None::<AssertSorted<std::vec::IntoIter<(String, String)>>>, &slots)?;
        // the recorder and the slot extension
        let mut rec = Recorder::new();
        let mut log = LogSer::default();
        for _ in 0..r.below(8) {
            let (k, t) = (r.short_text(), r.short_text());
            let v = r.chunky(&t);
            match r.below(11) {
                8 => { rec.serialize_parameter(&k, &v); log.serialize_parameter(&k, &v) }
                9 => { rec.serialize_parameter_encoded(&k, &v); log.serialize_parameter_encoded(&k, &v) }
                10 => { rec.serialize_oauth_parameters(); log.serialize_oauth_parameters(); log.0.truncate(log.0.len() - 8); for i in 0..8 { log.0.push(Ev::Slot(i)) } }
                n => { feed_slot(&mut rec, n); feed_slot(&mut log, n) }
            }
        }
        let log = log.end();
        eq("recorder history", &record(rec.history().to_vec()), &log)?;
        let copy = rec.clone();
        eq("a copy of the recorder equals it", &(copy == rec, copy == Recorder::new()), &(true, rec.history().is_empty()))?;
        eq("records of a copied recorder", &record(copy.end()), &log)?;
        eq("recorder records", &record(rec.end()), &log)?;
        for i in 0..4 {
            let (k, k2) = (r.key(), r.key());
            let (t, t2) = if i == 0 { (String::new(), r.short_text()) } else { (r.short_text(), r.short_text()) };
            let (v, v2) = (r.chunky(&t), r.chunky(&t2));
            let (a, b) = (Record::Parameter(&k, &v), Record::Parameter(&k2, &v2));
            let (ae, be) = (Record::ParameterEncoded(&k, &v), Record::ParameterEncoded(&k, &v2));
            eq(&format!("{a:?} == {b:?}"), &(a == b, b == a), &(k == k2 && t == t2, k == k2 && t == t2))?;
            eq(&format!("{ae:?} == {be:?}"), &(ae == be, be == ae), &(t == t2, t == t2))?;
            eq("records of different kinds", &(a == ae, ae == a, a == a, ae == ae, a == Record::<&str, &str>::Nonce), &(false, false, true, true, false))?;
        }
        eq("OAUTH_PARAMETERS", &record(<Record>::OAUTH_PARAMETERS.to_vec()), &slots)?;
        let mut log = LogSer::default();
        log.serialize_oauth_parameters();
        eq("serialize_oauth_parameters", &log.end(), &slots)
    })();
    let mut c = Case::one(format!("{pairs:?}"), true, res);
    c.evals = 8;
    c
}

// ---- C10 ----
type Kv<V> = (String, V);
fn text_order<V: Display>(p: &Kv<V>) -> (Vec<u8>, String) {
    (p.0.clone().into_bytes(), enc(&p.1.to_string()))
}
fn multiset_of<V: Display>(p: impl Iterator<Item = Kv<V>>) -> Vec<(String, String)> {
    let mut v: Vec<_> = p.map(|(k, v)| (k, v.to_string())).collect();
    v.sort();
    v
}
fn same<V: Display + Clone>(what: &str, got: &[Kv<V>], put: &[Kv<V>]) -> Result<(), String> {
    eq(&format!("{what}: the pairs put in, with multiplicity"), &multiset_of(got.iter().cloned()), &multiset_of(put.iter().cloned()))?;
    for w in got.windows(2) {
        if text_order(&w[0]) > text_order(&w[1]) {
            return Err(format!("{what}: {:?} comes before {:?}", (&w[0].0, w[0].1.to_string()), (&w[1].0, w[1].1.to_string())));
        }
    }
    Ok(())
}
fn views<V: Display + Clone + PartialEq + Debug, A: AsRef<[P]> + Clone, P: Borrow<Kv<V>> + Clone>(what: &str, l: ParameterList<String, V, A, P>, put: &[Kv<V>]) -> Result<(), String> {
    let it: Vec<Kv<V>> = l.iter().cloned().collect();
    same(what, &it, put)?;
    let n = it.len();
    eq(&format!("{what}: iteration counted"), &l.iter().count(), &n)?;
    eq(&format!("{what}: last of the iteration"), &l.iter().last().cloned(), &it.last().cloned())?;
    let mut by_hand = l.iter();
    for (i, p) in it.iter().enumerate() {
        let (lo, hi) = by_hand.size_hint();
        if lo > n - i || hi.is_some_and(|h| h < n - i) {
            return Err(format!("{what}: size hint ({lo}, {hi:?}) with {} pairs to come", n - i));
        }
        eq(&format!("{what}: pair {i}"), &by_hand.next(), &Some(p))?;
        eq(&format!("{what}: pair {i} by nth"), &l.iter().nth(i), &Some(p))?;
        eq(&format!("{what}: pairs after {i}"), &l.iter().skip(i + 1).cloned().collect::<Vec<_>>(), &it[i + 1..].to_vec())?;
    }
    eq(&format!("{what}: exhausted iteration"), &by_hand.next(), &None)?;
    eq(&format!("{what}: pair {n} by nth"), &l.iter().nth(n), &None)?;
    eq(&format!("{what}: every other pair"), &l.iter().step_by(2).cloned().collect::<Vec<_>>(), &it.iter().step_by(2).cloned().collect())?;
    eq(&format!("{what}: folded iteration"), &l.iter().fold(vec![], |mut v, p| { v.push(p.clone()); v }), &it)?;
    let asr: Vec<Kv<V>> = AsRef::<[P]>::as_ref(&l).iter().map(|p| p.borrow().clone()).collect();
    eq(&format!("{what}: as_ref and iter"), &asr, &it)?;
    let evs = guard(|| l.serialize(LogSer::default()))?;
    let want = oracle::merge(&it.iter().map(|(k, v)| Ev::Param(k.clone(), v.to_string())).collect::<Vec<_>>());
    eq(&format!("{what}: serialization and iter"), &evs, &want)?;
    let inner: Vec<Kv<V>> = l.into_inner().as_ref().iter().map(|p| p.borrow().clone()).collect();
    eq(&format!("{what}: into_inner and iter"), &inner, &it)
}
fn c10_with<V: Display + Clone + PartialEq + Debug>(r: &mut R, mut val: impl FnMut(&mut R) -> V, hist: &mut String) -> Result<(), String> {
    let names: Vec<String> = (0..1 + r.below(4)).map(|_| if r.flip() { r.key() } else { r.short_text() }).collect();
    let mut pairs = |r: &mut R| -> Vec<Kv<V>> {
        let n = if r.one_in(8) { r.below(60) } else { r.below(6) };
        let mut v: Vec<Kv<V>> = (0..n).map(|_| (names[r.below(names.len())].clone(), val(r))).collect();
        if n > 1 && r.one_in(3) {
            let p = v[0].clone();
            v.push(p);
        }
        v
    };
    let start = pairs(r);
    write!(hist, "names and values {start:?}").unwrap();
    let mut put: Vec<Kv<V>> = vec![];
    let mut l: ParameterList<String, V> = match r.below(5) {
        0 => ParameterList::default(),
        1 => { put = start.clone(); ParameterList::from(start.clone()) }
        2 => { put = start.clone(); start.clone().into_iter().filter(|_| true).collect() }
        3 => {
            let mut s = start.clone();
            s.sort_by_key(text_order);
            put = s.clone();
            match ParameterList::from_sorted(s.clone()) {
                Some(l) => {
                    eq("from_sorted leaves the list as it was", l.as_ref(), &*s)?;
                    l
                }
                None => return Err(format!("from_sorted rejected the sorted list {s:?}")),
            }
        }
        _ => { put = start.clone(); ParameterList::new(start.clone()) }
    };
    same("after construction", l.as_ref(), &put)?;
    // from_sorted accepts exactly sorted lists
    let sorted = start.windows(2).all(|w| text_order(&w[0]) <= text_order(&w[1]));
    let f = ParameterList::<String, V>::from_sorted(start.clone());
    eq(&format!("from_sorted accepts {start:?}"), &f.is_some(), &sorted)?;
    if let Some(f) = f {
        eq("from_sorted leaves the list as it was", f.as_ref(), &*start)?;
    }
    let mut almost = start.clone();
    almost.sort_by_key(text_order);
    if almost.len() > 1 {
        let i = r.below(almost.len() - 1);
        almost.swap(i, i + 1);
        let sorted = almost.windows(2).all(|w| text_order(&w[0]) <= text_order(&w[1]));
        eq(&format!("from_sorted accepts {almost:?}"), &ParameterList::<String, V>::from_sorted(almost.clone()).is_some(), &sorted)?;
    }
    for i in 0..r.below(4) {
        let more = pairs(r);
        write!(hist, "; extended by {more:?}").unwrap();
        put.extend(more.iter().cloned());
        if more.len() % 2 == 0 {
            l.extend(more);
        } else {
            l.extend(more.into_iter().filter(|_| true));
        }
        same(&format!("after extend {}", i + 1), l.as_ref(), &put)?;
    }
    views("vector", l, &put)?;
    views("boxed slice", ParameterList::<String, V, Box<[Kv<V>]>>::new(put.clone().into_boxed_slice()), &put)?;
    let refs: Vec<&Kv<V>> = put.iter().collect();
    views("vector of references", ParameterList::<String, V, Vec<&Kv<V>>, &Kv<V>>::new(refs), &put)?;
    if put.len() >= 3 {
        let a = [put[0].clone(), put[1].clone(), put[2].clone()];
        views("array", ParameterList::<String, V, [Kv<V>; 3]>::new(a.clone()), &a)?;
        let mut b = a.clone();
        let l = ParameterList::<String, V, &mut [Kv<V>]>::new(&mut b[..]);
        same("mutable slice", l.as_ref(), &a)?;
    }
    Ok(())
}
fn c10(idx: u64, r: &mut R) -> Case {
    let mut h = String::new();
    let res = guard(|| match if idx < 300 { idx % 5 } else { r.next() % 5 } {
        0 => c10_with(r, |r| r.below(130) as u32, &mut h),
        1 => c10_with(r, |r| (r.next() as i64) >> r.below(60), &mut h),
        2 => c10_with(r, |r| { let c = r.below(8); r.ch(c) }, &mut h),
        3 => c10_with(r, |r| { let t = r.short_text(); r.chunky(&t) }, &mut h),
        _ => c10_with(r, |r| r.pick(&["~", "z", "a", "a a", "a-a", "a~", "é", "%", "%2", "", "aa", "A", "a+"]).to_owned(), &mut h),
    })
    .and_then(|x| x);
    Case::one(h, true, res)
}

// ---- C11 ----
#[derive(Clone, Debug)]
enum Set {
    Token(Option<(String, String)>),
    Callback(Option<String>),
    Verifier(Option<String>),
    Nonce(Option<String>),
    Timestamp(Option<u64>),
    Version(bool),
    Use(usize),
}
fn c11(idx: u64, r: &mut R) -> Case {
    let mut a = Auth::gen(r);
    a.timestamp = Some(a.timestamp.unwrap_or(99));
    a.nonce = Some(a.nonce.clone().unwrap_or_else(|| "non".into()));
    a.pin();
    let hist: Vec<Set> = if idx < 64 * 8 {
        // all ways of setting then clearing a pair of options
        let one = |k: u64, clear: bool| match (k, clear) {
            (0, c) => Set::Token(if c { None } else { Some(("t".into(), "u".into())) }),
            (1, c) => Set::Callback(if c { None } else { Some("cb".into()) }),
            (2, c) => Set::Verifier(if c { None } else { Some("ve".into()) }),
            (3, c) => Set::Nonce(if c { None } else { Some("no".into()) }),
            (4, c) => Set::Timestamp(if c { None } else { Some(3) }),
            (5, c) => Set::Version(!c),
            (6, _) => Set::Nonce(Some("n2".into())),
            _ => Set::Use((k % 4) as usize),
        };
        vec![one(idx % 8, false), one(idx / 8 % 8, false), one(idx % 8, idx & 64 != 0), one(idx / 8 % 8, idx & 128 != 0)]
    } else {
        (0..r.below(10))
            .map(|_| {
                let n = r.one_in(3);
                let t = r.short_text();
                match r.below(7) {
                    0 => Set::Token(if n { None } else { Some((t, r.short_text())) }),
                    1 => Set::Callback(if n { None } else { Some(t) }),
                    2 => Set::Verifier(if n { None } else { Some(t) }),
                    3 => Set::Nonce(if n { None } else { Some(t) }),
                    4 => Set::Timestamp(if n { None } else { Some(1 + r.next() % 1000) }),
                    5 => Set::Version(r.flip()),
                    _ => Set::Use(r.below(40)),
                }
            })
            .collect()
    };
    let which = r.next();
    let res = guard(|| c11_run(&a, &hist, which)).and_then(|x| x);
    let mut c = Case::one(format!("setters {hist:?}; {a:?}"), true, res);
    c.evals = 40;
    c
}
fn c11_run(a: &Auth, hist: &[Set], which: u64) -> Result<(), String> {
    let sm = || Rec::<true>::new("sg");
    let req = Seq { params: a.params.clone() };
    let mk_token = |t: &(String, String)| Credentials::new(t.0.clone(), t.1.clone());
    // 1. setter histories: the builder behaves like the last values set
    let with = a.token.is_some() && which % 2 == 0;
    let mut m = Auth { token: None, callback: None, verifier: None, nonce: None, timestamp: None, version: false, use_nonce: true, use_ts: true, req: ReqKind::Seq, ..a.clone() };
    let log = sm();
    let client = Credentials::new(a.client.0.clone(), a.client.1.clone());
    let mut b: Builder<'_, Rec<true>, String> = if with {
        m.token = a.token.clone();
        Builder::with_token(Token::new(client, mk_token(a.token.as_ref().unwrap())), log)
    } else {
        Builder::new(client, log)
    };
    let out = |b: &Builder<'_, Rec<true>, String>, m: &Auth| -> Result<(), String> {
        for (dest, name) in [(Dest::Header, "authorize"), (Dest::Form, "to_form"), (Dest::Query, "to_query")] {
            let mm = Auth { dest, route: Route::Builder, prefix: String::new(), ..m.clone() };
            let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
            for again in 0..2 {
                let t0 = now();
                rand::rngs::control::set(Some(a.rand.clone()));
                let got = match dest {
                    Dest::Header => b.authorize(&a.method, &a.uri, &req),
                    Dest::Form => b.to_form(&a.method, &a.uri, &req),
                    Dest::Query => b.to_query(&a.method, a.uri.to_string(), &req),
                };
                rand::rngs::control::set(None);
                let t1 = now();
                let nonce = m.nonce.clone().or_else(|| {
                    let k = if dest == Dest::Header { "oauth_nonce=\"" } else { "oauth_nonce=" };
                    got.rfind(k).map(|i| got[i + k.len()..].chars().take_while(|c| c.is_ascii_alphanumeric() || "-_".contains(*c)).collect())
                });
                let ok = match m.timestamp {
                    Some(t) => t..=t,
                    None => t0..=t1,
                }
                .any(|t| got == mm.expected(&mm.sent("REC", nonce.as_deref(), Some(t)), "sg"));
                if !ok {
                    let want = mm.expected(&mm.sent("REC", nonce.as_deref(), m.timestamp.or(Some(t1))), "sg");
                    return Err(format!("{name}{}\n      got: {got:?}\n expected: {want:?}", if again == 1 { " repeated" } else { "" }));
                }
            }
        }
        Ok(())
    };
    out(&b, &m).map_err(|e| format!("new builder{}: {e}", if with { " with token" } else { "" }))?;
    for (i, s) in hist.iter().enumerate() {
        match s {
            Set::Token(t) => { b.token(t.as_ref().map(mk_token)); m.token = t.clone() }
            Set::Callback(v) => { b.callback(v.as_deref()); m.callback = v.clone() }
            Set::Verifier(v) => { b.verifier(v.as_deref()); m.verifier = v.clone() }
            Set::Nonce(v) => { b.nonce(v.as_deref()); m.nonce = v.clone() }
            Set::Timestamp(v) => { b.timestamp(v.and_then(NonZeroU64::new)); m.timestamp = *v }
            Set::Version(v) => { b.version(*v); m.version = *v }
            Set::Use(_) => {}
        }
        out(&b, &m).map_err(|e| format!("after setter {i} ({s:?}): {e}"))?;
        if (which >> 8 >> i) & 3 == 0 {
            // changing a copy leaves the builder as it was, and the other way round
            let mut c = b.clone();
            out(&c, &m).map_err(|e| format!("a copy of the builder after setter {i} ({s:?}): {e}"))?;
            if which & 4 == 0 {
                c.token(None).callback("copy").verifier("copy").nonce("copy").timestamp(NonZeroU64::new(7)).version(!m.version);
            } else {
                let old = m.clone();
                b.token(None).callback("orig").verifier("orig").nonce("orig").timestamp(NonZeroU64::new(7)).version(!m.version);
                out(&c, &old).map_err(|e| format!("a copy of the builder after setter {i} ({s:?}), the original changed: {e}"))?;
                b = c;
            }
            out(&b, &m).map_err(|e| format!("the builder after setter {i} ({s:?}), a copy changed: {e}"))?;
        }
    }
    // 2. every entry point against the general result
    let a = &Auth { use_nonce: true, use_ts: true, req: ReqKind::Seq, ..a.clone() };
    let b = Auth { route: Route::Builder, ..a.clone() };
    let b = b.builder(oauth::HMAC_SHA1);
    let want = |dest: Dest, verb: &str, pre: &str| {
        let x = Auth { dest, method: verb.to_owned(), prefix: pre.to_owned(), route: if pre.is_empty() { Route::Builder } else { Route::BuilderBuf }, ..a.clone() };
        let sent = x.sent("HMAC-SHA1", a.nonce.as_deref(), a.timestamp);
        let sig = enc(&oracle::b64(&oracle::hmac_sha1(x.key().as_bytes(), x.base(&sent).as_bytes())));
        x.expected(&sent, &sig)
    };
    let u = &a.uri;
    let q = || a.uri.to_string();
    macro_rules! each {
        ($dest:expr, $uri:expr, $($name:ident $verb:expr;)*) => {$(
            eq(stringify!($name), &guard(|| b.$name($uri, &req)), &Ok(want($dest, $verb, "")))?;
        )*};
    }
    each! { Dest::Header, u, get "GET"; put "PUT"; post "POST"; delete "DELETE"; options "OPTIONS"; head "HEAD"; connect "CONNECT"; patch "PATCH"; trace "TRACE"; }
    each! { Dest::Form, u, put_form "PUT"; post_form "POST"; options_form "OPTIONS"; patch_form "PATCH"; }
    each! { Dest::Query, q(), get_query "GET"; put_query "PUT"; post_query "POST"; delete_query "DELETE"; options_query "OPTIONS"; head_query "HEAD"; connect_query "CONNECT"; patch_query "PATCH"; trace_query "TRACE"; }
    let mth = &*a.method;
    let pre = format!("{}+", a.prefix);
    let buf = || ChunkBuf(vec![pre.clone()]);
    eq("authorize", &b.authorize(mth, u, &req), &want(Dest::Header, mth, ""))?;
    eq("to_form", &b.to_form(mth, u, &req), &want(Dest::Form, mth, ""))?;
    eq("to_query", &b.to_query(mth, q(), &req), &want(Dest::Query, mth, ""))?;
    eq("authorize_with_buf", &b.authorize_with_buf(buf(), mth, u, &req).to_string(), &want(Dest::Header, mth, &pre))?;
    eq("to_form_with_buf", &b.to_form_with_buf(buf(), mth, u, &req).to_string(), &want(Dest::Form, mth, &pre))?;
    eq("into_authorization", &b.clone().into_authorization(mth, u, &req), &want(Dest::Header, mth, ""))?;
    eq("into_form", &b.clone().into_form(mth, u, &req), &want(Dest::Form, mth, ""))?;
    eq("into_query", &b.clone().into_query(mth, q(), &req), &want(Dest::Query, mth, ""))?;
    eq("into_authorization_with_buf", &b.clone().into_authorization_with_buf(buf(), mth, u, &req).to_string(), &want(Dest::Header, mth, &pre))?;
    eq("into_form_with_buf", &b.clone().into_form_with_buf(buf(), mth, u, &req).to_string(), &want(Dest::Form, mth, &pre))?;
    // 3. free functions: no options besides the token
    let (t0, t1) = a.token.clone().unwrap_or_default();
    let tok = Token::from_parts(a.client.0.clone(), a.client.1.clone(), t0, t1);
    let free = |verb: &str, name: &str, f: &dyn Fn() -> String| -> Result<(), String> {
        let x = Auth {
            token: Some(a.token.clone().unwrap_or_default()), callback: None, verifier: None, nonce: None, timestamp: None, version: false,
            method: verb.to_owned(), dest: Dest::Header, route: Route::Builder, ..a.clone()
        };
        let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
        let before = now();
        let got = f();
        let after = now();
        let nonce = got.split("oauth_nonce=\"").nth(1).and_then(|s| s.split('"').next()).unwrap_or("").to_owned();
        let mut w = String::new();
        for t in before..=after {
            let sent = x.sent("HMAC-SHA1", Some(&nonce), Some(t));
            let sig = enc(&oracle::b64(&oracle::hmac_sha1(x.key().as_bytes(), x.base(&sent).as_bytes())));
            w = x.expected(&sent, &sig);
            if got == w {
                return Ok(());
            }
        }
        Err(format!("free function {name}\n      got: {got:?}\n expected: {w:?}"))
    };
    macro_rules! frees {
        ($($name:ident $verb:expr;)*) => {$( free($verb, stringify!($name), &|| oauth::$name(u, &req, &tok, oauth::HMAC_SHA1))?; )*};
    }
    frees! { get "GET"; put "PUT"; post "POST"; delete "DELETE"; options "OPTIONS"; head "HEAD"; connect "CONNECT"; patch "PATCH"; trace "TRACE"; }
    free(mth, "authorize", &|| oauth::authorize(mth, u, &req, &tok, oauth::HMAC_SHA1))
}
