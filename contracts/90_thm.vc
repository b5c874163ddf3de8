//## Theorems over the contracts: what the listed properties say about whole requests.
@raw theorems
pub mod thm {
use vstd::prelude::*;
use vstd::string::*;
use core::cmp::Ordering;
use crate::B;
use crate::sp::*;
use crate::ev::*;
use crate::sg::*;
use crate::slots::*;
use crate::sx::fmt::Write;
use crate::oauth1_request::*;
use crate::oauth1_request::util::oauth_parameter::OAuthParameter;
use crate::oauth1_request::serializer::Serializer;
use crate::oauth1_request::serializer::auth::*;
use crate::oauth1_request::serializer::urlencode::*;
use crate::oauth1_request::signature_method::*;
/// one sent parameter: its name, its value as written, what is signed for it, and whether it is a protocol parameter
pub struct Ent { pub k: B, pub v: B, pub s: SEv, pub oauth: bool }
pub open spec fn proto(k: B, v: B, s: SEv) -> Option<Ent> { Some(Ent { k, v, s, oauth: true }) }
/// what an authorizer started like `a` sends for one call
pub open spec fn ent_of<SM: SignatureMethod, W: Write>(a: &Authorizer<SM, W>, e: Ev, t: Option<Ent>) -> bool {
    match e {
        Ev::Param(k, v) => t == Some(Ent { k, v: enc(v), s: SEv::Param(k, enc2(v)), oauth: false }),
        Ev::ParamEnc(k, v) => t == Some(Ent { k, v, s: SEv::Param(k, enc(v)), oauth: false }),
        Ev::Slot(p) => match p {
            OAuthParameter::Callback => t == (match a.options.callback { Some(c) => proto(@"oauth_callback", enc(c.spec_bytes()), SEv::Callback(enc2(c.spec_bytes()))), None => None }),
            OAuthParameter::ConsumerKey => t == proto(@"oauth_consumer_key", enc(a.consumer_key.spec_bytes()), SEv::ConsumerKey(enc2(a.consumer_key.spec_bytes()))),
            OAuthParameter::Nonce => if !a.sign.s_nonce() { t.is_none() } else { match a.options.nonce {
                Some(n) => t == proto(@"oauth_nonce", enc(n.spec_bytes()), SEv::Nonce(enc2(n.spec_bytes()))),
                None => exists|n: B| #[trigger] fresh(n) && t == proto(@"oauth_nonce", n, SEv::Nonce(n)) } },
            OAuthParameter::SignatureMethod => t == proto(@"oauth_signature_method", a.sign.s_name(), SEv::SigMethod),
            OAuthParameter::Timestamp => if !a.sign.s_ts() { t.is_none() } else { match a.options.timestamp {
                Some(x) => t == proto(@"oauth_timestamp", dec(x.v as nat), SEv::Timestamp(x.v)),
                None => exists|x: u64| #[trigger] now(x) && t == proto(@"oauth_timestamp", dec(x as nat), SEv::Timestamp(x)) } },
            OAuthParameter::Token => t == (match a.token { Some(c) => proto(@"oauth_token", enc(c.spec_bytes()), SEv::Token(enc2(c.spec_bytes()))), None => None }),
            OAuthParameter::Verifier => t == (match a.options.verifier { Some(c) => proto(@"oauth_verifier", enc(c.spec_bytes()), SEv::Verifier(enc2(c.spec_bytes()))), None => None }),
            OAuthParameter::Version => t == (if a.options.version { proto(@"oauth_version", @"1.0", SEv::Version) } else { None }),
            OAuthParameter::None => false,
        },
    }
}
/// what it sends for a sequence of calls
pub open spec fn ents_of<SM: SignatureMethod, W: Write>(a: &Authorizer<SM, W>, evs: Seq<Ev>, es: Seq<Ent>) -> bool decreases evs.len() {
    if evs.len() == 0 { es.len() == 0 } else {
        ||| ent_of(a, evs.last(), None) && ents_of(a, evs.drop_last(), es)
        ||| es.len() > 0 && ent_of(a, evs.last(), Some(es.last())) && ents_of(a, evs.drop_last(), es.drop_last())
    }
}
/// the calls on the signing state: every parameter once, with a delimiter between neighbours and nowhere else
pub open spec fn signs(es: Seq<Ent>) -> Seq<SEv> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else if es.len() == 1 { seq![es[0].s] } else { signs(es.drop_last()).push(SEv::Delim).push(es.last().s) }
}
pub open spec fn srun<S: Sign>(pre: &S, es: Seq<SEv>, post: &S) -> bool decreases es.len() {
    if es.len() == 0 { *post == *pre } else { exists|m: S| srun(pre, es.drop_last(), &m) && #[trigger] S::sstep(&m, es.last(), post) }
}
/// `k="v",` for every protocol parameter
pub open spec fn header(es: Seq<Ent>) -> B decreases es.len() {
    if es.len() == 0 { Seq::empty() } else if es.last().oauth { header(es.drop_last()) + (((es.last().k + @"=\"") + es.last().v) + @"\",") } else { header(es.drop_last()) }
}
pub open spec fn pair(e: Ent) -> B { (e.k + @"=") + e.v }
/// `k=v&k=v`
pub open spec fn joined(es: Seq<Ent>) -> B decreases es.len() {
    if es.len() == 0 { Seq::empty() } else if es.len() == 1 { pair(es[0]) } else { joined(es.drop_last()) + @"&" + pair(es.last()) }
}
/// the same after what is due before the first pair
pub open spec fn list(first: Append, es: Seq<Ent>) -> B { if es.len() == 0 { Seq::empty() } else { delim(first) + joined(es) } }
pub open spec fn wrote<W: Write>(pre: Data<W>, es: Seq<Ent>, post: Data<W>) -> bool {
    match (pre, post) {
        (Data::Authorization(h), Data::Authorization(h2)) => h2.text() == h.text() + W::xf(header(es)),
        (Data::Urlencode(a), Data::Urlencode(b)) => b.data.text() == a.data.text() + W::xf(list(a.next_append, es)) && (es.len() > 0 ==> b.next_append == Append::Ampersand) && (es.len() == 0 ==> b.next_append == a.next_append),
        _ => false,
    }
}
/// A signing state whose answers do not change over time, as those of all the methods of the crate.
pub trait Steady: Sign {
    proof fn steady(pre: &Self, e: SEv, post: &Self) requires Self::sstep(pre, e, post) ensures post.s_name() == pre.s_name(), post.s_nonce() == pre.s_nonce(), post.s_ts() == pre.s_ts();
}
/// One that signs the text it is given.
pub trait TextSign: Steady {
    spec fn bs(&self) -> B;
    proof fn writes(pre: &Self, e: SEv, post: &Self) requires Self::sstep(pre, e, post) ensures post.bs() == pre.bs() + sev_text(pre.s_name(), e);
    proof fn plain_name(&self) ensures plain(self.s_name());
}
pub open spec fn plain(s: B) -> bool { forall|i: int| 0 <= i < s.len() ==> unreserved(#[trigger] s[i]) }
proof fn lemma_srun_push<S: Sign>(pre: &S, es: Seq<SEv>, m: &S, e: SEv, post: &S)
    requires srun(pre, es, m), S::sstep(m, e, post) ensures srun(pre, es.push(e), post)
{ assert(es.push(e).drop_last() =~= es); assert(es.push(e).last() == e); assert(srun(pre, es.push(e).drop_last(), m)); assert(S::sstep(m, es.push(e).last(), post)); }
proof fn lemma_signs_push(es: Seq<Ent>, t: Ent)
    ensures signs(es.push(t)) == if es.len() == 0 { seq![t.s] } else { signs(es).push(SEv::Delim).push(t.s) }
{ assert(es.push(t).drop_last() =~= es); }
proof fn lemma_ents_push<SM: SignatureMethod, W: Write>(a: &Authorizer<SM, W>, evs: Seq<Ev>, es: Seq<Ent>, t: Ent)
    requires evs.len() > 0, ents_of(a, evs.drop_last(), es), ent_of(a, evs.last(), Some(t)) ensures ents_of(a, evs, es.push(t))
{ assert(es.push(t).drop_last() =~= es); assert(es.push(t).last() == t); }
proof fn lemma_wrote_push<W: Write>(d0: Data<W>, es: Seq<Ent>, d1: Data<W>, t: Ent, d2: Data<W>)
    requires wrote(d0, es, d1),
        match (d1, d2) {
            (Data::Authorization(h), Data::Authorization(h2)) => if t.oauth { h2.text() == h.text() + W::xf(((t.k + @"=\"") + t.v) + @"\",") } else { h2 == h },
            (Data::Urlencode(e), Data::Urlencode(e2)) => appended(&e, t.k, t.v, &e2),
            _ => false,
        },
    ensures wrote(d0, es.push(t), d2)
{
    let es2 = es.push(t);
    assert(es2.drop_last() =~= es && es2.last() == t);
    match (d0, d1, d2) {
        (Data::Authorization(h0), Data::Authorization(h), Data::Authorization(h2)) => {
            if t.oauth { W::laws(header(es), ((t.k + @"=\"") + t.v) + @"\","); lemma_assoc(h0.text(), W::xf(header(es)), W::xf(((t.k + @"=\"") + t.v) + @"\",")); }
        }
        (Data::Urlencode(e0), Data::Urlencode(e), Data::Urlencode(e2)) => {
            let (l, p) = (list(e0.next_append, es), delim(e.next_append) + pair(t));
            W::laws(l, p);
            lemma_assoc(e0.data.text(), W::xf(l), W::xf(p));
            if es.len() == 0 { W::laws(l, l); assert(l + p =~= p); assert(list(e0.next_append, es2) =~= l + p); assert(es2[0] == t); }
            else { assert(list(e0.next_append, es2) =~= l + p); }
        }
        _ => {}
    }
}
/// Every run of the authorizer sends a list of parameters: it writes and signs each of them once, with the same values.
pub proof fn c01_c02_c03_c12_run<SM: SignatureMethod, W: Write>(a0: Authorizer<SM, W>, evs: Seq<Ev>, a1: Authorizer<SM, W>) -> (es: Seq<Ent>)
    where SM::Sign: Steady
    requires run(a0, evs, a1), !a0.append_delim_to_sign
    ensures ents_of(&a0, evs, es), kept(&a0, &a1), srun::<SM::Sign>(&a0.sign, signs(es), &a1.sign), a1.append_delim_to_sign == (es.len() > 0), wrote(a0.data, es, a1.data),
        a1.sign.s_name() == a0.sign.s_name(), a1.sign.s_nonce() == a0.sign.s_nonce(), a1.sign.s_ts() == a0.sign.s_ts(),
    decreases evs.len()
{
    if evs.len() == 0 {
        let es = Seq::<Ent>::empty();
        assert(wrote(a0.data, es, a1.data)) by { W::laws(Seq::empty(), Seq::empty()); match a0.data { Data::Authorization(h) => { lemma_add0(h.text()); } Data::Urlencode(e) => { lemma_add0(e.data.text()); } } }
        es
    } else {
        let m = choose|m: Authorizer<SM, W>| run(a0, evs.drop_last(), m) && #[trigger] Authorizer::<SM, W>::step(&m, evs.last(), &a1);
        let es = c01_c02_c03_c12_run(a0, evs.drop_last(), m);
        if a1 == m && ent_of(&a0, evs.last(), None) { es }
        else {
            let t: Ent = choose|t: Ent| #[trigger] ent_of(&a0, evs.last(), Some(t)) && signed::<SM::Sign>(&m.sign, m.append_delim_to_sign, t.s, &a1.sign)
                && (t.oauth ==> data_push(m.data, t.k, t.v, a1.data))
                && (!t.oauth ==> match (m.data, a1.data) { (Data::Authorization(h), Data::Authorization(h2)) => h2 == h, (Data::Urlencode(a), Data::Urlencode(b)) => appended(&a, t.k, t.v, &b), _ => false });
            assert(exists|t: Ent| #[trigger] ent_of(&a0, evs.last(), Some(t)) && signed::<SM::Sign>(&m.sign, m.append_delim_to_sign, t.s, &a1.sign)
                && (t.oauth ==> data_push(m.data, t.k, t.v, a1.data))
                && (!t.oauth ==> match (m.data, a1.data) { (Data::Authorization(h), Data::Authorization(h2)) => h2 == h, (Data::Urlencode(a), Data::Urlencode(b)) => appended(&a, t.k, t.v, &b), _ => false })) by { lemma_step_ent(a0, m, evs.last(), a1); }
            let s = choose|s: SM::Sign| #[trigger] delimited::<SM::Sign>(&m.sign, m.append_delim_to_sign, &s) && SM::Sign::sstep(&s, t.s, &a1.sign);
            SM::Sign::steady(&s, t.s, &a1.sign);
            if es.len() > 0 { SM::Sign::steady(&m.sign, SEv::Delim, &s); lemma_srun_push::<SM::Sign>(&a0.sign, signs(es), &m.sign, SEv::Delim, &s); lemma_srun_push::<SM::Sign>(&a0.sign, signs(es).push(SEv::Delim), &s, t.s, &a1.sign); }
            else { lemma_srun_push::<SM::Sign>(&a0.sign, signs(es), &m.sign, t.s, &a1.sign); assert(signs(es).push(t.s) =~= seq![t.s]); }
            lemma_signs_push(es, t);
            lemma_ents_push(&a0, evs, es, t);
            lemma_wrote_push(a0.data, es, m.data, t, a1.data);
            es.push(t)
        }
    }
}
proof fn lemma_step_ent<SM: SignatureMethod, W: Write>(a0: Authorizer<SM, W>, m: Authorizer<SM, W>, e: Ev, a1: Authorizer<SM, W>)
    requires Authorizer::<SM, W>::step(&m, e, &a1), kept(&a0, &m), m.sign.s_name() == a0.sign.s_name(), m.sign.s_nonce() == a0.sign.s_nonce(), m.sign.s_ts() == a0.sign.s_ts()
    ensures a1.append_delim_to_sign || a1 == m, kept(&m, &a1),
        (a1 == m && ent_of(&a0, e, None)) || (a1.append_delim_to_sign && exists|t: Ent| #[trigger] ent_of(&a0, e, Some(t)) && signed::<SM::Sign>(&m.sign, m.append_delim_to_sign, t.s, &a1.sign)
                && (t.oauth ==> data_push(m.data, t.k, t.v, a1.data))
                && (!t.oauth ==> match (m.data, a1.data) { (Data::Authorization(h), Data::Authorization(h2)) => h2 == h, (Data::Urlencode(a), Data::Urlencode(b)) => appended(&a, t.k, t.v, &b), _ => false })),
{
    match e {
        Ev::Param(k, v) => { let t = Ent { k, v: enc(v), s: SEv::Param(k, enc2(v)), oauth: false }; assert(ent_of(&a0, e, Some(t))); }
        Ev::ParamEnc(k, v) => { let t = Ent { k, v, s: SEv::Param(k, enc(v)), oauth: false }; assert(ent_of(&a0, e, Some(t))); }
        Ev::Slot(p) => {
            match p {
                OAuthParameter::Callback => if m.options.callback.is_some() { let c = m.options.callback.unwrap(); let t = proto(@"oauth_callback", enc(c.spec_bytes()), SEv::Callback(enc2(c.spec_bytes()))); assert(ent_of(&a0, e, Some(t->Some_0))); }
                OAuthParameter::ConsumerKey => { let t = proto(@"oauth_consumer_key", enc(m.consumer_key.spec_bytes()), SEv::ConsumerKey(enc2(m.consumer_key.spec_bytes()))); assert(ent_of(&a0, e, Some(t->Some_0))); }
                OAuthParameter::Nonce => if m.sign.s_nonce() {
                    if m.options.nonce.is_some() { let c = m.options.nonce.unwrap(); let t = proto(@"oauth_nonce", enc(c.spec_bytes()), SEv::Nonce(enc2(c.spec_bytes()))); assert(ent_of(&a0, e, Some(t->Some_0))); }
                    else { let n = choose|n: B| #[trigger] fresh(n) && pushed(&m, @"oauth_nonce", n, SEv::Nonce(n), &a1); let t = proto(@"oauth_nonce", n, SEv::Nonce(n)); assert(ent_of(&a0, e, Some(t->Some_0))); }
                }
                OAuthParameter::SignatureMethod => { let t = proto(@"oauth_signature_method", m.sign.s_name(), SEv::SigMethod); assert(ent_of(&a0, e, Some(t->Some_0))); }
                OAuthParameter::Timestamp => if m.sign.s_ts() {
                    if m.options.timestamp.is_some() { let c = m.options.timestamp.unwrap(); let t = proto(@"oauth_timestamp", dec(c.v as nat), SEv::Timestamp(c.v)); assert(ent_of(&a0, e, Some(t->Some_0))); }
                    else { let n = choose|n: u64| #[trigger] now(n) && pushed(&m, @"oauth_timestamp", dec(n as nat), SEv::Timestamp(n), &a1); let t = proto(@"oauth_timestamp", dec(n as nat), SEv::Timestamp(n)); assert(ent_of(&a0, e, Some(t->Some_0))); }
                }
                OAuthParameter::Token => if m.token.is_some() { let c = m.token.unwrap(); let t = proto(@"oauth_token", enc(c.spec_bytes()), SEv::Token(enc2(c.spec_bytes()))); assert(ent_of(&a0, e, Some(t->Some_0))); }
                OAuthParameter::Verifier => if m.options.verifier.is_some() { let c = m.options.verifier.unwrap(); let t = proto(@"oauth_verifier", enc(c.spec_bytes()), SEv::Verifier(enc2(c.spec_bytes()))); assert(ent_of(&a0, e, Some(t->Some_0))); }
                OAuthParameter::Version => if m.options.version { let t = proto(@"oauth_version", @"1.0", SEv::Version); assert(ent_of(&a0, e, Some(t->Some_0))); }
                OAuthParameter::None => {}
            }
        }
    }
}
// ---- the literals
proof fn lemma_lits()
    ensures plain(@"oauth_callback"), plain(@"oauth_consumer_key"), plain(@"oauth_nonce"), plain(@"oauth_signature_method"), plain(@"oauth_timestamp"), plain(@"oauth_token"), plain(@"oauth_verifier"), plain(@"oauth_version"), plain(@"1.0"), plain(@"HMAC-SHA1"), plain(@"PLAINTEXT"), plain(@"RSA-SHA1"),
        enc(@"=") == @"%3D", enc(@"&") == @"%26",
{
    reveal(@!"oauth_callback"); reveal(@!"oauth_consumer_key"); reveal(@!"oauth_nonce"); reveal(@!"oauth_signature_method"); reveal(@!"oauth_timestamp"); reveal(@!"oauth_token"); reveal(@!"oauth_verifier"); reveal(@!"oauth_version"); reveal(@!"1.0"); reveal(@!"HMAC-SHA1"); reveal(@!"PLAINTEXT"); reveal(@!"RSA-SHA1");
    reveal(@!"="); reveal(@!"&"); reveal(@!"%3D"); reveal(@!"%26");
    lemma_enc_one(61); lemma_enc_one(38);
    assert(@"=" =~= seq![61u8]); assert(@"&" =~= seq![38u8]);
    assert(enc(@"=") =~= @"%3D"); assert(enc(@"&") =~= @"%26");
}
// ---- the methods of the crate
impl Steady for crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign { proof fn steady(pre: &Self, e: SEv, post: &Self) {} }
impl TextSign for crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign { open spec fn bs(&self) -> B { self.inner.0.inp() } proof fn writes(pre: &Self, e: SEv, post: &Self) {} proof fn plain_name(&self) { lemma_lits(); } }
impl Steady for crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign { proof fn steady(pre: &Self, e: SEv, post: &Self) {} }
impl TextSign for crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign { open spec fn bs(&self) -> B { self.inner.0.inp() } proof fn writes(pre: &Self, e: SEv, post: &Self) {} proof fn plain_name(&self) { lemma_lits(); } }
impl<'a> Steady for crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> { proof fn steady(pre: &Self, e: SEv, post: &Self) {} }
impl<'a> TextSign for crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> { open spec fn bs(&self) -> B { self.inner.0.inp() } proof fn writes(pre: &Self, e: SEv, post: &Self) {} proof fn plain_name(&self) { lemma_lits(); } }
impl Steady for crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign { proof fn steady(pre: &Self, e: SEv, post: &Self) {} }
impl TextSign for crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign { open spec fn bs(&self) -> B { self.inner.0.inp() } proof fn writes(pre: &Self, e: SEv, post: &Self) {} proof fn plain_name(&self) { lemma_lits(); } }
impl<'a> Steady for crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> { proof fn steady(pre: &Self, e: SEv, post: &Self) {} }
impl<'a> TextSign for crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> { open spec fn bs(&self) -> B { self.inner.0.inp() } proof fn writes(pre: &Self, e: SEv, post: &Self) {} proof fn plain_name(&self) { lemma_lits(); } }
impl<W: crate::sx::fmt::Display + Write> Steady for crate::oauth1_request::signature_method::plaintext::PlaintextSign<W> { proof fn steady(pre: &Self, e: SEv, post: &Self) {} }
impl<L: Steady, R: Steady> Steady for crate::sx::either::Either<L, R> { proof fn steady(pre: &Self, e: SEv, post: &Self) { match (*pre, *post) { (crate::sx::either::Either::Left(a), crate::sx::either::Either::Left(b)) => L::steady(&a, e, &b), (crate::sx::either::Either::Right(a), crate::sx::either::Either::Right(b)) => R::steady(&a, e, &b), _ => {} } } }
impl<L: TextSign, R: TextSign> TextSign for crate::sx::either::Either<L, R> {
    open spec fn bs(&self) -> B { match *self { crate::sx::either::Either::Left(a) => a.bs(), crate::sx::either::Either::Right(a) => a.bs() } }
    proof fn writes(pre: &Self, e: SEv, post: &Self) { match (*pre, *post) { (crate::sx::either::Either::Left(a), crate::sx::either::Either::Left(b)) => L::writes(&a, e, &b), (crate::sx::either::Either::Right(a), crate::sx::either::Either::Right(b)) => R::writes(&a, e, &b), _ => {} } }
    proof fn plain_name(&self) { match *self { crate::sx::either::Either::Left(a) => a.plain_name(), crate::sx::either::Either::Right(a) => a.plain_name() } }
}
// ---- the base string
pub open spec fn text_of(name: B, es: Seq<SEv>) -> B decreases es.len() { if es.len() == 0 { Seq::empty() } else { text_of(name, es.drop_last()) + sev_text(name, es.last()) } }
proof fn lemma_srun_text<S: TextSign>(pre: &S, es: Seq<SEv>, post: &S)
    requires srun(pre, es, post) ensures post.bs() == pre.bs() + text_of(pre.s_name(), es), post.s_name() == pre.s_name() decreases es.len()
{
    if es.len() == 0 { lemma_add0(pre.bs()); }
    else {
        let m = choose|m: S| srun(pre, es.drop_last(), &m) && #[trigger] S::sstep(&m, es.last(), post);
        lemma_srun_text(pre, es.drop_last(), &m);
        S::writes(&m, es.last(), post); S::steady(&m, es.last(), post);
        lemma_assoc(pre.bs(), text_of(pre.s_name(), es.drop_last()), sev_text(pre.s_name(), es.last()));
    }
}
/// what is signed for a parameter is its encoded pair
pub open spec fn faithful(name: B, e: Ent) -> bool { sev_text(name, e.s) == enc(pair(e)) }
proof fn lemma_faithful(name: B, k: B, v: B) requires plain(k) ensures kv(k, enc(v)) == enc((k + @"=") + v)
{ lemma_lits(); lemma_enc_plain(k); lemma_enc_add(k + @"=", v); lemma_enc_add(k, @"="); assert(kv(k, enc(v)) == (k + @"%3D") + enc(v)); }
proof fn lemma_dec(n: nat) ensures plain(dec(n)) decreases n { if n >= 10 { lemma_dec(n / 10); } }
proof fn lemma_b64_plain(s: B) ensures plain(crate::sx::base64::b64(s, true, false)) decreases s.len()
{
    if s.len() >= 3 {
        lemma_b64_plain(s.skip(3));
        let t = crate::sx::base64::b64(s.skip(3), true, false);
        let h = seq![crate::sx::base64::b64c(s[0] as int / 4, true), crate::sx::base64::b64c((s[0] as int % 4) * 16 + s[1] as int / 16, true), crate::sx::base64::b64c((s[1] as int % 16) * 4 + s[2] as int / 64, true), crate::sx::base64::b64c(s[2] as int % 64, true)];
        assert(crate::sx::base64::b64(s, true, false) == h + t);
        assert forall|i: int| 0 <= i < (h + t).len() implies unreserved(#[trigger] (h + t)[i]) by { if i >= 4 { assert(t[i - 4] == (h + t)[i]); } }
    }
}
/// the keys that are not the crate's own are URI-safe
pub open spec fn safe(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> plain(ev_key(#[trigger] evs[i])) }
proof fn lemma_ent_faithful<SM: SignatureMethod, W: Write>(a: &Authorizer<SM, W>, e: Ev, t: Ent)
    requires ent_of(a, e, Some(t)), plain(ev_key(e)), plain(a.sign.s_name())
    ensures faithful(a.sign.s_name(), t), t.k == ev_key(e)
{
    lemma_lits();
    match e {
        Ev::Param(k, v) => { lemma_faithful(a.sign.s_name(), k, enc(v)); }
        Ev::ParamEnc(k, v) => { lemma_faithful(a.sign.s_name(), k, v); }
        Ev::Slot(p) => {
            lemma_faithful(a.sign.s_name(), t.k, t.v);
            match p {
                OAuthParameter::Nonce => if a.options.nonce.is_none() { let n = choose|n: B| #[trigger] fresh(n) && Some(t) == proto(@"oauth_nonce", n, SEv::Nonce(n)); let raw = choose|raw: B| #[trigger] crate::sx::rand::prelude::drawn(raw) && raw.len() == 9 && n == nonce_of(raw); lemma_b64_plain(sig_bytes(raw)); lemma_enc_plain(n); }
                OAuthParameter::SignatureMethod => { lemma_enc_plain(a.sign.s_name()); }
                OAuthParameter::Timestamp => { if a.options.timestamp.is_none() { let x = choose|x: u64| #[trigger] now(x) && Some(t) == proto(@"oauth_timestamp", dec(x as nat), SEv::Timestamp(x)); lemma_dec(x as nat); lemma_enc_plain(dec(x as nat)); } else { lemma_dec(a.options.timestamp.unwrap().v as nat); lemma_enc_plain(t.v); } }
                OAuthParameter::Version => { lemma_enc_plain(@"1.0"); }
                _ => {}
            }
        }
    }
}
proof fn lemma_joined(name: B, es: Seq<Ent>)
    requires forall|i: int| 0 <= i < es.len() ==> faithful(name, #[trigger] es[i]) ensures text_of(name, signs(es)) == enc(joined(es)) decreases es.len()
{
    if es.len() == 1 { assert(seq![es[0].s].drop_last() =~= Seq::<SEv>::empty()); lemma_0add(enc(pair(es[0]))); assert(faithful(name, es[0])); reveal_with_fuel(text_of, 3); }
    else if es.len() > 1 {
        lemma_joined(name, es.drop_last());
        let (s, j) = (signs(es.drop_last()), joined(es.drop_last()));
        assert(s.push(SEv::Delim).push(es.last().s).drop_last() =~= s.push(SEv::Delim)); assert(s.push(SEv::Delim).drop_last() =~= s);
        assert(text_of(name, s.push(SEv::Delim)) == text_of(name, s) + @"%26") by { assert(s.push(SEv::Delim).last() == SEv::Delim); }
        assert(s.push(SEv::Delim).push(es.last().s).last() == es.last().s);
        assert(faithful(name, es.last()));
        lemma_lits(); lemma_enc_add(j, @"&"); lemma_enc_add(j + @"&", pair(es.last()));
    }
}
proof fn lemma_ents_faithful<SM: SignatureMethod, W: Write>(a: &Authorizer<SM, W>, evs: Seq<Ev>, es: Seq<Ent>)
    requires ents_of(a, evs, es), safe(evs), plain(a.sign.s_name())
    ensures forall|i: int| 0 <= i < es.len() ==> faithful(a.sign.s_name(), #[trigger] es[i]) decreases evs.len()
{
    if evs.len() > 0 {
        assert(safe(evs.drop_last())) by { assert forall|i: int| 0 <= i < evs.drop_last().len() implies plain(ev_key(#[trigger] evs.drop_last()[i])) by { assert(evs.drop_last()[i] == evs[i]); } }
        if ent_of(a, evs.last(), None) && ents_of(a, evs.drop_last(), es) { lemma_ents_faithful(a, evs.drop_last(), es); }
        else {
            lemma_ents_faithful(a, evs.drop_last(), es.drop_last());
            assert(plain(ev_key(evs[evs.len() - 1])));
            lemma_ent_faithful(a, evs.last(), es.last());
            assert forall|i: int| 0 <= i < es.len() implies faithful(a.sign.s_name(), #[trigger] es[i]) by { if i < es.len() - 1 { assert(es.drop_last()[i] == es[i]); } }
        }
    }
}
/// RFC 5849 section 3.4.1.1
pub open spec fn base_string(method: B, uri: B, es: Seq<Ent>) -> B { (((method + @"&") + enc(uri)) + @"&") + enc(joined(es)) }
/// What has been signed after a run is the signature base string of exactly the parameters sent.
pub proof fn c01_base_string<'a, SM: SignatureMethod, W: Write>(a0: Authorizer<'a, SM, W>, sm: SM, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, evs: Seq<Ev>, a1: Authorizer<'a, SM, W>) -> (r: (SM::Sign, Seq<Ent>))
    where SM::Sign: TextSign
    requires started(&a0, sm, method, uri, client, token, options), run(a0, evs, a1), safe(evs)
    ensures sm.init(client.secret.spec_bytes(), secret_of(token), &r.0), ents_of(&a0, evs, r.1), wrote(a0.data, r.1, a1.data),
        a1.sign.bs() == r.0.bs() + base_string(method, uri, r.1)
{
    let es = c01_c02_c03_c12_run(a0, evs, a1);
    let (cs, ts) = (client.secret.spec_bytes(), secret_of(token));
    let (s0, s1) = choose|s0: SM::Sign, s1: SM::Sign| #![trigger sm.init(cs, ts, &s0), SM::Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && SM::Sign::sstep(&s0, SEv::Method(method), &s1) && SM::Sign::sstep(&s1, SEv::Uri(enc(uri)), &a0.sign);
    SM::Sign::writes(&s0, SEv::Method(method), &s1);
    SM::Sign::writes(&s1, SEv::Uri(enc(uri)), &a0.sign);
    a0.sign.plain_name();
    lemma_srun_text::<SM::Sign>(&a0.sign, signs(es), &a1.sign);
    lemma_ents_faithful(&a0, evs, es);
    lemma_joined(a0.sign.s_name(), es);
    assert(a1.sign.bs() =~= s0.bs() + base_string(method, uri, es));
    (s0, es)
}
// ---- the merge
pub open spec fn ev_sorted(evs: Seq<Ev>) -> bool { forall|i: int, j: int| 0 <= i <= j < evs.len() ==> ble(ev_key(#[trigger] evs[i]), ev_key(#[trigger] evs[j])) }
pub open spec fn is_slot(e: Ev) -> bool { e is Slot }
/// no slot among them
pub open spec fn params(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> !is_slot(#[trigger] evs[i]) }
/// those that are not slots, in order
pub open spec fn own(evs: Seq<Ev>) -> Seq<Ev> decreases evs.len() { if evs.len() == 0 { evs } else if is_slot(evs[0]) { own(evs.drop_first()) } else { seq![evs[0]] + own(evs.drop_first()) } }
/// those that are, in order
pub open spec fn slots_in(evs: Seq<Ev>) -> Seq<Ev> decreases evs.len() { if evs.len() == 0 { evs } else if is_slot(evs[0]) { seq![evs[0]] + slots_in(evs.drop_first()) } else { slots_in(evs.drop_first()) } }
pub open spec fn slots_from(p: OAuthParameter) -> Seq<Ev> decreases 8 - slot_no(p) { if p == OAuthParameter::None { Seq::empty() } else { seq![Ev::Slot(p)] + slots_from(slot_next(p)) } }
pub open spec fn all_slots() -> Seq<Ev> { seq![Ev::Slot(OAuthParameter::Callback), Ev::Slot(OAuthParameter::ConsumerKey), Ev::Slot(OAuthParameter::Nonce), Ev::Slot(OAuthParameter::SignatureMethod), Ev::Slot(OAuthParameter::Timestamp), Ev::Slot(OAuthParameter::Token), Ev::Slot(OAuthParameter::Verifier), Ev::Slot(OAuthParameter::Version)] }
pub proof fn lemma_all_slots() ensures slots_from(OAuthParameter::Callback) == all_slots() { reveal_with_fuel(slots_from, 10); assert(slots_from(OAuthParameter::Callback) =~= all_slots()); }
pub open spec fn before(b: B, evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> ble(b, ev_key(#[trigger] evs[i])) }
/// the order is decided at the first byte that differs
proof fn lemma_differ(a: B, b: B, i: int)
    requires 0 <= i < a.len(), i < b.len(), a[i] < b[i], forall|j: int| 0 <= j < i ==> a[j] == b[j] ensures blex(a, b) == Ordering::Less decreases i
{ if i > 0 { assert(a[0] == b[0]); lemma_differ(a.drop_first(), b.drop_first(), i - 1); } }
proof fn lemma_slot_order(p: OAuthParameter)
    requires p != OAuthParameter::None ensures slot_next(p) != OAuthParameter::None ==> blex(slot_name(p), slot_name(slot_next(p))) == Ordering::Less
{
    match p {
        OAuthParameter::Callback => { reveal(@!"oauth_callback"); reveal(@!"oauth_consumer_key"); lemma_differ(@"oauth_callback", @"oauth_consumer_key", 7); }
        OAuthParameter::ConsumerKey => { reveal(@!"oauth_consumer_key"); reveal(@!"oauth_nonce"); lemma_differ(@"oauth_consumer_key", @"oauth_nonce", 6); }
        OAuthParameter::Nonce => { reveal(@!"oauth_nonce"); reveal(@!"oauth_signature_method"); lemma_differ(@"oauth_nonce", @"oauth_signature_method", 6); }
        OAuthParameter::SignatureMethod => { reveal(@!"oauth_signature_method"); reveal(@!"oauth_timestamp"); lemma_differ(@"oauth_signature_method", @"oauth_timestamp", 6); }
        OAuthParameter::Timestamp => { reveal(@!"oauth_timestamp"); reveal(@!"oauth_token"); lemma_differ(@"oauth_timestamp", @"oauth_token", 7); }
        OAuthParameter::Token => { reveal(@!"oauth_token"); reveal(@!"oauth_verifier"); lemma_differ(@"oauth_token", @"oauth_verifier", 6); }
        OAuthParameter::Verifier => { reveal(@!"oauth_verifier"); reveal(@!"oauth_version"); lemma_differ(@"oauth_verifier", @"oauth_version", 9); }
        _ => {}
    }
}
proof fn lemma_cons(e: Ev, r: Seq<Ev>, b: B)
    requires ev_sorted(r), before(ev_key(e), r), ble(b, ev_key(e)) ensures ev_sorted(seq![e] + r), before(b, seq![e] + r)
{
    let t = seq![e] + r;
    lemma_blex(ev_key(e), ev_key(e));
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies ble(ev_key(#[trigger] t[i]), ev_key(#[trigger] t[j])) by { if i > 0 { assert(t[i] == r[i - 1] && t[j] == r[j - 1]); } else if j > 0 { assert(t[j] == r[j - 1]); } }
    assert forall|i: int| 0 <= i < t.len() implies ble(b, ev_key(#[trigger] t[i])) by { if i > 0 { assert(t[i] == r[i - 1]); lemma_blex_trans(b, ev_key(e), ev_key(t[i])); } }
}
pub open spec fn low(ps: Seq<Ev>, p: OAuthParameter, b: B) -> bool { (ps.len() > 0 ==> ble(b, ev_key(ps[0]))) && (p != OAuthParameter::None ==> ble(b, slot_name(p))) }
/// Merging sorted parameters with the slots from `p` on gives a sorted sequence ...
proof fn lemma_merged_sorted(ps: Seq<Ev>, p: OAuthParameter, b: B)
    requires ev_sorted(ps), low(ps, p, b)
    ensures ev_sorted(merged(ps, p)), before(b, merged(ps, p)) decreases ps.len() + 8 - slot_no(p)
{
    if p != OAuthParameter::None && (ps.len() == 0 || blex(slot_name(p), ev_key(ps[0])) == Ordering::Less) {
        lemma_slot_order(p);
        assert(low(ps, slot_next(p), slot_name(p)));
        lemma_merged_sorted(ps, slot_next(p), slot_name(p));
        lemma_cons(Ev::Slot(p), merged(ps, slot_next(p)), b);
    } else if ps.len() > 0 {
        let r = ps.drop_first();
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies ble(ev_key(#[trigger] r[i]), ev_key(#[trigger] r[j])) by { assert(r[i] == ps[i + 1] && r[j] == ps[j + 1]); }
        if r.len() > 0 { assert(ble(ev_key(ps[0]), ev_key(ps[1]))); }
        if p != OAuthParameter::None { lemma_blex(slot_name(p), ev_key(ps[0])); lemma_blex(ev_key(ps[0]), slot_name(p)); }
        lemma_merged_sorted(r, p, ev_key(ps[0]));
        lemma_cons(ps[0], merged(r, p), b);
    }
}
/// ... that has the parameters as they were and every slot once.
proof fn lemma_merged_parts(ps: Seq<Ev>, p: OAuthParameter)
    requires params(ps) ensures own(merged(ps, p)) == ps, slots_in(merged(ps, p)) == slots_from(p) decreases ps.len() + 8 - slot_no(p)
{
    if p != OAuthParameter::None && (ps.len() == 0 || blex(slot_name(p), ev_key(ps[0])) == Ordering::Less) {
        lemma_merged_parts(ps, slot_next(p));
        lemma_tail(Ev::Slot(p), merged(ps, slot_next(p)));
    } else if ps.len() > 0 {
        let r = ps.drop_first();
        assert(params(r)) by { assert forall|i: int| 0 <= i < r.len() implies !is_slot(#[trigger] r[i]) by { assert(r[i] == ps[i + 1]); } }
        lemma_merged_parts(r, p);
        lemma_tail(ps[0], merged(r, p));
        assert(!is_slot(ps[0]));
        assert(seq![ps[0]] + r =~= ps);
    } else { assert(ps =~= Seq::<Ev>::empty()); }
}
/// A slot comes before a parameter only if its name is smaller, and after it otherwise.
proof fn lemma_merged_gap(ps: Seq<Ev>, p: OAuthParameter, i: int)
    requires params(ps), 0 <= i < merged(ps, p).len() - 1
    ensures is_slot(merged(ps, p)[i]) && !is_slot(merged(ps, p)[i + 1]) ==> blex(ev_key(merged(ps, p)[i]), ev_key(merged(ps, p)[i + 1])) == Ordering::Less,
        !is_slot(merged(ps, p)[i]) && is_slot(merged(ps, p)[i + 1]) ==> blex(ev_key(merged(ps, p)[i + 1]), ev_key(merged(ps, p)[i])) != Ordering::Less,
    decreases ps.len() + 8 - slot_no(p)
{
    if p != OAuthParameter::None && (ps.len() == 0 || blex(slot_name(p), ev_key(ps[0])) == Ordering::Less) {
        let m = merged(ps, slot_next(p));
        if i > 0 { lemma_merged_gap(ps, slot_next(p), i - 1); assert(merged(ps, p)[i] == m[i - 1] && merged(ps, p)[i + 1] == m[i]); }
        else { assert(merged(ps, p)[1] == m[0]); assert(m[0] == Ev::Slot(slot_next(p)) || m[0] == ps[0]); }
    } else if ps.len() > 0 {
        let r = ps.drop_first();
        assert(params(r)) by { assert forall|i: int| 0 <= i < r.len() implies !is_slot(#[trigger] r[i]) by { assert(r[i] == ps[i + 1]); } }
        let m = merged(r, p);
        if i > 0 { lemma_merged_gap(r, p, i - 1); assert(merged(ps, p)[i] == m[i - 1] && merged(ps, p)[i + 1] == m[i]); }
        else { assert(merged(ps, p)[1] == m[0]); assert(m[0] == Ev::Slot(p) || (r.len() > 0 && m[0] == r[0])); if r.len() > 0 { assert(!is_slot(r[0])); } }
    }
}
/// slots come before parameters only if their names are smaller, and after them only if not
pub open spec fn well_placed(m: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < m.len() - 1 ==> (is_slot(#[trigger] m[i]) && !is_slot(m[i + 1]) ==> blex(ev_key(m[i]), ev_key(m[i + 1])) == Ordering::Less)
        && (!is_slot(m[i]) && is_slot(m[i + 1]) ==> blex(ev_key(m[i + 1]), ev_key(m[i])) != Ordering::Less)
}
/// The calls made for sorted parameters: the parameters as they were, each slot once, in order, each slot in its place.
pub proof fn c01_c09_c10_c16_merge(ps: Seq<Ev>, m: Seq<Ev>)
    requires params(ps), ev_sorted(ps), m == merged(ps, OAuthParameter::Callback)
    ensures ev_sorted(m), own(m) == ps, slots_in(m) == all_slots(), well_placed(m)
{
    hide(merged);
    lemma_merged_sorted(ps, OAuthParameter::Callback, Seq::empty());
    lemma_merged_parts(ps, OAuthParameter::Callback);
    lemma_all_slots();
    assert forall|i: int| 0 <= i < m.len() - 1 implies (is_slot(#[trigger] m[i]) && !is_slot(m[i + 1]) ==> blex(ev_key(m[i]), ev_key(m[i + 1])) == Ordering::Less)
        && (!is_slot(m[i]) && is_slot(m[i + 1]) ==> blex(ev_key(m[i + 1]), ev_key(m[i])) != Ordering::Less) by { lemma_merged_gap(ps, OAuthParameter::Callback, i); }
}
/// What is sent is in the order of the calls.
pub proof fn c01_sent_in_order<SM: SignatureMethod, W: Write>(a: &Authorizer<SM, W>, evs: Seq<Ev>, es: Seq<Ent>)
    requires ents_of(a, evs, es), ev_sorted(evs)
    ensures forall|i: int, j: int| 0 <= i <= j < es.len() ==> ble(#[trigger] es[i].k, #[trigger] es[j].k), forall|i: int| 0 <= i < es.len() ==> evs.len() > 0 && ble(#[trigger] es[i].k, ev_key(evs.last())) decreases evs.len()
{
    if evs.len() > 0 {
        let r = evs.drop_last();
        assert forall|i: int, j: int| 0 <= i <= j < r.len() implies ble(ev_key(#[trigger] r[i]), ev_key(#[trigger] r[j])) by { assert(r[i] == evs[i] && r[j] == evs[j]); }
        let n = evs.len() - 1;
        lemma_blex(ev_key(evs.last()), ev_key(evs.last()));
        if r.len() > 0 { assert(r.last() == evs[n - 1]); assert(ble(ev_key(evs[n - 1]), ev_key(evs[n]))); }
        if ent_of(a, evs.last(), None) && ents_of(a, r, es) {
            c01_sent_in_order(a, r, es);
            assert forall|i: int| 0 <= i < es.len() implies ble(#[trigger] es[i].k, ev_key(evs.last())) by { assert(ble(es[i].k, ev_key(r.last()))); lemma_blex_trans(es[i].k, ev_key(r.last()), ev_key(evs.last())); }
        } else {
            let q = es.drop_last();
            c01_sent_in_order(a, r, q);
            assert(es.last().k == ev_key(evs.last()));
            assert forall|i: int| 0 <= i < es.len() implies ble(#[trigger] es[i].k, ev_key(evs.last())) by { if i < es.len() - 1 { assert(q[i] == es[i]); assert(ble(q[i].k, ev_key(r.last()))); lemma_blex_trans(es[i].k, ev_key(r.last()), ev_key(evs.last())); } }
            assert forall|i: int, j: int| 0 <= i <= j < es.len() implies ble(#[trigger] es[i].k, #[trigger] es[j].k) by { if j < es.len() - 1 { assert(q[i] == es[i] && q[j] == es[j]); } else { assert(ble(es[i].k, ev_key(evs.last()))); } }
        }
    }
}
// ---- the outputs
pub open spec fn sig_ent(sig: B) -> Ent { Ent { k: @"oauth_signature", v: sig, s: SEv::Delim, oauth: true } }
/// the authorization header
pub open spec fn header_text(es: Seq<Ent>, sig: B) -> B { @"OAuth " + header(es) + @"oauth_signature=" + ((@"\"" + sig) + @"\"") }
/// From an authorizer that writes a header: the header of what was signed, and then the signature, after what the buffer held.
pub proof fn c02_c18_header<'a, SM: SignatureMethod, W: Write, R: Request + ?Sized>(sm: SM, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, pre: B, method: B, uri: B, request: &R, out: W)
    -> (r: (Authorizer<'a, SM, W>, Authorizer<'a, SM, W>, Seq<Ent>, <SM::Sign as Sign>::Signature))
    where SM::Sign: Steady
    requires sent(sm, client, token, options, to_header::<W>(pre), method, uri, request, out)
    ensures started(&r.0, sm, method, uri, client, token, options), run(r.0, request.evs(), r.1), ents_of(&r.0, request.evs(), r.2), srun::<SM::Sign>(&r.0.sign, signs(r.2), &r.1.sign), SM::Sign::sfin(&r.1.sign, &r.3),
        out.text() == pre + W::xf(header_text(r.2, r.3.disp())),
{
    let a0 = choose|a: Authorizer<'a, SM, W>| #[trigger] started(&a, sm, method, uri, client, token, options) && to_header::<W>(pre)(a.data) && ran(a, request.evs(), out);
    let a1 = choose|s1: Authorizer<'a, SM, W>| #[trigger] run(a0, request.evs(), s1) && Authorizer::<SM, W>::fin(&s1, out);
    let es = c01_c02_c03_c12_run(a0, request.evs(), a1);
    let sig = choose|sig: <SM::Sign as Sign>::Signature| #[trigger] SM::Sign::sfin(&a1.sign, &sig) && match a1.data {
            Data::Authorization(h) => out.text() == (h.text() + W::xf(@"oauth_signature=")) + W::xf((@"\"" + sig.disp()) + @"\""),
            Data::Urlencode(e) => exists|e2: Urlencoder<W>| #[trigger] Urlencoder::<W>::step(&e, Ev::ParamEnc(@"oauth_signature", sig.disp()), &e2) && Urlencoder::<W>::fin(&e2, out),
        };
    let q = (@"\"" + sig.disp()) + @"\"";
    W::laws(@"OAuth ", header(es)); W::laws(@"OAuth " + header(es), @"oauth_signature="); W::laws(@"OAuth " + header(es) + @"oauth_signature=", q);
    assert(out.text() =~= pre + W::xf(header_text(es, sig.disp())));
    (a0, a1, es, sig)
}
pub proof fn lemma_str_header() ensures forall|d: Data<String>| #![trigger to_str_header()(d)] to_str_header()(d) == to_header::<String>(Seq::empty())(d)
{ lemma_0add(@"OAuth "); }
/// From an authorizer that writes a list: the list of what was signed, and then the signature, after what the buffer or the URI held.
pub proof fn c03_c18_list<'a, SM: SignatureMethod, W: Write, R: Request + ?Sized>(sm: SM, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, w: W, first: Append, method: B, uri: B, request: &R, out: W)
    -> (r: (Authorizer<'a, SM, W>, Authorizer<'a, SM, W>, Seq<Ent>, <SM::Sign as Sign>::Signature))
    where SM::Sign: Steady
    requires first == Append::None && sent(sm, client, token, options, to_body(w), method, uri, request, out) || first == Append::Question && sent(sm, client, token, options, to_uri(w), method, uri, request, out)
    ensures started(&r.0, sm, method, uri, client, token, options), run(r.0, request.evs(), r.1), ents_of(&r.0, request.evs(), r.2), srun::<SM::Sign>(&r.0.sign, signs(r.2), &r.1.sign), SM::Sign::sfin(&r.1.sign, &r.3),
        out.text() == w.text() + W::xf(delim(first) + joined(r.2.push(sig_ent(r.3.disp())))),
{
    let data = if first == Append::None { to_body(w) } else { to_uri(w) };
    let a0 = choose|a: Authorizer<'a, SM, W>| #[trigger] started(&a, sm, method, uri, client, token, options) && data(a.data) && ran(a, request.evs(), out);
    let a1 = choose|s1: Authorizer<'a, SM, W>| #[trigger] run(a0, request.evs(), s1) && Authorizer::<SM, W>::fin(&s1, out);
    let es = c01_c02_c03_c12_run(a0, request.evs(), a1);
    let sig = choose|sig: <SM::Sign as Sign>::Signature| #[trigger] SM::Sign::sfin(&a1.sign, &sig) && match a1.data {
            Data::Authorization(h) => out.text() == (h.text() + W::xf(@"oauth_signature=")) + W::xf((@"\"" + sig.disp()) + @"\""),
            Data::Urlencode(e) => exists|e2: Urlencoder<W>| #[trigger] Urlencoder::<W>::step(&e, Ev::ParamEnc(@"oauth_signature", sig.disp()), &e2) && Urlencoder::<W>::fin(&e2, out),
        };
    let e = a1.data->Urlencode_0;
    let e2 = choose|e2: Urlencoder<W>| #[trigger] Urlencoder::<W>::step(&e, Ev::ParamEnc(@"oauth_signature", sig.disp()), &e2) && Urlencoder::<W>::fin(&e2, out);
    lemma_wrote_push(a0.data, es, a1.data, sig_ent(sig.disp()), Data::Urlencode(e2));
    (a0, a1, es, sig)
}
/// what an unsigned list is made of: the parameters, without the slots
pub open spec fn plain_ents(evs: Seq<Ev>) -> Seq<Ent> decreases evs.len() {
    if evs.len() == 0 { Seq::empty() } else {
        match evs.last() { Ev::Param(k, v) => plain_ents(evs.drop_last()).push(plain_ent(k, enc(v))), Ev::ParamEnc(k, v) => plain_ents(evs.drop_last()).push(plain_ent(k, v)), Ev::Slot(p) => plain_ents(evs.drop_last()) }
    }
}
pub open spec fn plain_ent(k: B, v: B) -> Ent { Ent { k, v, s: SEv::Delim, oauth: false } }
/// Without authorization: the request's own parameters, joined.
pub proof fn c04_c18_unsigned_run<W: Write>(u: Urlencoder<W>, evs: Seq<Ev>, u2: Urlencoder<W>)
    requires run(u, evs, u2) ensures wrote(Data::Urlencode(u), plain_ents(evs), Data::Urlencode(u2)) decreases evs.len()
{
    if evs.len() == 0 { W::laws(Seq::empty(), Seq::empty()); lemma_add0(u.data.text()); }
    else {
        let m = choose|m: Urlencoder<W>| run(u, evs.drop_last(), m) && #[trigger] Urlencoder::<W>::step(&m, evs.last(), &u2);
        c04_c18_unsigned_run(u, evs.drop_last(), m);
        match evs.last() {
            Ev::Param(k, v) => lemma_wrote_push(Data::Urlencode(u), plain_ents(evs.drop_last()), Data::Urlencode(m), plain_ent(k, enc(v)), Data::Urlencode(u2)),
            Ev::ParamEnc(k, v) => lemma_wrote_push(Data::Urlencode(u), plain_ents(evs.drop_last()), Data::Urlencode(m), plain_ent(k, v), Data::Urlencode(u2)),
            Ev::Slot(p) => {}
        }
    }
}
pub proof fn c04_c18_unsigned<W: Write>(u: Urlencoder<W>, evs: Seq<Ev>, out: W)
    requires ran(u, evs, out) ensures out.text() == u.data.text() + W::xf(list(u.next_append, plain_ents(own(evs))))
{
    let u2 = choose|s1: Urlencoder<W>| #[trigger] run(u, evs, s1) && Urlencoder::<W>::fin(&s1, out);
    c04_c18_unsigned_run(u, evs, u2);
    lemma_plain_own(evs);
}
proof fn lemma_plain_add(a: Seq<Ev>, b: Seq<Ev>) ensures plain_ents(a + b) == plain_ents(a) + plain_ents(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(plain_ents(a) + plain_ents(b) =~= plain_ents(a)); }
    else {
        lemma_plain_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        let p = plain_ents(a);
        let q = plain_ents(b.drop_last());
        match b.last() { Ev::Param(k, v) => { assert((p + q).push(plain_ent(k, enc(v))) =~= p + q.push(plain_ent(k, enc(v)))); } Ev::ParamEnc(k, v) => { assert((p + q).push(plain_ent(k, v)) =~= p + q.push(plain_ent(k, v))); } _ => {} }
    }
}
proof fn lemma_plain_own(evs: Seq<Ev>) ensures plain_ents(own(evs)) == plain_ents(evs) decreases evs.len()
{
    if evs.len() > 0 {
        let r = evs.drop_first();
        lemma_plain_own(r);
        assert(seq![evs[0]] + r =~= evs);
        lemma_plain_add(seq![evs[0]], r);
        lemma_plain_add(seq![evs[0]], own(r));
        if is_slot(evs[0]) { assert(seq![evs[0]].drop_last() =~= Seq::<Ev>::empty()); reveal_with_fuel(plain_ents, 2); assert(plain_ents(seq![evs[0]]) =~= Seq::<Ent>::empty()); assert(Seq::<Ent>::empty() + plain_ents(r) =~= plain_ents(r)); }
    }
}
/// the unsigned list of sorted pairs holds exactly the pairs, in order
pub proof fn c04_merged(u: Urlencoder<String>, ps: Seq<Ev>, out: String)
    requires ran(u, merged(ps, OAuthParameter::Callback), out), params(ps) ensures out.text() == u.data.text() + list(u.next_append, plain_ents(ps))
{ c04_c18_unsigned(u, merged(ps, OAuthParameter::Callback), out); lemma_merged_parts(ps, OAuthParameter::Callback); }
// ---- decoding
pub open spec fn unhex(b: u8) -> int { if b < 58 { b - 48 } else { b - 55 } }
pub open spec fn undo(s: B) -> B decreases s.len() {
    if s.len() == 0 { s } else if s[0] == 37 && s.len() >= 3 { seq![(unhex(s[1]) * 16 + unhex(s[2])) as u8] + undo(s.skip(3)) } else { seq![s[0]] + undo(s.drop_first()) }
}
/// Percent-decoding gives back what was encoded.
pub proof fn c03_c04_c05_decodes(s: B) ensures undo(enc(s)) == s decreases s.len()
{
    if s.len() > 0 {
        let (c, r) = (s[0], s.drop_first());
        assert(seq![c] + r =~= s);
        lemma_enc_add(seq![c], r); lemma_enc_one(c);
        c03_c04_c05_decodes(r);
        let t = enc1(c) + enc(r);
        if unreserved(c) { assert(t.drop_first() =~= enc(r)); }
        else {
            assert(enc1(c) =~= pct(c));
            assert(t.skip(3) =~= enc(r));
            let (h, l) = (c / 16, c % 16);
            assert(t[0] == 37 && t[1] == hexd(h) && t[2] == hexd(l));
            assert(h < 16 && l < 16 && h * 16 + l == c);
            assert(unhex(hexd(h)) == h && unhex(hexd(l)) == l);
            assert(undo(t) == seq![c] + undo(t.skip(3)));
        }
    }
}
/// Encoded text consists of unreserved characters and `%`: no separator, no quote.
pub open spec fn clean(s: B) -> bool { forall|i: int| 0 <= i < s.len() ==> unreserved(#[trigger] s[i]) || s[i] == 37 }
pub proof fn c02_c03_c04_c05_clean(s: B) ensures clean(enc(s)) decreases s.len()
{
    if s.len() > 0 {
        c02_c03_c04_c05_clean(s.drop_last());
        let (a, b) = (enc(s.drop_last()), enc1(s.last()));
        assert forall|i: int| 0 <= i < (a + b).len() implies unreserved(#[trigger] (a + b)[i]) || (a + b)[i] == 37 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
    }
}
/// the pieces of a text between the bytes `c`
pub open spec fn split(s: B, c: u8) -> Seq<B> decreases s.len() { if s.contains(c) && s.len() > 0 { let i = s.index_of_first(c)->Some_0; if 0 <= i < s.len() { seq![s.take(i)] + split(s.skip(i + 1), c) } else { seq![s] } } else { seq![s] } }
proof fn lemma_first(a: B, b: B, c: u8)
    requires !a.contains(c) ensures (a + seq![c] + b).index_of_first(c) == Some(a.len() as int), (a + seq![c] + b).take(a.len() as int) == a, (a + seq![c] + b).skip(a.len() as int + 1) == b, (a + seq![c] + b).contains(c)
{
    let t = a + seq![c] + b;
    assert(t[a.len() as int] == c);
    assert(t.take(a.len() as int) =~= a);
    assert(t.skip(a.len() as int + 1) =~= b);
    t.index_of_first_ensures(c);
    let i = t.index_of_first(c)->Some_0;
    if i < a.len() { assert(a[i] == t[i]); assert(a.contains(c)); }
}
pub open spec fn sep_free(es: Seq<Ent>) -> bool { forall|i: int| 0 <= i < es.len() ==> !pair(#[trigger] es[i]).contains(38) }
proof fn lemma_joined_front(es: Seq<Ent>) requires es.len() > 1 ensures joined(es) == pair(es[0]) + seq![38u8] + joined(es.drop_first()) decreases es.len()
{
    reveal(@!"&"); assert(@"&" =~= seq![38u8]);
    if es.len() == 2 { assert(es.drop_last()[0] == es[0]); assert(es.drop_first()[0] == es[1]); reveal_with_fuel(joined, 3); }
    else {
        lemma_joined_front(es.drop_last());
        assert(es.drop_last().drop_first() =~= es.drop_first().drop_last());
        assert(es.drop_first().last() == es.last());
        assert(joined(es) =~= pair(es[0]) + seq![38u8] + (joined(es.drop_first().drop_last()) + seq![38u8] + pair(es.last())));
    }
}
/// Splitting a list at `&` gives its pairs back.
pub proof fn c03_c04_splits(es: Seq<Ent>)
    requires es.len() > 0, sep_free(es) ensures split(joined(es), 38) == es.map_values(|e: Ent| pair(e)) decreases es.len()
{
    if es.len() == 1 { assert(!pair(es[0]).contains(38)); assert(split(joined(es), 38) =~= es.map_values(|e: Ent| pair(e))); }
    else {
        lemma_joined_front(es);
        let r = es.drop_first();
        assert(!pair(es[0]).contains(38));
        assert(sep_free(r)) by { assert forall|i: int| 0 <= i < r.len() implies !pair(#[trigger] r[i]).contains(38) by { assert(r[i] == es[i + 1]); } }
        c03_c04_splits(r);
        lemma_first(pair(es[0]), joined(r), 38);
        assert(seq![pair(es[0])] + r.map_values(|e: Ent| pair(e)) =~= es.map_values(|e: Ent| pair(e)));
    }
}
/// A pair has no `&`, and its first `=` separates its name from its value.
pub proof fn c03_c04_pair(e: Ent)
    requires plain(e.k), clean(e.v) ensures !pair(e).contains(38), split(pair(e), 61)[0] == e.k, pair(e).skip(e.k.len() as int + 1) == e.v
{
    reveal(@!"="); assert(@"=" =~= seq![61u8]);
    assert forall|i: int| 0 <= i < pair(e).len() implies pair(e)[i] != 38 by { if i < e.k.len() { assert(pair(e)[i] == e.k[i]); } else if i > e.k.len() { assert(pair(e)[i] == e.v[i - e.k.len() - 1]); } }
    assert(!e.k.contains(61)) by { assert forall|i: int| 0 <= i < e.k.len() implies e.k[i] != 61 by { assert(unreserved(e.k[i])); } }
    lemma_first(e.k, e.v, 61);
}
// ---- lists
/// A sorted list serializes in the required order.
pub proof fn c01_c10_list_order<K: crate::sx::convert::AsRef<str>, V: crate::sx::fmt::Display, P: crate::sx::borrow::Borrow<(K, V)>>(l: Seq<P>)
    requires psorted::<K, V, P>(l) ensures params(list_evs::<K, V, P>(l)), ev_sorted(list_evs::<K, V, P>(l))
{
    let t = list_evs::<K, V, P>(l);
    assert forall|i: int, j: int| 0 <= i <= j < t.len() implies ble(ev_key(#[trigger] t[i]), ev_key(#[trigger] t[j])) by { assert(ple::<K, V, P>(l[i], l[j])); }
}
pub proof fn c09_pairs_are_parameters<K: crate::sx::convert::AsRef<str>, V: crate::sx::fmt::Display>(ps: Seq<(K, V)>) ensures params(pairs_of(ps)), pairs_of(ps).len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] pairs_of(ps)[i] == Ev::Param(ps[i].0.asr().spec_bytes(), ps[i].1.disp()) {}
// ---- signatures
pub open spec fn base64_of(s: B) -> B { enc(crate::sx::base64::b64(s, false, true)) }
pub proof fn c06_hmac_sha1<'a, W: Write>(a0: Authorizer<'a, HmacSha1, W>, sm: HmacSha1, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, evs: Seq<Ev>, a1: Authorizer<'a, HmacSha1, W>, sig: <crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign as Sign>::Signature) -> (es: Seq<Ent>)
    requires started(&a0, sm, method, uri, client, token, options), run(a0, evs, a1), safe(evs), <crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign as Sign>::sfin(&a1.sign, &sig)
    ensures ents_of(&a0, evs, es), wrote(a0.data, es, a1.data), sig.disp() == base64_of(crate::sx::hmac::hmac_sha1(sigkey(client.secret.spec_bytes(), secret_of(token)), base_string(method, uri, es)))
{
    let (s0, es) = c01_base_string(a0, sm, method, uri, client, token, options, evs, a1);
    let es2 = c01_c02_c03_c12_run(a0, evs, a1);
    lemma_hmac_key(&a0.sign, signs(es2), &a1.sign);
    lemma_0add(base_string(method, uri, es));
    let (cs, ts) = (client.secret.spec_bytes(), secret_of(token));
    let (t0, t1) = choose|s0: crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign, s1: crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign| #![trigger sm.init(cs, ts, &s0), Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && Sign::sstep(&s0, SEv::Method(method), &s1) && Sign::sstep(&s1, SEv::Uri(enc(uri)), &a0.sign);
    es
}
proof fn lemma_hmac_key(pre: &crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign, es: Seq<SEv>, post: &crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign)
    requires srun(pre, es, post) ensures post.inner.0.key() == pre.inner.0.key() decreases es.len()
{
    if es.len() > 0 { let m = choose|m: crate::oauth1_request::signature_method::hmac_sha1::HmacSha1Sign| srun(pre, es.drop_last(), &m) && #[trigger] Sign::sstep(&m, es.last(), post); lemma_hmac_key(pre, es.drop_last(), &m); }
}
proof fn lemma_rsa_06_owned<'a>(pre: &crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign, es: Seq<SEv>, post: &crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign)
    requires srun(pre, es, post) ensures post.key == pre.key decreases es.len()
{
    if es.len() > 0 { let m = choose|m: crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign| srun(pre, es.drop_last(), &m) && #[trigger] Sign::sstep(&m, es.last(), post); lemma_rsa_06_owned(pre, es.drop_last(), &m); }
}
pub proof fn c07_rsa_sha1_06_owned<'a, W: Write>(a0: Authorizer<'a, crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1, W>, sm: crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, evs: Seq<Ev>, a1: Authorizer<'a, crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1, W>, sig: <crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign as Sign>::Signature) -> (es: Seq<Ent>)
    requires started(&a0, sm, method, uri, client, token, options), run(a0, evs, a1), safe(evs), <crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign as Sign>::sfin(&a1.sign, &sig)
    ensures ents_of(&a0, evs, es), wrote(a0.data, es, a1.data), sig.disp() == base64_of(crate::sx::rsa_common::rsa_sha1(sm.key, crate::sx::sha1::sha1(base_string(method, uri, es))))
{
    let (s0, es) = c01_base_string(a0, sm, method, uri, client, token, options, evs, a1);
    let es2 = c01_c02_c03_c12_run(a0, evs, a1);
    lemma_rsa_06_owned(&a0.sign, signs(es2), &a1.sign);
    lemma_0add(base_string(method, uri, es));
    let (cs, ts) = (client.secret.spec_bytes(), secret_of(token));
    let (t0, t1) = choose|s0: crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign, s1: crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign| #![trigger sm.init(cs, ts, &s0), Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && Sign::sstep(&s0, SEv::Method(method), &s1) && Sign::sstep(&s1, SEv::Uri(enc(uri)), &a0.sign);
    es
}
proof fn lemma_rsa_06_ref<'a>(pre: &crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>, es: Seq<SEv>, post: &crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>)
    requires srun(pre, es, post) ensures post.key == pre.key decreases es.len()
{
    if es.len() > 0 { let m = choose|m: crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>| srun(pre, es.drop_last(), &m) && #[trigger] Sign::sstep(&m, es.last(), post); lemma_rsa_06_ref(pre, es.drop_last(), &m); }
}
pub proof fn c07_rsa_sha1_06_ref<'a, W: Write>(a0: Authorizer<'a, &'a crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1, W>, sm: &'a crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, evs: Seq<Ev>, a1: Authorizer<'a, &'a crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1, W>, sig: <crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> as Sign>::Signature) -> (es: Seq<Ent>)
    requires started(&a0, sm, method, uri, client, token, options), run(a0, evs, a1), safe(evs), <crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> as Sign>::sfin(&a1.sign, &sig)
    ensures ents_of(&a0, evs, es), wrote(a0.data, es, a1.data), sig.disp() == base64_of(crate::sx::rsa_common::rsa_sha1(sm.key, crate::sx::sha1::sha1(base_string(method, uri, es))))
{
    let (s0, es) = c01_base_string(a0, sm, method, uri, client, token, options, evs, a1);
    let es2 = c01_c02_c03_c12_run(a0, evs, a1);
    lemma_rsa_06_ref(&a0.sign, signs(es2), &a1.sign);
    lemma_0add(base_string(method, uri, es));
    let (cs, ts) = (client.secret.spec_bytes(), secret_of(token));
    let (t0, t1) = choose|s0: crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>, s1: crate::oauth1_request::signature_method::rsa_sha1_06::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>| #![trigger sm.init(cs, ts, &s0), Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && Sign::sstep(&s0, SEv::Method(method), &s1) && Sign::sstep(&s1, SEv::Uri(enc(uri)), &a0.sign);
    es
}
proof fn lemma_rsa_09_owned<'a>(pre: &crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign, es: Seq<SEv>, post: &crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign)
    requires srun(pre, es, post) ensures post.key == pre.key decreases es.len()
{
    if es.len() > 0 { let m = choose|m: crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign| srun(pre, es.drop_last(), &m) && #[trigger] Sign::sstep(&m, es.last(), post); lemma_rsa_09_owned(pre, es.drop_last(), &m); }
}
pub proof fn c07_rsa_sha1_09_owned<'a, W: Write>(a0: Authorizer<'a, crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1, W>, sm: crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, evs: Seq<Ev>, a1: Authorizer<'a, crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1, W>, sig: <crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign as Sign>::Signature) -> (es: Seq<Ent>)
    requires started(&a0, sm, method, uri, client, token, options), run(a0, evs, a1), safe(evs), <crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign as Sign>::sfin(&a1.sign, &sig)
    ensures ents_of(&a0, evs, es), wrote(a0.data, es, a1.data), sig.disp() == base64_of(crate::sx::rsa_common::rsa_sha1(sm.key, crate::sx::sha1::sha1(base_string(method, uri, es))))
{
    let (s0, es) = c01_base_string(a0, sm, method, uri, client, token, options, evs, a1);
    let es2 = c01_c02_c03_c12_run(a0, evs, a1);
    lemma_rsa_09_owned(&a0.sign, signs(es2), &a1.sign);
    lemma_0add(base_string(method, uri, es));
    let (cs, ts) = (client.secret.spec_bytes(), secret_of(token));
    let (t0, t1) = choose|s0: crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign, s1: crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign| #![trigger sm.init(cs, ts, &s0), Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && Sign::sstep(&s0, SEv::Method(method), &s1) && Sign::sstep(&s1, SEv::Uri(enc(uri)), &a0.sign);
    es
}
proof fn lemma_rsa_09_ref<'a>(pre: &crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>, es: Seq<SEv>, post: &crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>)
    requires srun(pre, es, post) ensures post.key == pre.key decreases es.len()
{
    if es.len() > 0 { let m = choose|m: crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>| srun(pre, es.drop_last(), &m) && #[trigger] Sign::sstep(&m, es.last(), post); lemma_rsa_09_ref(pre, es.drop_last(), &m); }
}
pub proof fn c07_rsa_sha1_09_ref<'a, W: Write>(a0: Authorizer<'a, &'a crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1, W>, sm: &'a crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, evs: Seq<Ev>, a1: Authorizer<'a, &'a crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1, W>, sig: <crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> as Sign>::Signature) -> (es: Seq<Ent>)
    requires started(&a0, sm, method, uri, client, token, options), run(a0, evs, a1), safe(evs), <crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey> as Sign>::sfin(&a1.sign, &sig)
    ensures ents_of(&a0, evs, es), wrote(a0.data, es, a1.data), sig.disp() == base64_of(crate::sx::rsa_common::rsa_sha1(sm.key, crate::sx::sha1::sha1(base_string(method, uri, es))))
{
    let (s0, es) = c01_base_string(a0, sm, method, uri, client, token, options, evs, a1);
    let es2 = c01_c02_c03_c12_run(a0, evs, a1);
    lemma_rsa_09_ref(&a0.sign, signs(es2), &a1.sign);
    lemma_0add(base_string(method, uri, es));
    let (cs, ts) = (client.secret.spec_bytes(), secret_of(token));
    let (t0, t1) = choose|s0: crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>, s1: crate::oauth1_request::signature_method::rsa_sha1_09::RsaSha1Sign<&'a crate::sx::rsa_common::RsaPrivateKey>| #![trigger sm.init(cs, ts, &s0), Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && Sign::sstep(&s0, SEv::Method(method), &s1) && Sign::sstep(&s1, SEv::Uri(enc(uri)), &a0.sign);
    es
}
proof fn lemma_plaintext<W: crate::sx::fmt::Display + Write>(pre: &crate::oauth1_request::signature_method::plaintext::PlaintextSign<W>, es: Seq<SEv>, post: &crate::oauth1_request::signature_method::plaintext::PlaintextSign<W>)
    requires srun(pre, es, post) ensures *post == *pre decreases es.len()
{
    if es.len() > 0 { let m = choose|m: crate::oauth1_request::signature_method::plaintext::PlaintextSign<W>| srun(pre, es.drop_last(), &m) && #[trigger] Sign::sstep(&m, es.last(), post); lemma_plaintext(pre, es.drop_last(), &m); }
}
/// The PLAINTEXT signature: the encoded secrets joined by `&`, encoded once more, in a fresh buffer; the request plays no part.
pub proof fn c07_c18_plaintext<'a, X: crate::sx::fmt::Display + Write + crate::sx::default::Default, W: Write>(a0: Authorizer<'a, Plaintext<X>, W>, sm: Plaintext<X>, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>, evs: Seq<Ev>, a1: Authorizer<'a, Plaintext<X>, W>, sig: X)
    requires started(&a0, sm, method, uri, client, token, options), run(a0, evs, a1), <crate::oauth1_request::signature_method::plaintext::PlaintextSign<X> as Sign>::sfin(&a1.sign, &sig)
    ensures exists|w: X| #[trigger] X::is_dfl(&w) && sig.text() == w.text() + X::xf(enc(sigkey(client.secret.spec_bytes(), secret_of(token))))
{
    let es = c01_c02_c03_c12_run(a0, evs, a1);
    lemma_plaintext(&a0.sign, signs(es), &a1.sign);
    let (cs, ts) = (client.secret.spec_bytes(), secret_of(token));
    let (t0, t1) = choose|s0: crate::oauth1_request::signature_method::plaintext::PlaintextSign<X>, s1: crate::oauth1_request::signature_method::plaintext::PlaintextSign<X>| #![trigger sm.init(cs, ts, &s0), Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && Sign::sstep(&s0, SEv::Method(method), &s1) && Sign::sstep(&s1, SEv::Uri(enc(uri)), &a0.sign);
    assert(t0 == a0.sign);
}
// ---- pinned nonce and timestamp
/// With a pinned nonce and timestamp, what is sent is determined.
pub proof fn c11_determined<SM: SignatureMethod, W: Write, X: Write>(a: &Authorizer<SM, W>, b: &Authorizer<SM, X>, evs: Seq<Ev>, es: Seq<Ent>, fs: Seq<Ent>)
    requires ents_of(a, evs, es), ents_of(b, evs, fs), a.consumer_key == b.consumer_key, a.token == b.token, *a.options == *b.options, a.options.nonce.is_some(), a.options.timestamp.is_some(),
        a.sign.s_name() == b.sign.s_name(), a.sign.s_nonce() == b.sign.s_nonce(), a.sign.s_ts() == b.sign.s_ts()
    ensures es == fs decreases evs.len()
{
    if evs.len() == 0 { assert(es =~= fs); }
    else {
        assert(forall|t: Option<Ent>, u: Option<Ent>| ent_of(a, evs.last(), t) && ent_of(b, evs.last(), u) ==> t == u) by {
            assert forall|t: Option<Ent>, u: Option<Ent>| ent_of(a, evs.last(), t) && ent_of(b, evs.last(), u) implies t == u by { match evs.last() { Ev::Slot(OAuthParameter::Nonce) => {} Ev::Slot(OAuthParameter::Timestamp) => {} _ => {} } }
        }
        if ent_of(a, evs.last(), None) && ents_of(a, evs.drop_last(), es) {
            if !(ent_of(b, evs.last(), None) && ents_of(b, evs.drop_last(), fs)) { assert(ent_of(b, evs.last(), Some(fs.last()))); assert(false); }
            c11_determined(a, b, evs.drop_last(), es, fs);
        } else {
            assert(ent_of(a, evs.last(), Some(es.last())));
            assert(!ent_of(b, evs.last(), None));
            c11_determined(a, b, evs.drop_last(), es.drop_last(), fs.drop_last());
            assert(es =~= es.drop_last().push(es.last())); assert(fs =~= fs.drop_last().push(fs.last()));
        }
    }
}
// ---- nonces
/// the number that bytes stand for
pub open spec fn number(raw: B) -> nat decreases raw.len() { if raw.len() == 0 { 0 } else { number(raw.drop_last()) * 256 + raw.last() as nat } }
proof fn lemma_number0(raw: B) requires raw.len() > 0, raw[0] == 0 ensures number(raw) == number(raw.drop_first()) decreases raw.len()
{
    if raw.len() == 1 { assert(raw.drop_last() =~= Seq::<u8>::empty()); assert(raw.drop_first() =~= Seq::<u8>::empty()); reveal_with_fuel(number, 2); }
    else { lemma_number0(raw.drop_last()); assert(raw.drop_last().drop_first() =~= raw.drop_first().drop_last()); assert(raw.drop_first().last() == raw.last()); }
}
proof fn lemma_sig_number(raw: B) ensures number(sig_bytes(raw)) == number(raw), sig_bytes(raw).len() <= raw.len() decreases raw.len()
{ if raw.len() > 0 && raw[0] == 0 { lemma_number0(raw); lemma_sig_number(raw.drop_first()); } }
proof fn lemma_b64c(m: int, n: int) requires 0 <= m < 64, 0 <= n < 64, crate::sx::base64::b64c(m, true) == crate::sx::base64::b64c(n, true) ensures m == n {}
proof fn lemma_b64_inj(a: B, b: B) requires crate::sx::base64::b64(a, true, false) == crate::sx::base64::b64(b, true, false) ensures a == b decreases a.len()
{
    broadcast use crate::sx::base64::lemma_b64;
    let (x, y) = (crate::sx::base64::b64(a, true, false), crate::sx::base64::b64(b, true, false));
    assert(a.len() == b.len());
    if a.len() == 0 { assert(a =~= b); }
    else {
        assert(x[0] == y[0] && x[1] == y[1]);
        assert(x[0] == crate::sx::base64::b64c(a[0] as int / 4, true)); assert(y[0] == crate::sx::base64::b64c(b[0] as int / 4, true));
        lemma_b64c(a[0] as int / 4, b[0] as int / 4);
        if a.len() == 1 { lemma_b64c((a[0] as int % 4) * 16, (b[0] as int % 4) * 16); assert(a =~= b); }
        else {
            assert(x[2] == y[2]);
            lemma_b64c((a[0] as int % 4) * 16 + a[1] as int / 16, (b[0] as int % 4) * 16 + b[1] as int / 16);
            if a.len() == 2 { lemma_b64c((a[1] as int % 16) * 4, (b[1] as int % 16) * 4); assert(a =~= b); }
            else {
                assert(x[3] == y[3]);
                lemma_b64c((a[1] as int % 16) * 4 + a[2] as int / 64, (b[1] as int % 16) * 4 + b[2] as int / 64);
                lemma_b64c(a[2] as int % 64, b[2] as int % 64);
                assert(crate::sx::base64::b64(a.skip(3), true, false) =~= x.skip(4));
                assert(crate::sx::base64::b64(b.skip(3), true, false) =~= y.skip(4));
                lemma_b64_inj(a.skip(3), b.skip(3));
                assert(a =~= a.take(3) + a.skip(3)); assert(b =~= b.take(3) + b.skip(3)); assert(a.take(3) =~= b.take(3));
            }
        }
    }
}
/// A generated nonce has at most 12 characters of the URL-safe alphabet, which need no encoding; bytes that differ as numbers give different nonces.
pub proof fn c12_nonces(raw: B, raw2: B)
    requires raw.len() == 9, raw2.len() == 9
    ensures nonce_of(raw).len() <= 12, plain(nonce_of(raw)), enc(nonce_of(raw)) == nonce_of(raw), number(raw) != number(raw2) ==> nonce_of(raw) != nonce_of(raw2)
{
    broadcast use crate::sx::base64::lemma_b64;
    lemma_sig_number(raw); lemma_sig_number(raw2);
    lemma_b64_plain(sig_bytes(raw)); lemma_enc_plain(nonce_of(raw));
    if nonce_of(raw) == nonce_of(raw2) { lemma_b64_inj(sig_bytes(raw), sig_bytes(raw2)); }
}
// ---- credentials
/// The debug texts are the same whatever the secrets are.
pub proof fn c14_no_secret<T: crate::sx::fmt::Debug, U: crate::sx::fmt::Debug>(a: crate::oauth_credentials::Token<T, U>, b: crate::oauth_credentials::Token<T, U>, o: crate::sx::fmt::Opts)
    requires a.client.identifier == b.client.identifier, a.token.identifier == b.token.identifier ensures crate::sx::fmt::Debug::dbg(&a, o) == crate::sx::fmt::Debug::dbg(&b, o), crate::sx::fmt::Debug::dbg(&a.client, o) == crate::sx::fmt::Debug::dbg(&b.client, o) {}
pub proof fn c14_no_secret_builder<'a, SM: crate::sx::fmt::Debug, C: crate::sx::fmt::Debug, T: crate::sx::fmt::Debug>(a: Builder<'a, SM, C, T>, b: Builder<'a, SM, C, T>, o: crate::sx::fmt::Opts)
    requires a.signature_method == b.signature_method, a.client.identifier == b.client.identifier, a.options == b.options, a.token.is_some() == b.token.is_some(), a.token.is_some() ==> a.token.unwrap().identifier == b.token.unwrap().identifier
    ensures crate::sx::fmt::Debug::dbg(&a, o) == crate::sx::fmt::Debug::dbg(&b, o) {}
/// Field names are accepted as text and as bytes.
pub exec fn c15_text_names<E>(v: &str) -> (r: bool) ensures r { use crate::sx::serde::de::Visitor; crate::oauth_credentials::serde_imp::Visitor__Field_deserialize.visit_str::<E>(v).is_ok() }
pub exec fn c15_byte_names<E>(v: &[u8]) -> (r: bool) ensures r { use crate::sx::serde::de::Visitor; crate::oauth_credentials::serde_imp::Visitor__Field_deserialize.visit_bytes::<E>(v).is_ok() }
/// A map with one entry for each field, wherever it is and whatever else there is, is read as those entries say.
pub proof fn c15_any_order<T: crate::sx::serde::DeRel>(es: Seq<(crate::sx::serde::Tok, crate::sx::serde::Tok)>, i: int, j: int, v: crate::oauth_credentials::Credentials<T>)
    requires 0 <= i < es.len(), 0 <= j < es.len(), crate::sx::serde::ident(es[i].0) == @"oauth_token", crate::sx::serde::ident(es[j].0) == @"oauth_token_secret",
        forall|k: int| 0 <= k < es.len() && k != i && k != j ==> crate::sx::serde::ident(#[trigger] es[k].0) != @"oauth_token" && crate::sx::serde::ident(es[k].0) != @"oauth_token_secret"
    ensures crate::cr::cred_rel(es, v) == (T::de_rel(es[i].1, v.identifier) && T::de_rel(es[j].1, v.secret))
{
    crate::lits::lens();
    lemma_only(es, es.len() as int, i, @"oauth_token"); lemma_only(es, es.len() as int, j, @"oauth_token_secret");
}
proof fn lemma_only(es: Seq<(crate::sx::serde::Tok, crate::sx::serde::Tok)>, n: int, i: int, k: B)
    requires 0 <= n <= es.len(), 0 <= i < es.len(), forall|j: int| 0 <= j < es.len() ==> (crate::sx::serde::ident(#[trigger] es[j].0) == k <==> j == i)
    ensures crate::cr::cnt(es, n, k) == (if i < n { 1int } else { 0 }), i < n ==> crate::cr::at(es, n, k) == i decreases n
{ if n > 0 { lemma_only(es, n - 1, i, k); assert((crate::sx::serde::ident(es[n - 1].0) == k) <==> n - 1 == i); } }
}
