//## The sequence of calls a request makes on a serializer.
@raw events
pub mod ev {
use vstd::prelude::*;
use vstd::string::*;
use crate::B;
use crate::sp::*;
use crate::slots::*;
use core::cmp::Ordering;
use crate::oauth1_request::util::oauth_parameter::OAuthParameter;
use crate::oauth1_request::serializer::Serializer;
use crate::sx::convert::AsRef;
use crate::sx::fmt::Display;
/// one call: a parameter with the displayed text of its value (plain or already encoded), or a protocol slot
pub enum Ev { Param(B, B), ParamEnc(B, B), Slot(OAuthParameter) }
pub open spec fn ev_key(e: Ev) -> B { match e { Ev::Param(k, v) => k, Ev::ParamEnc(k, v) => k, Ev::Slot(p) => slot_name(p) } }
/// `post` is a state the serializer can be in after the calls `evs` made from `pre`
pub open spec fn run<S: Serializer>(pre: S, evs: Seq<Ev>, post: S) -> bool decreases evs.len() {
    if evs.len() == 0 { post == pre } else { exists|m: S| run(pre, evs.drop_last(), m) && #[trigger] S::step(&m, evs.last(), &post) }
}
pub proof fn lemma_run_push<S: Serializer>(pre: S, evs: Seq<Ev>, m: S, e: Ev, post: S)
    requires run(pre, evs, m), S::step(&m, e, &post)
    ensures run(pre, evs.push(e), post)
{ assert(evs.push(e).drop_last() =~= evs); assert(evs.push(e).last() == e); assert(run(pre, evs.push(e).drop_last(), m)); }
/// the parameters `ps` merged with the slots from `p` on: a slot comes first if its name is smaller
pub open spec fn merged(ps: Seq<Ev>, p: OAuthParameter) -> Seq<Ev> decreases ps.len() + 8 - slot_no(p) {
    if p == OAuthParameter::None {
        if ps.len() == 0 { Seq::empty() } else { seq![ps[0]] + merged(ps.drop_first(), p) }
    } else if ps.len() == 0 || blex(slot_name(p), ev_key(ps[0])) == Ordering::Less { seq![Ev::Slot(p)] + merged(ps, slot_next(p)) }
    else { seq![ps[0]] + merged(ps.drop_first(), p) }
}
/// of the calls `total`, all but `rest` have been made, taking the serializer from `s0` to `s`
pub open spec fn part<S: Serializer>(s0: S, total: Seq<Ev>, rest: Seq<Ev>, s: S) -> bool {
    exists|done: Seq<Ev>| #[trigger] run(s0, done, s) && done + rest == total
}
pub broadcast proof fn lemma_part_step<S: Serializer>(s0: S, total: Seq<Ev>, e: Ev, rest: Seq<Ev>, s: S, t: S)
    requires #[trigger] part(s0, total, seq![e] + rest, s), #[trigger] S::step(&s, e, &t)
    ensures part(s0, total, rest, t)
{
    let done = choose|done: Seq<Ev>| #[trigger] run(s0, done, s) && done + (seq![e] + rest) == total;
    lemma_run_push(s0, done, s, e, t);
    assert(done.push(e) + rest =~= done + (seq![e] + rest));
}
pub broadcast proof fn lemma_part_init<S: Serializer>(s: S, total: Seq<Ev>) ensures #[trigger] part(s, total, total, s)
{ assert(run(s, Seq::<Ev>::empty(), s)); assert(Seq::<Ev>::empty() + total =~= total); }
pub broadcast proof fn lemma_part_done<S: Serializer>(s0: S, total: Seq<Ev>, s: S)
    requires #[trigger] part(s0, total, Seq::<Ev>::empty(), s) ensures run(s0, total, s)
{
    let done = choose|done: Seq<Ev>| #[trigger] run(s0, done, s) && done + Seq::<Ev>::empty() == total;
    assert(done + Seq::<Ev>::empty() =~= done);
}
/// serializing the calls `evs` from `pre` ends with the output `out`
pub open spec fn ran<S: Serializer>(pre: S, evs: Seq<Ev>, out: S::Output) -> bool { exists|s1: S| #[trigger] run(pre, evs, s1) && S::fin(&s1, out) }
pub proof fn lemma_bare()
    ensures merged(Seq::empty(), OAuthParameter::None) == Seq::<Ev>::empty(),
        forall|p: OAuthParameter| p != OAuthParameter::None ==> #[trigger] merged(Seq::empty(), p) == seq![Ev::Slot(p)] + merged(Seq::empty(), slot_next(p)),
{}
pub proof fn lemma_bare8() ensures bare() == merged(Seq::empty(), OAuthParameter::Callback), merged(Seq::empty(), OAuthParameter::Callback) == seq![Ev::Slot(OAuthParameter::Callback)] + merged(Seq::empty(), OAuthParameter::ConsumerKey), merged(Seq::empty(), OAuthParameter::ConsumerKey) == seq![Ev::Slot(OAuthParameter::ConsumerKey)] + merged(Seq::empty(), OAuthParameter::Nonce), merged(Seq::empty(), OAuthParameter::Nonce) == seq![Ev::Slot(OAuthParameter::Nonce)] + merged(Seq::empty(), OAuthParameter::SignatureMethod), merged(Seq::empty(), OAuthParameter::SignatureMethod) == seq![Ev::Slot(OAuthParameter::SignatureMethod)] + merged(Seq::empty(), OAuthParameter::Timestamp), merged(Seq::empty(), OAuthParameter::Timestamp) == seq![Ev::Slot(OAuthParameter::Timestamp)] + merged(Seq::empty(), OAuthParameter::Token), merged(Seq::empty(), OAuthParameter::Token) == seq![Ev::Slot(OAuthParameter::Token)] + merged(Seq::empty(), OAuthParameter::Verifier), merged(Seq::empty(), OAuthParameter::Verifier) == seq![Ev::Slot(OAuthParameter::Verifier)] + merged(Seq::empty(), OAuthParameter::Version), merged(Seq::empty(), OAuthParameter::Version) == seq![Ev::Slot(OAuthParameter::Version)] + merged(Seq::empty(), OAuthParameter::None) { lemma_bare(); }
pub broadcast proof fn lemma_tail(e: Ev, r: Seq<Ev>) ensures #[trigger] (seq![e] + r).drop_first() == r { assert((seq![e] + r).drop_first() =~= r); }
pub broadcast proof fn lemma_pairs<K: AsRef<str>, V: Display>(s: Seq<(K, V)>)
    requires s.len() > 0
    ensures #![trigger pairs_of(s), pairs_of(s.drop_first())] pairs_of(s) == seq![pair_ev(s[0])] + pairs_of(s.drop_first())
{ assert(pairs_of(s) =~= seq![pair_ev(s[0])] + pairs_of(s.drop_first())); }
pub broadcast proof fn lemma_pairs0<K: AsRef<str>, V: Display>(s: Seq<(K, V)>) requires s.len() == 0 ensures #[trigger] pairs_of(s) == Seq::<Ev>::empty() { assert(pairs_of(s) =~= Seq::<Ev>::empty()); }
/// what a request serializes as when it has no parameters of its own
pub open spec fn bare() -> Seq<Ev> { merged(Seq::empty(), OAuthParameter::Callback) }
/// the parameters of a `ParameterList`
pub open spec fn list_evs<K: AsRef<str>, V: Display, P: crate::sx::borrow::Borrow<(K, V)>>(l: Seq<P>) -> Seq<Ev> { l.map_values(|p: P| pair_ev(*p.bor())) }
/// the order of signed parameters: by key, then by the encoded value (RFC 5849 section 3.4.1.3.2)
pub open spec fn then_ord(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
pub open spec fn kv_ord(kl: B, vl: B, kr: B, vr: B) -> Ordering { then_ord(blex(kl, kr), blex(enc(vl), enc(vr))) }
pub open spec fn pord<K: AsRef<str>, V: Display, P: crate::sx::borrow::Borrow<(K, V)>>(a: P, b: P) -> Ordering {
    kv_ord(a.bor().0.asr().spec_bytes(), a.bor().1.disp(), b.bor().0.asr().spec_bytes(), b.bor().1.disp())
}
pub open spec fn ple<K: AsRef<str>, V: Display, P: crate::sx::borrow::Borrow<(K, V)>>(a: P, b: P) -> bool { pord::<K, V, P>(a, b) != Ordering::Greater }
pub open spec fn psorted<K: AsRef<str>, V: Display, P: crate::sx::borrow::Borrow<(K, V)>>(l: Seq<P>) -> bool { forall|i: int, j: int| 0 <= i <= j < l.len() ==> ple::<K, V, P>(#[trigger] l[i], #[trigger] l[j]) }
pub proof fn lemma_blex(a: B, b: B)
    ensures blex(a, b) == Ordering::Equal <==> a == b, blex(a, b) == Ordering::Less <==> blex(b, a) == Ordering::Greater, blex(a, a) == Ordering::Equal
    decreases a.len()
{
    if a.len() > 0 { lemma_blex(a.drop_first(), a.drop_first()); }
    if a.len() > 0 && b.len() > 0 { lemma_blex(a.drop_first(), b.drop_first()); assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    else { if a.len() == 0 && b.len() == 0 { assert(a =~= b); } }
}
pub broadcast proof fn lemma_blex_eq(a: B, b: B) ensures #[trigger] blex(a, b) == Ordering::Equal <==> a == b { lemma_blex(a, b); }
pub broadcast proof fn lemma_str(a: &str) ensures #[trigger] a.spec_bytes() == vstd::utf8::encode_utf8(a@), vstd::utf8::decode_utf8(a.spec_bytes()) == a@ { vstd::utf8::encode_utf8_decode_utf8(a@); }
pub proof fn lemma_blex_trans(a: B, b: B, c: B) requires ble(a, b), ble(b, c) ensures ble(a, c), blex(a, b) == Ordering::Less || blex(b, c) == Ordering::Less ==> blex(a, c) == Ordering::Less decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { if a[0] == b[0] && b[0] == c[0] { lemma_blex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
}
pub proof fn lemma_ple<K: AsRef<str>, V: Display, P: crate::sx::borrow::Borrow<(K, V)>>()
    ensures
        forall|a: P, b: P, c: P| #[trigger] ple::<K, V, P>(a, b) && #[trigger] ple::<K, V, P>(b, c) ==> ple::<K, V, P>(a, c),
        forall|a: P, b: P| #[trigger] ple::<K, V, P>(a, b) || ple::<K, V, P>(b, a),
        forall|a: P, b: P| #[trigger] pord::<K, V, P>(a, b) == Ordering::Less <==> pord::<K, V, P>(b, a) == Ordering::Greater,
{
    assert forall|a: P, b: P| #[trigger] pord::<K, V, P>(a, b) == Ordering::Less <==> pord::<K, V, P>(b, a) == Ordering::Greater by {
        lemma_blex(a.bor().0.asr().spec_bytes(), b.bor().0.asr().spec_bytes());
        lemma_blex(enc(a.bor().1.disp()), enc(b.bor().1.disp()));
        lemma_blex(b.bor().0.asr().spec_bytes(), a.bor().0.asr().spec_bytes());
        lemma_blex(enc(b.bor().1.disp()), enc(a.bor().1.disp()));
    }
    assert forall|a: P, b: P| #[trigger] ple::<K, V, P>(a, b) || ple::<K, V, P>(b, a) by { assert(pord::<K, V, P>(a, b) == pord::<K, V, P>(a, b)); assert(pord::<K, V, P>(b, a) == pord::<K, V, P>(b, a)); }
    assert forall|a: P, b: P, c: P| #[trigger] ple::<K, V, P>(a, b) && #[trigger] ple::<K, V, P>(b, c) implies ple::<K, V, P>(a, c) by {
        let (ka, kb, kc) = (a.bor().0.asr().spec_bytes(), b.bor().0.asr().spec_bytes(), c.bor().0.asr().spec_bytes());
        let (va, vb, vc) = (enc(a.bor().1.disp()), enc(b.bor().1.disp()), enc(c.bor().1.disp()));
        lemma_blex_trans(ka, kb, kc);
        lemma_blex(ka, kb); lemma_blex(kb, kc);
        if ka == kb && kb == kc { lemma_blex_trans(va, vb, vc); }
    }
}
/// neighbours in order are enough
pub proof fn lemma_adjacent<K: AsRef<str>, V: Display, P: crate::sx::borrow::Borrow<(K, V)>>(l: Seq<P>)
    requires forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] ple::<K, V, P>(l[i], l[i + 1])
    ensures psorted::<K, V, P>(l)
{
    assert forall|i: int, j: int| 0 <= i <= j < l.len() implies ple::<K, V, P>(#[trigger] l[i], #[trigger] l[j]) by { lemma_chain::<K, V, P>(l, i, j); }
}
proof fn lemma_chain<K: AsRef<str>, V: Display, P: crate::sx::borrow::Borrow<(K, V)>>(l: Seq<P>, i: int, j: int)
    requires forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] ple::<K, V, P>(l[i], l[i + 1]), 0 <= i <= j < l.len()
    ensures ple::<K, V, P>(l[i], l[j]) decreases j - i
{ lemma_ple::<K, V, P>(); if i < j { lemma_chain::<K, V, P>(l, i, j - 1); assert(ple::<K, V, P>(l[j - 1], l[j - 1 + 1])); } else { assert(ple::<K, V, P>(l[i], l[i]) || ple::<K, V, P>(l[i], l[i])); } }
pub broadcast group evs { lemma_tail, lemma_pairs, lemma_pairs0, lemma_part_step, lemma_part_init, lemma_part_done }
pub open spec fn pair_ev<K: AsRef<str>, V: Display>(p: (K, V)) -> Ev { Ev::Param(p.0.asr().spec_bytes(), p.1.disp()) }
pub open spec fn pairs_of<K: AsRef<str>, V: Display>(ps: Seq<(K, V)>) -> Seq<Ev> { ps.map_values(|p: (K, V)| pair_ev(p)) }
}
@item trait serializer::Serializer
    spec fn step(pre: &Self, e: crate::ev::Ev, post: &Self) -> bool;
    spec fn fin(pre: &Self, out: Self::Output) -> bool;
@fn Serializer::serialize_parameter
    ensures Self::step(old(self), crate::ev::Ev::Param(key.spec_bytes(), value.disp()), final(self)),
@fn Serializer::serialize_parameter_encoded
    ensures Self::step(old(self), crate::ev::Ev::ParamEnc(key.spec_bytes(), value.disp()), final(self)),
@fn Serializer::serialize_oauth_callback
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::Callback), final(self)),
@fn Serializer::serialize_oauth_consumer_key
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::ConsumerKey), final(self)),
@fn Serializer::serialize_oauth_nonce
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::Nonce), final(self)),
@fn Serializer::serialize_oauth_signature_method
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::SignatureMethod), final(self)),
@fn Serializer::serialize_oauth_timestamp
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::Timestamp), final(self)),
@fn Serializer::serialize_oauth_token
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::Token), final(self)),
@fn Serializer::serialize_oauth_verifier
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::Verifier), final(self)),
@fn Serializer::serialize_oauth_version
    ensures Self::step(old(self), crate::ev::Ev::Slot(crate::oauth1_request::util::OAuthParameter::Version), final(self)),
@fn Serializer::end
    ensures Self::fin(&self, r),
@item trait SerializerExt
    spec fn bare_run(&self, post: &Self) -> bool;
@item impl <SerializerExt for S>
    open spec fn bare_run(&self, post: &Self) -> bool { crate::ev::run(*self, crate::ev::bare(), *post) }
@fn SerializerExt::serialize_oauth_parameters
    ensures old(self).bare_run(final(self)),
@fn <SerializerExt for S>::serialize_oauth_parameters : C01 C16
@entry
    broadcast use crate::ev::evs;
    let ghost vx_pre = *self;
    proof { crate::ev::lemma_bare(); crate::ev::lemma_bare8(); assert(crate::ev::part(vx_pre, crate::ev::bare(), crate::ev::bare(), vx_pre)); }
@exit
    proof { assert(crate::ev::part(vx_pre, crate::ev::bare(), Seq::<crate::ev::Ev>::empty(), *self)); }
