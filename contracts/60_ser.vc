//## The three serializers of the crate.
@item mod oauth1_request::serializer::urlencode
use crate::ev::Ev;
broadcast use crate::sp::text;
pub open spec fn delim(a: Append) -> B { match a { Append::None => Seq::empty(), Append::Question => @"?", Append::Ampersand => @"&" } }
/// `k=v` has been appended, after the delimiter that was due
pub open spec fn appended<W: Write>(pre: &Urlencoder<W>, k: B, v: B, post: &Urlencoder<W>) -> bool {
    post.next_append == Append::Ampersand && post.data.text() == pre.data.text() + W::xf(delim(pre.next_append) + ((k + @"=") + v))
}
@fn Urlencoder::form : C04
    ensures r.next_append == Append::None, r.data.text() == Seq::<u8>::empty(),
@fn Urlencoder::form_with_buf : C03 C04
    ensures r.next_append == Append::None, r.data == buf,
@fn Urlencoder::query : C03 C04
    ensures r.next_append == Append::Question, r.data == uri,
@fn Urlencoder::append_delim : C03 C04 C18
    ensures final(self).next_append == Append::Ampersand, final(self).data.text() == old(self).data.text() + W::xf(delim(old(self).next_append)),
@item impl <Serializer for Urlencoder>
    open spec fn step(pre: &Self, e: Ev, post: &Self) -> bool {
        match e { Ev::Param(k, v) => appended(pre, k, enc(v), post), Ev::ParamEnc(k, v) => appended(pre, k, v, post), Ev::Slot(p) => *post == *pre }
    }
    open spec fn fin(pre: &Self, out: W) -> bool { out == pre.data }
@fn <Serializer for Urlencoder>::* : C03 C04 C18
//## ---- recorder
@item mod oauth1_request::serializer::recorder
use crate::ev::Ev;
use crate::oauth1_request::util::OAuthParameter;
broadcast use crate::sp::text0;
pub open spec fn recorded(e: Ev, r: Record) -> bool {
    match (e, r) {
        (Ev::Param(k, v), Record::Parameter(a, b)) => bytes_of(a) == k && bytes_of(b) == v,
        (Ev::ParamEnc(k, v), Record::ParameterEncoded(a, b)) => bytes_of(a) == k && bytes_of(b) == v,
        (Ev::Slot(OAuthParameter::Callback), Record::Callback) => true,
        (Ev::Slot(OAuthParameter::ConsumerKey), Record::ConsumerKey) => true,
        (Ev::Slot(OAuthParameter::Nonce), Record::Nonce) => true,
        (Ev::Slot(OAuthParameter::SignatureMethod), Record::SignatureMethod) => true,
        (Ev::Slot(OAuthParameter::Timestamp), Record::Timestamp) => true,
        (Ev::Slot(OAuthParameter::Token), Record::Token) => true,
        (Ev::Slot(OAuthParameter::Verifier), Record::Verifier) => true,
        (Ev::Slot(OAuthParameter::Version), Record::Version) => true,
        _ => false,
    }
}
@fn Recorder::new : C09
    ensures r.history@ == Seq::<Record>::empty(),
@fn Recorder::history : C09
    ensures r@ == self.history@,
@fn <Default for Recorder>::default : C09
@item impl <Serializer for Recorder>
    open spec fn step(pre: &Self, e: Ev, post: &Self) -> bool { post.history@.len() == pre.history@.len() + 1 && recorded(e, post.history@.last()) && post.history@.drop_last() =~= pre.history@ }
    open spec fn fin(pre: &Self, out: Vec<Record>) -> bool { out@ == pre.history@ }
@fn <Serializer for Recorder>::* : C09
@item impl <PartialEq<Record> for Record>
    /// of the same kind, with equal names and values that display alike
    open spec fn eqv(&self, o: &Record<K2, V2>) -> bool {
        match (*self, *o) {
            (Record::Parameter(a, b), Record::Parameter(c, d)) => a.asr().spec_bytes() == c.asr().spec_bytes() && b.disp() == d.disp(),
            (Record::ParameterEncoded(a, b), Record::ParameterEncoded(c, d)) => a.asr().spec_bytes() == c.asr().spec_bytes() && b.disp() == d.disp(),
            (Record::Callback, Record::Callback) => true,
            (Record::ConsumerKey, Record::ConsumerKey) => true,
            (Record::Nonce, Record::Nonce) => true,
            (Record::SignatureMethod, Record::SignatureMethod) => true,
            (Record::Timestamp, Record::Timestamp) => true,
            (Record::Token, Record::Token) => true,
            (Record::Verifier, Record::Verifier) => true,
            (Record::Version, Record::Version) => true,
            _ => false,
        }
    }
@fn <PartialEq<Record> for Record>::eq : C09
@entry
    broadcast use crate::ev::lemma_blex_eq, crate::ev::lemma_str;
//## ---- authorizer
@item mod oauth1_request::serializer::auth
use crate::ev::Ev;
use crate::sg::*;
use super::urlencode::Append;
broadcast use crate::sp::text;
/// the authorizer's fixed inputs have not changed
pub open spec fn kept<SM: SignatureMethod, W>(pre: &Authorizer<SM, W>, post: &Authorizer<SM, W>) -> bool {
    post.consumer_key == pre.consumer_key && post.token == pre.token && post.options == pre.options
}
/// debug builds: the name is not smaller than the previous one, and is remembered
@if debug
pub open spec fn in_order<SM: SignatureMethod, W>(pre: &Authorizer<SM, W>, k: B, post: &Authorizer<SM, W>) -> bool { ble(bytes_of(pre.prev_key), k) && bytes_of(post.prev_key) == k }
pub open spec fn no_prev<SM: SignatureMethod, W>(a: &Authorizer<SM, W>) -> bool { bytes_of(a.prev_key) == Seq::<u8>::empty() }
pub open spec fn uri_ok(u: B) -> bool { !u.contains(63) }
@else
pub open spec fn in_order<SM: SignatureMethod, W>(pre: &Authorizer<SM, W>, k: B, post: &Authorizer<SM, W>) -> bool { true }
pub open spec fn no_prev<SM: SignatureMethod, W>(a: &Authorizer<SM, W>) -> bool { true }
pub open spec fn uri_ok(u: B) -> bool { true }
@endif
/// the protocol parameter `k` with the encoded value `v` has been written
pub open spec fn data_push<W: Write>(pre: Data<W>, k: B, v: B, post: Data<W>) -> bool {
    match (pre, post) {
        (Data::Authorization(h), Data::Authorization(h2)) => h2.text() == h.text() + W::xf(((k + @"=\"") + v) + @"\","),
        (Data::Urlencode(e), Data::Urlencode(e2)) => Urlencoder::<W>::step(&e, Ev::ParamEnc(k, v), &e2),
        _ => false,
    }
}
pub open spec fn delimited<S: Sign>(pre: &S, due: bool, post: &S) -> bool { if due { S::sstep(pre, SEv::Delim, post) } else { *post == *pre } }
/// the next thing signed is `e`, after a delimiter unless it is the first
pub open spec fn signed<S: Sign>(pre: &S, due: bool, e: SEv, post: &S) -> bool { exists|m: S| #[trigger] delimited(pre, due, &m) && S::sstep(&m, e, post) }
/// a protocol parameter is written and signed
pub open spec fn pushed<SM: SignatureMethod, W: Write>(pre: &Authorizer<SM, W>, k: B, v: B, e: SEv, post: &Authorizer<SM, W>) -> bool {
    kept(pre, post) && in_order(pre, k, post) && data_push(pre.data, k, v, post.data) && post.append_delim_to_sign && signed::<SM::Sign>(&pre.sign, pre.append_delim_to_sign, e, &post.sign)
}
/// a request parameter is signed, and written unless the output is a header
pub open spec fn passed<SM: SignatureMethod, W: Write>(pre: &Authorizer<SM, W>, k: B, ev: Ev, e: SEv, post: &Authorizer<SM, W>) -> bool {
    kept(pre, post) && in_order(pre, k, post) && post.append_delim_to_sign && signed::<SM::Sign>(&pre.sign, pre.append_delim_to_sign, e, &post.sign)
    && match (pre.data, post.data) { (Data::Authorization(h), Data::Authorization(h2)) => h2 == h, (Data::Urlencode(a), Data::Urlencode(b)) => Urlencoder::<W>::step(&a, ev, &b), _ => false }
}
/// a text that `gen_nonce` can give
pub open spec fn nonce_of(raw: B) -> B { crate::sx::base64::b64(sig_bytes(raw), true, false) }
/// without leading zeros
pub open spec fn sig_bytes(raw: B) -> B decreases raw.len() { if raw.len() > 0 && raw[0] == 0 { sig_bytes(raw.drop_first()) } else { raw } }
pub open spec fn fresh(n: B) -> bool { exists|raw: B| #[trigger] crate::sx::rand::prelude::drawn(raw) && raw.len() == 9 && n == nonce_of(raw) }
pub broadcast proof fn lemma_sig(raw: B, i: int)
    requires 0 <= i <= raw.len(), forall|j: int| 0 <= j < i ==> raw[j] == 0, i < raw.len() ==> raw[i] != 0
    ensures #[trigger] raw.skip(i) == sig_bytes(raw) decreases raw.len()
{
    if raw.len() > 0 && i > 0 { lemma_sig(raw.drop_first(), i - 1); assert(raw.drop_first().skip(i - 1) =~= raw.skip(i)); assert(raw[0] == 0); }
    else { assert(raw.skip(i) =~= raw); if raw.len() > 0 { assert(raw[i] != 0); } }
}
pub broadcast proof fn lemma_front(a: B, b: B) ensures #[trigger] (a + b).take(a.len() as int) == a { assert((a + b).take(a.len() as int) =~= a); }
/// the current Unix time in whole seconds
pub open spec fn now(t: u64) -> bool { exists|c: SystemTime| #[trigger] crate::sx::time::read_from_clock(c) && (crate::sx::time::unix(c) >= 0 ==> t == crate::sx::time::unix(c)) }
pub open spec fn slot_step<SM: SignatureMethod, W: Write>(pre: &Authorizer<SM, W>, p: OAuthParameter, post: &Authorizer<SM, W>) -> bool {
    match p {
        OAuthParameter::Callback => match pre.options.callback { Some(c) => pushed(pre, @"oauth_callback", enc(c.spec_bytes()), SEv::Callback(enc2(c.spec_bytes())), post), None => *post == *pre },
        OAuthParameter::ConsumerKey => pushed(pre, @"oauth_consumer_key", enc(pre.consumer_key.spec_bytes()), SEv::ConsumerKey(enc2(pre.consumer_key.spec_bytes())), post),
        OAuthParameter::Nonce => if !pre.sign.s_nonce() { *post == *pre } else { match pre.options.nonce {
            Some(n) => pushed(pre, @"oauth_nonce", enc(n.spec_bytes()), SEv::Nonce(enc2(n.spec_bytes())), post),
            None => exists|n: B| #[trigger] fresh(n) && pushed(pre, @"oauth_nonce", n, SEv::Nonce(n), post) } },
        OAuthParameter::SignatureMethod => pushed(pre, @"oauth_signature_method", pre.sign.s_name(), SEv::SigMethod, post),
        OAuthParameter::Timestamp => if !pre.sign.s_ts() { *post == *pre } else { match pre.options.timestamp {
            Some(t) => pushed(pre, @"oauth_timestamp", dec(t.v as nat), SEv::Timestamp(t.v), post),
            None => exists|t: u64| #[trigger] now(t) && pushed(pre, @"oauth_timestamp", dec(t as nat), SEv::Timestamp(t), post) } },
        OAuthParameter::Token => match pre.token { Some(t) => pushed(pre, @"oauth_token", enc(t.spec_bytes()), SEv::Token(enc2(t.spec_bytes())), post), None => *post == *pre },
        OAuthParameter::Verifier => match pre.options.verifier { Some(v) => pushed(pre, @"oauth_verifier", enc(v.spec_bytes()), SEv::Verifier(enc2(v.spec_bytes())), post), None => *post == *pre },
        OAuthParameter::Version => if pre.options.version { pushed(pre, @"oauth_version", @"1.0", SEv::Version, post) } else { *post == *pre },
        OAuthParameter::None => false,
    }
}
/// a signing state that has seen the secrets, the method and the URI
pub open spec fn sign_started<SM: SignatureMethod>(sm: SM, cs: B, ts: Option<B>, method: B, uri: B, s: &SM::Sign) -> bool {
    exists|s0: SM::Sign, s1: SM::Sign| #![trigger sm.init(cs, ts, &s0), SM::Sign::sstep(&s0, SEv::Method(method), &s1)] sm.init(cs, ts, &s0) && SM::Sign::sstep(&s0, SEv::Method(method), &s1) && SM::Sign::sstep(&s1, SEv::Uri(enc(uri)), s)
}
pub open spec fn secret_of(t: Option<Credentials<&str>>) -> Option<B> { match t { Some(t) => Some(t.secret.spec_bytes()), None => None } }
pub open spec fn ident_of<'a>(t: Option<Credentials<&'a str>>) -> Option<&'a str> { match t { Some(t) => Some(t.identifier), None => None } }
/// everything about a new authorizer but its output
pub open spec fn started<'a, SM: SignatureMethod, W>(a: &Authorizer<'a, SM, W>, sm: SM, method: B, uri: B, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a Options<'a>) -> bool {
    a.consumer_key == client.identifier && a.token == ident_of(token) && a.options == options && !a.append_delim_to_sign && no_prev(a) && uri_ok(uri)
    && sign_started(sm, client.secret.spec_bytes(), secret_of(token), method, uri, &a.sign)
}
@fn Options::new : C11
    ensures r.callback.is_none(), r.verifier.is_none(), r.nonce.is_none(), r.timestamp.is_none(), !r.version,
@fn <Default for Options>::default : C11
@fn Options::callback : C11
    ensures *r == (Options { callback: callback.intov(), ..*old(self) }), *final(self) == *final(r),
@fn Options::verifier : C11
    ensures *r == (Options { verifier: verifier.intov(), ..*old(self) }), *final(self) == *final(r),
@fn Options::nonce : C11 C12
    ensures *r == (Options { nonce: nonce.intov(), ..*old(self) }), *final(self) == *final(r),
@fn Options::timestamp : C11 C12
    ensures *r == (Options { timestamp: timestamp.intov(), ..*old(self) }), *final(self) == *final(r),
@fn Options::version : C11
    ensures *r == (Options { version: version, ..*old(self) }), *final(self) == *final(r),
@fn Authorizer::authorization : C01 C02 C11
    ensures started(&r, signature_method, method.spec_bytes(), uri.disp(), client, token, options),
        r.data matches Data::Authorization(h) && h.text() == @"OAuth ",
@fn Authorizer::form : C01 C03 C11
    ensures started(&r, signature_method, method.spec_bytes(), uri.disp(), client, token, options),
        r.data matches Data::Urlencode(e) && e.next_append == Append::None && e.data.text() == Seq::<u8>::empty(),
@fn Authorizer::query : C01 C03 C11
    ensures started(&r, signature_method, method.spec_bytes(), uri.disp(), client, token, options),
        r.data matches Data::Urlencode(e) && e.next_append == Append::Question && e.data == uri,
@fn Authorizer::authorization_with_buf : C01 C02 C11 C18
    ensures started(&r, signature_method, method.spec_bytes(), uri.disp(), client, token, options),
        r.data matches Data::Authorization(h) && h.text() == buf.text() + W::xf(@"OAuth "),
@fn Authorizer::form_with_buf : C01 C03 C11
    ensures started(&r, signature_method, method.spec_bytes(), uri.disp(), client, token, options),
        r.data matches Data::Urlencode(e) && e.next_append == Append::None && e.data == buf,
@fn Authorizer::new_ : C01 C02 C03
    ensures r.consumer_key == client.identifier, r.token == ident_of(token), r.options == options, r.data == data, r.sign == sign, !r.append_delim_to_sign, no_prev(&r),
@fn auth::make_sign : C01 C17
    ensures uri_ok(uri.disp()), sign_started(signature_method, client.secret.spec_bytes(), secret_of(token), method.spec_bytes(), uri.disp(), &r),
@if debug
@item impl <Write for AssertNotContainQuestion__make_sign>
    open spec fn text(&self) -> B { Seq::empty() }
    open spec fn xf(s: B) -> B { Seq::empty() }
    open spec fn adm(s: B) -> bool { !s.contains(63) }
    #[verifier::prophetic]
    open spec fn frame(&self, o: &Self) -> bool { true }
    proof fn laws(a: B, b: B) { if a.contains(63) { let i = choose|i: int| 0 <= i < a.len() && a[i] == 63; assert((a + b)[i] == 63); } if b.contains(63) { let i = choose|i: int| 0 <= i < b.len() && b[i] == 63; assert((a + b)[a.len() + i] == 63); } }
    proof fn frame_laws(a: &Self, b: &Self, c: &Self) {}
@fn <Write for AssertNotContainQuestion__make_sign>::write_char : C17 optional
@fn <Write for AssertNotContainQuestion__make_sign>::write_str : C17
@panic 0
    assert(uri.spec_bytes().contains(63));
@endif
@fn Authorizer::append_to_header_encoded : C01 C02 C03 C18
    ensures kept(old(self), final(self)), in_order(old(self), k.spec_bytes(), final(self)), data_push(old(self).data, k.spec_bytes(), v.disp(), final(self).data),
        final(self).append_delim_to_sign, delimited::<SM::Sign>(&old(self).sign, old(self).append_delim_to_sign, &final(self).sign),
@fn Authorizer::sign_delimiter : C01
    ensures *final(self) == (Authorizer { append_delim_to_sign: true, sign: final(self).sign, ..*old(self) }), delimited::<SM::Sign>(&old(self).sign, old(self).append_delim_to_sign, &final(self).sign),
@fn Authorizer::check_dictionary_order : C17
@if debug
    ensures *final(self) == (Authorizer { prev_key: final(self).prev_key, ..*old(self) }), in_order(old(self), _k.spec_bytes(), final(self)),
@panic 0
    assert(!ble(bytes_of(old(self).prev_key), _k.spec_bytes()));
@else
    ensures *final(self) == *old(self),
@endif
@item impl <Serializer for Authorizer>
    open spec fn step(pre: &Self, e: Ev, post: &Self) -> bool {
        match e {
            Ev::Param(k, v) => passed(pre, k, e, SEv::Param(k, enc2(v)), post),
            Ev::ParamEnc(k, v) => passed(pre, k, e, SEv::Param(k, enc(v)), post),
            Ev::Slot(p) => slot_step(pre, p, post),
        }
    }
    open spec fn fin(pre: &Self, out: W) -> bool {
        exists|sig: <SM::Sign as Sign>::Signature| #[trigger] SM::Sign::sfin(&pre.sign, &sig) && match pre.data {
            Data::Authorization(h) => out.text() == (h.text() + W::xf(@"oauth_signature=")) + W::xf((@"\"" + sig.disp()) + @"\""),
            Data::Urlencode(e) => exists|e2: Urlencoder<W>| #[trigger] Urlencoder::<W>::step(&e, Ev::ParamEnc(@"oauth_signature", sig.disp()), &e2) && Urlencoder::<W>::fin(&e2, out),
        }
    }
@fn <Serializer for Authorizer>::* : C01 C02 C03 C12 C18
@fn auth::get_current_timestamp : C12 nopanic
    ensures now(r),
@fn auth::get_rng : C12
    ensures r.unpredictable(),
@fn auth::gen_nonce : C12 nopanic
    ensures old(rng).unpredictable() ==> fresh(r.spec_bytes()),
@closure 0
    |$0: &u8| -> (q: bool) ensures q == (*$0 != 0)
@entry
    broadcast use lemma_sig, lemma_front, crate::sx::base64::lemma_b64;
