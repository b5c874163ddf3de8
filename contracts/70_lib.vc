//## The entry points of the crate.
@item mod oauth1_request
use crate::ev::*;
use crate::sg::*;
use crate::sp::*;
use crate::oauth1_request::serializer::auth::{Authorizer, Data, started};
use crate::oauth1_request::serializer::urlencode::{Append, Urlencoder};
use crate::sx::convert::AsRef;
/// the parts of a `Builder` that an authorized request is made of
pub open spec fn client_of<'a, C: AsRef<str>>(c: &'a Credentials<C>) -> Credentials<&'a str> { Credentials { identifier: c.identifier.asr(), secret: c.secret.asr() } }
pub open spec fn token_of<'a, T: AsRef<str>>(t: &'a Option<Credentials<T>>) -> Option<Credentials<&'a str>> { match *t { Some(t) => Some(Credentials { identifier: t.identifier.asr(), secret: t.secret.asr() }), None => None } }
/// the output `r` is that of an authorizer which was started with these parts, with the output `data`, and given the request
pub open spec fn sent<'a, SM: SignatureMethod, W: Write, R: Request + ?Sized>(sm: SM, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, options: &'a auth::Options<'a>, data: spec_fn(Data<W>) -> bool, method: B, uri: B, request: &R, r: W) -> bool {
    exists|a: Authorizer<'a, SM, W>| #[trigger] started(&a, sm, method, uri, client, token, options) && data(a.data) && ran(a, request.evs(), r)
}
pub open spec fn to_header<W: Write>(pre: B) -> spec_fn(Data<W>) -> bool { |d: Data<W>| d matches Data::Authorization(h) && h.text() == pre + W::xf(@"OAuth ") }
pub open spec fn to_str_header() -> spec_fn(Data<String>) -> bool { |d: Data<String>| d matches Data::Authorization(h) && h.text() == @"OAuth " }
pub open spec fn to_body<W: Write>(w: W) -> spec_fn(Data<W>) -> bool { |d: Data<W>| d matches Data::Urlencode(e) && e.next_append == Append::None && e.data == w }
pub open spec fn to_str_body() -> spec_fn(Data<String>) -> bool { |d: Data<String>| d matches Data::Urlencode(e) && e.next_append == Append::None && e.data.text() == Seq::<u8>::empty() }
pub open spec fn to_uri<W: Write>(w: W) -> spec_fn(Data<W>) -> bool { |d: Data<W>| d matches Data::Urlencode(e) && e.next_append == Append::Question && e.data == w }
/// the same with options of which none has been set
pub open spec fn sent_fresh<'a, SM: SignatureMethod, W: Write, R: Request + ?Sized>(sm: SM, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, data: spec_fn(Data<W>) -> bool, method: B, uri: B, request: &R, r: W) -> bool {
    exists|o: &auth::Options<'a>| fresh_options(o) && #[trigger] sent(sm, client, token, o, data, method, uri, request, r)
}
pub mod lib_lemmas {
    use vstd::prelude::*;
    use super::*;
    pub broadcast proof fn lemma_fresh<'a, SM: SignatureMethod, W: Write, R: Request + ?Sized>(sm: SM, client: Credentials<&'a str>, token: Option<Credentials<&'a str>>, o: &'a auth::Options<'a>, data: spec_fn(Data<W>) -> bool, method: B, uri: B, request: &R, r: W)
        requires fresh_options(o), #[trigger] sent(sm, client, token, o, data, method, uri, request, r) ensures sent_fresh(sm, client, token, data, method, uri, request, r) {}
    pub broadcast proof fn lemma_client<'a>(c: &'a Credentials<&'a str>) ensures #[trigger] client_of(c) == *c {}
}
impl<'a, SM: SignatureMethod, C: AsRef<str>, T: AsRef<str>> Builder<'a, SM, C, T> {
    pub open spec fn sends<W: Write, R: Request + ?Sized>(&self, data: spec_fn(Data<W>) -> bool, method: B, uri: B, request: &R, r: W) -> bool {
        sent(self.signature_method, client_of(&self.client), token_of(&self.token), &self.options, data, method, uri, request, r)
    }
}
/// options of which none has been set
pub open spec fn fresh_options(o: &auth::Options) -> bool { o.callback.is_none() && o.verifier.is_none() && o.nonce.is_none() && o.timestamp.is_none() && !o.version }
@fn HmacSha1::new : C06
@fn <Debug for HmacSha1>::fmt : C14
@item impl <Debug for HmacSha1>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { @"HmacSha1" }
@fn <Debug for Plaintext>::fmt : C14
@item impl <Debug for Plaintext>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { @"Plaintext" }
@item impl <Debug for Options>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { crate::sx::fmt::ds_text(o, @"Options", crate::sx::fmt::f0().push((@"callback", self.callback.dbg(o))).push((@"verifier", self.verifier.dbg(o))).push((@"nonce", self.nonce.dbg(o))).push((@"timestamp", self.timestamp.dbg(o))).push((@"version", self.version.dbg(o)))) }
@fn <Debug for Options>::fmt : C14
@item impl <Debug for Builder>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { crate::sx::fmt::ds_text(o, @"Builder", crate::sx::fmt::f0().push((@"signature_method", self.signature_method.dbg(o))).push((@"client", self.client.dbg(o))).push((@"token", self.token.dbg(o))).push((@"options", self.options.dbg(o)))) }
@fn <Debug for Builder>::fmt : C14
@fn Builder::new : C11
    ensures r.client == client, r.signature_method == signature_method, r.token.is_none(), r.options.callback.is_none(), r.options.verifier.is_none(), r.options.nonce.is_none(), r.options.timestamp.is_none(), !r.options.version,
@fn Builder::with_token : C11
    ensures r.client == token.client, r.signature_method == signature_method, r.token == Some(token.token), r.options.callback.is_none(), r.options.verifier.is_none(), r.options.nonce.is_none(), r.options.timestamp.is_none(), !r.options.version,
@fn Builder::token : C11
    ensures *r == (Builder { token: token.intov(), ..*old(self) }), *final(self) == *final(r),
@fn Builder::callback : C11
    ensures *r == (Builder { options: auth::Options { callback: callback.intov(), ..old(self).options }, ..*old(self) }), *final(self) == *final(r),
@fn Builder::verifier : C11
    ensures *r == (Builder { options: auth::Options { verifier: verifier.intov(), ..old(self).options }, ..*old(self) }), *final(self) == *final(r),
@fn Builder::nonce : C11 C12
    ensures *r == (Builder { options: auth::Options { nonce: nonce.intov(), ..old(self).options }, ..*old(self) }), *final(self) == *final(r),
@fn Builder::timestamp : C11 C12
    ensures *r == (Builder { options: auth::Options { timestamp: timestamp.intov(), ..old(self).options }, ..*old(self) }), *final(self) == *final(r),
@fn Builder::version : C11
    ensures *r == (Builder { options: auth::Options { version: version, ..old(self).options }, ..*old(self) }), *final(self) == *final(r),
@fn Builder::get : C11
    ensures self.sends(to_str_header(), @"GET", uri.disp(), request, r),
@fn Builder::put : C11
    ensures self.sends(to_str_header(), @"PUT", uri.disp(), request, r),
@fn Builder::post : C11
    ensures self.sends(to_str_header(), @"POST", uri.disp(), request, r),
@fn Builder::delete : C11
    ensures self.sends(to_str_header(), @"DELETE", uri.disp(), request, r),
@fn Builder::options : C11
    ensures self.sends(to_str_header(), @"OPTIONS", uri.disp(), request, r),
@fn Builder::head : C11
    ensures self.sends(to_str_header(), @"HEAD", uri.disp(), request, r),
@fn Builder::connect : C11
    ensures self.sends(to_str_header(), @"CONNECT", uri.disp(), request, r),
@fn Builder::patch : C11
    ensures self.sends(to_str_header(), @"PATCH", uri.disp(), request, r),
@fn Builder::trace : C11
    ensures self.sends(to_str_header(), @"TRACE", uri.disp(), request, r),
@fn Builder::put_form : C11
    ensures self.sends(to_str_body(), @"PUT", uri.disp(), request, r),
@fn Builder::post_form : C11
    ensures self.sends(to_str_body(), @"POST", uri.disp(), request, r),
@fn Builder::options_form : C11
    ensures self.sends(to_str_body(), @"OPTIONS", uri.disp(), request, r),
@fn Builder::patch_form : C11
    ensures self.sends(to_str_body(), @"PATCH", uri.disp(), request, r),
@fn Builder::get_query : C11
    ensures self.sends(to_uri(uri), @"GET", uri.disp(), request, r),
@fn Builder::put_query : C11
    ensures self.sends(to_uri(uri), @"PUT", uri.disp(), request, r),
@fn Builder::post_query : C11
    ensures self.sends(to_uri(uri), @"POST", uri.disp(), request, r),
@fn Builder::delete_query : C11
    ensures self.sends(to_uri(uri), @"DELETE", uri.disp(), request, r),
@fn Builder::options_query : C11
    ensures self.sends(to_uri(uri), @"OPTIONS", uri.disp(), request, r),
@fn Builder::head_query : C11
    ensures self.sends(to_uri(uri), @"HEAD", uri.disp(), request, r),
@fn Builder::connect_query : C11
    ensures self.sends(to_uri(uri), @"CONNECT", uri.disp(), request, r),
@fn Builder::patch_query : C11
    ensures self.sends(to_uri(uri), @"PATCH", uri.disp(), request, r),
@fn Builder::trace_query : C11
    ensures self.sends(to_uri(uri), @"TRACE", uri.disp(), request, r),
@fn Builder::authorize : C01 C02 C11
    ensures self.sends(to_str_header(), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::to_form : C01 C03 C11
    ensures self.sends(to_str_body(), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::to_query : C01 C03 C11
    ensures self.sends(to_uri(uri), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::authorize_with_buf : C01 C02 C11
    ensures self.sends(to_header(buf.text()), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::to_form_with_buf : C01 C03 C11
    ensures self.sends(to_body(buf), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::into_authorization : C01 C02 C11
    ensures self.sends(to_str_header(), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::into_form : C01 C03 C11
    ensures self.sends(to_str_body(), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::into_query : C01 C03 C11
    ensures self.sends(to_uri(uri), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::into_authorization_with_buf : C01 C02 C11
    ensures self.sends(to_header(buf.text()), method.spec_bytes(), uri.disp(), request, r),
@fn Builder::into_form_with_buf : C01 C03 C11
    ensures self.sends(to_body(buf), method.spec_bytes(), uri.disp(), request, r),
@fn oauth1_request::get : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"GET", uri.disp(), request, r),
@fn oauth1_request::put : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"PUT", uri.disp(), request, r),
@fn oauth1_request::post : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"POST", uri.disp(), request, r),
@fn oauth1_request::delete : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"DELETE", uri.disp(), request, r),
@fn oauth1_request::options : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"OPTIONS", uri.disp(), request, r),
@fn oauth1_request::head : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"HEAD", uri.disp(), request, r),
@fn oauth1_request::connect : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"CONNECT", uri.disp(), request, r),
@fn oauth1_request::patch : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"PATCH", uri.disp(), request, r),
@fn oauth1_request::trace : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), @"TRACE", uri.disp(), request, r),
@fn oauth1_request::authorize : C11
    ensures sent_fresh(signature_method, client_of(&token.client), Some(client_of(&token.token)), to_str_header(), method.spec_bytes(), uri.disp(), request, r),
@fn oauth1_request::inner__authorize : C11
    ensures sent_fresh(signature_method, token.client, Some(token.token), to_str_header(), method.spec_bytes(), uri.disp(), request, r),
@entry
    broadcast use lib_lemmas::lemma_fresh, lib_lemmas::lemma_client;
@fn oauth1_request::to_form : C04
    ensures exists|u: Urlencoder<String>| #[trigger] ran(u, request.evs(), r) && u.next_append == Append::None && u.data.text() == Seq::<u8>::empty(),
@fn oauth1_request::to_query : C04
    ensures exists|u: Urlencoder<String>| #[trigger] ran(u, request.evs(), r) && u.next_append == Append::Question && u.data == uri,
