//## The parts of the derive macro that are not token generation.
@raw syn
pub mod sxsyn { pub mod syn {
use vstd::prelude::*;
/// a string literal in the source
#[verifier::external_body] pub struct LitStr { p: () }
impl LitStr {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn value(&self) -> (r: String) ensures crate::sp::bytes_of(r) == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
}
pub enum Lit { Str(LitStr), Int(u8), Other }
pub struct ExprLit { pub attrs: Vec<u8>, pub lit: Lit }
pub enum Expr { Lit(ExprLit), Path(u8), Other }
impl Expr { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } }
#[verifier::external_body] pub struct Span { p: () }
#[verifier::external_body] pub struct Error { p: () }
impl Error { #[verifier::external_body] pub fn new<S>(s: S, m: &str) -> Error { unimplemented!() } }
pub type Result<T> = core::result::Result<T, Error>;
} }
@raw derive equality
impl core::cmp::PartialEq for crate::oauth1_request_derive::util::oauth_parameter::OAuthParameter { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for crate::oauth1_request_derive::util::oauth_parameter::OAuthParameter {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
@item mod oauth1_request_derive::util::oauth_parameter
use core::cmp::Ordering;
use crate::sx::cmp::*;
use crate::sx::default::Default;
broadcast use crate::sp::text;
/// the protocol slot the macro means
pub open spec fn as_slot(p: OAuthParameter) -> crate::oauth1_request::util::oauth_parameter::OAuthParameter {
    match p {
        OAuthParameter::Callback => crate::oauth1_request::util::oauth_parameter::OAuthParameter::Callback,
        OAuthParameter::ConsumerKey => crate::oauth1_request::util::oauth_parameter::OAuthParameter::ConsumerKey,
        OAuthParameter::Nonce => crate::oauth1_request::util::oauth_parameter::OAuthParameter::Nonce,
        OAuthParameter::SignatureMethod => crate::oauth1_request::util::oauth_parameter::OAuthParameter::SignatureMethod,
        OAuthParameter::Timestamp => crate::oauth1_request::util::oauth_parameter::OAuthParameter::Timestamp,
        OAuthParameter::Token => crate::oauth1_request::util::oauth_parameter::OAuthParameter::Token,
        OAuthParameter::Verifier => crate::oauth1_request::util::oauth_parameter::OAuthParameter::Verifier,
        OAuthParameter::Version => crate::oauth1_request::util::oauth_parameter::OAuthParameter::Version,
        OAuthParameter::None => crate::oauth1_request::util::oauth_parameter::OAuthParameter::None,
    }
}
@item enum oauth1_request_derive::util::oauth_parameter::OAuthParameter
@fn oauth1_request_derive::util::oauth_parameter::OAuthParameter::next : C16
    ensures self != OAuthParameter::None ==> as_slot(r) == crate::slots::slot_next(as_slot(self)),
@panic 0
    assert(self == OAuthParameter::None);
@fn oauth1_request_derive::util::oauth_parameter::OAuthParameter::as_str : C16
    ensures self == OAuthParameter::None ==> r.is_none(), self != OAuthParameter::None ==> r.is_some() && r.unwrap().spec_bytes() == crate::slots::slot_name(as_slot(self)),
@item impl oauth1_request_derive::util::oauth_parameter::<Default for OAuthParameter>
    open spec fn is_dfl(r: &Self) -> bool { *r == OAuthParameter::Callback }
@fn oauth1_request_derive::util::oauth_parameter::<Default for OAuthParameter>::default : C16
@item impl oauth1_request_derive::util::oauth_parameter::<PartialEq<str> for OAuthParameter>
    open spec fn eqv(&self, o: &str) -> bool { *self != OAuthParameter::None && crate::slots::slot_name(as_slot(*self)) == o.spec_bytes() }
@fn oauth1_request_derive::util::oauth_parameter::<PartialEq<str> for OAuthParameter>::eq : C16
@subst t == s ==>> crate::sx::cmp::eqd(t, s)
@item impl oauth1_request_derive::util::oauth_parameter::<PartialOrd<str> for OAuthParameter>
    open spec fn pcmp(&self, o: &str) -> Option<Ordering> { if *self == OAuthParameter::None { Some(Ordering::Greater) } else { Some(blex(crate::slots::slot_name(as_slot(*self)), o.spec_bytes())) } }
@fn oauth1_request_derive::util::oauth_parameter::<PartialOrd<str> for OAuthParameter>::partial_cmp : C16
@item mod oauth1_request_derive::util
use oauth_parameter::OAuthParameter;
/// the serializer's method for a slot
pub open spec fn method_name(p: OAuthParameter) -> Seq<u8> {
    match p {
        OAuthParameter::Callback => @"serialize_oauth_callback", OAuthParameter::ConsumerKey => @"serialize_oauth_consumer_key", OAuthParameter::Nonce => @"serialize_oauth_nonce",
        OAuthParameter::SignatureMethod => @"serialize_oauth_signature_method", OAuthParameter::Timestamp => @"serialize_oauth_timestamp", OAuthParameter::Token => @"serialize_oauth_token",
        OAuthParameter::Verifier => @"serialize_oauth_verifier", OAuthParameter::Version => @"serialize_oauth_version", OAuthParameter::None => Seq::empty(),
    }
}
@fn oauth1_request_derive::util::OAuthParameter::serialize_method_name : C16
    ensures self == OAuthParameter::None ==> r.is_none(), self != OAuthParameter::None ==> r.is_some() && r.unwrap().spec_bytes() == method_name(self),
@item mod oauth1_request_derive::meta
use crate::sx::syn::{Expr, ExprLit, Lit, LitStr};
use crate::sx::syn;
use crate::sx::iter::{Iterator, IntoIterator};
@item struct oauth1_request_derive::meta::UriSafe
@item trait oauth1_request_derive::meta::FromExprExt
    spec fn reads(e: Expr, r: syn::Result<Self>) -> bool;
@fn oauth1_request_derive::meta::FromExprExt::from_expr
    ensures Self::reads(expr, r),
@item impl oauth1_request_derive::meta::<FromExprExt for UriSafe>
    /// a name is taken if and only if it is a string literal of unreserved characters
    open spec fn reads(e: Expr, r: syn::Result<Self>) -> bool {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), attrs }) => r.is_ok() == (forall|i: int| 0 <= i < s.text().len() ==> unreserved(#[trigger] s.text()[i])) && (r.is_ok() ==> r->Ok_0.0.text() == s.text()),
            _ => r.is_err(),
        }
    }
@fn oauth1_request_derive::meta::<FromExprExt for UriSafe>::from_expr : C16
@loop 0
    invariant
        expr is Lit && expr->Lit_0.lit == Lit::Str(s),
        vx_it0.rem().len() <= s.text().len(),
        forall|i: int| 0 <= i < vx_it0.rem().len() ==> *(#[trigger] vx_it0.rem()[i]) == s.text()[s.text().len() - vx_it0.rem().len() + i],
        forall|i: int| 0 <= i < s.text().len() - vx_it0.rem().len() ==> unreserved(#[trigger] s.text()[i]),
    ensures vx_it0.rem().len() == 0,
    decreases vx_it0.rem().len(),
@before return Err (crate :: sx :: syn :: Error :: new (s . span
    assert(!unreserved(*b));
    assert(*b == s.text()[s.text().len() - vx_it0.rem().len() - 1]);
    assert(!(forall|i: int| 0 <= i < s.text().len() ==> unreserved(#[trigger] s.text()[i])));
    assert(expr is Lit);
    assert(expr->Lit_0.lit is Str);
    assert(expr->Lit_0.lit->Str_0 == s);
