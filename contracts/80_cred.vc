//## oauth-credentials
@raw credentials vocabulary
pub mod cr {
use vstd::prelude::*;
use vstd::string::*;
use crate::B;
use crate::sp::*;
use crate::sx::serde::{Tok, ident, ents, DeRel, tok_of};
use crate::oauth_credentials::serde_imp::Field;
use crate::oauth_credentials::Credentials;
use crate::sx::fmt::Opts;
/// the debug text of a value is always the same when its identifier's is: it mentions no secret
pub open spec fn cred_dbg(id: B, o: Opts) -> B { crate::sx::fmt::ds_text(o, @"Credentials", crate::sx::fmt::f0().push((@"identifier", id)).push((@"secret", @"<hidden>"))) }
/// how often the name `k` occurs among the first `n` entries, and where it occurs last
pub open spec fn cnt(es: Seq<(Tok, Tok)>, n: int, k: B) -> int decreases n { if n <= 0 { 0 } else { cnt(es, n - 1, k) + (if ident(es[n - 1].0) == k { 1int } else { 0 }) } }
pub open spec fn at(es: Seq<(Tok, Tok)>, n: int, k: B) -> int decreases n { if n <= 0 { 0 } else if ident(es[n - 1].0) == k { n - 1 } else { at(es, n - 1, k) } }
pub broadcast proof fn lemma_cnt(es: Seq<(Tok, Tok)>, n: int, m: int, k: B)
    requires 0 <= n <= m
    ensures #![trigger cnt(es, n, k), cnt(es, m, k)] cnt(es, m, k) >= cnt(es, n, k) >= 0, n < m && ident(es[n].0) == k ==> cnt(es, m, k) >= cnt(es, n, k) + 1
    decreases m + n
{ if n > 0 { lemma_cnt(es, 0, n - 1, k); } if n < m { lemma_cnt(es, n, m - 1, k); } }
/// each field occurs once in the map, with the value of its component
pub open spec fn cred_rel<T: DeRel>(es: Seq<(Tok, Tok)>, v: Credentials<T>) -> bool {
    &&& cnt(es, es.len() as int, id_name()) == 1 && T::de_rel(es[at(es, es.len() as int, id_name())].1, v.identifier)
    &&& cnt(es, es.len() as int, sec_name()) == 1 && T::de_rel(es[at(es, es.len() as int, sec_name())].1, v.secret)
}
impl<T: DeRel> DeRel for Credentials<T> { open spec fn de_rel(t: Tok, r: Self) -> bool { cred_rel(ents(t), r) } }
impl DeRel for Field { open spec fn de_rel(t: Tok, r: Self) -> bool { r == field_of(ident(t)) } }
pub open spec fn field_of(b: B) -> Field { if b == id_name() { Field::Identifier } else if b == sec_name() { Field::Secret } else { Field::Other } }
pub open spec fn id_name() -> B { @"oauth_token" }
pub open spec fn sec_name() -> B { @"oauth_token_secret" }
}
@item mod oauth_credentials
broadcast use crate::sp::text;
@item mod oauth_credentials::serde_imp
use crate::cr::*;
use crate::sx::serde::{Tok, ents, ident, tok_of, DeRel};
broadcast use crate::sp::text, lemma_cnt;
@item impl <Debug for Hidden__Credentials_fmt>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { @"<hidden>" }
@fn <Debug for Hidden__Credentials_fmt>::fmt : C14
@item impl <Debug for Credentials__Credentials_fmt>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { crate::sx::fmt::ds_text(o, @"Credentials", crate::sx::fmt::f0().push((@"identifier", self.identifier.dbg(o))).push((@"secret", self.secret.dbg(o)))) }
@fn <Debug for Credentials__Credentials_fmt>::fmt : C14
@entry
    let ghost vx_g = self.dbg(f.opts());
@item impl <Debug for Credentials>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { crate::cr::cred_dbg(self.identifier.dbg(o), o) }
@fn <Debug for Credentials>::fmt : C14
@item impl <Debug for Token>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { crate::sx::fmt::ds_text(o, @"Token", crate::sx::fmt::f0().push((@"client", self.client.dbg(o))).push((@"token", self.token.dbg(o)))) }
@fn <Debug for Token>::fmt : C14
@fn Credentials::new : C13
    ensures r.identifier == identifier, r.secret == secret,
@fn Credentials::identifier : C13
    ensures r == self.identifier.asr(),
@fn Credentials::secret : C13
    ensures r == self.secret.asr(),
@fn Credentials::as_ref : C13
    ensures r.identifier == self.identifier.asr(), r.secret == self.secret.asr(),
@fn Credentials::map : C13
    requires forall|x: T| #[trigger] f.requires((x,)),
    ensures f.ensures((self.identifier,), r.identifier), f.ensures((self.secret,), r.secret),
@item impl <From<&Credentials> for Credentials<&str>>
    open spec fn from_rel(t: &'a Credentials<T>, r: Self) -> bool { r.identifier == t.identifier.asr() && r.secret == t.secret.asr() }
@fn <From<&Credentials> for Credentials<&str>>::from : C13
@fn Token::new : C13
    ensures r.client == client, r.token == token,
@fn Token::from_parts : C13
    ensures r.client.identifier == client_identifier, r.client.secret == client_secret, r.token.identifier == token, r.token.secret == token_secret,
@fn Token::client : C13
    ensures r.identifier == self.client.identifier.asr(), r.secret == self.client.secret.asr(),
@fn Token::token : C13
    ensures r.identifier == self.token.identifier.asr(), r.secret == self.token.secret.asr(),
@fn Token::as_ref : C13
    ensures r.client.identifier == self.client.identifier.asr(), r.client.secret == self.client.secret.asr(), r.token.identifier == self.token.identifier.asr(), r.token.secret == self.token.secret.asr(),
@fn Token::map_client : C13
    requires forall|x: C| #[trigger] f.requires((x,)),
    ensures f.ensures((self.client.identifier,), r.client.identifier), f.ensures((self.client.secret,), r.client.secret), r.token == self.token,
@fn Token::map_token : C13
    requires forall|x: T| #[trigger] f.requires((x,)),
    ensures f.ensures((self.token.identifier,), r.token.identifier), f.ensures((self.token.secret,), r.token.secret), r.client == self.client,
@fn Token::map : C13
    requires forall|x: T| #[trigger] f.requires((x,)),
    ensures f.ensures((self.client.identifier,), r.client.identifier), f.ensures((self.client.secret,), r.client.secret),
        f.ensures((self.token.identifier,), r.token.identifier), f.ensures((self.token.secret,), r.token.secret),
@subst (& mut f) ==>> (& f)
@fn Token<&str,&str>::from_ref : C13
    ensures r.client.identifier == client.identifier.asr(), r.client.secret == client.secret.asr(), r.token.identifier == token.identifier.asr(), r.token.secret == token.secret.asr(),
@item impl <From<&Token> for Token<&str>>
    open spec fn from_rel(token: &'a Token<C, T>, r: Self) -> bool { r.client.identifier == token.client.identifier.asr() && r.client.secret == token.client.secret.asr() && r.token.identifier == token.token.identifier.asr() && r.token.secret == token.token.secret.asr() }
@fn <From<&Token> for Token<&str>>::from : C13
//## ---- serde
@item const oauth_credentials::serde_imp::FIELDS__Credentials_deserialize
exec fn c15_fields() { proof { IDENTIFIER__val(); SECRET__val(); } let a = $VALUE; assert(has_fields(a@)) by { if a@.len() == 2 { assert(a@[0].spec_bytes() == a@[0].spec_bytes()); assert(a@[1].spec_bytes() == a@[1].spec_bytes()); } } }
pub open spec fn has_fields(a: Seq<&'static str>) -> bool {
    (exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).spec_bytes() == id_name()) && (exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).spec_bytes() == sec_name())
}
#[verifier::external_body] pub exec const FIELDS__Credentials_deserialize: &'static [&'static str] ensures has_fields(FIELDS__Credentials_deserialize@) { &[] }
@fn <Deserialize for Credentials>::deserialize : C15
@entry
    proof { crate::lits::lens(); IDENTIFIER__val(); SECRET__val(); }
@item impl <Visitor for Visitor__Credentials_deserialize>
    open spec fn map_rel(es: Seq<(Tok, Tok)>, v: Self::Value) -> bool { cred_rel(es, v) }
    open spec fn map_err<E: de::Error>(es: Seq<(Tok, Tok)>, e: E) -> bool {
        ||| cnt(es, es.len() as int, id_name()) >= 2 && e.is_dup(id_name())
        ||| cnt(es, es.len() as int, sec_name()) >= 2 && e.is_dup(sec_name())
        ||| cnt(es, es.len() as int, id_name()) == 0 && e.is_missing(id_name())
        ||| cnt(es, es.len() as int, sec_name()) == 0 && e.is_missing(sec_name())
    }
    open spec fn bytes_rel(b: B, v: Self::Value) -> bool { false }
    open spec fn knows(b: B) -> bool { b == id_name() || b == sec_name() }
@fn <Visitor for Visitor__Credentials_deserialize>::expecting
@fn <Visitor for Visitor__Credentials_deserialize>::visit_map : C15
@attr #[verifier::loop_isolation(false)]
@entry
    let ghost es = map.left();
    proof { crate::lits::lens(); IDENTIFIER__val(); SECRET__val(); }
@loop 0
    invariant
        !map.half(), map.left().len() <= es.len(), map.left() =~= es.skip(es.len() - map.left().len()),
        IDENTIFIER.spec_bytes() == id_name(), SECRET.spec_bytes() == sec_name(),
        id_name() != sec_name(),
        cnt(es, 0, id_name()) == 0, cnt(es, 0, sec_name()) == 0,
        cnt(es, es.len() - map.left().len(), id_name()) == (if identifier.is_some() { 1int } else { 0 }),
        cnt(es, es.len() - map.left().len(), sec_name()) == (if secret.is_some() { 1int } else { 0 }),
        identifier.is_some() ==> T::de_rel(es[at(es, es.len() - map.left().len(), id_name())].1, identifier.unwrap()),
        secret.is_some() ==> T::de_rel(es[at(es, es.len() - map.left().len(), sec_name())].1, secret.unwrap()),
    decreases map.left().len(),
@fn <Deserialize for Field>::deserialize : C15
@item impl <Visitor for Visitor__Field_deserialize>
    open spec fn map_rel(es: Seq<(Tok, Tok)>, v: Self::Value) -> bool { false }
    open spec fn map_err<E: de::Error>(es: Seq<(Tok, Tok)>, e: E) -> bool { false }
    open spec fn bytes_rel(b: B, v: Self::Value) -> bool { v == field_of(b) }
    open spec fn knows(b: B) -> bool { false }
@fn <Visitor for Visitor__Field_deserialize>::expecting
//## names given as text and as bytes are both accepted
@fn <Visitor for Visitor__Field_deserialize>::visit_str : C15
    ensures r.is_ok(),
@entry
    proof { IDENTIFIER__val(); SECRET__val(); }
@fn <Visitor for Visitor__Field_deserialize>::visit_bytes : C15
    ensures r.is_ok(),
@entry
    proof { IDENTIFIER__val(); SECRET__val(); }
@fn visit_bytes__Field_deserialize : C15
    ensures r == field_of(v@),
@entry
    proof { IDENTIFIER__val(); SECRET__val(); }
@item impl <Serialize for Credentials>
    open spec fn told<S: Serializer>(&self, o: S::Ok) -> bool {
        exists|st: S::SerializeStruct| #[trigger] st.done(o) && st.announced() == 2 && st.fields() =~= seq![(id_name(), tok_of(&self.identifier)), (sec_name(), tok_of(&self.secret))]
    }
@fn <Serialize for Credentials>::serialize : C15
@entry
    proof { crate::lits::lens(); IDENTIFIER__val(); SECRET__val(); }
//## elsewhere
@item impl <Default for Options>
    open spec fn is_dfl(r: &Self) -> bool { r.callback.is_none() && r.verifier.is_none() && r.nonce.is_none() && r.timestamp.is_none() && !r.version }
@item impl <Default for Recorder>
    open spec fn is_dfl(r: &Self) -> bool { r.history@ == Seq::<Record>::empty() }
@item impl <Debug for HmacSha1__HmacSha1_fmt>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { @"HmacSha1" }
@fn <Debug for HmacSha1__HmacSha1_fmt>::fmt : C14
@item impl <Debug for Plaintext__Plaintext_fmt>
    open spec fn dbg(&self, o: crate::sx::fmt::Opts) -> B { @"Plaintext" }
@fn <Debug for Plaintext__Plaintext_fmt>::fmt : C14

