//## Signature methods.
@raw signing
pub mod sg {
use vstd::prelude::*;
use vstd::string::*;
use crate::B;
use crate::sp::*;
/// one call on a `Sign`, with the texts it is given
pub enum SEv { Method(B), Uri(B), Param(B, B), Delim, Callback(B), ConsumerKey(B), Nonce(B), SigMethod, Timestamp(u64), Token(B), Verifier(B), Version }
/// `k%3Dv`
pub open spec fn kv(k: B, v: B) -> B { k + @"%3D" + v }
/// what a call adds to the signature base string (RFC 5849 section 3.4.1), given that the texts are encoded as `Sign` documents
pub open spec fn sev_text(name: B, e: SEv) -> B {
    match e {
        SEv::Method(m) => m + @"&",
        SEv::Uri(u) => u + @"&",
        SEv::Param(k, v) => kv(k, v),
        SEv::Delim => @"%26",
        SEv::Callback(v) => kv(@"oauth_callback", v),
        SEv::ConsumerKey(v) => kv(@"oauth_consumer_key", v),
        SEv::Nonce(v) => kv(@"oauth_nonce", v),
        SEv::SigMethod => kv(@"oauth_signature_method", name),
        SEv::Timestamp(t) => kv(@"oauth_timestamp", dec(t as nat)),
        SEv::Token(v) => kv(@"oauth_token", v),
        SEv::Verifier(v) => kv(@"oauth_verifier", v),
        SEv::Version => kv(@"oauth_version", @"1.0"),
    }
}
/// the signing key of RFC 5849 section 3.4.2
pub open spec fn sigkey(cs: B, ts: Option<B>) -> B { enc(cs) + @"&" + (match ts { Some(t) => enc(t), None => Seq::empty() }) }
pub open spec fn ob(o: Option<&str>) -> Option<B> { match o { Some(s) => Some(s.spec_bytes()), None => None } }
}
@item mod oauth1_request::signature_method
use crate::sg::*;
broadcast use crate::sp::text;
@item mod oauth1_request::signature_method::digest_common
use crate::sg::*;
broadcast use crate::sp::text;
@item mod oauth1_request::signature_method::hmac_sha1
use crate::sg::*;
broadcast use crate::sp::text;
@item mod oauth1_request::signature_method::plaintext
use crate::sg::*;
broadcast use crate::sp::text;
@item mod oauth1_request::signature_method::either
use crate::sg::*;
@item mod oauth1_request::signature_method::rsa_sha1_06
use crate::sg::*;
broadcast use crate::sp::text;
@item mod oauth1_request::signature_method::rsa_sha1_09
use crate::sg::*;
broadcast use crate::sp::text;
@item trait SignatureMethod
    /// `out` is a fresh signing state for these secrets
    spec fn init(self, cs: B, ts: Option<B>, out: &Self::Sign) -> bool;
@fn SignatureMethod::sign_with
    ensures self.init(client_secret.spec_bytes(), crate::sg::ob(token_secret), &r),
@item trait Sign
    spec fn sstep(pre: &Self, e: crate::sg::SEv, post: &Self) -> bool;
    spec fn sfin(pre: &Self, sig: &Self::Signature) -> bool;
    spec fn s_name(&self) -> B;
    spec fn s_nonce(&self) -> bool;
    spec fn s_ts(&self) -> bool;
@fn Sign::get_signature_method_name
    ensures r.spec_bytes() == self.s_name(),
@fn Sign::request_method
    ensures Self::sstep(old(self), crate::sg::SEv::Method(method.spec_bytes()), final(self)),
@fn Sign::uri
    ensures Self::sstep(old(self), crate::sg::SEv::Uri(uri.disp()), final(self)),
@fn Sign::parameter
    ensures Self::sstep(old(self), crate::sg::SEv::Param(key.spec_bytes(), value.disp()), final(self)),
@fn Sign::delimiter
    ensures Self::sstep(old(self), crate::sg::SEv::Delim, final(self)),
@fn Sign::end
    ensures Self::sfin(&self, &r),
@fn Sign::callback
    ensures Self::sstep(old(self), crate::sg::SEv::Callback(value.disp()), final(self)),
@fn Sign::consumer_key
    ensures Self::sstep(old(self), crate::sg::SEv::ConsumerKey(value.disp()), final(self)),
@fn Sign::nonce
    ensures Self::sstep(old(self), crate::sg::SEv::Nonce(value.disp()), final(self)),
@fn Sign::use_nonce
    ensures r == self.s_nonce(),
@fn Sign::signature_method
    ensures Self::sstep(old(self), crate::sg::SEv::SigMethod, final(self)),
@fn Sign::timestamp
    ensures Self::sstep(old(self), crate::sg::SEv::Timestamp(value), final(self)),
@fn Sign::use_timestamp
    ensures r == self.s_ts(),
@fn Sign::token
    ensures Self::sstep(old(self), crate::sg::SEv::Token(value.disp()), final(self)),
@fn Sign::verifier
    ensures Self::sstep(old(self), crate::sg::SEv::Verifier(value.disp()), final(self)),
@fn Sign::version
    ensures Self::sstep(old(self), crate::sg::SEv::Version, final(self)),
@fn signature_method::write_signing_key : C06 C07
    ensures r.is_ok() ==> final(dst).text() == old(dst).text() + W::xf(sigkey(client_secret.spec_bytes(), ob(token_secret))), old(dst).frame(final(dst)),
//## ---- digest based methods
@item impl <Display for Base64PercentEncodeDisplay>
    open spec fn disp(&self) -> B { enc(crate::sx::base64::b64(self.0.asr()@, false, true)) }
@fn <Display for Base64PercentEncodeDisplay>::fmt : C06 C07
@entry
    let ghost vx_g = self.disp();
@item impl <Write for UpdateWrite>
    open spec fn text(&self) -> B { (*self.0).input() }
    open spec fn xf(s: B) -> B { s }
    open spec fn adm(s: B) -> bool { true }
    #[verifier::prophetic]
    open spec fn frame(&self, o: &Self) -> bool { *final(self.0) == *final(o.0) && (*self.0).tag() == (*o.0).tag() }
    proof fn laws(a: B, b: B) {}
    proof fn frame_laws(a: &Self, b: &Self, c: &Self) {}
@fn <Write for UpdateWrite>::write_char : C01 C06 C07 optional
@fn <Write for UpdateWrite>::write_str : C01 C06 C07
@fn UpdateSign::request_method : C01 C06 C07
    ensures final(self).0.tag() == old(self).0.tag(), final(self).0.input() == old(self).0.input() + sev_text(Seq::empty(), SEv::Method(method.spec_bytes())),
@fn UpdateSign::uri : C01 C06 C07
    ensures final(self).0.tag() == old(self).0.tag(), final(self).0.input() == old(self).0.input() + sev_text(Seq::empty(), SEv::Uri(uri.disp())),
@fn UpdateSign::parameter : C01 C06 C07
    ensures final(self).0.tag() == old(self).0.tag(), final(self).0.input() == old(self).0.input() + sev_text(Seq::empty(), SEv::Param(key.spec_bytes(), value.disp())),
@fn UpdateSign::delimiter : C01 C06 C07
    ensures final(self).0.tag() == old(self).0.tag(), final(self).0.input() == old(self).0.input() + sev_text(Seq::empty(), SEv::Delim),
//## ---- HMAC-SHA1
@item impl SigningKey
    pub open spec fn key(&self) -> B { match *self { SigningKey::Key { buf, pos } => buf@.take(pos as int), SigningKey::Digest(d) => d.inp() } }
    pub open spec fn kinv(&self) -> bool { match *self { SigningKey::Key { buf, pos } => pos <= 64, SigningKey::Digest(d) => d.inp().len() > 64 } }
@fn SigningKey::new : C06
    ensures r.key() == Seq::<u8>::empty(), r.kinv(),
@fn SigningKey::write : C06 wrap
    ensures old(self).kinv() ==> final(self).kinv(), final(self).key() == old(self).key() + input@,
@fn SigningKey::into_hmac : C06
    ensures self.kinv() ==> crate::sx::hmac::hk(r.key()) == crate::sx::hmac::hk(self.key()) && r.inp() == Seq::<u8>::empty(),
@item impl <Write for SigningKey>
    open spec fn text(&self) -> B { self.key() }
    open spec fn xf(s: B) -> B { s }
    open spec fn adm(s: B) -> bool { true }
    #[verifier::prophetic]
    open spec fn frame(&self, o: &Self) -> bool { self.kinv() ==> o.kinv() }
    proof fn laws(a: B, b: B) {}
    proof fn frame_laws(a: &Self, b: &Self, c: &Self) {}
@fn <Write for SigningKey>::write_char : C06 optional
@fn <Write for SigningKey>::write_str : C06
@item impl <SignatureMethod for HmacSha1>
    open spec fn init(self, cs: B, ts: Option<B>, out: &HmacSha1Sign) -> bool { crate::sx::hmac::hk(out.inner.0.key()) == crate::sx::hmac::hk(sigkey(cs, ts)) && out.inner.0.inp() == Seq::<u8>::empty() }
@fn <SignatureMethod for HmacSha1>::sign_with : C06
@item impl <Sign for HmacSha1Sign>
    open spec fn sstep(pre: &Self, e: SEv, post: &Self) -> bool { post.inner.0.key() == pre.inner.0.key() && post.inner.0.inp() == pre.inner.0.inp() + sev_text(@"HMAC-SHA1", e) }
    open spec fn sfin(pre: &Self, sig: &HmacSha1Signature) -> bool { sig.disp() == enc(crate::sx::base64::b64(crate::sx::hmac::hmac_sha1(pre.inner.0.key(), pre.inner.0.inp()), false, true)) }
    open spec fn s_name(&self) -> B { @"HMAC-SHA1" }
    open spec fn s_nonce(&self) -> bool { true }
    open spec fn s_ts(&self) -> bool { true }
@fn <Sign for HmacSha1Sign>::* : C01 C06
@item impl <Display for HmacSha1Signature>
    open spec fn disp(&self) -> B { enc(crate::sx::base64::b64(self.inner.0@, false, true)) }
@fn <Display for HmacSha1Signature>::fmt : C06
//## ---- PLAINTEXT
@item impl <Write for PercentEncodeWrite>
    open spec fn text(&self) -> B { (*self.0).text() }
    open spec fn xf(s: B) -> B { W::xf(enc(s)) }
    open spec fn adm(s: B) -> bool { W::adm(enc(s)) }
    #[verifier::prophetic]
    open spec fn frame(&self, o: &Self) -> bool { *final(self.0) == *final(o.0) && (*self.0).frame(&*o.0) }
    proof fn laws(a: B, b: B) { W::laws(enc(a), enc(b)); }
    proof fn frame_laws(a: &Self, b: &Self, c: &Self) { W::frame_laws(&*a.0, &*b.0, &*c.0); }
@fn <Write for PercentEncodeWrite>::write_char : C07 optional
@fn <Write for PercentEncodeWrite>::write_str : C07
@item impl <Default for Plaintext>
    open spec fn is_dfl(r: &Self) -> bool { true }
@fn Plaintext::new : C07
@fn Plaintext::with_buf : C07
@fn <Clone for Plaintext>::clone : C07
@fn <Default for Plaintext>::default : C07
@item impl <SignatureMethod for Plaintext>
    open spec fn init(self, cs: B, ts: Option<B>, out: &PlaintextSign<W>) -> bool { exists|w: W| #[trigger] W::is_dfl(&w) && out.signing_key.text() == w.text() + W::xf(enc(sigkey(cs, ts))) }
@fn <SignatureMethod for Plaintext>::sign_with : C07
@item impl <Sign for PlaintextSign>
    open spec fn sstep(pre: &Self, e: SEv, post: &Self) -> bool { *post == *pre }
    open spec fn sfin(pre: &Self, sig: &W) -> bool { *sig == pre.signing_key }
    open spec fn s_name(&self) -> B { @"PLAINTEXT" }
    open spec fn s_nonce(&self) -> bool { true }
    open spec fn s_ts(&self) -> bool { true }
@fn <Sign for PlaintextSign>::* : C01 C07
//## ---- RSA-SHA1
@fn inner__RsaPrivateKey_as_ref : C07 external
    ensures r.key == *key,
@fn <AsRef<RsaSha1> for RsaPrivateKey>::as_ref : C07
@item impl <AsRef<RsaSha1> for RsaPrivateKey>
    open spec fn asr(&self) -> &RsaSha1 { &RsaSha1 { key: *self } }
@fn RsaSha1::new : C07
    ensures r.key == key,
@item impl <From<RsaPrivateKey> for RsaSha1>
    open spec fn from_rel(t: RsaPrivateKey, r: RsaSha1) -> bool { r.key == t }
@fn <From<RsaPrivateKey> for RsaSha1>::from : C07
@item impl <SignatureMethod for RsaSha1>
    open spec fn init(self, cs: B, ts: Option<B>, out: &RsaSha1Sign) -> bool { out.key == self.key && out.inner.0.inp() == Seq::<u8>::empty() }
@fn <SignatureMethod for RsaSha1>::sign_with : C07
@item impl <SignatureMethod for &RsaSha1>
    open spec fn init(self, cs: B, ts: Option<B>, out: &RsaSha1Sign<&'a RsaPrivateKey>) -> bool { *out.key == (*self).key && out.inner.0.inp() == Seq::<u8>::empty() }
@fn <SignatureMethod for &RsaSha1>::sign_with : C07
@item impl <Sign for RsaSha1Sign>
    open spec fn sstep(pre: &Self, e: SEv, post: &Self) -> bool { post.key == pre.key && post.inner.0.inp() == pre.inner.0.inp() + sev_text(@"RSA-SHA1", e) }
    open spec fn sfin(pre: &Self, sig: &RsaSha1Signature) -> bool { sig.disp() == enc(crate::sx::base64::b64(crate::sx::rsa_common::rsa_sha1(pre.key, crate::sx::sha1::sha1(pre.inner.0.inp())), false, true)) }
    open spec fn s_name(&self) -> B { @"RSA-SHA1" }
    open spec fn s_nonce(&self) -> bool { true }
    open spec fn s_ts(&self) -> bool { true }
@fn <Sign for RsaSha1Sign>::* : C01 C07
@item impl <Sign for RsaSha1Sign<&RsaPrivateKey>>
    open spec fn sstep(pre: &Self, e: SEv, post: &Self) -> bool { post.key == pre.key && post.inner.0.inp() == pre.inner.0.inp() + sev_text(@"RSA-SHA1", e) }
    open spec fn sfin(pre: &Self, sig: &RsaSha1Signature) -> bool { sig.disp() == enc(crate::sx::base64::b64(crate::sx::rsa_common::rsa_sha1(*pre.key, crate::sx::sha1::sha1(pre.inner.0.inp())), false, true)) }
    open spec fn s_name(&self) -> B { @"RSA-SHA1" }
    open spec fn s_nonce(&self) -> bool { true }
    open spec fn s_ts(&self) -> bool { true }
@fn <Sign for RsaSha1Sign<&RsaPrivateKey>>::* : C01 C07
@item impl <Display for RsaSha1Signature>
    open spec fn disp(&self) -> B { enc(crate::sx::base64::b64(self.inner.0@, false, true)) }
@fn <Display for RsaSha1Signature>::fmt : C07
@fn rsa_sha1_06::new_pkcs1v15_sign : C07
    ensures r.sch() == crate::sx::rsa_common::Scheme::Pkcs1v15Sha1,
@fn rsa_sha1_09::new_pkcs1v15_sign : C07
    ensures r.sch() == crate::sx::rsa_common::Scheme::Pkcs1v15Sha1,
//## ---- either
@item impl <SignatureMethod for Either>
    open spec fn init(self, cs: B, ts: Option<B>, out: &Either<L::Sign, R::Sign>) -> bool {
        match (self, *out) { (Either::Left(m), Either::Left(s)) => m.init(cs, ts, &s), (Either::Right(m), Either::Right(s)) => m.init(cs, ts, &s), _ => false }
    }
@fn <SignatureMethod for Either>::sign_with : C08
@item impl <Sign for Either>
    open spec fn sstep(pre: &Self, e: SEv, post: &Self) -> bool {
        match (*pre, *post) { (Either::Left(a), Either::Left(b)) => L::sstep(&a, e, &b), (Either::Right(a), Either::Right(b)) => R::sstep(&a, e, &b), _ => false }
    }
    open spec fn sfin(pre: &Self, sig: &Either<L::Signature, R::Signature>) -> bool {
        match (*pre, *sig) { (Either::Left(a), Either::Left(s)) => L::sfin(&a, &s), (Either::Right(a), Either::Right(s)) => R::sfin(&a, &s), _ => false }
    }
    open spec fn s_name(&self) -> B { match *self { Either::Left(a) => a.s_name(), Either::Right(a) => a.s_name() } }
    open spec fn s_nonce(&self) -> bool { match *self { Either::Left(a) => a.s_nonce(), Either::Right(a) => a.s_nonce() } }
    open spec fn s_ts(&self) -> bool { match *self { Either::Left(a) => a.s_ts(), Either::Right(a) => a.s_ts() } }
@fn <Sign for Either>::* : C08
