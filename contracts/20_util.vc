@item mod oauth1_request::util::oauth_parameter
broadcast use crate::sp::text;
@item mod oauth1_request::util::percent_encoding
use crate::pel::*;
broadcast use crate::sp::text0, crate::pel::pe;
@raw derived equality of OAuthParameter
//## assumed: the derived PartialEq of a field-less enum is equality of variants
impl core::cmp::PartialEq for crate::oauth1_request::util::oauth_parameter::OAuthParameter { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for crate::oauth1_request::util::oauth_parameter::OAuthParameter {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
@raw oauth parameter names
pub mod slots {
use vstd::prelude::*;
use crate::oauth1_request::util::oauth_parameter::OAuthParameter;
pub open spec fn slot_name(p: OAuthParameter) -> Seq<u8> {
    match p {
        OAuthParameter::Callback => @"oauth_callback", OAuthParameter::ConsumerKey => @"oauth_consumer_key", OAuthParameter::Nonce => @"oauth_nonce",
        OAuthParameter::SignatureMethod => @"oauth_signature_method", OAuthParameter::Timestamp => @"oauth_timestamp", OAuthParameter::Token => @"oauth_token",
        OAuthParameter::Verifier => @"oauth_verifier", OAuthParameter::Version => @"oauth_version", OAuthParameter::None => Seq::empty(),
    }
}
pub open spec fn slot_no(p: OAuthParameter) -> int {
    match p { OAuthParameter::Callback => 0, OAuthParameter::ConsumerKey => 1, OAuthParameter::Nonce => 2, OAuthParameter::SignatureMethod => 3,
        OAuthParameter::Timestamp => 4, OAuthParameter::Token => 5, OAuthParameter::Verifier => 6, OAuthParameter::Version => 7, OAuthParameter::None => 8 }
}
pub open spec fn slot_next(p: OAuthParameter) -> OAuthParameter {
    match p { OAuthParameter::Callback => OAuthParameter::ConsumerKey, OAuthParameter::ConsumerKey => OAuthParameter::Nonce, OAuthParameter::Nonce => OAuthParameter::SignatureMethod,
        OAuthParameter::SignatureMethod => OAuthParameter::Timestamp, OAuthParameter::Timestamp => OAuthParameter::Token, OAuthParameter::Token => OAuthParameter::Verifier,
        OAuthParameter::Verifier => OAuthParameter::Version, OAuthParameter::Version => OAuthParameter::None, OAuthParameter::None => OAuthParameter::Callback }
}
}
@fn oauth1_request::util::oauth_parameter::OAuthParameter::next : C01 C09 C16
    ensures self != OAuthParameter::None ==> r == crate::slots::slot_next(self),
@panic 0
    assert(self == OAuthParameter::None);
@fn oauth1_request::util::oauth_parameter::OAuthParameter::as_str : C01 C09 C16
    ensures self == OAuthParameter::None ==> r.is_none(), self != OAuthParameter::None ==> r.is_some() && r.unwrap().spec_bytes() == crate::slots::slot_name(self),
@item impl oauth1_request::util::oauth_parameter::<Default for OAuthParameter>
    open spec fn is_dfl(r: &Self) -> bool { *r == OAuthParameter::Callback }
@fn oauth1_request::util::oauth_parameter::<Default for OAuthParameter>::default : C01 C09 C16
@item impl oauth1_request::util::oauth_parameter::<PartialEq<str> for OAuthParameter>
    open spec fn eqv(&self, o: &str) -> bool { *self != OAuthParameter::None && crate::slots::slot_name(*self) == o.spec_bytes() }
@fn oauth1_request::util::oauth_parameter::<PartialEq<str> for OAuthParameter>::eq : C09
@subst t == s ==>> crate::sx::cmp::eqd(t, s)
@item impl oauth1_request::util::oauth_parameter::<PartialOrd<str> for OAuthParameter>
    open spec fn pcmp(&self, o: &str) -> Option<Ordering> { if *self == OAuthParameter::None { Some(Ordering::Greater) } else { Some(blex(crate::slots::slot_name(*self), o.spec_bytes())) } }
@fn oauth1_request::util::oauth_parameter::<PartialOrd<str> for OAuthParameter>::partial_cmp : C01 C09 C16
@fn OAuthParameter::serialize : C01 C09 C16
    requires self != OAuthParameter::None,
    ensures S::step(old(serializer), crate::ev::Ev::Slot(self), final(serializer)),
@panic 0
    assert(self == OAuthParameter::None);
//## ---- percent encoding
@item impl oauth1_request::util::percent_encoding::<Display for DoublePercentEncode>
    open spec fn disp(&self) -> B { enc2(self.0.disp()) }
@item impl oauth1_request::util::percent_encoding::<Display for PercentEncode>
    open spec fn disp(&self) -> B { enc(self.0.disp()) }
@item impl <Write for Adapter__DoublePercentEncode_fmt>
    open spec fn text(&self) -> B { self.0.text() }
    open spec fn xf(s: B) -> B { enc2(s) }
    open spec fn adm(s: B) -> bool { true }
    #[verifier::prophetic]
    open spec fn frame(&self, o: &Self) -> bool { *final(self.0) == *final(o.0) && (*self.0).opts() == (*o.0).opts() }
    proof fn laws(a: B, b: B) { lemma_enc_add(a, b); lemma_enc_add(enc(a), enc(b)); }
    proof fn frame_laws(a: &Self, b: &Self, c: &Self) {}
@item impl <Write for Adapter__PercentEncode_fmt>
    open spec fn text(&self) -> B { self.0.text() }
    open spec fn xf(s: B) -> B { enc(s) }
    open spec fn adm(s: B) -> bool { true }
    #[verifier::prophetic]
    open spec fn frame(&self, o: &Self) -> bool { *final(self.0) == *final(o.0) && (*self.0).opts() == (*o.0).opts() }
    proof fn laws(a: B, b: B) { lemma_enc_add(a, b); lemma_enc_add(enc(a), enc(b)); }
    proof fn frame_laws(a: &Self, b: &Self, c: &Self) {}
@raw percent encoding lemmas
pub mod pel {
use vstd::prelude::*;
use crate::B;
use crate::sp::*;
pub open spec fn twice_pct(b: u8) -> B { seq![37u8, 50, 53, hexd(b / 16), hexd(b % 16)] }
pub proof fn lemma_hexd(n: u8) requires n < 16 ensures unreserved(hexd(n)) {}
pub broadcast proof fn lemma_twice_pct(b: u8) requires !unreserved(b) ensures #[trigger] twice_pct(b) == enc2(seq![b])
{
    lemma_enc_one(b);
    let (x, y) = (hexd(b / 16), hexd(b % 16));
    lemma_hexd(b / 16); lemma_hexd(b % 16);
    assert(pct(b) =~= seq![37u8] + (seq![x] + seq![y]));
    lemma_enc_add(seq![37u8], seq![x] + seq![y]);
    lemma_enc_add(seq![x], seq![y]);
    lemma_enc_one(37u8); lemma_enc_one(x); lemma_enc_one(y);
    assert(enc1(37u8) =~= seq![37u8, 50, 53]);
    assert(enc1(37u8) + (enc1(x) + enc1(y)) =~= seq![37u8, 50, 53, x, y]);
}
pub broadcast proof fn lemma_cut(t: B, s: B, i: int, j: int)
    requires 1 <= i <= j, j == s.len()
    ensures #![trigger t + enc2(s), s.subrange(i, j)] t + enc2(s) == ((t + enc2(s.subrange(0, i - 1))) + enc2(seq![s[i - 1]])) + enc2(s.subrange(i, j))
{
    let (a, b, c) = (s.subrange(0, i - 1), seq![s[i - 1]], s.subrange(i, j));
    assert(s =~= (a + b) + c);
    lemma_enc_add(a + b, c); lemma_enc_add(a, b);
    lemma_enc_add(enc(a) + enc(b), enc(c)); lemma_enc_add(enc(a), enc(b));
    assert(t + ((enc2(a) + enc2(b)) + enc2(c)) =~= ((t + enc2(a)) + enc2(b)) + enc2(c));
}
pub broadcast proof fn lemma_plain(s: B) requires forall|i: int| 0 <= i < s.len() ==> unreserved(#[trigger] s[i]) ensures #[trigger] enc2(s) == s { lemma_enc_plain(s); }
pub broadcast proof fn lemma_add_empty(t: B, s: B) requires s.len() == 0 ensures #[trigger] (t + s) == t { assert(t + s =~= t); }
/// what is not unreserved in RFC 3986
pub open spec fn is_reserved(r: crate::sx::percent_encoding::AsciiSet) -> bool { forall|b: u8| b < 128 ==> #[trigger] r.has(b) == !unreserved(b) }
pub broadcast proof fn lemma_pe(s: B, set: crate::sx::percent_encoding::AsciiSet) requires is_reserved(set) ensures #[trigger] crate::pct::pe(s, set) == enc(s) decreases s.len()
{
    if s.len() > 0 {
        lemma_pe(s.drop_first(), set);
        assert(s =~= seq![s[0]] + s.drop_first());
        lemma_enc_add(seq![s[0]], s.drop_first());
        lemma_enc_one(s[0]);
    }
}
pub broadcast group pe { lemma_add_empty, lemma_twice_pct, lemma_cut, lemma_plain }
}
@fn oauth1_request::util::percent_encoding::<Display for DoublePercentEncode>::fmt : C05 C01 C02 C03 C04
@fn oauth1_request::util::percent_encoding::<Display for PercentEncode>::fmt : C05 C01 C02 C03 C04
@fn <Write for Adapter__DoublePercentEncode_fmt>::write_char : C05 C01 C03 optional
@fn <Write for Adapter__DoublePercentEncode_fmt>::write_str : C05 C01 C03
@entry
    let ghost vx_g = Self::xf(s.spec_bytes());
@loop 0
    invariant
        self.0.text() + enc2(bytes@) == old(self).0.text() + enc2(s.spec_bytes()),
        *final(self.0) == *final(old(self).0), (*self.0).opts() == (*old(self).0).opts(),
    ensures bytes@.len() == 0,
    decreases bytes@.len(),
@closure 0
    |$0: &(usize, &u8)| -> (q: bool) ensures q == !unreserved(*($0).1)
@fn <Write for Adapter__PercentEncode_fmt>::write_char : C05 C01 C02 C03 C04 optional
@fn <Write for Adapter__PercentEncode_fmt>::write_str : C05 C01 C02 C03 C04
@fn util::percent_encoding::percent_encode : C05 C01 C02 C03 C04 C06 C07
    ensures r.disp() == enc(input.spec_bytes()),
@entry
    broadcast use crate::pel::lemma_pe;
@item const util::percent_encoding::RESERVED
exec fn c01_c02_c03_c04_c05_c06_c07_reserved() -> (r: AsciiSet) ensures crate::pel::is_reserved(r) { $VALUE }
#[verifier::external_body] pub exec const RESERVED: &'static AsciiSet ensures crate::pel::is_reserved(*RESERVED) { &AsciiSet { mask: [0; 4] } }
@item const util::percent_encoding::ENCODE__double_encode_byte
#[verifier::opaque]
pub open spec fn encode_table() -> B { seq![$BYTES] }
#[verifier::external_body]
pub exec const ENCODE__double_encode_byte: &'static [u8; 1280] ensures ENCODE__double_encode_byte@ == encode_table() { &[0u8; 1280] }
pub open spec fn chk_table(t: B, n: nat) -> bool decreases n {
    n == 0 || (t[5 * (n - 1)] == 37 && t[5 * (n - 1) + 1] == 50 && t[5 * (n - 1) + 2] == 53 && t[5 * (n - 1) + 3] == hexd(((n - 1) / 16) as u8) && t[5 * (n - 1) + 4] == hexd(((n - 1) % 16) as u8) && chk_table(t, (n - 1) as nat))
}
proof fn lemma_table_at(t: B, n: nat, b: int) requires chk_table(t, n), 0 <= b < n <= 256
    ensures t[5 * b] == 37, t[5 * b + 1] == 50, t[5 * b + 2] == 53, t[5 * b + 3] == hexd((b / 16) as u8), t[5 * b + 4] == hexd((b % 16) as u8) decreases n
{ if b < n - 1 { lemma_table_at(t, (n - 1) as nat, b); } }
pub proof fn c01_c03_c05_table(b: u8) ensures encode_table().len() == 1280, encode_table().subrange(5 * b, 5 * b + 5) == twice_pct(b)
{
    assert(chk_table(encode_table(), 256) && encode_table().len() == 1280) by(compute_only);
    lemma_table_at(encode_table(), 256, b as int);
    assert(encode_table().subrange(5 * b, 5 * b + 5) =~= twice_pct(b));
}
@fn util::percent_encoding::double_encode_byte : C05 C01 C03
    ensures r.spec_bytes() == twice_pct(b),
@entry
    proof { c01_c03_c05_table(b); }
@fn util::percent_encoding::should_percent_encode : C05 C01 C03
    ensures r == !unreserved(b),
@entry
    proof { c01_c03_c05_map(b); }
@fn util::percent_encoding::get_bit : C05 C01 C03
    requires i < bits@.len() * 32,
    ensures r == bit_of(bits@, i as int),
@item const util::percent_encoding::ENCODE_MAP
pub const ENCODE_MAP: BitArray = $INIT;
pub open spec fn bit_of(bits: Seq<u32>, i: int) -> bool { bits[i / 32] & (1u32 << ((i % 32) as usize)) != 0 }
pub open spec fn chk_map(m: Seq<u32>, n: nat) -> bool decreases n { n == 0 || (bit_of(m, n - 1) == !unreserved((n - 1) as u8) && chk_map(m, (n - 1) as nat)) }
proof fn lemma_map_at(m: Seq<u32>, n: nat, b: u8) requires chk_map(m, n), b < n <= 128 ensures bit_of(m, b as int) == !unreserved(b) decreases n
{ if b < n - 1 { lemma_map_at(m, (n - 1) as nat, b); } }
pub proof fn c01_c03_c05_map(b: u8) ensures b < 128 ==> bit_of(ENCODE_MAP@, b as int) == !unreserved(b)
{ assert(chk_map(ENCODE_MAP@, 128)) by(compute_only); if b < 128 { lemma_map_at(ENCODE_MAP@, 128, b); } }
