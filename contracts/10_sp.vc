//## The specification vocabulary.
@raw spec
pub mod sp {
use vstd::prelude::*;
use vstd::string::*;
pub use crate::B;
use core::cmp::Ordering;
pub open spec fn same<T: ?Sized>(a: &T, b: &T) -> bool { a == b }
// ---- text
pub uninterp spec fn bytes_of(s: String) -> B;
pub uninterp spec fn str_of(s: String) -> &'static str;
pub broadcast axiom fn ax_str_of(s: String) ensures (#[trigger] str_of(s)).spec_bytes() == bytes_of(s);
/// the text with the given bytes
pub uninterp spec fn string_of(b: B) -> String;
pub broadcast axiom fn ax_string_of(s: &str) ensures bytes_of(#[trigger] string_of(s.spec_bytes())) == s.spec_bytes();
/// a character's bytes
#[verifier::opaque]
pub open spec fn chb(c: char) -> B { vstd::utf8::encode_utf8(seq![c]) }
pub proof fn lemma_char(c: char) requires (c as u32) < 128 ensures chb(c) == seq![c as u8] { reveal(chb); vstd::utf8::is_ascii_chars_encode_utf8(seq![c]); assert(chb(c) =~= seq![c as u8]); }
pub uninterp spec fn slice_of<T>(v: Vec<T>) -> &'static [T];
pub broadcast axiom fn ax_slice_of<T>(v: Vec<T>) ensures (#[trigger] slice_of(v))@ == v@;
pub uninterp spec fn slice_of_array<const N: usize>(v: [u8; N]) -> &'static [u8];
pub broadcast axiom fn ax_slice_of_array<const N: usize>(v: [u8; N]) ensures (#[trigger] slice_of_array(v))@ == v@;
pub uninterp spec fn slice_of_ga<N>(v: crate::sx::digest::generic_array::GenericArray<u8, N>) -> &'static [u8];
pub broadcast axiom fn ax_slice_of_ga<N: crate::sx::digest::generic_array::ArrayLength>(v: crate::sx::digest::generic_array::GenericArray<u8, N>) ensures (#[trigger] slice_of_ga(v))@ == v@;
/// decimal digits
pub open spec fn dec(n: nat) -> B decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
/// byte-wise lexicographic order, which is the order of `str`
pub open spec fn blex(a: B, b: B) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { blex(a.drop_first(), b.drop_first()) }
}
pub open spec fn ble(a: B, b: B) -> bool { blex(a, b) != Ordering::Greater }
// ---- RFC 3986 encoding
pub open spec fn unreserved(b: u8) -> bool { (0x41 <= b <= 0x5a) || (0x61 <= b <= 0x7a) || (0x30 <= b <= 0x39) || b == 0x2d || b == 0x2e || b == 0x5f || b == 0x7e }
pub open spec fn hexd(n: u8) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn pct(b: u8) -> B { seq![37u8, hexd(b / 16), hexd(b % 16)] }
pub open spec fn enc1(b: u8) -> B { if unreserved(b) { seq![b] } else { pct(b) } }
pub open spec fn enc(s: B) -> B decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc(s.drop_last()) + enc1(s.last()) } }
pub open spec fn enc2(s: B) -> B { enc(enc(s)) }
pub broadcast proof fn lemma_enc_add(a: B, b: B) ensures #[trigger] enc(a + b) == enc(a) + enc(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(enc(a) + enc(b) =~= enc(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_enc_add(a, b.drop_last());
        assert(enc(a) + (enc(b.drop_last()) + enc1(b.last())) =~= (enc(a) + enc(b.drop_last())) + enc1(b.last()));
    }
}
pub broadcast proof fn lemma_enc0() ensures #[trigger] enc(Seq::<u8>::empty()) == Seq::<u8>::empty() {}
pub proof fn lemma_enc_one(b: u8) ensures enc(seq![b]) == enc1(b) { assert(seq![b].drop_last() =~= Seq::<u8>::empty()); reveal_with_fuel(enc, 2); assert(Seq::<u8>::empty() + enc1(b) =~= enc1(b)); }
pub proof fn lemma_enc_plain(s: B) requires forall|i: int| 0 <= i < s.len() ==> unreserved(#[trigger] s[i]) ensures enc(s) == s decreases s.len()
{ if s.len() > 0 { lemma_enc_plain(s.drop_last()); assert(s.drop_last() + seq![s.last()] =~= s); } else { assert(s =~= Seq::<u8>::empty()); } }
pub broadcast proof fn lemma_assoc(a: B, b: B, c: B) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn lemma_add0(a: B) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn lemma_0add(a: B) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }
/// without associativity, which makes proofs about loops diverge
pub broadcast group text0 { crate::cmpx::cmps, crate::lits::cats, lemma_enc0, lemma_add0, lemma_0add, ax_str_of, ax_string_of, ax_slice_of, ax_slice_of_array, ax_slice_of_ga, crate::sx::digest::generic_array::ax_len, crate::sx::fmt::lemma_xf0, crate::sx::fmt::lemma_adm, crate::sx::fmt::lemma_frame, crate::sx::fmt::lemma_frame0 }
pub broadcast group text { crate::cmpx::cmps, crate::lits::cats, lemma_enc_add, lemma_enc0, lemma_assoc, lemma_add0, lemma_0add, ax_str_of, ax_string_of, ax_slice_of, ax_slice_of_array, ax_slice_of_ga, crate::sx::digest::generic_array::ax_len,
    crate::sx::fmt::lemma_xf, crate::sx::fmt::lemma_xf0, crate::sx::fmt::lemma_adm, crate::sx::fmt::lemma_frame, crate::sx::fmt::lemma_frame0 }
}
