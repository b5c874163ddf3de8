//## The percent-encoding crate, as far as it is used: its own source is taken in as a part and held to these contracts.
@item mod dep_percent_encoding
use crate::sx::{fmt, slice, str};
use crate::sx::iter::Iterator;
use crate::pct::*;
broadcast use crate::sp::text0, crate::pct::ax_text_of;
pub use self::ascii_set::{AsciiSet, CONTROLS, NON_ALPHANUMERIC};
impl<'a> PercentEncode<'a> { pub open spec fn text(self) -> crate::B { pe(self.bytes@, *self.ascii_set) } }
@item mod dep_percent_encoding::ascii_set
use crate::pct::*;
use core::mem;
broadcast use crate::bits::bits;
@item type dep_percent_encoding::ascii_set::Chunk
@item const dep_percent_encoding::ascii_set::ASCII_RANGE_LEN
@item const dep_percent_encoding::ascii_set::BITS_PER_CHUNK
@raw percent-encoding sets
pub mod pct {
use vstd::prelude::*;
use vstd::string::*;
use crate::B;
use crate::sp::pct as pct1;
pub use crate::dep_percent_encoding::AsciiSet;
/// is `b` in the set with the given bits
pub open spec fn bit(m: Seq<u32>, b: u8) -> bool { m[b as int / 32] & (1u32 << ((b as int % 32) as usize)) != 0 }
/// what is escaped
pub open spec fn esc(b: u8, set: AsciiSet) -> bool { b >= 128 || set.has(b) }
pub open spec fn pe1(b: u8, set: AsciiSet) -> B { if esc(b, set) { pct1(b) } else { seq![b] } }
pub open spec fn pe(s: B, set: AsciiSet) -> B decreases s.len() { if s.len() == 0 { Seq::empty() } else { pe1(s[0], set) + pe(s.drop_first(), set) } }
/// how much of `s` from `i` on stays as it is
pub open spec fn run(s: B, set: AsciiSet, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && !esc(s[i], set) { run(s, set, i + 1) } else { i } }
pub proof fn lemma_run(s: B, set: AsciiSet, i: int)
    requires 0 <= i <= s.len()
    ensures i <= run(s, set, i) <= s.len(), forall|j: int| i <= j < run(s, set, i) ==> !esc(#[trigger] s[j], set), run(s, set, i) < s.len() ==> esc(s[run(s, set, i)], set)
    decreases s.len() - i
{ if i < s.len() && !esc(s[i], set) { lemma_run(s, set, i + 1); } }
pub proof fn lemma_run_is(s: B, set: AsciiSet, i: int, n: int)
    requires 0 <= i <= n <= s.len(), forall|j: int| i <= j < n ==> !esc(#[trigger] s[j], set), n < s.len() ==> esc(s[n], set)
    ensures run(s, set, i) == n
    decreases n - i
{ if i < n { lemma_run_is(s, set, i + 1, n); } }
/// the text with the given bytes
pub uninterp spec fn text_of(b: B) -> &'static str;
pub broadcast axiom fn ax_text_of(s: &str) ensures #[trigger] text_of(s.spec_bytes()) == s;
pub open spec fn head(s: B, set: AsciiSet) -> int { if esc(s[0], set) { 1 } else { run(s, set, 1) } }
pub open spec fn first(s: B, set: AsciiSet) -> B { if esc(s[0], set) { pct1(s[0]) } else { s.subrange(0, run(s, set, 1)) } }
/// the pieces the text is handed out in
pub open spec fn pieces(s: B, set: AsciiSet) -> Seq<&'static str> decreases s.len() {
    if s.len() == 0 || !(1 <= head(s, set) <= s.len()) { Seq::empty() } else { seq![text_of(first(s, set))] + pieces(s.subrange(head(s, set), s.len() as int), set) }
}
pub proof fn lemma_plain(s: B, set: AsciiSet, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> !esc(#[trigger] s[j], set)
    ensures pe(s, set) == s.subrange(0, n) + pe(s.subrange(n, s.len() as int), set)
    decreases n
{
    if n == 0 { assert(s.subrange(0, s.len() as int) =~= s); assert(s.subrange(0, 0) + pe(s, set) =~= pe(s, set)); }
    else {
        let t = s.drop_first();
        assert forall|j: int| 0 <= j < n - 1 implies !esc(#[trigger] t[j], set) by { assert(t[j] == s[j + 1]); }
        lemma_plain(t, set, n - 1);
        assert(t.subrange(n - 1, t.len() as int) =~= s.subrange(n, s.len() as int));
        assert(seq![s[0]] + (t.subrange(0, n - 1) + pe(s.subrange(n, s.len() as int), set)) =~= s.subrange(0, n) + pe(s.subrange(n, s.len() as int), set));
    }
}
/// the first piece, and what is left
pub proof fn lemma_first(s: B, set: AsciiSet)
    requires s.len() > 0
    ensures 1 <= head(s, set) <= s.len(), pe(s, set) == first(s, set) + pe(s.subrange(head(s, set), s.len() as int), set),
        pieces(s, set) == seq![text_of(first(s, set))] + pieces(s.subrange(head(s, set), s.len() as int), set),
{
    lemma_run(s, set, 1);
    let h = head(s, set);
    assert(pieces(s, set) == seq![text_of(first(s, set))] + pieces(s.subrange(h, s.len() as int), set));
    if esc(s[0], set) { assert(s.drop_first() =~= s.subrange(1, s.len() as int)); }
    else { lemma_plain(s, set, run(s, set, 1)); }
}
pub broadcast axiom fn ax_text_ascii(b: B) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 ensures #[trigger] text_of(b).spec_bytes() == b;
/// the pieces, joined
pub open spec fn joined(p: Seq<&'static str>) -> B decreases p.len() { if p.len() == 0 { Seq::empty() } else { p[0].spec_bytes() + joined(p.drop_first()) } }
pub proof fn lemma_joined(s: B, set: AsciiSet) ensures joined(pieces(s, set)) == pe(s, set) decreases s.len()
{
    if s.len() > 0 {
        lemma_first(s, set);
        let (f, t) = (first(s, set), s.subrange(head(s, set), s.len() as int));
        lemma_joined(t, set);
        lemma_run(s, set, 1);
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] < 128 by { if !esc(s[0], set) { assert(f[i] == s[i]); } }
        ax_text_ascii(f);
        assert(pieces(s, set).drop_first() =~= pieces(t, set));
        assert(pieces(s, set)[0] == text_of(f));
    }
}
pub proof fn lemma_step(t: B, c: &'static str, rest: Seq<&'static str>)
    ensures forall|p: Seq<&'static str>| p.len() > 0 && p[0] == c && p.drop_first() == rest ==> t + #[trigger] joined(p) == (t + c.spec_bytes()) + joined(rest)
{ assert(t + (c.spec_bytes() + joined(rest)) =~= (t + c.spec_bytes()) + joined(rest)); }
pub open spec fn chk_tab(t: B, n: nat) -> bool decreases n {
    n == 0 || (t[3 * (n - 1)] == 37 && t[3 * (n - 1) + 1] == crate::sp::hexd(((n - 1) / 16) as u8) && t[3 * (n - 1) + 2] == crate::sp::hexd(((n - 1) % 16) as u8) && chk_tab(t, (n - 1) as nat))
}
pub proof fn lemma_tab_at(t: B, n: nat, b: int) requires chk_tab(t, n), 0 <= b < n <= 256
    ensures t[3 * b] == 37, t[3 * b + 1] == crate::sp::hexd((b / 16) as u8), t[3 * b + 2] == crate::sp::hexd((b % 16) as u8) decreases n
{ if b < n - 1 { lemma_tab_at(t, (n - 1) as nat, b); } }
}
@raw bits
pub mod bits {
use vstd::prelude::*;
pub broadcast proof fn lemma_set(m: u32, i: usize, j: usize) requires i < 32, j < 32 ensures #[trigger] ((m | (1u32 << j)) & (1u32 << i)) != 0 <==> i == j || m & (1u32 << i) != 0
{ assert(((m | (1u32 << j)) & (1u32 << i)) != 0 <==> i == j || m & (1u32 << i) != 0) by(bit_vector) requires i < 32, j < 32; }
pub broadcast proof fn lemma_clear(m: u32, i: usize, j: usize) requires i < 32, j < 32 ensures #[trigger] ((m & !(1u32 << j)) & (1u32 << i)) != 0 <==> i != j && m & (1u32 << i) != 0
{ assert(((m & !(1u32 << j)) & (1u32 << i)) != 0 <==> i != j && m & (1u32 << i) != 0) by(bit_vector) requires i < 32, j < 32; }
pub broadcast proof fn lemma_word(m: u32, i: usize) requires i < 32
    ensures #![trigger (m & (1u32 << i))] m == 0 ==> m & (1u32 << i) == 0, m == 0xffff_ffff ==> m & (1u32 << i) != 0, m == 0x8000_0000 ==> (m & (1u32 << i) != 0 <==> i == 31)
{
    assert(0u32 & (1u32 << i) == 0) by(bit_vector);
    assert(0xffff_ffffu32 & (1u32 << i) != 0) by(bit_vector) requires i < 32;
    assert(0x8000_0000u32 & (1u32 << i) != 0 <==> i == 31) by(bit_vector) requires i < 32;
}
pub broadcast proof fn lemma_not0(m: u32) ensures m == 0 ==> #[trigger] !m == 0xffff_ffff { assert(!0u32 == 0xffff_ffff) by(bit_vector); }
pub broadcast proof fn lemma_top(i: u32) ensures i == 31 ==> #[trigger] (1u32 << i) == 0x8000_0000 { assert(1u32 << 31u32 == 0x8000_0000) by(bit_vector); }
pub broadcast group bits { lemma_set, lemma_clear, lemma_word, lemma_not0, lemma_top }
}
@item struct dep_percent_encoding::ascii_set::AsciiSet
@item impl dep_percent_encoding::ascii_set::AsciiSet
    pub open spec fn has(self, b: u8) -> bool { bit(self.mask@, b) }
@fn dep_percent_encoding::ascii_set::AsciiSet::contains : C05
    requires byte < 128,
    ensures r == self.has(byte),
@fn dep_percent_encoding::ascii_set::AsciiSet::should_percent_encode : C05
    ensures r == esc(byte, *self),
@fn dep_percent_encoding::ascii_set::AsciiSet::add : C05
    requires byte < 128,
    ensures forall|b: u8| b < 128 ==> #[trigger] r.has(b) == (b == byte || self.has(b)),
@fn dep_percent_encoding::ascii_set::AsciiSet::remove : C05
    requires byte < 128,
    ensures forall|b: u8| b < 128 ==> #[trigger] r.has(b) == (b != byte && self.has(b)),
@item const dep_percent_encoding::ascii_set::CONTROLS
pub open spec fn is_controls(r: AsciiSet) -> bool { forall|b: u8| b < 128 ==> #[trigger] r.has(b) == (b < 0x20 || b == 0x7f) }
exec fn c05_controls() -> (r: AsciiSet) ensures is_controls(r) { $VALUE }
#[verifier::external_body] pub exec const CONTROLS: &'static AsciiSet ensures is_controls(*CONTROLS) { &AsciiSet { mask: [0; 4] } }
@item const dep_percent_encoding::ascii_set::NON_ALPHANUMERIC
/// every ASCII byte that is not a letter or a digit
pub open spec fn is_nonalnum(r: AsciiSet) -> bool { forall|b: u8| b < 128 ==> #[trigger] r.has(b) == !((0x30 <= b <= 0x39) || (0x41 <= b <= 0x5a) || (0x61 <= b <= 0x7a)) }
exec fn c05_non_alphanumeric() -> (r: AsciiSet) ensures is_nonalnum(r) { $VALUE }
#[verifier::external_body] pub exec const NON_ALPHANUMERIC: &'static AsciiSet ensures is_nonalnum(*NON_ALPHANUMERIC) { &AsciiSet { mask: [0; 4] } }
@item const dep_percent_encoding::ENC_TABLE__percent_encode_byte
#[verifier::opaque]
pub open spec fn enc_table() -> crate::B { seq![$BYTES] }
#[verifier::external_body]
pub exec const ENC_TABLE__percent_encode_byte: &'static [u8; 768] ensures ENC_TABLE__percent_encode_byte@ == enc_table() { &[0u8; 768] }
pub proof fn c05_enc_table(b: u8) ensures enc_table().len() == 768, enc_table().subrange(3 * b, 3 * b + 3) == crate::sp::pct(b)
{
    assert(chk_tab(enc_table(), 256) && enc_table().len() == 768) by(compute_only);
    lemma_tab_at(enc_table(), 256, b as int);
    assert(enc_table().subrange(3 * b, 3 * b + 3) =~= crate::sp::pct(b));
}
@fn dep_percent_encoding::percent_encode_byte : C05
    ensures r.spec_bytes() == crate::sp::pct(byte),
@entry
    proof { c05_enc_table(byte); }
@item struct dep_percent_encoding::PercentEncode
@fn dep_percent_encoding::percent_encode : C05
    ensures r.text() == pe(input@, *ascii_set),
@fn dep_percent_encoding::utf8_percent_encode : C05
    ensures r.text() == pe(input.spec_bytes(), *ascii_set),
@item impl dep_percent_encoding::<Iterator for PercentEncode>
    open spec fn rem(&self) -> Seq<&'a str> { pieces(self.bytes@, *self.ascii_set) }
@fn dep_percent_encoding::<Iterator for PercentEncode>::next : C05
@entry
    let ghost vx_s = self.bytes@;
    let ghost vx_e = *self.ascii_set;
    proof { if vx_s.len() > 0 { lemma_run(vx_s, vx_e, 1); lemma_first(vx_s, vx_e); assert(vx_s.drop_first() =~= vx_s.subrange(1, vx_s.len() as int)); assert(vx_s.subrange(0, vx_s.len() as int) =~= vx_s); let p = pieces(vx_s, vx_e); assert(p.drop_first() =~= pieces(vx_s.subrange(head(vx_s, vx_e), vx_s.len() as int), vx_e)); } }
@loop 0
    invariant
        self.bytes@ == vx_s, vx_s.len() <= usize::MAX, *self.ascii_set == vx_e, vx_s.len() > 0, !esc(vx_s[0], vx_e),
        *old(self).ascii_set == vx_e, old(self).bytes@ == vx_s,
        vx_init0.len() == vx_s.len() - 1, forall|k: int| 0 <= k < vx_init0.len() ==> (#[trigger] vx_init0[k]).0 == k && *vx_init0[k].1 == vx_s[k + 1],
        vx_it0.rem().len() <= vx_init0.len(), vx_it0.rem() =~= vx_init0.subrange(vx_init0.len() - vx_it0.rem().len(), vx_init0.len() as int),
        forall|j: int| 1 <= j < vx_s.len() - vx_it0.rem().len() ==> !esc(#[trigger] vx_s[j], vx_e),
        1 <= run(vx_s, vx_e, 1) <= vx_s.len(), forall|j: int| 1 <= j < run(vx_s, vx_e, 1) ==> !esc(#[trigger] vx_s[j], vx_e), run(vx_s, vx_e, 1) < vx_s.len() ==> esc(vx_s[run(vx_s, vx_e, 1)], vx_e),
        pieces(vx_s, vx_e) == seq![text_of(first(vx_s, vx_e))] + pieces(vx_s.subrange(head(vx_s, vx_e), vx_s.len() as int), vx_e),
        vx_s.subrange(0, vx_s.len() as int) == vx_s,
        pieces(vx_s, vx_e).drop_first() == pieces(vx_s.subrange(head(vx_s, vx_e), vx_s.len() as int), vx_e),
    ensures vx_it0.rem().len() == 0,
    decreases vx_it0.rem().len(),
@fn dep_percent_encoding::<Iterator for PercentEncode>::size_hint : skip
@item impl dep_percent_encoding::<Display for PercentEncode>
    open spec fn disp(&self) -> crate::B { self.text() }
@fn dep_percent_encoding::<Display for PercentEncode>::fmt : C05
@entry
    let ghost vx_f = *formatter;
    proof { lemma_joined(self.bytes@, *self.ascii_set); }
@loop 0
    invariant
        formatter.text() + joined(vx_it0.rem()) == vx_f.text() + self.text(), formatter.opts() == vx_f.opts(), *final(formatter) == *final(old(formatter)), vx_f == *old(formatter), self.text() == pe(self.bytes@, *self.ascii_set),
    ensures vx_it0.rem().len() == 0,
    decreases vx_it0.rem().len(),
@before formatter . write_str
    proof { lemma_step(formatter.text(), c, vx_it0.rem()); }
@exit
    proof { assert(formatter.text() + Seq::<u8>::empty() =~= formatter.text()); assert(formatter.opts() == old(formatter).opts()); assert(formatter.text() == vx_f.text() + self.text()); assert(self.disp() == self.text());assert(formatter.text() == old(formatter).text() + self.disp()); }
