//## More of std, for code that is not there yet: what a changed function is likely to call.
@raw std
pub mod stdx {
use vstd::prelude::*;
use vstd::string::*;
use core::cmp::Ordering;
use crate::sx::iter::{Iterator, IntoIterator};
// ---- Option, Result
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a.is_some() { a } else { b });
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a.is_some() && b.is_none() { a } else if a.is_none() && b.is_some() { b } else { None });
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a.is_some() { b } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a.is_some() && b.is_some() { Some((a.unwrap(), b.unwrap())) } else { None });
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T>[ core::mem::replace ](a: &mut T, v: T) -> (r: T) ensures r == *old(a), *final(a) == v;
pub assume_specification<T: core::default::Default>[ core::mem::take ](a: &mut T) -> (r: T) ensures r == *old(a);
// ---- Ordering
pub assume_specification[ Ordering::is_lt ](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Less);
pub assume_specification[ Ordering::is_le ](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Greater);
pub assume_specification[ Ordering::is_gt ](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Greater);
pub assume_specification[ Ordering::is_ge ](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Less);
pub assume_specification[ Ordering::is_eq ](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
pub assume_specification[ Ordering::is_ne ](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
pub assume_specification[ Ordering::then ](a: Ordering, b: Ordering) -> (r: Ordering) ensures r == (if a == Ordering::Equal { b } else { a });
// ---- u8
pub assume_specification[ u8::is_ascii_digit ](a: &u8) -> (r: bool) ensures r == (0x30 <= *a <= 0x39);
pub assume_specification[ u8::is_ascii_alphabetic ](a: &u8) -> (r: bool) ensures r == ((0x41 <= *a <= 0x5a) || (0x61 <= *a <= 0x7a));
pub assume_specification[ u8::is_ascii_alphanumeric ](a: &u8) -> (r: bool) ensures r == ((0x30 <= *a <= 0x39) || (0x41 <= *a <= 0x5a) || (0x61 <= *a <= 0x7a));
pub assume_specification[ u8::is_ascii_uppercase ](a: &u8) -> (r: bool) ensures r == (0x41 <= *a <= 0x5a);
pub assume_specification[ u8::is_ascii_lowercase ](a: &u8) -> (r: bool) ensures r == (0x61 <= *a <= 0x7a);
pub assume_specification[ u8::is_ascii_control ](a: &u8) -> (r: bool) ensures r == (*a < 0x20 || *a == 0x7f);
pub assume_specification[ u8::is_ascii_punctuation ](a: &u8) -> (r: bool) ensures r == ((0x21 <= *a <= 0x2f) || (0x3a <= *a <= 0x40) || (0x5b <= *a <= 0x60) || (0x7b <= *a <= 0x7e));
pub assume_specification[ u8::is_ascii_whitespace ](a: &u8) -> (r: bool) ensures r == (*a == 0x20 || *a == 9 || *a == 10 || *a == 12 || *a == 13);
pub assume_specification[ char::is_ascii_digit ](a: &char) -> (r: bool) ensures r == (0x30 <= (*a as u32) <= 0x39);
pub assume_specification[ char::is_ascii_alphabetic ](a: &char) -> (r: bool) ensures r == ((0x41 <= (*a as u32) <= 0x5a) || (0x61 <= (*a as u32) <= 0x7a));
pub assume_specification[ char::is_ascii_alphanumeric ](a: &char) -> (r: bool) ensures r == ((0x30 <= (*a as u32) <= 0x39) || (0x41 <= (*a as u32) <= 0x5a) || (0x61 <= (*a as u32) <= 0x7a));
pub assume_specification[ char::is_ascii_uppercase ](a: &char) -> (r: bool) ensures r == (0x41 <= (*a as u32) <= 0x5a);
pub assume_specification[ char::is_ascii_lowercase ](a: &char) -> (r: bool) ensures r == (0x61 <= (*a as u32) <= 0x7a);
pub assume_specification[ char::is_ascii_control ](a: &char) -> (r: bool) ensures r == ((*a as u32) < 0x20 || (*a as u32) == 0x7f);
pub assume_specification[ char::is_ascii_punctuation ](a: &char) -> (r: bool) ensures r == ((0x21 <= (*a as u32) <= 0x2f) || (0x3a <= (*a as u32) <= 0x40) || (0x5b <= (*a as u32) <= 0x60) || (0x7b <= (*a as u32) <= 0x7e));
pub assume_specification[ char::is_ascii_whitespace ](a: &char) -> (r: bool) ensures r == ((*a as u32) == 0x20 || (*a as u32) == 9 || (*a as u32) == 10 || (*a as u32) == 12 || (*a as u32) == 13);
// ---- String
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == crate::sp::bytes_of(*s);
pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>) ensures r@ == crate::sp::bytes_of(s);
pub assume_specification[ String::reserve ](s: &mut String, n: usize) ensures crate::sp::bytes_of(*final(s)) == crate::sp::bytes_of(*old(s));
pub assume_specification[ String::capacity ](s: &String) -> usize;
pub assume_specification[ String::shrink_to_fit ](s: &mut String) ensures crate::sp::bytes_of(*final(s)) == crate::sp::bytes_of(*old(s));
/// truncating panics inside a character and otherwise keeps the first bytes
pub assume_specification[ String::truncate ](s: &mut String, n: usize) ensures crate::sp::bytes_of(*final(s)) == (if n <= crate::sp::bytes_of(*old(s)).len() { crate::sp::bytes_of(*old(s)).take(n as int) } else { crate::sp::bytes_of(*old(s)) });
pub assume_specification[ String::insert_str ](s: &mut String, n: usize, t: &str) ensures n <= crate::sp::bytes_of(*old(s)).len(), crate::sp::bytes_of(*final(s)) == crate::sp::bytes_of(*old(s)).take(n as int) + t.spec_bytes() + crate::sp::bytes_of(*old(s)).skip(n as int);
// ---- lengths
pub trait LenX { spec fn lenv(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.lenv(); fn vx_is_empty(&self) -> (r: bool) ensures r == (self.lenv() == 0); }
impl LenX for str { open spec fn lenv(&self) -> nat { self.spec_bytes().len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl LenX for String { open spec fn lenv(&self) -> nat { crate::sp::bytes_of(*self).len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl<T> LenX for [T] { open spec fn lenv(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> LenX for Vec<T> { open spec fn lenv(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T, const N: usize> LenX for [T; N] { open spec fn lenv(&self) -> nat { N as nat } fn vx_len(&self) -> (r: usize) { N } fn vx_is_empty(&self) -> (r: bool) { N == 0 } }
impl<T, N: crate::sx::digest::generic_array::ArrayLength> LenX for crate::sx::digest::generic_array::GenericArray<T, N> { open spec fn lenv(&self) -> nat { N::n() } fn vx_len(&self) -> (r: usize) { self.len() } fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 } }
// ---- patterns in texts
pub open spec fn is_prefix(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn occurs_at(p: Seq<u8>, s: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
/// a pattern that stands for one text
pub trait Pat: Sized { spec fn pat(&self) -> Seq<u8>; spec fn within(&self, s: Seq<u8>) -> bool; }
pub open spec fn occurs(p: Seq<u8>, s: Seq<u8>) -> bool { exists|i: int| #[trigger] occurs_at(p, s, i) }
impl Pat for char { open spec fn pat(&self) -> Seq<u8> { crate::sp::chb(*self) } open spec fn within(&self, s: Seq<u8>) -> bool { if (*self as u32) < 128 { s.contains(*self as u8) } else { occurs(self.pat(), s) } } }
impl<'a> Pat for &'a str { open spec fn pat(&self) -> Seq<u8> { self.spec_bytes() } open spec fn within(&self, s: Seq<u8>) -> bool { occurs(self.pat(), s) } }
impl<'a> Pat for &'a String { open spec fn pat(&self) -> Seq<u8> { crate::sp::bytes_of(**self) } open spec fn within(&self, s: Seq<u8>) -> bool { occurs(self.pat(), s) } }
pub trait PatX { spec fn pbs(&self) -> Seq<u8>;
    fn vx_contains<P: Pat>(&self, p: P) -> (r: bool) ensures r == p.within(self.pbs());
    fn vx_find<P: Pat>(&self, p: P) -> (r: Option<usize>) ensures r.is_some() == p.within(self.pbs()), r.is_some() ==> occurs_at(p.pat(), self.pbs(), r.unwrap() as int), forall|i: int| r.is_some() && i < r.unwrap() ==> !#[trigger] occurs_at(p.pat(), self.pbs(), i);
    fn vx_rfind<P: Pat>(&self, p: P) -> (r: Option<usize>) ensures r.is_some() == p.within(self.pbs()), r.is_some() ==> occurs_at(p.pat(), self.pbs(), r.unwrap() as int), forall|i: int| r.is_some() && i > r.unwrap() ==> !#[trigger] occurs_at(p.pat(), self.pbs(), i);
    fn vx_starts_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self.pbs());
    fn vx_ends_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self.pbs());
    fn vx_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>) ensures r.is_some() == is_prefix(p.pat(), self.pbs()), r.is_some() ==> r.unwrap().spec_bytes() == self.pbs().skip(p.pat().len() as int);
    fn vx_strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&str>) ensures r.is_some() == is_suffix(p.pat(), self.pbs()), r.is_some() ==> r.unwrap().spec_bytes() == self.pbs().take(self.pbs().len() - p.pat().len());
    fn vx_trim_end_matches<P: Pat>(&self, p: P) -> (r: &str) ensures is_prefix(r.spec_bytes(), self.pbs()), p.pat().len() > 0 ==> !is_suffix(p.pat(), r.spec_bytes());
    fn vx_trim_start_matches<P: Pat>(&self, p: P) -> (r: &str) ensures is_suffix(r.spec_bytes(), self.pbs()), p.pat().len() > 0 ==> !is_prefix(p.pat(), r.spec_bytes());
    fn vx_trim(&self) -> (r: &str) ensures exists|i: int| #[trigger] occurs_at(r.spec_bytes(), self.pbs(), i);
    fn vx_trim_start(&self) -> (r: &str) ensures is_suffix(r.spec_bytes(), self.pbs());
    fn vx_trim_end(&self) -> (r: &str) ensures is_prefix(r.spec_bytes(), self.pbs());
    fn vx_bytes(&self) -> (r: crate::sx::iter::Seqit<u8>) ensures r.rem() == self.pbs();
    /// one text for every character, in order
    fn vx_chars(&self) -> (r: crate::sx::iter::Seqit<char>) ensures vstd::utf8::encode_utf8(r.rem()) == self.pbs(), forall|i: int| 0 <= i < self.pbs().len() && self.pbs()[i] < 128 ==> r.rem().contains(#[trigger] self.pbs()[i] as char), forall|i: int| 0 <= i < r.rem().len() && (#[trigger] r.rem()[i] as u32) < 128 ==> self.pbs().contains(r.rem()[i] as u8);
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures crate::sp::bytes_of(r) == self.pbs().map_values(|b: u8| if 0x61 <= b <= 0x7a { (b - 32) as u8 } else { b });
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures crate::sp::bytes_of(r) == self.pbs().map_values(|b: u8| if 0x41 <= b <= 0x5a { (b + 32) as u8 } else { b });
}
impl PatX for str { open spec fn pbs(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body] fn vx_contains<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: Pat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: Pat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: Pat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches<P: Pat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches<P: Pat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: crate::sx::iter::Seqit<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: crate::sx::iter::Seqit<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
}
pub trait BytesX { spec fn bxs(&self) -> Seq<u8>;
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == is_prefix(p@, self.bxs());
    fn vx_ends_with(&self, p: &[u8]) -> (r: bool) ensures r == is_suffix(p@, self.bxs());
    fn vx_contains(&self, p: &u8) -> (r: bool) ensures r == self.bxs().contains(*p);
    fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bxs();
}
pub trait ByteX { fn vx_to_ascii_uppercase(&self) -> u8; fn vx_to_ascii_lowercase(&self) -> u8; }
impl ByteX for u8 { fn vx_to_ascii_uppercase(&self) -> (r: u8) ensures r == (if 0x61 <= *self <= 0x7a { (*self - 32) as u8 } else { *self }) { if 0x61 <= *self && *self <= 0x7a { *self - 32 } else { *self } }
    fn vx_to_ascii_lowercase(&self) -> (r: u8) ensures r == (if 0x41 <= *self <= 0x5a { (*self + 32) as u8 } else { *self }) { if 0x41 <= *self && *self <= 0x5a { *self + 32 } else { *self } } }
pub trait ChunksX<T> { spec fn chx(&self) -> Seq<T>;
    fn vx_chunks(&self, n: usize) -> (r: crate::sx::iter::Seqit<&[T]>)
        requires n > 0,
        ensures r.rem().len() == (self.chx().len() + n - 1) / n as int, forall|i: int| #![trigger r.rem()[i]] 0 <= i < r.rem().len() ==> r.rem()[i]@ == self.chx().subrange(i * n, if (i + 1) * n <= self.chx().len() { (i + 1) * n } else { self.chx().len() as int });
    fn vx_chunks_exact(&self, n: usize) -> (r: crate::sx::iter::Seqit<&[T]>)
        requires n > 0,
        ensures r.rem().len() == self.chx().len() / n as nat, forall|i: int| #![trigger r.rem()[i]] 0 <= i < r.rem().len() ==> r.rem()[i]@ == self.chx().subrange(i * n, (i + 1) * n);
}
impl<T> ChunksX<T> for [T] { open spec fn chx(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: crate::sx::iter::Seqit<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_chunks_exact(&self, n: usize) -> (r: crate::sx::iter::Seqit<&[T]>) { unimplemented!() }
}
impl BytesX for [u8] { open spec fn bxs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, p: &u8) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
// ---- more of Option, Result, String, iterators
pub trait DflX<T> { spec fn dv(&self) -> Option<T>; fn vx_unwrap_or_default(self) -> (r: T) where T: crate::sx::default::Default ensures self.dv().is_some() ==> r == self.dv().unwrap(), self.dv().is_none() ==> T::is_dfl(&r); }
impl<T> DflX<T> for Option<T> { open spec fn dv(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: T) where T: crate::sx::default::Default { match self { Some(v) => v, None => T::vx_default() } } }
impl<T, E> DflX<T> for Result<T, E> { open spec fn dv(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: T) where T: crate::sx::default::Default { match self { Ok(v) => v, Err(_) => T::vx_default() } } }
pub trait ResX<T> { spec fn rxv(&self) -> Option<T>; fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.rxv() { Some(v) => v, None => d }); }
impl<T, E> ResX<T> for Result<T, E> { open spec fn rxv(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } } #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } } }
pub trait AsStrX { spec fn asx(&self) -> Seq<u8>; fn vx_as_str(&self) -> (r: &str) ensures r.spec_bytes() == self.asx(); }
impl AsStrX for String { open spec fn asx(&self) -> Seq<u8> { crate::sp::bytes_of(*self) } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self.as_str() } }
pub trait CopiedX<T> { spec fn cpv(&self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) ensures r == self.cpv(); fn vx_cloned(self) -> (r: Option<T>) ensures r == self.cpv(); }
impl<'a, T: crate::sx::clone::Clone> CopiedX<T> for Option<&'a T> { open spec fn cpv(&self) -> Option<T> { match *self { Some(v) => Some(*v), None => None } }
    fn vx_copied(self) -> (r: Option<T>) { match self { Some(v) => Some(v.vx_clone()), None => None } }
    fn vx_cloned(self) -> (r: Option<T>) { match self { Some(v) => Some(v.vx_clone()), None => None } } }
pub trait IterX2: crate::sx::iter::Iterator + Sized {
    fn vx_rev(self) -> (r: crate::sx::iter::Seqit<Self::Item>) ensures r.rem() == self.rem().reverse();
    fn vx_take(self, n: usize) -> (r: crate::sx::iter::Seqit<Self::Item>) ensures r.rem() == (if n <= self.rem().len() { self.rem().take(n as int) } else { self.rem() });
    fn vx_chain<J: crate::sx::iter::IntoIterator<Item = Self::Item>>(self, j: J) -> (r: crate::sx::iter::Seqit<Self::Item>) ensures r.rem() == self.rem() + j.items();
    fn vx_zip<J: crate::sx::iter::IntoIterator>(self, j: J) -> (r: crate::sx::iter::Seqit<(Self::Item, J::Item)>) ensures r.rem().len() == (if self.rem().len() <= j.items().len() { self.rem().len() } else { j.items().len() }), forall|i: int| 0 <= i < r.rem().len() ==> #[trigger] r.rem()[i] == (self.rem()[i], j.items()[i]);
    fn vx_any<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((#[trigger] old(self).rem()[i],)),
        ensures !r ==> (forall|j: int| 0 <= j < old(self).rem().len() ==> f.ensures((#[trigger] old(self).rem()[j],), false)),
            r ==> (exists|j: int| 0 <= j < old(self).rem().len() && f.ensures((#[trigger] old(self).rem()[j],), true));
}
impl<I: crate::sx::iter::Iterator> IterX2 for I {
    #[verifier::external_body] fn vx_rev(self) -> (r: crate::sx::iter::Seqit<Self::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_take(self, n: usize) -> (r: crate::sx::iter::Seqit<Self::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_chain<J: crate::sx::iter::IntoIterator<Item = Self::Item>>(self, j: J) -> (r: crate::sx::iter::Seqit<Self::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_zip<J: crate::sx::iter::IntoIterator>(self, j: J) -> (r: crate::sx::iter::Seqit<(Self::Item, J::Item)>) { unimplemented!() }
    #[verifier::external_body] fn vx_any<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
}
}
//## Comparisons by operator: the specifications of std's own PartialEq and PartialOrd.
@raw cmpx
pub mod cmpx {
use vstd::prelude::*; use vstd::string::*; use vstd::std_specs::cmp::*; use core::cmp::Ordering;
pub broadcast axiom fn eq_ord() ensures #[trigger] <Ordering as PartialEqSpec<Ordering>>::obeys_eq_spec();
pub broadcast axiom fn eq_ordv(a: &Ordering, b: &Ordering) ensures #[trigger] <Ordering as PartialEqSpec<Ordering>>::eq_spec(a, b) == (*a == *b);
pub broadcast axiom fn eq_bytes() ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn eq_bytesv(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_vec() ensures #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn eq_vecv(a: &Vec<u8>, b: &Vec<u8>) ensures #[trigger] <Vec<u8> as PartialEqSpec<Vec<u8>>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_arr<const N: usize>() ensures #[trigger] <[u8; N] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn eq_arrv<const N: usize>(a: &[u8; N], b: &[u8; N]) ensures #[trigger] <[u8; N] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn eq_str() ensures #[trigger] <str as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn eq_strv(a: &str, b: &str) ensures #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (a.spec_bytes() == b.spec_bytes());
pub broadcast axiom fn eq_string() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn eq_stringv(a: &String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b) == (crate::sp::bytes_of(*a) == b.spec_bytes());
pub broadcast axiom fn eq_string2() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn eq_string2v(a: &str, b: &String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b) == (a.spec_bytes() == crate::sp::bytes_of(*b));
pub broadcast axiom fn eq_string3<'a>() ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec();
pub broadcast axiom fn eq_string3v<'a>(a: &String, b: &&'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(a, b) == (crate::sp::bytes_of(*a) == b.spec_bytes());
pub broadcast axiom fn eq_string4<'a>() ensures #[trigger] <&'a str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn eq_string4v<'a>(a: &&'a str, b: &String) ensures #[trigger] <&'a str as PartialEqSpec<String>>::eq_spec(a, b) == (a.spec_bytes() == crate::sp::bytes_of(*b));
pub broadcast axiom fn eq_string5v(a: &String, b: &String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(a, b) == (crate::sp::bytes_of(*a) == crate::sp::bytes_of(*b));
pub broadcast axiom fn ord_str() ensures #[trigger] <str as PartialOrdSpec<str>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ord_strv(a: &str, b: &str) ensures #[trigger] <str as PartialOrdSpec<str>>::partial_cmp_spec(a, b) == Some(crate::sp::blex(a.spec_bytes(), b.spec_bytes()));
pub broadcast group cmps { eq_ord, eq_ordv, eq_bytes, eq_bytesv, eq_vec, eq_vecv, eq_arr, eq_arrv, eq_str, eq_strv, eq_string, eq_stringv, eq_string2, eq_string2v, eq_string3, eq_string3v, eq_string4, eq_string4v, eq_string5v, ord_str, ord_strv }
}
