//## Stand-ins for std and the dependencies: what the verified functions may assume of them.
//## Everything here marked external_body / axiom is trusted (listed in the evidence).
@raw shims
pub type B = Seq<u8>;
pub mod sx {
use vstd::prelude::*;
pub use crate::sxd::*;
pub use crate::sxsyn::*;
pub use crate::sxs as serde;
#[verifier::external_body]
pub fn vx_panic() -> ! { panic!() }

/// Text access used by the lowering of `*place` in comparisons.
pub trait VxR { type T: ?Sized; spec fn rv(&self) -> &Self::T; fn vx_r(&self) -> (r: &Self::T) ensures r == self.rv(); }
impl VxR for str { type T = str; open spec fn rv(&self) -> &str { self } fn vx_r(&self) -> (r: &str) { self } }
impl<'a> VxR for &'a str { type T = str; open spec fn rv(&self) -> &str { *self } fn vx_r(&self) -> (r: &str) { *self } }

pub mod prelude {
    pub use vstd::prelude::*;
    pub use vstd::string::*;
    pub use super::cmp::{PartialEq, PartialOrd, Ord};
    pub use super::convert::{AsRef, AsMut, From, Into};
    pub use super::clone::Clone;
    pub use super::default::Default;
    pub use super::iter::{Iterator, IntoIterator, FromIterator, Extend, SliceIterX, IteratorX};
    pub use super::result::{ResultX, OptionX};
    pub use super::string::{StrX, StringX, ToStringX};
    pub use super::fmt::WriteX;
    pub use super::VxR;
    pub use super::ix::Ix;
    pub use super::num::{U8X, MinMaxX};
    pub use super::slice::SortX;
    pub use super::cmp::OrderingX;
    pub use crate::stdx::*;
}
pub mod marker { pub use core::marker::*; }
pub mod num {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct NonZeroU64 { pub v: u64 }
    impl NonZeroU64 { pub fn vx_get(self) -> (r: u64) ensures r == self.v { self.v } }
    pub trait MinMaxX: Sized { spec fn iv(self) -> int;
        fn vx_min(self, o: Self) -> (r: Self) ensures r == self || r == o, r.iv() <= self.iv(), r.iv() <= o.iv();
        fn vx_max(self, o: Self) -> (r: Self) ensures r == self || r == o, r.iv() >= self.iv(), r.iv() >= o.iv();
    }
    impl MinMaxX for u8 {
        open spec fn iv(self) -> int { self as int }
        fn vx_min(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
        fn vx_max(self, o: Self) -> (r: Self) { if o < self { self } else { o } }
    }
    impl MinMaxX for u16 {
        open spec fn iv(self) -> int { self as int }
        fn vx_min(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
        fn vx_max(self, o: Self) -> (r: Self) { if o < self { self } else { o } }
    }
    impl MinMaxX for u32 {
        open spec fn iv(self) -> int { self as int }
        fn vx_min(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
        fn vx_max(self, o: Self) -> (r: Self) { if o < self { self } else { o } }
    }
    impl MinMaxX for u64 {
        open spec fn iv(self) -> int { self as int }
        fn vx_min(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
        fn vx_max(self, o: Self) -> (r: Self) { if o < self { self } else { o } }
    }
    impl MinMaxX for usize {
        open spec fn iv(self) -> int { self as int }
        fn vx_min(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
        fn vx_max(self, o: Self) -> (r: Self) { if o < self { self } else { o } }
    }
    impl MinMaxX for i32 {
        open spec fn iv(self) -> int { self as int }
        fn vx_min(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
        fn vx_max(self, o: Self) -> (r: Self) { if o < self { self } else { o } }
    }
    impl MinMaxX for i64 {
        open spec fn iv(self) -> int { self as int }
        fn vx_min(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
        fn vx_max(self, o: Self) -> (r: Self) { if o < self { self } else { o } }
    }
    pub trait U8X { fn vx_is_ascii(&self) -> (r: bool) ensures r == (self.u8v() < 128); spec fn u8v(&self) -> u8; }
    impl U8X for u8 { open spec fn u8v(&self) -> u8 { *self } #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { *self < 128 } }
    impl super::convert::From<u8> for usize { open spec fn from_rel(t: u8, r: usize) -> bool { r == t as usize } #[verifier::external_body] fn vx_from(t: u8) -> (r: usize) { t as usize } }
    impl super::clone::Clone for u64 { fn vx_clone(&self) -> (r: u64) { *self } }
    impl super::clone::Clone for bool { fn vx_clone(&self) -> (r: bool) { *self } }
    impl<'a, T: ?Sized> super::clone::Clone for &'a T { fn vx_clone(&self) -> (r: &'a T) { *self } }
    impl<const N: usize> super::default::Default for [u8; N] { open spec fn is_dfl(r: &Self) -> bool { r@ == Seq::new(N as nat, |i: int| 0u8) } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
    impl super::default::Default for String { open spec fn is_dfl(r: &Self) -> bool { crate::sp::bytes_of(*r) == Seq::<u8>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
    impl<T> super::default::Default for Vec<T> { open spec fn is_dfl(r: &Self) -> bool { r@ == Seq::<T>::empty() } fn vx_default() -> (r: Self) { Vec::new() } }
    impl<T> super::default::Default for Option<T> { open spec fn is_dfl(r: &Self) -> bool { r.is_none() } fn vx_default() -> (r: Self) { None } }
    impl super::default::Default for bool { open spec fn is_dfl(r: &Self) -> bool { *r == false } fn vx_default() -> (r: Self) { false } }
    impl super::default::Default for usize { open spec fn is_dfl(r: &Self) -> bool { *r == 0 } fn vx_default() -> (r: Self) { 0 } }
    impl super::default::Default for () { open spec fn is_dfl(r: &Self) -> bool { true } fn vx_default() -> (r: Self) { () } }
}
pub mod vec { pub use std::vec::Vec; }
pub mod mem { pub use core::mem::*; }
pub mod result {
    use vstd::prelude::*;
    pub use core::result::Result;
    /// `unwrap` that is allowed to panic: if it returns, it returns the value.
    pub trait ResultX<T> { spec fn okv(&self) -> Option<T>; fn vx_unwrap(self) -> (r: T) ensures self.okv() == Some(r); fn vx_unwrap_np(self) -> (r: T) requires self.okv().is_some(), ensures self.okv() == Some(r); fn vx_expect(self, m: &str) -> (r: T) ensures self.okv() == Some(r); }
    impl<T, E> ResultX<T> for core::result::Result<T, E> {
        open spec fn okv(&self) -> Option<T> { match *self { Ok(v) => Some(v), Err(_) => None } }
        #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() }
        #[verifier::external_body] fn vx_unwrap_np(self) -> (r: T) { unimplemented!() }
        #[verifier::external_body] fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() }
    }
    impl<T> ResultX<T> for core::option::Option<T> {
        open spec fn okv(&self) -> Option<T> { *self }
        #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() }
        #[verifier::external_body] fn vx_unwrap_np(self) -> (r: T) { unimplemented!() }
        #[verifier::external_body] fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() }
    }
    pub trait OptionX<T> {
        spec fn ov(&self) -> Option<T>;
        fn vx_as_ref(&self) -> (r: Option<&T>) ensures r.is_some() == self.ov().is_some(), r.is_some() ==> *r.unwrap() == self.ov().unwrap();
        fn vx_is_none(&self) -> (r: bool) ensures r == self.ov().is_none();
        fn vx_is_some(&self) -> (r: bool) ensures r == self.ov().is_some();
        fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.ov() { Some(v) => v, None => d });
    }
    impl<T> OptionX<T> for core::option::Option<T> {
        open spec fn ov(&self) -> Option<T> { *self }
        fn vx_as_ref(&self) -> (r: Option<&T>) { match self { Some(v) => Some(v), None => None } }
        fn vx_is_none(&self) -> (r: bool) { match self { Some(_) => false, None => true } }
        fn vx_is_some(&self) -> (r: bool) { match self { Some(_) => true, None => false } }
        fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } }
    }
}
pub mod option { pub use core::option::*; }
pub mod clone {
    use vstd::prelude::*;
    /// A clone is logically the value it was made from.
    pub trait Clone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
}
pub mod default {
    use vstd::prelude::*;
    pub trait Default: Sized { spec fn is_dfl(r: &Self) -> bool; fn vx_default() -> (r: Self) ensures Self::is_dfl(&r); }
}
pub mod convert {
    use vstd::prelude::*;
    use vstd::string::*;
    pub trait Into<T>: Sized { spec fn intov(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.intov(); }
    impl<T> Into<T> for T { open spec fn intov(self) -> T { self } fn vx_into(self) -> (r: T) { self } }
    impl<T> Into<Option<T>> for T { open spec fn intov(self) -> Option<T> { Some(self) } fn vx_into(self) -> (r: Option<T>) { Some(self) } }
    pub trait AsRef<T: ?Sized> { spec fn asr(&self) -> &T; fn vx_as_ref(&self) -> (r: &T) ensures r == self.asr(); }
    /// `amv`: what the mutable view shows
    pub trait AsMut<T: ?Sized> { spec fn amv(&self) -> &T; fn vx_as_mut(&mut self) -> (r: &mut T) ensures crate::sp::same(&*r, old(self).amv()), crate::sp::same(&*final(r), final(self).amv()); }
    pub trait From<T>: Sized { spec fn from_rel(t: T, r: Self) -> bool; fn vx_from(t: T) -> (r: Self) ensures Self::from_rel(t, r); }
    impl<'a, T: ?Sized, U: ?Sized + AsRef<T>> AsRef<T> for &'a U { open spec fn asr(&self) -> &T { (**self).asr() } fn vx_as_ref(&self) -> (r: &T) { (**self).vx_as_ref() } }
    impl<'a> From<&'a str> for String { open spec fn from_rel(t: &'a str, r: String) -> bool { crate::sp::bytes_of(r) == t.spec_bytes() } #[verifier::external_body] fn vx_from(t: &'a str) -> (r: String) { unimplemented!() } }
    impl<'a> From<&'a String> for String { open spec fn from_rel(t: &'a String, r: String) -> bool { crate::sp::bytes_of(r) == crate::sp::bytes_of(*t) } #[verifier::external_body] fn vx_from(t: &'a String) -> (r: String) { unimplemented!() } }
    impl From<char> for String { open spec fn from_rel(t: char, r: String) -> bool { crate::sp::bytes_of(r) == crate::sp::chb(t) } #[verifier::external_body] fn vx_from(t: char) -> (r: String) { unimplemented!() } }
    impl<'a> Into<String> for &'a str { open spec fn intov(self) -> String { crate::sp::string_of(self.spec_bytes()) } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
    impl<T> From<T> for T { open spec fn from_rel(t: T, r: T) -> bool { r == t } fn vx_from(t: T) -> (r: T) { t } }
    impl<T> AsRef<[T]> for [T] { open spec fn asr(&self) -> &[T] { self } fn vx_as_ref(&self) -> (r: &[T]) { self } }
    impl AsRef<str> for str { open spec fn asr(&self) -> &str { self } fn vx_as_ref(&self) -> (r: &str) { self } }
    impl AsRef<str> for String { open spec fn asr(&self) -> &str { crate::sp::str_of(*self) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { self.as_str() } }
    impl<T> AsRef<[T]> for Vec<T> { open spec fn asr(&self) -> &[T] { crate::sp::slice_of(*self) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[T]) { self.as_slice() } }
    impl<const N: usize> AsRef<[u8]> for [u8; N] { open spec fn asr(&self) -> &[u8] { crate::sp::slice_of_array(*self) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
}
pub mod borrow {
    use vstd::prelude::*;
    pub use super::string::StrX as ToOwned;
    pub trait Borrow<T: ?Sized> { spec fn bor(&self) -> &T; fn vx_borrow(&self) -> (r: &T) ensures r == self.bor(); }
}
pub mod cmp {
    use vstd::prelude::*;
    use vstd::string::*;
    pub use core::cmp::Ordering;
    pub trait OrderingX { spec fn rvs(self) -> Ordering; spec fn me(self) -> Ordering; fn vx_reverse(self) -> (r: Ordering) ensures r == self.rvs();
        fn vx_is_eq(self) -> (r: bool) ensures r == (self.me() == Ordering::Equal);
        fn vx_is_ne(self) -> (r: bool) ensures r == (self.me() != Ordering::Equal);
        fn vx_is_lt(self) -> (r: bool) ensures r == (self.me() == Ordering::Less);
        fn vx_is_gt(self) -> (r: bool) ensures r == (self.me() == Ordering::Greater);
        fn vx_is_le(self) -> (r: bool) ensures r == (self.me() != Ordering::Greater);
        fn vx_is_ge(self) -> (r: bool) ensures r == (self.me() != Ordering::Less);
    }
    impl OrderingX for Ordering {
        open spec fn rvs(self) -> Ordering { match self { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
        open spec fn me(self) -> Ordering { self }
        fn vx_is_eq(self) -> (r: bool) { match self { Ordering::Equal => true, _ => false } }
        fn vx_is_ne(self) -> (r: bool) { match self { Ordering::Equal => false, _ => true } }
        fn vx_is_lt(self) -> (r: bool) { match self { Ordering::Less => true, _ => false } }
        fn vx_is_gt(self) -> (r: bool) { match self { Ordering::Greater => true, _ => false } }
        fn vx_is_le(self) -> (r: bool) { match self { Ordering::Greater => false, _ => true } }
        fn vx_is_ge(self) -> (r: bool) { match self { Ordering::Less => false, _ => true } }
        fn vx_reverse(self) -> (r: Ordering) { match self { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
    }
    pub trait PartialEq<R: ?Sized> { spec fn eqv(&self, o: &R) -> bool; fn vx_eq(&self, o: &R) -> (r: bool) ensures r == self.eqv(o); }
    pub trait PartialOrd<R: ?Sized> { spec fn pcmp(&self, o: &R) -> Option<Ordering>; fn vx_partial_cmp(&self, o: &R) -> (r: Option<Ordering>) ensures r == self.pcmp(o); }
    pub trait Ord { spec fn cmpv(&self, o: &Self) -> Ordering; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.cmpv(o); }
    impl PartialOrd<str> for str {
        open spec fn pcmp(&self, o: &str) -> Option<Ordering> { Some(crate::sp::blex(self.spec_bytes(), o.spec_bytes())) }
        #[verifier::external_body] fn vx_partial_cmp(&self, o: &str) -> (r: Option<Ordering>) { unimplemented!() }
    }
    impl PartialEq<str> for str {
        open spec fn eqv(&self, o: &str) -> bool { self.spec_bytes() == o.spec_bytes() }
        #[verifier::external_body] fn vx_eq(&self, o: &str) -> (r: bool) { unimplemented!() }
    }
    impl PartialOrd<[u8]> for [u8] {
        open spec fn pcmp(&self, o: &[u8]) -> Option<Ordering> { Some(crate::sp::blex(self@, o@)) }
        #[verifier::external_body] fn vx_partial_cmp(&self, o: &[u8]) -> (r: Option<Ordering>) { unimplemented!() }
    }
    impl PartialEq<[u8]> for [u8] {
        open spec fn eqv(&self, o: &[u8]) -> bool { self@ == o@ }
        #[verifier::external_body] fn vx_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() }
    }
    impl Ord for [u8] {
        open spec fn cmpv(&self, o: &[u8]) -> Ordering { crate::sp::blex(self@, o@) }
        #[verifier::external_body] fn vx_cmp(&self, o: &[u8]) -> (r: Ordering) { unimplemented!() }
    }
    impl Ord for str {
        open spec fn cmpv(&self, o: &str) -> Ordering { crate::sp::blex(self.spec_bytes(), o.spec_bytes()) }
        #[verifier::external_body] fn vx_cmp(&self, o: &str) -> (r: Ordering) { unimplemented!() }
    }
    impl PartialOrd<u8> for u8 {
        open spec fn pcmp(&self, o: &u8) -> Option<Ordering> { Some(if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater }) }
        fn vx_partial_cmp(&self, o: &u8) -> (r: Option<Ordering>) { Some(if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater }) }
    }
    impl Ord for u8 {
        open spec fn cmpv(&self, o: &u8) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
        fn vx_cmp(&self, o: &u8) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    }
    impl PartialOrd<usize> for usize {
        open spec fn pcmp(&self, o: &usize) -> Option<Ordering> { Some(if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater }) }
        fn vx_partial_cmp(&self, o: &usize) -> (r: Option<Ordering>) { Some(if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater }) }
    }
    impl Ord for usize {
        open spec fn cmpv(&self, o: &usize) -> Ordering { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
        fn vx_cmp(&self, o: &usize) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
    }
    pub fn vx_lt<A: PartialOrd<R> + ?Sized, R: ?Sized>(a: &A, b: &R) -> (r: bool) ensures r == (a.pcmp(b) == Some(Ordering::Less)) { match a.vx_partial_cmp(b) { Some(Ordering::Less) => true, _ => false } }
    pub fn vx_le<A: PartialOrd<R> + ?Sized, R: ?Sized>(a: &A, b: &R) -> (r: bool) ensures r == (a.pcmp(b) == Some(Ordering::Less) || a.pcmp(b) == Some(Ordering::Equal)) { match a.vx_partial_cmp(b) { Some(Ordering::Less) | Some(Ordering::Equal) => true, _ => false } }
    pub fn vx_gt<A: PartialOrd<R> + ?Sized, R: ?Sized>(a: &A, b: &R) -> (r: bool) ensures r == (a.pcmp(b) == Some(Ordering::Greater)) { match a.vx_partial_cmp(b) { Some(Ordering::Greater) => true, _ => false } }
    pub fn vx_ge<A: PartialOrd<R> + ?Sized, R: ?Sized>(a: &A, b: &R) -> (r: bool) ensures r == (a.pcmp(b) == Some(Ordering::Greater) || a.pcmp(b) == Some(Ordering::Equal)) { match a.vx_partial_cmp(b) { Some(Ordering::Greater) | Some(Ordering::Equal) => true, _ => false } }
    pub assume_specification[ <core::cmp::Ordering as core::cmp::PartialEq>::eq ](a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool) ensures r == (*a == *b);
    #[verifier::external_body] pub fn eqb(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
    #[verifier::external_body] pub fn eqs(a: &str, b: &str) -> (r: bool) ensures r == (a.spec_bytes() == b.spec_bytes()) { unimplemented!() }
    pub fn eqd<A: PartialEq<R> + ?Sized, R: ?Sized>(a: &A, b: &R) -> (r: bool) ensures r == a.eqv(b) { a.vx_eq(b) }
    pub fn ned<A: PartialEq<R> + ?Sized, R: ?Sized>(a: &A, b: &R) -> (r: bool) ensures r == !a.eqv(b) { !a.vx_eq(b) }
}
pub mod string {
    use vstd::prelude::*;
    use vstd::string::*;
    pub use std::string::String;
    pub use ToStringX as ToString;
    impl super::VxR for String { type T = str; open spec fn rv(&self) -> &str { crate::sp::str_of(*self) } #[verifier::external_body] fn vx_r(&self) -> (r: &str) { self.as_str() } }
    pub trait StrX { spec fn sbs(&self) -> Seq<u8>;
        fn vx_to_owned(&self) -> (r: String) ensures crate::sp::bytes_of(r) == self.sbs();
    }
    impl StrX for str {
        open spec fn sbs(&self) -> Seq<u8> { self.spec_bytes() }
        #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    }
    pub trait StringX: Sized {
        spec fn sb(&self) -> Seq<u8>;
        fn vx_clear(&mut self) ensures final(self).sb() == Seq::<u8>::empty();
        fn vx_push_str(&mut self, s: &str) ensures final(self).sb() == old(self).sb() + s.spec_bytes();
        fn vx_new() -> (r: Self) ensures r.sb() == Seq::<u8>::empty();
        fn vx_with_capacity(n: usize) -> (r: Self) ensures r.sb() == Seq::<u8>::empty();
    }
    impl StringX for String {
        open spec fn sb(&self) -> Seq<u8> { crate::sp::bytes_of(*self) }
        #[verifier::external_body] fn vx_clear(&mut self) { unimplemented!() }
        #[verifier::external_body] fn vx_push_str(&mut self, s: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_new() -> (r: Self) { unimplemented!() }
        #[verifier::external_body] fn vx_with_capacity(n: usize) -> (r: Self) { unimplemented!() }
    }
    #[verifier::external_body] pub fn vx_add<B: super::convert::AsRef<str> + ?Sized>(a: String, b: &B) -> (r: String) ensures crate::sp::bytes_of(r) == crate::sp::bytes_of(a) + b.asr().spec_bytes() { unimplemented!() }
    #[verifier::external_body] pub fn vx_add_assign<B: super::convert::AsRef<str> + ?Sized>(a: &mut String, b: &B) ensures crate::sp::bytes_of(*final(a)) == crate::sp::bytes_of(*old(a)) + b.asr().spec_bytes() { unimplemented!() }
    pub trait ToStringX: super::fmt::Display { fn vx_to_string(&self) -> (r: String) ensures crate::sp::bytes_of(r) == self.disp(); }
    impl<D: super::fmt::Display + ?Sized> ToStringX for D { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
}
pub mod str {
    use vstd::prelude::*;
    use vstd::string::*;
    /// unchecked conversion: the bytes are the text
    #[verifier::external_body]
    pub fn from_utf8_unchecked(v: &[u8]) -> (r: &str) requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < 128 ensures r.spec_bytes() == v@ { unimplemented!() }
    pub struct Utf8Error;
    #[verifier::external_body]
    pub fn from_utf8(v: &[u8]) -> (r: Result<&str, Utf8Error>) ensures r.is_ok() ==> r->Ok_0.spec_bytes() == v@, (forall|i: int| 0 <= i < v@.len() ==> v@[i] < 128) ==> r.is_ok() { unimplemented!() }
}
pub mod fmt {
    use vstd::prelude::*;
    use vstd::string::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    /// What a `Debug` implementation may look at in the formatter.
    pub struct Opts { pub o: int, pub alternate: bool }
    pub uninterp spec fn opt_width(o: Opts) -> Option<usize>;
    pub uninterp spec fn opt_precision(o: Opts) -> Option<usize>;
    pub uninterp spec fn opt_fill(o: Opts) -> char;
    pub uninterp spec fn opt_plus(o: Opts) -> bool;
    pub uninterp spec fn opt_minus(o: Opts) -> bool;
    pub uninterp spec fn opt_zero(o: Opts) -> bool;
    #[verifier::external_body]
    pub struct Formatter<'a> { p: core::marker::PhantomData<&'a mut u8> }
    impl<'a> Formatter<'a> {
        pub uninterp spec fn text(&self) -> Seq<u8>;
        pub uninterp spec fn opts(&self) -> Opts;
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures r.is_ok() ==> final(self).text() == old(self).text() + s.spec_bytes(), final(self).opts() == old(self).opts() { unimplemented!() }
        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result)
            ensures r.is_ok() ==> final(self).text() == old(self).text() + crate::sp::chb(c), final(self).opts() == old(self).opts() { unimplemented!() }
        #[verifier::external_body]
        pub fn write_fmt<D: Display>(&mut self, d: D) -> (r: Result)
            ensures r.is_ok() ==> final(self).text() == old(self).text() + d.disp(), final(self).opts() == old(self).opts() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn ch_str(c: char) -> (r: &'static str) ensures r.spec_bytes() == crate::sp::chb(c) { unimplemented!() }
    /// A text sink.  `text` is what it has accepted so far, `xf` what accepting a piece of text adds to it,
    /// `adm` which texts it can accept without failing or panicking; both are homomorphic in the text (`laws`).
    pub trait Write {
        spec fn text(&self) -> Seq<u8>;
        spec fn xf(s: Seq<u8>) -> Seq<u8>;
        spec fn adm(s: Seq<u8>) -> bool;
        #[verifier::prophetic]
        spec fn frame(&self, o: &Self) -> bool;
        proof fn laws(a: Seq<u8>, b: Seq<u8>)
            ensures Self::xf(a + b) == Self::xf(a) + Self::xf(b), Self::xf(Seq::<u8>::empty()) == Seq::<u8>::empty(),
                Self::adm(a + b) == (Self::adm(a) && Self::adm(b)), Self::adm(Seq::<u8>::empty());
        proof fn frame_laws(a: &Self, b: &Self, c: &Self) ensures a.frame(a), a.frame(b) && b.frame(c) ==> a.frame(c);
        fn write_str(&mut self, s: &str) -> (r: Result)
            ensures r.is_ok() ==> final(self).text() == old(self).text() + Self::xf(s.spec_bytes()) && Self::adm(s.spec_bytes()), old(self).frame(final(self));
        /// encodes the character in UTF-8 and hands it to `write_str`, unless overridden
        fn write_char(&mut self, c: char) -> (r: Result)
            ensures r.is_ok() ==> final(self).text() == old(self).text() + Self::xf(crate::sp::chb(c)) && Self::adm(crate::sp::chb(c)), old(self).frame(final(self))
            { self.write_str(ch_str(c)) }
    }
    pub trait Display {
        spec fn disp(&self) -> Seq<u8>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            ensures r.is_ok() ==> final(f).text() == old(f).text() + self.disp(), final(f).opts() == old(f).opts();
    }
    pub trait Debug {
        spec fn dbg(&self, o: Opts) -> Seq<u8>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            ensures r.is_ok() ==> final(f).text() == old(f).text() + self.dbg(old(f).opts()), final(f).opts() == old(f).opts();
    }
    /// `{:?}` (or `{:#?}`) among the arguments of a format: formatted with options of its own
    pub struct Dbg<'a, T: ?Sized>(pub bool, pub &'a T);
    pub uninterp spec fn fresh_opts(alternate: bool) -> Opts;
    impl<'a, T: Debug + ?Sized> Display for Dbg<'a, T> {
        open spec fn disp(&self) -> Seq<u8> { self.1.dbg(fresh_opts(self.0)) }
        #[verifier::external_body]
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
    }
    /// `core::fmt::write`: hands the pieces of the displayed text to `write_str` one after another,
    /// stopping at the first error.
    pub trait WriteX: Write {
        fn write_fmt<D: Display>(&mut self, d: D) -> (r: Result)
            ensures r.is_ok() ==> final(self).text() == old(self).text() + Self::xf(d.disp()) && Self::adm(d.disp()), old(self).frame(final(self));
    }
    impl<W: Write> WriteX for W {
        #[verifier::external_body]
        fn write_fmt<D: Display>(&mut self, d: D) -> (r: Result) { unimplemented!() }
    }
    impl Display for str { open spec fn disp(&self) -> Seq<u8> { self.spec_bytes() } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Display for char { open spec fn disp(&self) -> Seq<u8> { crate::sp::chb(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Display for u32 { open spec fn disp(&self) -> Seq<u8> { crate::sp::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Display for bool { open spec fn disp(&self) -> Seq<u8> { if *self { @"true" } else { @"false" } } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Display for usize { open spec fn disp(&self) -> Seq<u8> { crate::sp::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Display for String { open spec fn disp(&self) -> Seq<u8> { crate::sp::bytes_of(*self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl<'a, T: Display + ?Sized> Display for &'a T { open spec fn disp(&self) -> Seq<u8> { (**self).disp() } fn fmt(&self, f: &mut Formatter<'_>) -> Result { (**self).fmt(f) } }
    impl Display for u64 { open spec fn disp(&self) -> Seq<u8> { crate::sp::dec(*self as nat) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    /// `format_args!` with plain placeholders: its pieces in order.
    pub struct Cat<A, B> { pub a: A, pub b: B }
    impl<A: Display, B: Display> Display for Cat<A, B> {
        open spec fn disp(&self) -> Seq<u8> { self.a.disp() + self.b.disp() }
        fn fmt(&self, f: &mut Formatter<'_>) -> Result { self.a.fmt(f)?; self.b.fmt(f) }
    }
    pub fn cat<A: Display, B: Display>(a: A, b: B) -> (r: Cat<A, B>) ensures r == (Cat { a, b }) { Cat { a, b } }
    impl Write for String {
        open spec fn text(&self) -> Seq<u8> { crate::sp::bytes_of(*self) }
        open spec fn xf(s: Seq<u8>) -> Seq<u8> { s }
        open spec fn adm(s: Seq<u8>) -> bool { true }
        #[verifier::prophetic]
        open spec fn frame(&self, o: &Self) -> bool { true }
        proof fn laws(a: Seq<u8>, b: Seq<u8>) {}
        proof fn frame_laws(a: &Self, b: &Self, c: &Self) {}
        #[verifier::external_body] fn write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() }
    }
    pub broadcast proof fn lemma_xf<W: Write>(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] W::xf(a + b) == W::xf(a) + W::xf(b) { W::laws(a, b); }
    pub broadcast proof fn lemma_xf0<W: Write>() ensures #[trigger] W::xf(Seq::<u8>::empty()) == Seq::<u8>::empty() { W::laws(Seq::empty(), Seq::empty()); }
    pub broadcast proof fn lemma_adm<W: Write>(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] W::adm(a + b) == (W::adm(a) && W::adm(b)) { W::laws(a, b); }
    pub broadcast proof fn lemma_frame<W: Write>(a: &W, b: &W, c: &W) requires #[trigger] a.frame(b), #[trigger] b.frame(c) ensures a.frame(c) { W::frame_laws(a, b, c); }
    pub broadcast proof fn lemma_frame0<W: Write>(a: &W) ensures #[trigger] a.frame(a) { W::frame_laws(a, a, a); }
    // ---- derived and hand-built Debug output: the text is a function of the name, the field names and the fields' own debug texts
    pub uninterp spec fn ds_text(o: Opts, name: Seq<u8>, fields: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8>;
    pub open spec fn f0() -> Seq<(Seq<u8>, Seq<u8>)> { Seq::empty() }
    /// `f.debug_struct(name).field(n, v)…` up to `finish()`
    #[verifier::external_body]
    pub struct Ds { p: () }
    impl Ds {
        pub uninterp spec fn nm(&self) -> Seq<u8>;
        pub uninterp spec fn fs(&self, o: Opts) -> Seq<(Seq<u8>, Seq<u8>)>;
        #[verifier::external_body]
        pub fn vx_new(n: &str) -> (r: Ds) ensures r.nm() == n.spec_bytes(), forall|o: Opts| #[trigger] r.fs(o) == Seq::<(Seq<u8>, Seq<u8>)>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_field<T: Debug + ?Sized>(self, n: &str, v: &T) -> (r: Ds) ensures r.nm() == self.nm(), forall|o: Opts| #[trigger] r.fs(o) == self.fs(o).push((n.spec_bytes(), v.dbg(o))) { unimplemented!() }
    }
    impl<'a> Formatter<'a> {
        #[verifier::external_body]
        pub fn vx_debug_struct(&mut self, d: Ds) -> (r: Result)
            ensures r.is_ok() ==> final(self).text() == old(self).text() + ds_text(old(self).opts(), d.nm(), d.fs(old(self).opts())), final(self).opts() == old(self).opts() { unimplemented!() }
        #[verifier::external_body]
        pub fn alternate(&self) -> (r: bool) ensures r == self.opts().alternate { unimplemented!() }
        #[verifier::external_body]
        pub fn width(&self) -> (r: Option<usize>) ensures r == opt_width(self.opts()) { unimplemented!() }
        #[verifier::external_body]
        pub fn precision(&self) -> (r: Option<usize>) ensures r == opt_precision(self.opts()) { unimplemented!() }
        #[verifier::external_body]
        pub fn fill(&self) -> (r: char) ensures r == opt_fill(self.opts()) { unimplemented!() }
        #[verifier::external_body]
        pub fn sign_plus(&self) -> (r: bool) ensures r == opt_plus(self.opts()) { unimplemented!() }
        #[verifier::external_body]
        pub fn sign_minus(&self) -> (r: bool) ensures r == opt_minus(self.opts()) { unimplemented!() }
        #[verifier::external_body]
        pub fn sign_aware_zero_pad(&self) -> (r: bool) ensures r == opt_zero(self.opts()) { unimplemented!() }
    }
    /// the debug text of a plain value depends on nothing but the value
    pub uninterp spec fn val_text<T: ?Sized>(o: Opts, v: &T) -> Seq<u8>;
    impl Debug for str { open spec fn dbg(&self, o: Opts) -> Seq<u8> { val_text(o, self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Debug for bool { open spec fn dbg(&self, o: Opts) -> Seq<u8> { val_text(o, self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Debug for u64 { open spec fn dbg(&self, o: Opts) -> Seq<u8> { val_text(o, self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl Debug for super::num::NonZeroU64 { open spec fn dbg(&self, o: Opts) -> Seq<u8> { val_text(o, self) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
    impl<'a, T: Debug + ?Sized> Debug for &'a T { open spec fn dbg(&self, o: Opts) -> Seq<u8> { (**self).dbg(o) } fn fmt(&self, f: &mut Formatter<'_>) -> Result { (**self).fmt(f) } }
    pub uninterp spec fn opt_text(o: Opts, f: Option<Seq<u8>>) -> Seq<u8>;
    impl<T: Debug> Debug for Option<T> { open spec fn dbg(&self, o: Opts) -> Seq<u8> { opt_text(o, match *self { Some(v) => Some(v.dbg(o)), None => None }) } #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> Result { unimplemented!() } }
}
pub mod iter {
    use vstd::prelude::*;
    /// `rem` is the (finite) sequence of items still to come.
    pub trait Iterator { type Item; spec fn rem(&self) -> Seq<Self::Item>;
        fn vx_next(&mut self) -> (r: Option<Self::Item>)
            ensures old(self).rem().len() == 0 ==> r.is_none() && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().drop_first();
    }
    pub trait IntoIterator { type Item; type IntoIter: Iterator<Item = Self::Item>; spec fn items(&self) -> Seq<Self::Item>;
        fn vx_into_iter(self) -> (r: Self::IntoIter) ensures r.rem() == self.items();
    }
    impl<I: Iterator> IntoIterator for I { type Item = I::Item; type IntoIter = I; open spec fn items(&self) -> Seq<I::Item> { self.rem() } #[verifier::external_body] fn vx_into_iter(self) -> (r: I) { self } }
    impl<'a, T> IntoIterator for &'a [T] { type Item = &'a T; type IntoIter = Seqit<&'a T>; open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: Seqit<&'a T>) { unimplemented!() } }
    pub trait FromIterator<T>: Sized { spec fn built(items: Seq<T>, r: Self) -> bool; fn vx_from_iter<I: IntoIterator<Item = T>>(iter: I) -> (r: Self) ensures Self::built(iter.items(), r); }
    pub trait Extend<T> { spec fn extended(pre: &Self, items: Seq<T>, post: &Self) -> bool; fn vx_extend<I: IntoIterator<Item = T>>(&mut self, iter: I) ensures Self::extended(old(self), iter.items(), final(self)); }
    pub trait IteratorX: Iterator + Sized {
        fn vx_enumerate(self) -> (r: Seqit<(usize, Self::Item)>) ensures r.rem().len() == self.rem().len(), forall|i: int| #![trigger r.rem()[i]] #![trigger self.rem()[i]] 0 <= i < self.rem().len() ==> r.rem()[i] == (i as usize, self.rem()[i]);
        fn vx_skip(self, n: usize) -> (r: Seqit<Self::Item>) ensures r.rem().len() == (if n <= self.rem().len() { self.rem().len() - n } else { 0 }), forall|i: int| #![trigger self.rem()[i]] n <= i < self.rem().len() ==> r.rem()[i - n] == self.rem()[i], forall|i: int| 0 <= i < r.rem().len() ==> #[trigger] r.rem()[i] == self.rem()[i + n];
        fn vx_find<F: Fn(&Self::Item) -> bool>(&mut self, f: F) -> (r: Option<Self::Item>)
            requires forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((&#[trigger] old(self).rem()[i],)),
            ensures match r {
                Some(x) => exists|i: int| 0 <= i < old(self).rem().len() && #[trigger] old(self).rem()[i] == x && f.ensures((&x,), true) && (forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] old(self).rem()[j],), false)),
                None => forall|j: int| 0 <= j < old(self).rem().len() ==> f.ensures((&#[trigger] old(self).rem()[j],), false) };
        fn vx_position<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>)
            requires forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((#[trigger] old(self).rem()[i],)),
            ensures match r {
                Some(x) => x < old(self).rem().len() && f.ensures((old(self).rem()[x as int],), true) && (forall|j: int| 0 <= j < x ==> f.ensures((#[trigger] old(self).rem()[j],), false)),
                None => forall|j: int| 0 <= j < old(self).rem().len() ==> f.ensures((#[trigger] old(self).rem()[j],), false) };
        fn vx_all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
            requires forall|i: int| 0 <= i < old(self).rem().len() ==> f.requires((#[trigger] old(self).rem()[i],)),
            ensures r ==> (forall|j: int| 0 <= j < old(self).rem().len() ==> f.ensures((#[trigger] old(self).rem()[j],), true)),
                !r ==> (exists|j: int| 0 <= j < old(self).rem().len() && f.ensures((#[trigger] old(self).rem()[j],), false));
        fn vx_map<U, F: Fn(Self::Item) -> U>(self, f: F) -> (r: Seqit<U>)
            requires forall|i: int| 0 <= i < self.rem().len() ==> f.requires((#[trigger] self.rem()[i],)),
            ensures r.rem().len() == self.rem().len(), forall|i: int| 0 <= i < self.rem().len() ==> f.ensures((self.rem()[i],), #[trigger] r.rem()[i]);
        fn vx_collect<C: FromIterator<Self::Item>>(self) -> (r: C) ensures C::built(self.rem(), r);
    }
    impl<I: Iterator> IteratorX for I {
        #[verifier::external_body] fn vx_enumerate(self) -> (r: Seqit<(usize, Self::Item)>) { unimplemented!() }
        #[verifier::external_body] fn vx_skip(self, n: usize) -> (r: Seqit<Self::Item>) { unimplemented!() }
        #[verifier::external_body] fn vx_find<F: Fn(&Self::Item) -> bool>(&mut self, f: F) -> (r: Option<Self::Item>) { unimplemented!() }
        #[verifier::external_body] fn vx_position<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_map<U, F: Fn(Self::Item) -> U>(self, f: F) -> (r: Seqit<U>) { unimplemented!() }
        #[verifier::external_body] fn vx_collect<C: FromIterator<Self::Item>>(self) -> (r: C) { unimplemented!() }
    }
    /// Any adapter, seen as the sequence of its items.
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Seqit<T> { p: core::marker::PhantomData<T> }
    pub uninterp spec fn seqit_rem<T>(s: Seqit<T>) -> Seq<T>;
    impl<T> Iterator for Seqit<T> { type Item = T; open spec fn rem(&self) -> Seq<T> { seqit_rem(*self) } #[verifier::external_body] fn vx_next(&mut self) -> (r: Option<T>) { unimplemented!() } }
    impl<T> super::clone::Clone for Seqit<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
    pub trait SliceIterX<T> { spec fn sl(&self) -> Seq<T>;
        fn vx_iter<'a>(&'a self) -> (r: Seqit<&'a T>) ensures r.rem().len() == self.sl().len(), forall|i: int| #![trigger r.rem()[i]] #![trigger self.sl()[i]] 0 <= i < self.sl().len() ==> *r.rem()[i] == self.sl()[i];
        fn vx_windows<'a>(&'a self, n: usize) -> (r: Seqit<&'a [T]>)
            requires n > 0,
            ensures r.rem().len() == (if self.sl().len() >= n { self.sl().len() - n + 1 } else { 0 }), forall|i: int| #![trigger r.rem()[i]] #![trigger self.sl()[i]] 0 <= i < r.rem().len() ==> r.rem()[i]@ == self.sl().subrange(i, i + n),
                forall|i: int, k: int| #![trigger r.rem()[i]@[k]] 0 <= i < r.rem().len() && 0 <= k < n ==> r.rem()[i]@[k] == self.sl()[i + k];
        fn vx_is_ascii(&self) -> bool;
    }
    impl<T> SliceIterX<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Seqit<&'a T>) { unimplemented!() }
        #[verifier::external_body] fn vx_windows<'a>(&'a self, n: usize) -> (r: Seqit<&'a [T]>) { unimplemented!() }
        #[verifier::external_body] fn vx_is_ascii(&self) -> bool { unimplemented!() }
    }
    impl<T, const N: usize> SliceIterX<T> for [T; N] { open spec fn sl(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Seqit<&'a T>) { unimplemented!() }
        #[verifier::external_body] fn vx_windows<'a>(&'a self, n: usize) -> (r: Seqit<&'a [T]>) { unimplemented!() }
        #[verifier::external_body] fn vx_is_ascii(&self) -> bool { unimplemented!() }
    }
}
pub mod slice {
    use vstd::prelude::*;
    pub type Iter<'a, T> = super::iter::Seqit<&'a T>;
    pub trait SortX<T> {
        spec fn sv(&self) -> Seq<T>;
        /// sorts by any comparator that implements a total order `le`
        fn vx_sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
            requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
            ensures final(self).sv().to_multiset() == old(self).sv().to_multiset(),
                forall|le: spec_fn(T, T) -> bool| #[trigger] sorts_by(f, le) ==> sorted_by(final(self).sv(), le);
        fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
            requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
            ensures final(self).sv().to_multiset() == old(self).sv().to_multiset(),
                forall|le: spec_fn(T, T) -> bool| #[trigger] sorts_by(f, le) ==> sorted_by(final(self).sv(), le);
    }
    /// `f` may find `a` not less than `b`
    pub open spec fn not_less<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) && o != core::cmp::Ordering::Less }
    /// `f` compares by the total preorder `le`
    pub open spec fn sorts_by<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, le: spec_fn(T, T) -> bool) -> bool {
        &&& forall|a: T, b: T, c: T| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c)
        &&& forall|a: T, b: T| #[trigger] le(a, b) || le(b, a)
        &&& forall|a: &T, b: &T, o: core::cmp::Ordering| #[trigger] f.ensures((a, b), o) ==> (le(*a, *b) == (o != core::cmp::Ordering::Greater)) && (le(*b, *a) == (o != core::cmp::Ordering::Less))
    }
    pub open spec fn sorted_by<T>(s: Seq<T>, le: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] le(s[i], s[j]) }
    impl<T> SortX<T> for [T] { open spec fn sv(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn vx_sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
        #[verifier::external_body] fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    }
}
pub mod percent_encoding {
    pub use crate::dep_percent_encoding::{AsciiSet, CONTROLS, NON_ALPHANUMERIC, PercentEncode, percent_encode, utf8_percent_encode};
}
}
