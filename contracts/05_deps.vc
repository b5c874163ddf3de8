//## Stand-ins for the dependencies (digest, hmac, sha1, rsa, base64, rand, either, fmt-cmp) and std::time.
@raw dependency shims
pub mod sxd {
use vstd::prelude::*;
use vstd::string::*;
/// Sub-slicing that panics when out of range: if it returns, the range was in range.
pub mod ix {
    use vstd::prelude::*;
    pub trait Ix<T> {
        spec fn ixv(&self) -> Seq<T>;
        fn vx_sub_range(&self, a: usize, b: usize) -> (r: &[T]) ensures a <= b <= self.ixv().len(), r@ == self.ixv().subrange(a as int, b as int);
        fn vx_sub_from(&self, a: usize) -> (r: &[T]) ensures a <= self.ixv().len(), r@ == self.ixv().skip(a as int);
        fn vx_sub_to(&self, b: usize) -> (r: &[T]) ensures b <= self.ixv().len(), r@ == self.ixv().take(b as int);
        fn vx_copy_range(&mut self, a: usize, b: usize, src: &[T])
            ensures a <= b <= old(self).ixv().len(), src@.len() == b - a,
                final(self).ixv() == old(self).ixv().take(a as int) + src@ + old(self).ixv().skip(b as int);
    }
    impl<T> Ix<T> for [T] { open spec fn ixv(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn vx_sub_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_sub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_sub_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_copy_range(&mut self, a: usize, b: usize, src: &[T]) { unimplemented!() }
    }
    impl<T, const N: usize> Ix<T> for [T; N] { open spec fn ixv(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn vx_sub_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_sub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_sub_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_copy_range(&mut self, a: usize, b: usize, src: &[T]) { unimplemented!() }
    }
    impl<T, N: super::digest::generic_array::ArrayLength> Ix<T> for super::digest::generic_array::GenericArray<T, N> { open spec fn ixv(&self) -> Seq<T> { self@ }
        #[verifier::external_body] fn vx_sub_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_sub_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_sub_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
        #[verifier::external_body] fn vx_copy_range(&mut self, a: usize, b: usize, src: &[T]) { unimplemented!() }
    }
    /// Machine arithmetic: exact when it does not wrap (with overflow checks it panics instead of wrapping).
    #[verifier::external_body]
    pub fn vx_sub(a: usize, b: usize) -> (r: usize) ensures a >= b ==> r == a - b, a < b ==> r == a - b + usize::MAX + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_add(a: usize, b: usize) -> (r: usize) ensures a + b <= usize::MAX ==> r == a + b, a + b > usize::MAX ==> r == a + b - usize::MAX - 1 { unimplemented!() }
    #[verifier::external_body]
    pub broadcast proof fn ax_slice_len<T>(s: &[T]) ensures (#[trigger] s@.len()) <= isize::MAX {}
}
pub mod digest {
    use vstd::prelude::*;
    /// Something that digests the bytes it is fed, one piece after another.
    pub trait Update: Sized {
        spec fn input(&self) -> Seq<u8>;
        /// everything about the digest but its input
        spec fn tag(&self) -> Seq<u8>;
        fn update(&mut self, data: &[u8]) ensures final(self).input() == old(self).input() + data@, final(self).tag() == old(self).tag();
    }
    pub trait Digest: Sized {
        spec fn d_input(&self) -> Seq<u8>;
        spec fn d_hash(s: Seq<u8>) -> Seq<u8>;
        fn new() -> (r: Self) ensures r.d_input() == Seq::<u8>::empty();
        fn update<A: crate::sx::convert::AsRef<[u8]>>(&mut self, data: A) ensures final(self).d_input() == old(self).d_input() + data.asr()@;
        fn finalize(self) -> (r: generic_array::GenericArray<u8, generic_array::U20>) ensures r@ == Self::d_hash(self.d_input());
        fn digest<A: crate::sx::convert::AsRef<[u8]>>(data: A) -> (r: generic_array::GenericArray<u8, generic_array::U20>) ensures r@ == Self::d_hash(data.asr()@);
    }
    pub trait OutputSizeUser { type OutputSize; }
    pub mod core_api { pub trait BlockSizeUser { type BlockSize; } }
    pub mod generic_array {
        use vstd::prelude::*;
        pub trait ArrayLength { spec fn n() -> nat; }
        pub struct U20; impl ArrayLength for U20 { open spec fn n() -> nat { 20 } }
        pub struct U64; impl ArrayLength for U64 { open spec fn n() -> nat { 64 } }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        #[verifier::accept_recursive_types(N)]
        pub struct GenericArray<T, N> { p: core::marker::PhantomData<(T, N)> }
        impl<T, N: ArrayLength> GenericArray<T, N> {
            pub uninterp spec fn view(&self) -> Seq<T>;
            #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r == N::n() { unimplemented!() }
            #[verifier::external_body] pub fn generate<F: Fn(usize) -> T>(f: F) -> (r: Self) requires forall|i: usize| #[trigger] f.requires((i,)), ensures r@.len() == N::n(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((i as usize,), #[trigger] r@[i]) { unimplemented!() }
        }
        pub broadcast axiom fn ax_len<T, N: ArrayLength>(a: &GenericArray<T, N>) ensures (#[trigger] a@).len() == N::n();
        impl<N: ArrayLength> crate::sx::convert::AsRef<[u8]> for GenericArray<u8, N> { open spec fn asr(&self) -> &[u8] { crate::sp::slice_of_ga(*self) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
        pub mod sequence { pub trait GenericSequence {} }
    }
}
pub mod sha1 {
    use vstd::prelude::*;
    pub use super::digest::Digest;
    #[verifier::external_body]
    pub struct Sha1 { p: u8 }
    impl Sha1 { pub uninterp spec fn inp(&self) -> Seq<u8>; }
    /// SHA-1
    pub uninterp spec fn sha1(s: Seq<u8>) -> Seq<u8>;
    impl super::digest::OutputSizeUser for Sha1 { type OutputSize = super::digest::generic_array::U20; }
    impl super::digest::core_api::BlockSizeUser for Sha1 { type BlockSize = super::digest::generic_array::U64; }
    impl super::digest::Update for Sha1 { open spec fn input(&self) -> Seq<u8> { self.inp() } open spec fn tag(&self) -> Seq<u8> { Seq::empty() } #[verifier::external_body] fn update(&mut self, data: &[u8]) { unimplemented!() } }
    impl super::digest::Digest for Sha1 {
        open spec fn d_input(&self) -> Seq<u8> { self.inp() }
        open spec fn d_hash(s: Seq<u8>) -> Seq<u8> { sha1(s) }
        #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
        #[verifier::external_body] fn update<A: crate::sx::convert::AsRef<[u8]>>(&mut self, data: A) { unimplemented!() }
        #[verifier::external_body] fn finalize(self) -> (r: super::digest::generic_array::GenericArray<u8, super::digest::generic_array::U20>) { unimplemented!() }
        #[verifier::external_body] fn digest<A: crate::sx::convert::AsRef<[u8]>>(data: A) -> (r: super::digest::generic_array::GenericArray<u8, super::digest::generic_array::U20>) { unimplemented!() }
    }
    impl crate::sx::default::Default for Sha1 { open spec fn is_dfl(r: &Self) -> bool { r.inp() == Seq::<u8>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
}
pub mod hmac {
    use vstd::prelude::*;
    use vstd::string::*;
    use super::digest::generic_array::*;
    #[verifier::external_body]
    #[verifier::accept_recursive_types(D)]
    pub struct Hmac<D> { p: core::marker::PhantomData<D> }
    impl<D> Hmac<D> { pub uninterp spec fn key(&self) -> Seq<u8>; pub uninterp spec fn inp(&self) -> Seq<u8>; }
    /// HMAC-SHA1 (RFC 2104) for a key of at most one block
    pub uninterp spec fn hmac_block(k: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
    /// RFC 2104: keys longer than the block of 64 bytes are hashed first
    pub open spec fn hk(k: Seq<u8>) -> Seq<u8> { if k.len() <= 64 { k } else { super::sha1::sha1(k) } }
    pub open spec fn hmac_sha1(k: Seq<u8>, m: Seq<u8>) -> Seq<u8> { hmac_block(hk(k), m) }
    impl<D> super::digest::Update for Hmac<D> { open spec fn input(&self) -> Seq<u8> { self.inp() } open spec fn tag(&self) -> Seq<u8> { self.key() } #[verifier::external_body] fn update(&mut self, data: &[u8]) { unimplemented!() } }
    pub struct InvalidLength;
    #[verifier::external_body]
    pub struct CtOutput { p: u8 }
    impl CtOutput { pub uninterp spec fn out(&self) -> Seq<u8>;
        #[verifier::external_body] pub fn into_bytes(self) -> (r: GenericArray<u8, U20>) ensures r@ == self.out() { unimplemented!() } }
    pub trait Mac: Sized {
        spec fn made(k: Seq<u8>, r: &Self) -> bool;
        spec fn mac(&self) -> Seq<u8>;
        fn new_from_slice<K: crate::sx::convert::AsRef<[u8]> + ?Sized>(key: &K) -> (r: Result<Self, InvalidLength>) ensures r.is_ok() ==> Self::made(key.asr()@, &r->Ok_0);
        fn finalize(self) -> (r: CtOutput) ensures r.out() == self.mac();
    }
    impl Mac for Hmac<super::sha1::Sha1> {
        open spec fn made(k: Seq<u8>, r: &Self) -> bool { r.key() == k && r.inp() == Seq::<u8>::empty() }
        open spec fn mac(&self) -> Seq<u8> { hmac_sha1(self.key(), self.inp()) }
        #[verifier::external_body] fn new_from_slice<K: crate::sx::convert::AsRef<[u8]> + ?Sized>(key: &K) -> (r: Result<Self, InvalidLength>) { unimplemented!() }
        #[verifier::external_body] fn finalize(self) -> (r: CtOutput) { unimplemented!() }
    }
}
pub mod rsa_common {
    use vstd::prelude::*;
    pub enum Scheme { Pkcs1v15Sha1, Other }
    #[verifier::external_body]
    pub struct RsaPrivateKey { p: u8 }
    pub struct Error;
    /// RSASSA-PKCS1-v1_5 with SHA-1 over a SHA-1 digest (RFC 8017)
    pub uninterp spec fn rsa_sha1(key: RsaPrivateKey, digest: Seq<u8>) -> Seq<u8>;
    pub trait SignScheme { spec fn scheme(&self) -> Scheme; }
    impl RsaPrivateKey {
        #[verifier::external_body] pub fn sign<P: SignScheme, D: crate::sx::convert::AsRef<[u8]> + ?Sized>(&self, padding: P, digest_in: &D) -> (r: Result<Vec<u8>, Error>)
            ensures r.is_ok() && padding.scheme() == Scheme::Pkcs1v15Sha1 ==> r->Ok_0@ == rsa_sha1(*self, digest_in.asr()@) { unimplemented!() }
    }
    pub mod pkcs8 { pub trait DecodePrivateKey {} }
}
pub mod rsa06 {
    use vstd::prelude::*;
    pub use super::rsa_common::{RsaPrivateKey, pkcs8};
    pub enum Hash { SHA1, MD5, SHA2_256 }
    #[verifier::external_body]
    pub struct PaddingScheme { p: u8 }
    impl PaddingScheme { pub uninterp spec fn sch(&self) -> super::rsa_common::Scheme;
        #[verifier::external_body] pub fn new_pkcs1v15_sign(hash: Option<Hash>) -> (r: PaddingScheme) ensures hash == Some(Hash::SHA1) ==> r.sch() == super::rsa_common::Scheme::Pkcs1v15Sha1 { unimplemented!() } }
    impl super::rsa_common::SignScheme for PaddingScheme { open spec fn scheme(&self) -> super::rsa_common::Scheme { self.sch() } }
}
pub mod rsa09 {
    use vstd::prelude::*;
    pub use super::rsa_common::{RsaPrivateKey, pkcs8};
    pub trait IsSha1 { spec fn is_sha1() -> bool; }
    impl IsSha1 for super::sha1::Sha1 { open spec fn is_sha1() -> bool { true } }
    #[verifier::external_body]
    pub struct Pkcs1v15Sign { p: u8 }
    impl Pkcs1v15Sign { pub uninterp spec fn sch(&self) -> super::rsa_common::Scheme;
        #[verifier::external_body] pub fn new<D: IsSha1>() -> (r: Pkcs1v15Sign) ensures D::is_sha1() ==> r.sch() == super::rsa_common::Scheme::Pkcs1v15Sha1 { unimplemented!() } }
    impl super::rsa_common::SignScheme for Pkcs1v15Sign { open spec fn scheme(&self) -> super::rsa_common::Scheme { self.sch() } }
}
pub mod base64 {
    use vstd::prelude::*;
    use vstd::string::*;
    /// RFC 4648 alphabet
    pub open spec fn b64c(n: int, url: bool) -> u8 { if n < 26 { (65 + n) as u8 } else if n < 52 { (71 + n) as u8 } else if n < 62 { (n - 4) as u8 } else if n == 62 { if url { 45 } else { 43 } } else { if url { 95 } else { 47 } } }
    /// RFC 4648 Base64
    pub open spec fn b64(s: Seq<u8>, url: bool, pad: bool) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() }
        else if s.len() == 1 { seq![b64c(s[0] as int / 4, url), b64c((s[0] as int % 4) * 16, url)] + (if pad { seq![61u8, 61u8] } else { Seq::empty() }) }
        else if s.len() == 2 { seq![b64c(s[0] as int / 4, url), b64c((s[0] as int % 4) * 16 + s[1] as int / 16, url), b64c((s[1] as int % 16) * 4, url)] + (if pad { seq![61u8] } else { Seq::empty() }) }
        else { seq![b64c(s[0] as int / 4, url), b64c((s[0] as int % 4) * 16 + s[1] as int / 16, url), b64c((s[1] as int % 16) * 4 + s[2] as int / 64, url), b64c(s[2] as int % 64, url)] + b64(s.skip(3), url, pad) }
    }
    pub broadcast proof fn lemma_b64(s: Seq<u8>, url: bool)
        ensures (#[trigger] b64(s, url, false)).len() == s.len() / 3 * 4 + (if s.len() % 3 == 0 { 0 } else { s.len() % 3 + 1 }), forall|i: int| 0 <= i < b64(s, url, false).len() ==> #[trigger] b64(s, url, false)[i] < 128
        decreases s.len()
    {
        if s.len() >= 3 {
            lemma_b64(s.skip(3), url);
            let h = seq![b64c(s[0] as int / 4, url), b64c((s[0] as int % 4) * 16 + s[1] as int / 16, url), b64c((s[1] as int % 16) * 4 + s[2] as int / 64, url), b64c(s[2] as int % 64, url)];
            assert(b64(s, url, false) == h + b64(s.skip(3), url, false));
        }
    }
    #[verifier::external_body]
    pub struct GeneralPurpose { pub p: u8 }
    impl GeneralPurpose { pub uninterp spec fn url(&self) -> bool; pub uninterp spec fn pad(&self) -> bool; }
    pub struct EncodeSliceError;
    pub trait Engine {
        spec fn e_url(&self) -> bool;
        spec fn e_pad(&self) -> bool;
        fn encode_slice<A: crate::sx::convert::AsRef<[u8]>, O: crate::sx::bufx::BufX + ?Sized>(&self, input: A, output: &mut O) -> (r: Result<usize, EncodeSliceError>)
            ensures final(output).bv().len() == old(output).bv().len(),
                r.is_ok() == (b64(input.asr()@, self.e_url(), self.e_pad()).len() <= old(output).bv().len()),
                r.is_ok() ==> r->Ok_0 == b64(input.asr()@, self.e_url(), self.e_pad()).len() && final(output).bv() == b64(input.asr()@, self.e_url(), self.e_pad()) + old(output).bv().skip(r->Ok_0 as int);
    }
    impl Engine for GeneralPurpose {
        open spec fn e_url(&self) -> bool { self.url() }
        open spec fn e_pad(&self) -> bool { self.pad() }
        #[verifier::external_body] fn encode_slice<A: crate::sx::convert::AsRef<[u8]>, O: crate::sx::bufx::BufX + ?Sized>(&self, input: A, output: &mut O) -> (r: Result<usize, EncodeSliceError>) { unimplemented!() }
    }
    pub mod engine { pub mod general_purpose {
        use vstd::prelude::*;
        #[verifier::external_body] pub exec const STANDARD: super::super::GeneralPurpose ensures !STANDARD.url(), STANDARD.pad() { super::super::GeneralPurpose { p: 0 } }
        #[verifier::external_body] pub exec const STANDARD_NO_PAD: super::super::GeneralPurpose ensures !STANDARD_NO_PAD.url(), !STANDARD_NO_PAD.pad() { super::super::GeneralPurpose { p: 0 } }
        #[verifier::external_body] pub exec const URL_SAFE: super::super::GeneralPurpose ensures URL_SAFE.url(), URL_SAFE.pad() { super::super::GeneralPurpose { p: 0 } }
        #[verifier::external_body] pub exec const URL_SAFE_NO_PAD: super::super::GeneralPurpose ensures URL_SAFE_NO_PAD.url(), !URL_SAFE_NO_PAD.pad() { super::super::GeneralPurpose { p: 0 } }
    } }
    pub mod display {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Base64Display<'a> { p: &'a u8 }
        pub uninterp spec fn b64d(d: Base64Display<'_>) -> Seq<u8>;
        impl<'a> Base64Display<'a> {
            #[verifier::external_body] pub fn new<E: super::Engine>(bytes: &'a [u8], engine: &E) -> (r: Base64Display<'a>) ensures b64d(r) == super::b64(bytes@, engine.e_url(), engine.e_pad()) { unimplemented!() }
        }
        impl<'a> crate::sx::fmt::Display for Base64Display<'a> { open spec fn disp(&self) -> Seq<u8> { b64d(*self) } #[verifier::external_body] fn fmt(&self, f: &mut crate::sx::fmt::Formatter<'_>) -> crate::sx::fmt::Result { unimplemented!() } }
    }
}
pub mod bufx {
    use vstd::prelude::*;
    /// a byte buffer of fixed length
    pub trait BufX { spec fn bv(&self) -> Seq<u8>; }
    impl BufX for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> BufX for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
}
pub mod rand {
    use vstd::prelude::*;
    pub mod prelude {
        use vstd::prelude::*;
        /// `unpredictable`: seeded by the operating system
        pub trait RngCore { spec fn unpredictable(&self) -> bool; fn fill_bytes<D: crate::sx::bufx::BufX + ?Sized>(&mut self, dest: &mut D) ensures final(dest).bv().len() == old(dest).bv().len(), old(self).unpredictable() ==> drawn(final(dest).bv()), final(self).unpredictable() == old(self).unpredictable(); }
        /// the bytes of one fill by a random number generator
        pub uninterp spec fn drawn(b: Seq<u8>) -> bool;
        pub trait CryptoRng {}
        pub struct ThreadRng;
        impl RngCore for ThreadRng { open spec fn unpredictable(&self) -> bool { true } #[verifier::external_body] fn fill_bytes<D: crate::sx::bufx::BufX + ?Sized>(&mut self, dest: &mut D) { unimplemented!() } }
        impl CryptoRng for ThreadRng {}
        #[verifier::external_body] pub fn thread_rng() -> ThreadRng { unimplemented!() }
    }
}
pub mod time {
    use vstd::prelude::*;
    /// a reading of the system clock: seconds relative to the Unix epoch
    #[verifier::external_body]
    pub struct SystemTime { p: u8 }
    pub struct Duration { pub s: u64 }
    pub struct SystemTimeError;
    pub uninterp spec fn unix(t: SystemTime) -> int;
    pub uninterp spec fn read_from_clock(t: SystemTime) -> bool;
    impl SystemTime {
        #[verifier::external_body] pub fn now() -> (r: SystemTime) ensures read_from_clock(r) { unimplemented!() }
        #[verifier::external_body] pub fn duration_since(&self, e: SystemTime) -> (r: Result<Duration, SystemTimeError>)
            ensures r.is_ok() == (unix(*self) >= unix(e)), r.is_ok() ==> r->Ok_0.s == unix(*self) - unix(e) { unimplemented!() }
    }
    impl Duration { pub fn as_secs(&self) -> (r: u64) ensures r == self.s { self.s } }
    #[verifier::external_body] pub exec const UNIX_EPOCH: SystemTime ensures unix(UNIX_EPOCH) == 0 { SystemTime { p: 0 } }
}
pub mod either { pub use crate::dep_either::Either; }
pub mod fmt_cmp {
    use vstd::prelude::*;
    pub use core::cmp::Ordering;
    /// `fmt_cmp::cmp` 0.1: the order of the displayed texts, except that a left side that writes nothing is never looked at
    /// again, so that the answer is `Equal` or `Less` whatever the right side is (see the crate's source).
    #[verifier::external_body]
    pub fn vx_cmp<A: crate::sx::fmt::Display + ?Sized, B: crate::sx::fmt::Display + ?Sized>(a: &A, b: &B) -> (r: Ordering)
        ensures a.disp().len() > 0 ==> r == crate::sp::blex(a.disp(), b.disp()),
            a.disp().len() == 0 && b.disp().len() == 0 ==> r == Ordering::Equal,
            a.disp().len() == 0 ==> r != Ordering::Greater { unimplemented!() }
}
}
