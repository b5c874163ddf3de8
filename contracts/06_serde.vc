//## Stand-ins for serde's traits.
@raw serde shims
pub mod sxs {
use vstd::prelude::*;
use vstd::string::*;
pub use ser::{Serialize, Serializer};
pub use de::{Deserialize, Deserializer};
/// A serialized value, whatever the format.
pub uninterp spec fn ents(t: Tok) -> Seq<(Tok, Tok)>;
pub uninterp spec fn ident(t: Tok) -> Seq<u8>;
/// the serialized form of a value
pub uninterp spec fn tok_of<T: ?Sized>(v: &T) -> Tok;
/// which values a serialized form stands for
pub trait DeRel: Sized { spec fn de_rel(t: Tok, r: Self) -> bool; }
#[verifier::external_body]
pub struct Tok { p: u8 }
pub mod ser {
    use vstd::prelude::*;
    use vstd::string::*;
    use super::Tok;
    pub trait Serialize {
        /// what the serializer has to be told for this value, and what it answers
        spec fn told<S: Serializer>(&self, o: S::Ok) -> bool;
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) ensures r.is_ok() ==> self.told::<S>(r->Ok_0);
    }
    pub trait Serializer: Sized {
        type Ok; type Error; type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
        fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
            ensures r.is_ok() ==> r->Ok_0.name() == name.spec_bytes() && r->Ok_0.announced() == len && r->Ok_0.fields() == Seq::<(Seq<u8>, Tok)>::empty();
    }
    pub trait SerializeStruct: Sized {
        type Ok; type Error;
        spec fn name(&self) -> Seq<u8>;
        spec fn announced(&self) -> nat;
        spec fn fields(&self) -> Seq<(Seq<u8>, Tok)>;
        spec fn done(&self, o: Self::Ok) -> bool;
        fn serialize_field<T: ?Sized>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
            ensures r.is_ok() ==> final(self).fields() == old(self).fields().push((key.spec_bytes(), super::tok_of(value))) && final(self).name() == old(self).name() && final(self).announced() == old(self).announced();
        fn end(self) -> (r: Result<Self::Ok, Self::Error>) ensures r.is_ok() ==> self.done(r->Ok_0);
    }
}
pub mod de {
    use vstd::prelude::*;
    use vstd::string::*;
    use super::{Tok, ents, ident};
    pub trait Error: Sized {
        spec fn is_missing(&self, f: Seq<u8>) -> bool;
        spec fn is_dup(&self, f: Seq<u8>) -> bool;
        fn missing_field(field: &'static str) -> (r: Self) ensures r.is_missing(field.spec_bytes());
        fn duplicate_field(field: &'static str) -> (r: Self) ensures r.is_dup(field.spec_bytes());
    }
    pub use super::DeRel;
    pub trait Deserialize<'de>: DeRel {
        fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) ensures r.is_ok() ==> Self::de_rel(d.tok(), r->Ok_0);
    }
    pub struct IgnoredAny;
    impl DeRel for IgnoredAny { open spec fn de_rel(t: Tok, r: Self) -> bool { true } }
    impl<'de> Deserialize<'de> for IgnoredAny { #[verifier::external_body] fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() } }
    pub trait Deserializer<'de>: Sized {
        type Error: Error;
        spec fn tok(&self) -> Tok;
        /// a format hands the visitor the map it has read, or fails
        /// (entries that are not among the named fields need not be handed over)
        fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], v: V) -> (r: Result<V::Value, Self::Error>)
            requires forall|b: Seq<u8>| #[trigger] V::knows(b) ==> exists|i: int| 0 <= i < fields@.len() && (#[trigger] fields@[i]).spec_bytes() == b,
            ensures r.is_ok() ==> V::map_rel(ents(self.tok()), r->Ok_0);
        /// a format hands the visitor the text of the key, as text or as bytes
        fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
            ensures r.is_ok() ==> V::bytes_rel(ident(self.tok()), r->Ok_0);
    }
    pub trait Visitor<'de>: Sized {
        type Value;
        spec fn map_rel(es: Seq<(Tok, Tok)>, v: Self::Value) -> bool;
        spec fn map_err<E: Error>(es: Seq<(Tok, Tok)>, e: E) -> bool;
        spec fn bytes_rel(b: Seq<u8>, v: Self::Value) -> bool;
        /// the fields it looks for in a map
        spec fn knows(b: Seq<u8>) -> bool;
        fn expecting<'a>(&self, f: &mut crate::sx::fmt::Formatter<'a>) -> crate::sx::fmt::Result;
        fn visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<Self::Value, A::Error>)
            requires !map.half(),
            ensures r.is_ok() ==> Self::map_rel(map.left(), r->Ok_0),
                r.is_err() ==> A::failed(r->Err_0) || Self::map_err(map.left(), r->Err_0)
            { crate::sx::vx_panic() }
        fn visit_str<E>(self, v: &str) -> (r: Result<Self::Value, E>) ensures r.is_ok() ==> Self::bytes_rel(v.spec_bytes(), r->Ok_0)
            { crate::sx::vx_panic() }
        fn visit_bytes<E>(self, v: &[u8]) -> (r: Result<Self::Value, E>) ensures r.is_ok() ==> Self::bytes_rel(v@, r->Ok_0)
            { crate::sx::vx_panic() }
    }
    pub trait MapAccess<'de>: Sized {
        type Error: Error;
        /// entries not yet handed out; `half`: the key of the first of them has been
        spec fn left(&self) -> Seq<(Tok, Tok)>;
        spec fn half(&self) -> bool;
        /// an error of the format itself
        spec fn failed(e: Self::Error) -> bool;
        fn next_key<K: DeRel>(&mut self) -> (r: Result<Option<K>, Self::Error>)
            requires !old(self).half(),
            ensures match r {
                Ok(Some(k)) => old(self).left().len() > 0 && K::de_rel(old(self).left()[0].0, k) && final(self).left() == old(self).left() && final(self).half(),
                Ok(None) => old(self).left().len() == 0 && final(self).left() == old(self).left() && !final(self).half(),
                Err(e) => Self::failed(e) };
        fn next_value<V: DeRel>(&mut self) -> (r: Result<V, Self::Error>)
            requires old(self).half(),
            ensures match r {
                Ok(v) => V::de_rel(old(self).left()[0].1, v) && final(self).left() == old(self).left().drop_first() && !final(self).half(),
                Err(e) => Self::failed(e) };
    }
}
}
