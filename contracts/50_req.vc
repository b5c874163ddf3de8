//## Requests.
@item mod oauth1_request::request
use crate::ev::*;
broadcast use crate::ev::evs;
@item mod oauth1_request::request::parameter_list
use crate::ev::*;
use crate::sx::convert::AsMut;
use crate::sx::slice::not_less;
broadcast use crate::sp::text0;
spec fn ple_fn<K: AsRef<str>, V: Display, P: Borrow<(K, V)>>() -> spec_fn(P, P) -> bool { |a: P, b: P| ple::<K, V, P>(a, b) }
/// sorting by `cmp` gives a sorted list
proof fn lemma_sorting<K: AsRef<str>, V: Display, P: Borrow<(K, V)>>()
    ensures crate::sx::slice::sorts_by(cmp::<K, V, P>, ple_fn::<K, V, P>()),
        forall|s: Seq<P>| #[trigger] crate::sx::slice::sorted_by(s, ple_fn::<K, V, P>()) ==> psorted::<K, V, P>(s),
{
    lemma_ple::<K, V, P>();
    let le = ple_fn::<K, V, P>();
    assert(crate::sx::slice::sorts_by(cmp::<K, V, P>, le));
    assert forall|s: Seq<P>| #[trigger] crate::sx::slice::sorted_by(s, le) implies psorted::<K, V, P>(s) by {
        assert forall|i: int, j: int| 0 <= i <= j < s.len() implies ple::<K, V, P>(#[trigger] s[i], #[trigger] s[j]) by { assert(le(s[i], s[j])); }
    }
}
/// every element and the next one are in order
pub open spec fn adj_sorted<T>(s: Seq<T>, le: spec_fn(T, T) -> bool) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() - 1 ==> le(s[i], s[i + 1]) }
/// a list whose neighbours are in order is sorted
proof fn lemma_adjacents<K: AsRef<str>, V: Display, P: Borrow<(K, V)>>()
    ensures forall|s: Seq<P>| #[trigger] adj_sorted(s, ple_fn::<K, V, P>()) == psorted::<K, V, P>(s),
{
    lemma_ple::<K, V, P>();
    assert forall|s: Seq<P>| #[trigger] adj_sorted(s, ple_fn::<K, V, P>()) == psorted::<K, V, P>(s) by {
        if adj_sorted(s, ple_fn::<K, V, P>()) {
            assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] ple::<K, V, P>(s[i], s[i + 1]) by { assert(s[i] == s[i]); }
            lemma_adjacent::<K, V, P>(s);
        }
    }
}
@item trait Request
    /// the calls this request makes on a serializer
    spec fn evs(&self) -> Seq<crate::ev::Ev>;
@fn Request::serialize
    ensures crate::ev::ran(serializer, self.evs(), r),
@item impl <Request for &R>
    open spec fn evs(&self) -> Seq<Ev> { (**self).evs() }
@fn <Request for &R>::serialize : C09
@item impl <Request for &mut R>
    open spec fn evs(&self) -> Seq<Ev> { (**self).evs() }
@fn <Request for &mut R>::serialize : C09
@item impl <Request for ()>
    open spec fn evs(&self) -> Seq<Ev> { bare() }
@fn <Request for ()>::serialize : C01 C09
@item impl <Request for Option>
    open spec fn evs(&self) -> Seq<Ev> { match *self { Some(x) => x.evs(), None => bare() } }
@fn <Request for Option>::serialize : C09
@fn AssertSorted::new : C01 C09
    ensures r.inner.rem() == iterator.items(),
@item impl <Request for AssertSorted>
    open spec fn evs(&self) -> Seq<Ev> { merged(pairs_of(self.inner.rem()), OAuthParameter::Callback) }
@fn <Request for AssertSorted>::serialize : C01 C09
@entry
    let ghost s0 = serializer;
    proof { lemma_bare(); }
@loop 0
    invariant_except_break
        part(s0, self.evs(), merged(pairs_of(vx_it0.rem()), next_param), serializer),
    ensures
        part(s0, self.evs(), merged(Seq::empty(), next_param), serializer),
    decreases vx_it0.rem().len(),
@loop 1
    invariant
        part(s0, self.evs(), merged(seq![Ev::Param(k.spec_bytes(), v.disp())] + pairs_of(vx_it0.rem()), next_param), serializer),
    ensures
        next_param == OAuthParameter::None || blex(crate::slots::slot_name(next_param), k.spec_bytes()) != core::cmp::Ordering::Less,
    decreases 8 - crate::slots::slot_no(next_param),
@loop 2
    invariant
        part(s0, self.evs(), merged(Seq::empty(), next_param), serializer),
    ensures
        next_param == OAuthParameter::None,
    decreases 8 - crate::slots::slot_no(next_param),
//## ---- ParameterList
@fn request::parameter_list::inner__cmp : C01 C10
    ensures r == kv_ord(kl.spec_bytes(), vl.disp(), kr.spec_bytes(), vr.disp()),
@entry
    proof { lemma_blex(enc(vl.disp()), enc(vr.disp())); lemma_blex(enc(vr.disp()), enc(vl.disp())); }
@fn request::parameter_list::cmp : C01 C10
    ensures r == pord::<K, V, P>(*lhs, *rhs),
@fn request::parameter_list::is_sorted_by : C10
    requires forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
    ensures forall|le: spec_fn(T, T) -> bool| #[trigger] crate::sx::slice::sorts_by(cmp, le) ==> r == adj_sorted(slice@, le),
@closure 0
    |$0: &[T]| -> (q: bool)
        requires $0@.len() == 2, forall|a: &T, b: &T| #[trigger] cmp.requires((a, b)),
        ensures forall|le: spec_fn(T, T) -> bool| #[trigger] crate::sx::slice::sorts_by(cmp, le) ==> q == le($0@[0], $0@[1])
@fn ParameterList::from_sorted : C10
    ensures r.is_some() == psorted::<K, V, P>(list.asr()@), r.is_some() ==> r.unwrap().list == list,
@entry
    proof { lemma_sorting::<K, V, P>(); lemma_adjacents::<K, V, P>(); }
@fn ParameterList::sort : C10
    ensures psorted::<K, V, P>(final(self).list.amv()@), final(self).list.amv()@.to_multiset() == old(self).list.amv()@.to_multiset(),
@entry
    proof { lemma_sorting::<K, V, P>(); }
@fn ParameterList::new : C10
    ensures psorted::<K, V, P>(r.list.amv()@), r.list.amv()@.to_multiset() == list.amv()@.to_multiset(),
@entry
    proof { lemma_sorting::<K, V, P>(); }
@fn ParameterList::into_inner : C10
    ensures r == self.list,
@fn ParameterList::iter : C10
    ensures r.rem().len() == self.list.asr()@.len(), forall|i: int| 0 <= i < r.rem().len() ==> #[trigger] r.rem()[i] == self.list.asr()@[i].bor(),
@item impl <AsRef<[P]> for ParameterList>
    open spec fn asr(&self) -> &[P] { self.list.asr() }
@fn <AsRef<[P]> for ParameterList>::as_ref : C10
@item impl <Default for ParameterList>
    open spec fn is_dfl(r: &Self) -> bool { A::is_dfl(&r.list) }
@fn <Default for ParameterList>::default : C10
@item impl <From for ParameterList>
    open spec fn from_rel(t: A, r: Self) -> bool { psorted::<K, V, P>(r.list.amv()@) && r.list.amv()@.to_multiset() == t.amv()@.to_multiset() }
@fn <From for ParameterList>::from : C10
@item impl <FromIterator for ParameterList>
    open spec fn built(items: Seq<P>, r: Self) -> bool { exists|a: A| #[trigger] A::built(items, a) && psorted::<K, V, P>(r.list.amv()@) && r.list.amv()@.to_multiset() == a.amv()@.to_multiset() }
@fn <FromIterator for ParameterList>::from_iter : C10
@item impl <Extend for ParameterList>
    open spec fn extended(pre: &Self, items: Seq<P>, post: &Self) -> bool { exists|a: A| #[trigger] A::extended(&pre.list, items, &a) && psorted::<K, V, P>(post.list.amv()@) && post.list.amv()@.to_multiset() == a.amv()@.to_multiset() }
@fn <Extend for ParameterList>::extend : C10
@item impl <Request for ParameterList>
    open spec fn evs(&self) -> Seq<Ev> { merged(list_evs::<K, V, P>(self.list.asr()@), crate::oauth1_request::util::OAuthParameter::Callback) }
@fn <Request for ParameterList>::serialize : C01 C10
@fn request::parameter_list::inner__ParameterList_serialize : C01 C10
    ensures ran(serializer, merged(list_evs::<K, V, P>(this@), crate::oauth1_request::util::OAuthParameter::Callback), r),
@entry
    proof {
        assert forall|m: Seq<(&K, &V)>| m.len() == this@.len() && (forall|i: int| #![trigger m[i]] 0 <= i < m.len() ==> *m[i].0 == this@[i].bor().0 && *m[i].1 == this@[i].bor().1) implies #[trigger] pairs_of(m) == list_evs::<K, V, P>(this@) by {
            assert(pairs_of(m) =~= list_evs::<K, V, P>(this@));
        }
    }
@closure 0
    |$0: &P| -> (q: (&K, &V)) ensures *q.0 == $0.bor().0, *q.1 == $0.bor().1
@item impl <Iterator for Iter>
    open spec fn rem(&self) -> Seq<&'a (K, V)> { self.inner.rem().map_values(|p: &'a P| p.bor()) }
@fn <Iterator for Iter>::next : C10
