//@ raw
// ===== text put together from pieces =====
pub broadcast proof fn lemma_cat_none(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn lemma_cat_none2(a: Seq<char>) ensures #[trigger] (a + Seq::<char>::empty()) == a { assert(a + Seq::<char>::empty() =~= a); }
pub broadcast proof fn lemma_cat(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub open spec fn joined(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(p.drop_last(), sep) + sep + p.last() }
}
pub broadcast proof fn lemma_joined_none(sep: Seq<char>) ensures #[trigger] joined(Seq::<Seq<char>>::empty(), sep) == Seq::<char>::empty() {}
pub broadcast proof fn lemma_joined_push(p: Seq<Seq<char>>, x: Seq<char>, sep: Seq<char>)
    ensures #[trigger] joined(p.push(x), sep) == (if p.len() == 0 { x } else { joined(p, sep) + sep + x })
{ assert(p.push(x).drop_last() =~= p); }
// a piece in front
pub proof fn lemma_joined_front(x: Seq<char>, p: Seq<Seq<char>>, sep: Seq<char>)
    requires p.len() > 0, ensures joined(seq![x] + p, sep) == x + sep + joined(p, sep), decreases p.len()
{
    broadcast use lemma_cat;
    let q = seq![x] + p;
    assert(q.drop_last() =~= seq![x] + p.drop_last());
    assert(q.last() == p.last());
    if p.len() == 1 { assert(seq![x] + p.drop_last() =~= seq![x]); assert(joined(seq![x], sep) == x); } else { lemma_joined_front(x, p.drop_last(), sep); }
}
#[verifier::opaque]
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn lemma_texts_none() ensures #[trigger] texts(Seq::<String>::empty()) == Seq::<Seq<char>>::empty() { reveal(texts); assert(texts(Seq::<String>::empty()) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_texts_push(s: Seq<String>, x: String) ensures #[trigger] texts(s.push(x)) == texts(s).push(x@) { reveal(texts); assert(texts(s.push(x)) =~= texts(s).push(x@)); }
pub broadcast proof fn lemma_texts_len(s: Seq<String>) ensures (#[trigger] texts(s)).len() == s.len() { reveal(texts); }
pub broadcast proof fn lemma_texts_idx(s: Seq<String>, i: int) requires 0 <= i < s.len(), ensures #[trigger] texts(s)[i] == s[i]@ { reveal(texts); }
pub broadcast group group_text { lemma_cat_none, lemma_cat_none2, lemma_cat, lemma_joined_none, lemma_joined_push, lemma_texts_none, lemma_texts_push, lemma_texts_len, lemma_texts_idx }
pub trait VxJoin { spec fn pieces(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.pieces(), sep@); }
impl VxJoin for Vec<String> { open spec fn pieces(&self) -> Seq<Seq<char>> { texts(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VxJoin for [String] { open spec fn pieces(&self) -> Seq<Seq<char>> { texts(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VxIntoString { spec fn isv(&self) -> Seq<char>; fn vx_into(&self) -> (r: String) ensures r@ == self.isv(); }
impl VxIntoString for str { open spec fn isv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(&self) -> (r: String) { unimplemented!() } }
impl VxIntoString for String { open spec fn isv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(&self) -> (r: String) { unimplemented!() } }
pub trait VxOrDefault { spec fn odv(&self) -> Seq<char>; fn vx_unwrap_or_default(self) -> (r: String) ensures r@ == self.odv(); }
impl VxOrDefault for Option<String> { open spec fn odv(&self) -> Seq<char> { match *self { Some(x) => x@, None => Seq::empty() } } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: String) { unimplemented!() } }
// what follows the last occurrence of a pattern; everything where there is none
pub open spec fn last_at(p: Seq<char>, s: Seq<char>, i: int) -> bool { occurs_at(p, s, i) && forall|j: int| i < j ==> !#[trigger] occurs_at(p, s, j) }
pub open spec fn after_last(s: Seq<char>, p: Seq<char>) -> Seq<char> { if exists|i: int| last_at(p, s, i) { s.skip((choose|i: int| last_at(p, s, i)) + p.len()) } else { s } }
pub proof fn lemma_after_last(s: Seq<char>, p: Seq<char>, i: int) requires last_at(p, s, i), ensures after_last(s, p) == s.skip(i + p.len())
{ let j = choose|j: int| last_at(p, s, j); if j < i { assert(!occurs_at(p, s, i)); } if i < j { assert(!occurs_at(p, s, j)); } }
pub trait VxRsplit { spec fn rsv(&self) -> Seq<char>; fn vx_rsplit(&self, p: &str) -> (r: VxIter<&str>) ensures r.pos() == 0, r.seq().len() > 0, r.seq()[0]@ == after_last(self.rsv(), p@); }
impl VxRsplit for str { open spec fn rsv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_rsplit(&self, p: &str) -> (r: VxIter<&str>) { unimplemented!() } }
pub open spec fn collected<T>(v: Vec<T>) -> Seq<T> { v@ }
pub open spec fn nodup(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] != s[j] }
// Vec<String>::sort puts the same strings in another order
pub trait VxSort { fn vx_sort(&mut self); }
impl VxSort for Vec<String> {
    #[verifier::external_body] fn vx_sort(&mut self)
        ensures final(self)@.len() == old(self)@.len(), nodup(texts(old(self)@)) ==> nodup(texts(final(self)@)), forall|x: Seq<char>| #![trigger texts(final(self)@).contains(x)] #![trigger texts(old(self)@).contains(x)] texts(final(self)@).contains(x) <==> texts(old(self)@).contains(x)
    { unimplemented!() }
}
// HashSet::drain gives each member once
impl VxSet<String> {
    #[verifier::external_body] pub fn vx_drain(&mut self) -> (r: VxIter<String>)
        ensures r.pos() == 0, nodup(texts(r.seq())), forall|x: Seq<char>| #![trigger old(self).names().contains(x)] #![trigger texts(r.seq()).contains(x)] old(self).names().contains(x) <==> texts(r.seq()).contains(x), final(self).names() == Set::<Seq<char>>::empty()
    { unimplemented!() }
}
pub trait VxEq<R: ?Sized> { spec fn eq_is(&self, r: &R) -> bool; fn vx_eq(&self, r: &R) -> (b: bool) ensures b == self.eq_is(r); }
impl<'a, 'b> VxEq<&'b str> for &'a str { open spec fn eq_is(&self, r: &&'b str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &&'b str) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<String> for &'a str { open spec fn eq_is(&self, r: &String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &String) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<&'a str> for String { open spec fn eq_is(&self, r: &&'a str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &&'a str) -> (b: bool) { unimplemented!() } }
impl VxEq<str> for String { open spec fn eq_is(&self, r: &str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &str) -> (b: bool) { unimplemented!() } }
impl VxEq<String> for String { open spec fn eq_is(&self, r: &String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &String) -> (b: bool) { unimplemented!() } }
impl<'a, 'b> VxEq<&'b String> for &'a String { open spec fn eq_is(&self, r: &&'b String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &&'b String) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<String> for &'a String { open spec fn eq_is(&self, r: &String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &String) -> (b: bool) { unimplemented!() } }
impl<'a, 'b> VxEq<&'b String> for &'a str { open spec fn eq_is(&self, r: &&'b String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &&'b String) -> (b: bool) { unimplemented!() } }
impl<'a, 'b> VxEq<&'b str> for &'a String { open spec fn eq_is(&self, r: &&'b str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &&'b str) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<str> for &'a String { open spec fn eq_is(&self, r: &str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &str) -> (b: bool) { unimplemented!() } }
impl VxEq<str> for str { open spec fn eq_is(&self, r: &str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &str) -> (b: bool) { unimplemented!() } }
impl VxEq<String> for str { open spec fn eq_is(&self, r: &String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &String) -> (b: bool) { unimplemented!() } }
//@ end
