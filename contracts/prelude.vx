//@ raw
// ===== stand-ins for std and third-party items (contracts assumed; see DESIGN.md "Trusted base") =====
pub assume_specification<T> [std::mem::replace] (d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{ unimplemented!() }

pub struct VxIter<T> { v: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).seq() == old(self).seq(),
            old(self).pos() < old(self).seq().len() ==> final(self).pos() == old(self).pos() + 1
                && r == Some(old(self).seq()[old(self).pos()]),
            old(self).pos() >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: VxIter<T>)
        ensures r.pos() == 0, r.seq() == (if n as int <= self.seq().len() - self.pos() { self.seq().subrange(self.pos(), self.pos() + n as int) } else { self.seq().skip(self.pos()) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VxIter<T>) ensures r.pos() == 0, r.seq() == self.seq().skip(self.pos()).reverse(),
    { unimplemented!() }
}
pub trait VxIntoIter<T>: Sized {
    spec fn vseq(&self) -> Seq<T>;
    fn vx_into_iter(self) -> (r: VxIter<T>) ensures r.seq() == self.vseq(), r.pos() == 0;
}
impl<T> VxIntoIter<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter<&'a T> for &'a Vec<T> {
    open spec fn vseq(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter<&'a T> for &'a [T] {
    open spec fn vseq(&self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
impl<T> VxIntoIter<T> for VxIter<T> {
    open spec fn vseq(&self) -> Seq<T> { self.seq().skip(self.pos()) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

pub trait VxVecIter<T> {
    spec fn vitems(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: VxIter<&T>) ensures r.seq() == refs(self.vitems()), r.pos() == 0;
}
impl<T> VxVecIter<T> for Vec<T> {
    open spec fn vitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
impl<T> VxVecIter<T> for [T] {
    open spec fn vitems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
// `.collect()` into a Vec is push in order
pub trait VxCollect<T>: Sized {
    spec fn vcol(&self) -> Seq<T>;
    fn vx_collect_new() -> (r: Self) ensures r.vcol() == Seq::<T>::empty();
    fn vx_collect_push(&mut self, x: T) ensures final(self).vcol() == old(self).vcol().push(x);
}
impl<T> VxCollect<T> for Vec<T> {
    open spec fn vcol(&self) -> Seq<T> { self@ }
    fn vx_collect_new() -> (r: Vec<T>) { Vec::new() }
    fn vx_collect_push(&mut self, x: T) { self.push(x); }
}
// start of an open range: the counter
pub fn vx_range_start<T>(x: T) -> (r: T) ensures r == x { x }
