//@ raw
// ===== strings (std::str, String, char): contracts assumed =====
pub fn vx_str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
// char::is_whitespace; only what is used of it is stated
pub uninterp spec fn ws(c: char) -> bool;
pub broadcast axiom fn axiom_ws()
    ensures #[trigger] ws('\n'), ws(' '), !ws('{'), !ws('[');
pub open spec fn trim_end_of(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && ws(s.last()) { trim_end_of(s.drop_last()) } else { s }
}
pub open spec fn trim_start_of(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && ws(s[0]) { trim_start_of(s.drop_first()) } else { s }
}
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
// the least position at which p occurs in s, or s.len()+1
pub open spec fn occurs_at(p: Seq<char>, s: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn first_at(p: Seq<char>, s: Seq<char>, i: int) -> bool { occurs_at(p, s, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs_at(p, s, j) }
// where there is an occurrence there is a first one
pub proof fn lemma_first(p: Seq<char>, s: Seq<char>, i: int)
    requires occurs_at(p, s, i),
    ensures exists|j: int| #[trigger] first_at(p, s, j) && j <= i,
    decreases i,
{
    if forall|j: int| 0 <= j < i ==> !#[trigger] occurs_at(p, s, j) { assert(first_at(p, s, i)); }
    else { let j = choose|j: int| 0 <= j < i && #[trigger] occurs_at(p, s, j); lemma_first(p, s, j); }
}
pub proof fn lemma_first_or_none(p: Seq<char>, s: Seq<char>)
    ensures (exists|j: int| #[trigger] first_at(p, s, j)) || (forall|i: int| !#[trigger] occurs_at(p, s, i)),
{
    if exists|i: int| #[trigger] occurs_at(p, s, i) { let i = choose|i: int| #[trigger] occurs_at(p, s, i); lemma_first(p, s, i); }
}
// the pieces between the occurrences of c
pub open spec fn split_of(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] } else {
        let r = split_of(s.drop_first(), c);
        if s[0] == c { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.skip(1) }
    }
}
pub proof fn lemma_split_len(s: Seq<char>, c: char) ensures split_of(s, c).len() >= 1 decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.drop_first(), c); } }
// length in bytes as UTF-8
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }

pub trait VxLen { spec fn vlen(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.vlen(); }
impl VxLen for str { open spec fn vlen(&self) -> nat { blen(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl VxLen for String { open spec fn vlen(&self) -> nat { blen(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VxLen for Vec<T> { open spec fn vlen(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } }
pub trait VxPattern { spec fn pat(&self) -> Seq<char>; }
impl VxPattern for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPattern for &'a str { open spec fn pat(&self) -> Seq<char> { self@ } }

pub trait VxStr {
    spec fn sview(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trim_end_of(trim_start_of(self.sview()));
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trim_end_of(self.sview());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == trim_start_of(self.sview());
    fn vx_starts_with<P: VxPattern>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self.sview());
    fn vx_ends_with<P: VxPattern>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self.sview());
    fn vx_strip_prefix<P: VxPattern>(&self, p: P) -> (r: Option<&str>)
        ensures match r {
            Some(t) => is_prefix(p.pat(), self.sview()) && t@ == self.sview().skip(p.pat().len() as int),
            None => !is_prefix(p.pat(), self.sview()),
        };
    fn vx_split_once<P: VxPattern>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r {
            None => forall|i: int| !#[trigger] occurs_at(p.pat(), self.sview(), i),
            Some(t) => exists|i: int| #[trigger] first_at(p.pat(), self.sview(), i) && t.0@ == self.sview().take(i) && t.1@ == self.sview().skip(i + p.pat().len()),
        };
    fn vx_contains_str<P: VxPattern>(&self, p: P) -> (r: bool) ensures r == (exists|i: int| #[trigger] occurs_at(p.pat(), self.sview(), i));
    fn vx_contains_char(&self, c: char) -> (r: bool) ensures r == self.sview().contains(c);
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.sview();
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.sview();
    fn vx_split(&self, p: char) -> (r: VxIter<&str>)
        ensures r.pos() == 0, r.seq().len() == split_of(self.sview(), p).len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ == split_of(self.sview(), p)[i];
    fn vx_splitn<P: VxPattern>(&self, n: usize, p: P) -> (r: VxIter<&str>)
        requires n == 2, p.pat().len() > 0,
        ensures r.pos() == 0,
            (forall|i: int| !occurs_at(p.pat(), self.sview(), i)) ==> r.seq().len() == 1 && r.seq()[0]@ == self.sview(),
            forall|i: int| #[trigger] first_at(p.pat(), self.sview(), i) ==> r.seq().len() == 2 && r.seq()[0]@ == self.sview().take(i)
                && r.seq()[1]@ == self.sview().skip(i + p.pat().len());
}
impl VxStr for str {
    open spec fn sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPattern>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxPattern>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains_str<P: VxPattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains_char(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn<P: VxPattern>(&self, n: usize, p: P) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split(&self, p: char) -> (r: VxIter<&str>) { unimplemented!() }
}
impl VxStr for String {
    open spec fn sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPattern>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxPattern>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains_str<P: VxPattern>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains_char(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn<P: VxPattern>(&self, n: usize, p: P) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split(&self, p: char) -> (r: VxIter<&str>) { unimplemented!() }
}
// Display of strings and string building
pub trait VxDisplay {
    spec fn shown(&self) -> Seq<char>;
    fn vx_fmt(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.shown();
}
impl<'a> VxDisplay for &'a str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { unimplemented!() }
}
impl<'a, 'b> VxDisplay for &'a &'b str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { unimplemented!() }
}
impl VxDisplay for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { unimplemented!() }
}
impl<'a> VxDisplay for &'a String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { unimplemented!() }
}
pub trait VxAsStr { spec fn as_sview(&self) -> Seq<char>; fn vx_as_str(&self) -> (r: &str) ensures r@ == self.as_sview(); }
impl VxAsStr for String {
    open spec fn as_sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
}
impl<'a> VxAsStr for &'a str {
    open spec fn as_sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
}
impl<'a> VxAsStr for &'a String {
    open spec fn as_sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
}
impl<'a, 'b> VxAsStr for &'a &'b str {
    open spec fn as_sview(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_push_str(a: &mut String, b: &str) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
pub open spec fn boundary(s: Seq<char>, n: nat) -> bool { exists|i: int| 0 <= i <= s.len() && blen(#[trigger] s.take(i)) == n }
// String::truncate: the new length must be a character boundary
pub trait VxTruncate: VxStr {
    fn vx_truncate(&mut self, n: usize)
        requires n >= blen(old(self).sview()) || boundary(old(self).sview(), n as nat),
        ensures
            n >= blen(old(self).sview()) ==> final(self).sview() == old(self).sview(),
            forall|i: int| 0 <= i <= old(self).sview().len() && #[trigger] blen(old(self).sview().take(i)) == n ==> final(self).sview() == old(self).sview().take(i);
}
impl VxTruncate for String { #[verifier::external_body] fn vx_truncate(&mut self, n: usize) { unimplemented!() } }
