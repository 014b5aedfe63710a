//@ include prelude.vx
//@ include strings.vx
//@ raw
// ===== characters and words =====
pub open spec fn digit(d: nat) -> char { (0x30u32 + d as u32) as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn is_digit_char(c: char) -> bool { '0' <= c && c <= '9' }
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit_char(#[trigger] dec(n)[i])
    decreases n
{ if n >= 10 { lemma_dec(n / 10); } }
pub proof fn lemma_dec_inj(a: nat, b: nat)
    ensures dec(a) == dec(b) ==> a == b
    decreases a + b
{
    if dec(a) == dec(b) {
        if a >= 10 { lemma_dec(a / 10); }
        if b >= 10 { lemma_dec(b / 10); }
        assert(dec(a).last() == digit(a % 10) && dec(b).last() == digit(b % 10));
        assert(a % 10 == b % 10);
        if a >= 10 && b >= 10 {
            assert(dec(a).drop_last() =~= dec(a / 10) && dec(b).drop_last() =~= dec(b / 10));
            lemma_dec_inj(a / 10, b / 10);
        }
    }
}
pub open spec fn lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn alpha(c: char) -> bool { lower(c) || upper(c) }
pub open spec fn alnum(c: char) -> bool { alpha(c) || is_digit_char(c) }
pub open spec fn up(c: char) -> char { if lower(c) { (c as u32 - 32) as char } else { c } }
pub open spec fn low(c: char) -> char { if upper(c) { (c as u32 + 32) as char } else { c } }
pub open spec fn ups(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| up(s[i])) }
pub open spec fn lows(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| low(s[i])) }
pub open spec fn alnums(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) }
pub open spec fn word_char(c: char) -> bool { alnum(c) || c == '_' }
pub open spec fn word(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> word_char(#[trigger] s[i]) }
// starts like a name if it starts at all; a digit counts
pub open spec fn headed(s: Seq<char>) -> bool { s.len() > 0 ==> alnum(s[0]) }
// what all the languages here accept as a name
pub open spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && alpha(s[0]) && word(s) }
pub open spec fn letters(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alpha(#[trigger] s[i]) }
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 0x80);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == alnum(*c);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == alpha(*c);
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == lower(*c);
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == upper(*c);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == is_digit_char(*c);
pub trait VxCase { type O; spec fn uspec(&self, o: Self::O) -> bool; spec fn lspec(&self, o: Self::O) -> bool;
    fn vx_to_ascii_uppercase(&self) -> (r: Self::O) ensures self.uspec(r);
    fn vx_to_ascii_lowercase(&self) -> (r: Self::O) ensures self.lspec(r);
}
impl VxCase for char { type O = char;
    open spec fn uspec(&self, o: char) -> bool { o == up(*self) } open spec fn lspec(&self, o: char) -> bool { o == low(*self) }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
}
impl VxCase for str { type O = String;
    open spec fn uspec(&self, o: String) -> bool { o@ == ups(self@) } open spec fn lspec(&self, o: String) -> bool { o@ == lows(self@) }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
}
impl VxCase for String { type O = String;
    open spec fn uspec(&self, o: String) -> bool { o@ == ups(self@) } open spec fn lspec(&self, o: String) -> bool { o@ == lows(self@) }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
}
pub trait VxChars { spec fn cview(&self) -> Seq<char>; fn vx_chars(&self) -> (r: VxIter<char>) ensures r.seq() == self.cview(), r.pos() == 0; }
impl VxChars for str { open spec fn cview(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() } }
impl VxChars for String { open spec fn cview(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() } }
// Chars::as_str: what has not been read yet
impl VxAsStr for VxIter<char> {
    open spec fn as_sview(&self) -> Seq<char> { self.seq().skip(self.pos()) }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
}
pub trait VxCharString { spec fn cs(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.cs(); }
impl VxCharString for char { open spec fn cs(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxDisplay for i32 {
    open spec fn shown(&self) -> Seq<char> { if *self >= 0 { dec(*self as nat) } else { seq!['-'] + dec((-*self) as nat) } }
    #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@ rename-path String::from => vx_string_from
//@ raw
// ===== std::collections::HashSet =====
// what a member of a set is called: different members (for ==) are called differently
pub trait VxElem { spec fn el(&self) -> Seq<char>; }
impl VxElem for String { open spec fn el(&self) -> Seq<char> { self@ } }
impl<'a> VxElem for &'a str { open spec fn el(&self) -> Seq<char> { self@ } }
// a set of names; one held in memory has fewer than 2^31 - 8 of them
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VxSet<T> { x: Vec<T> }
pub type VxNames = VxSet<String>;
impl<T> VxSet<T> {
    pub uninterp spec fn names(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: VxSet<T>) ensures r.names() == Set::<Seq<char>>::empty() { unimplemented!() }
}
impl<T: VxElem> VxSet<T> {
    #[verifier::external_body] pub fn contains<K: VxAsStr>(&self, s: &K) -> (r: bool) ensures r == self.names().contains(s.as_sview()), self.names().len() < 0x7fff_fff8 { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, s: T) -> (r: bool)
        ensures r == !old(self).names().contains(s.el()), final(self).names() == old(self).names().insert(s.el()) { unimplemented!() }
}
pub trait VxEmpty { spec fn none(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.none(); }
impl VxEmpty for String { open spec fn none(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VxEmpty for str { open spec fn none(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VxEmpty for VxSet<T> { open spec fn none(&self) -> bool { self.names().len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VxEmpty for Vec<T> { open spec fn none(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
//@ rename-method is_empty => vx_is_empty
//@ raw
//@ subst-type HashSet<String> => VxNames
//@ raw
// looking for a free name among base2, base3, ...: each number tried so far gave a different used name
pub open spec fn numbered(base: Seq<char>, n: int) -> Seq<char> { base + dec(n as nat) }
pub open spec fn tried(used: Set<Seq<char>>, base: Seq<char>, n: int) -> bool { forall|k: int| 2 <= k < n ==> used.contains(#[trigger] numbered(base, k)) }
pub proof fn lemma_tried(used: Set<Seq<char>>, base: Seq<char>, n: int)
    requires tried(used, base, n), 2 <= n,
    ensures n - 2 <= used.len(),
{
    let t = tried_set(base, n);
    lemma_tried_set(base, n);
    assert(t.subset_of(used)) by { assert forall|x: Seq<char>| t.contains(x) implies used.contains(x) by { } }
    vstd::set_lib::lemma_len_subset(t, used);
}
pub open spec fn tried_set(base: Seq<char>, n: int) -> Set<Seq<char>> decreases n { if n <= 2 { Set::empty() } else { tried_set(base, n - 1).insert(numbered(base, n - 1)) } }
pub proof fn lemma_tried_set(base: Seq<char>, n: int)
    requires n >= 2,
    ensures tried_set(base, n).len() == n - 2,
        forall|x: Seq<char>| #[trigger] tried_set(base, n).contains(x) ==> exists|k: int| 2 <= k < n && x == #[trigger] numbered(base, k),
    decreases n,
{
    if n > 2 {
        lemma_tried_set(base, n - 1);
        let x = numbered(base, n - 1);
        if tried_set(base, n - 1).contains(x) {
            let k = choose|k: int| 2 <= k < n - 1 && x == #[trigger] numbered(base, k);
            assert(numbered(base, k).skip(base.len() as int) =~= dec(k as nat));
            assert(x.skip(base.len() as int) =~= dec((n - 1) as nat));
            lemma_dec_inj(k as nat, (n - 1) as nat);
        }
        assert forall|y: Seq<char>| #[trigger] tried_set(base, n).contains(y) implies exists|k: int| 2 <= k < n && y == #[trigger] numbered(base, k) by {
            if y == x { assert(y == numbered(base, n - 1)); }
            else { assert(tried_set(base, n - 1).contains(y)); let k = choose|k: int| 2 <= k < n - 1 && y == #[trigger] numbered(base, k); assert(y == numbered(base, k)); }
        }
    }
}
pub proof fn lemma_numbered(base: Seq<char>, n: int)
    requires ident(base), n >= 2,
    ensures ident(numbered(base, n)), !letters(numbered(base, n)), numbered(base, n).len() > base.len(),
        is_digit_char(numbered(base, n).last()),
{
    lemma_dec(n as nat);
    let t = numbered(base, n);
    assert(is_digit_char(dec(n as nat)[0]));
    assert(t[base.len() as int] == dec(n as nat)[0]);
    assert(t.last() == dec(n as nat).last());
    assert forall|i: int| 0 <= i < t.len() implies word_char(#[trigger] t[i]) by { if i >= base.len() { assert(t[i] == dec(n as nat)[i - base.len()]); } }
}
