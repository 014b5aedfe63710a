//@ include prelude.vx
//@ include strings.vx
//@ raw
// ===== decimal numbers =====
pub open spec fn digit(d: nat) -> char { (0x30u32 + d as u32) as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn is_digit_char(c: char) -> bool { '0' <= c && c <= '9' }
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit_char(#[trigger] dec(n)[i])
    decreases n
{ if n >= 10 { lemma_dec(n / 10); } }
// usize: Display
pub trait VxNum { spec fn num(&self) -> nat; fn vx_to_string(&self) -> (r: String) ensures r@ == dec(self.num()); }
impl VxNum for usize { open spec fn num(&self) -> nat { *self as nat } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
// ===== what hints say =====
#[verifier::external_body] pub struct VxCell { x: u8 }
impl VxCell { #[verifier::external_body] pub fn vx_set(&self, b: bool) { unimplemented!() } }
pub enum GHint { Opaque(Seq<char>), Map, Name(Seq<char>) }
// a pointer as its tokens, and what is said about the values it addresses
pub type GH = ISet<(Seq<Seq<char>>, GHint)>;
pub open spec fn here() -> Seq<Seq<char>> { seq![] }
// what is left of the hints for the child called n
#[verifier::opaque]
pub open spec fn gstep(h: GH, n: Seq<char>) -> GH {
    ISet::new(|e: (Seq<Seq<char>>, GHint)| exists|f: Seq<char>| (f == "-"@ || f == n) && #[trigger] h.contains((seq![f] + e.0, e.1)))
}
// stepping along a path
pub open spec fn gsteps(h: GH, path: Seq<Seq<char>>) -> GH decreases path.len() {
    if path.len() == 0 { h } else { gsteps(gstep(h, path[0]), path.skip(1)) }
}
pub open spec fn addresses(ptr: Seq<Seq<char>>, path: Seq<Seq<char>>) -> bool {
    ptr.len() == path.len() && forall|i: int| 0 <= i < ptr.len() ==> #[trigger] ptr[i] == "-"@ || ptr[i] == path[i]
}
// C08: a hint is in force at a position exactly when its pointer addresses it
pub proof fn lemma_addresses(h: GH, path: Seq<Seq<char>>, g: GHint)
    ensures gsteps(h, path).contains((here(), g)) <==> exists|p: Seq<Seq<char>>| #[trigger] h.contains((p, g)) && addresses(p, path)
    decreases path.len()
{
    reveal(gstep);
    if path.len() == 0 {
        assert forall|p: Seq<Seq<char>>| #[trigger] h.contains((p, g)) && addresses(p, path) implies h.contains((here(), g)) by { assert(p =~= here()); }
    } else {
        let n = path[0];
        let rest = path.skip(1);
        lemma_addresses(gstep(h, n), rest, g);
        if gsteps(h, path).contains((here(), g)) {
            let p = choose|p: Seq<Seq<char>>| #[trigger] gstep(h, n).contains((p, g)) && addresses(p, rest);
            let f = choose|f: Seq<char>| (f == "-"@ || f == n) && #[trigger] h.contains((seq![f] + p, g));
            let q = seq![f] + p;
            assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == "-"@ || q[i] == path[i] by { if i > 0 { assert(q[i] == p[i - 1] && path[i] == rest[i - 1]); } }
            assert(h.contains((q, g)) && addresses(q, path));
        }
        assert forall|q: Seq<Seq<char>>| #[trigger] h.contains((q, g)) && addresses(q, path) implies gsteps(h, path).contains((here(), g)) by {
            let p = q.skip(1);
            assert(q =~= seq![q[0]] + p);
            assert(q[0] == "-"@ || q[0] == path[0]);
            assert(h.contains((seq![q[0]] + p, g)));
            assert(h.contains((seq![q[0]] + (p, g).0, (p, g).1)));
            assert(gstep(h, n).contains((p, g)));
            assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == "-"@ || p[i] == rest[i] by { assert(q[i + 1] == p[i]); }
        }
    }
}
//@ subst-type Cell<bool> => VxCell
//@ subst-type Cow<'a,[&'astr]> => Vec<&'a str>
//@ file json_typegen_shared/src/hints.rs
//@ type HintType
//@ type Hint
//@ type Hints
//@ raw
pub open spec fn gh(h: Hint) -> GHint {
    match h.hint_type { HintType::OpaqueType(s) => GHint::Opaque(s@), HintType::MapType(_) => GHint::Map, HintType::TypeName(s) => GHint::Name(s@) }
}
pub open spec fn tv(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn in_hints(s: Seq<(Vec<&str>, &Hint)>, e: (Seq<Seq<char>>, GHint)) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] hent(s[i]) == e }
pub open spec fn hent(x: (Vec<&str>, &Hint)) -> (Seq<Seq<char>>, GHint) { (tv(x.0@), gh(*x.1)) }
pub open spec fn in_app(a: Seq<&Hint>, e: (Seq<Seq<char>>, GHint)) -> bool { e.0 == here() && exists|i: int| 0 <= i < a.len() && gh(*#[trigger] a[i]) == e.1 }
#[verifier::opaque]
pub open spec fn lv(s: Seq<(Vec<&str>, &Hint)>, a: Seq<&Hint>) -> GH { ISet::new(|e: (Seq<Seq<char>>, GHint)| in_hints(s, e) || in_app(a, e)) }
pub open spec fn hv(h: Hints) -> GH { lv(h.hints@, h.applicable@) }
pub open spec fn paths_ok(s: Seq<(Vec<&str>, &Hint)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@.len() > 0 }
pub open spec fn hwf(h: Hints) -> bool { paths_ok(h.hints@) }
pub proof fn lemma_lv_empty(s: Seq<(Vec<&str>, &Hint)>, a: Seq<&Hint>) ensures s.len() == 0 && a.len() == 0 ==> lv(s, a) == GH::empty()
{ reveal(lv); if s.len() == 0 && a.len() == 0 { assert(lv(s, a) =~= GH::empty()); } }
pub proof fn lemma_lv_push(s: Seq<(Vec<&str>, &Hint)>, a: Seq<&Hint>, x: (Vec<&str>, &Hint))
    ensures lv(s.push(x), a) == lv(s, a).insert(hent(x))
{
    reveal(lv);
    let t = s.push(x);
    assert(t[s.len() as int] == x);
    assert forall|e: (Seq<Seq<char>>, GHint)| in_hints(t, e) == (in_hints(s, e) || e == hent(x)) by {
        if in_hints(s, e) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] hent(s[i]) == e; assert(hent(t[i]) == e); }
        if in_hints(t, e) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] hent(t[i]) == e; if i < s.len() { assert(hent(s[i]) == e); } }
        if e == hent(x) { assert(hent(t[s.len() as int]) == e); }
    }
    assert(lv(t, a) =~= lv(s, a).insert(hent(x)));
}
pub proof fn lemma_lv_push_app(s: Seq<(Vec<&str>, &Hint)>, a: Seq<&Hint>, x: &Hint)
    ensures lv(s, a.push(x)) == lv(s, a).insert((here(), gh(*x)))
{
    reveal(lv);
    let b = a.push(x);
    assert(b[a.len() as int] == x);
    assert forall|e: (Seq<Seq<char>>, GHint)| in_app(b, e) == (in_app(a, e) || e == (here(), gh(*x))) by {
        if in_app(a, e) { let i = choose|i: int| 0 <= i < a.len() && gh(*#[trigger] a[i]) == e.1; assert(gh(*b[i]) == e.1); }
        if in_app(b, e) { let i = choose|i: int| 0 <= i < b.len() && gh(*#[trigger] b[i]) == e.1; if i < a.len() { assert(gh(*a[i]) == e.1); } }
        if e == (here(), gh(*x)) { assert(gh(*b[a.len() as int]) == e.1); }
    }
    assert(lv(s, b) =~= lv(s, a).insert((here(), gh(*x))));
}
// stepping one hint
pub proof fn lemma_gstep_insert(h: GH, n: Seq<char>, e: (Seq<Seq<char>>, GHint))
    ensures
        e.0.len() > 0 && (e.0[0] == "-"@ || e.0[0] == n) ==> gstep(h.insert(e), n) == gstep(h, n).insert((e.0.skip(1), e.1)),
        e.0.len() == 0 || !(e.0[0] == "-"@ || e.0[0] == n) ==> gstep(h.insert(e), n) == gstep(h, n),
{
    reveal(gstep);
    let h2 = h.insert(e);
    let d = (e.0.skip(1), e.1);
    assert forall|x: (Seq<Seq<char>>, GHint)| #[trigger] gstep(h2, n).contains(x) == (gstep(h, n).contains(x)
            || (e.0.len() > 0 && (e.0[0] == "-"@ || e.0[0] == n) && x == d)) by {
        if gstep(h, n).contains(x) {
            let f = choose|f: Seq<char>| (f == "-"@ || f == n) && #[trigger] h.contains((seq![f] + x.0, x.1));
            assert(h2.contains((seq![f] + x.0, x.1)));
        }
        if gstep(h2, n).contains(x) {
            let f = choose|f: Seq<char>| (f == "-"@ || f == n) && #[trigger] h2.contains((seq![f] + x.0, x.1));
            if !h.contains((seq![f] + x.0, x.1)) { assert(e.0 == seq![f] + x.0); assert(e.0[0] == f); assert(e.0.skip(1) =~= x.0); }
        }
        if e.0.len() > 0 && (e.0[0] == "-"@ || e.0[0] == n) && x == d {
            let f = e.0[0];
            assert(seq![f] + x.0 =~= e.0);
            assert(h2.contains((seq![f] + x.0, x.1)));
        }
    }
    if e.0.len() > 0 && (e.0[0] == "-"@ || e.0[0] == n) { assert(gstep(h2, n) =~= gstep(h, n).insert(d)); }
    else { assert(gstep(h2, n) =~= gstep(h, n)); }
}
// hints in force here say nothing about children
pub proof fn lemma_gstep_app(s: Seq<(Vec<&str>, &Hint)>, a: Seq<&Hint>, n: Seq<char>)
    ensures gstep(lv(s, a), n) == gstep(lv(s, Seq::<&Hint>::empty()), n)
{
    reveal(gstep);
    reveal(lv);
    let e0 = Seq::<&Hint>::empty();
    assert forall|x: (Seq<Seq<char>>, GHint)| #[trigger] gstep(lv(s, a), n).contains(x) == gstep(lv(s, e0), n).contains(x) by {
        if gstep(lv(s, a), n).contains(x) {
            let f = choose|f: Seq<char>| (f == "-"@ || f == n) && #[trigger] lv(s, a).contains((seq![f] + x.0, x.1));
            assert((seq![f] + x.0).len() > 0);
            assert(lv(s, e0).contains((seq![f] + x.0, x.1)));
        }
        if gstep(lv(s, e0), n).contains(x) {
            let f = choose|f: Seq<char>| (f == "-"@ || f == n) && #[trigger] lv(s, e0).contains((seq![f] + x.0, x.1));
            assert(lv(s, a).contains((seq![f] + x.0, x.1)));
        }
    }
    assert(gstep(lv(s, a), n) =~= gstep(lv(s, e0), n));
}
pub proof fn lemma_gstep_empty(n: Seq<char>) ensures gstep(GH::empty(), n) == GH::empty()
{ reveal(gstep); assert(gstep(GH::empty(), n) =~= GH::empty()); }
/// one step of the loop over the hints
pub proof fn lemma_step_one(p: Seq<(Vec<&str>, &Hint)>, x: (Vec<&str>, &Hint), n: Seq<char>)
    requires x.0@.len() > 0
    ensures
        x.0@[0]@ == "-"@ || x.0@[0]@ == n ==> gstep(lv(p.push(x), Seq::<&Hint>::empty()), n)
            == gstep(lv(p, Seq::<&Hint>::empty()), n).insert((tv(x.0@).skip(1), gh(*x.1))),
        !(x.0@[0]@ == "-"@ || x.0@[0]@ == n) ==> gstep(lv(p.push(x), Seq::<&Hint>::empty()), n) == gstep(lv(p, Seq::<&Hint>::empty()), n),
{
    lemma_lv_push(p, Seq::<&Hint>::empty(), x);
    lemma_gstep_insert(lv(p, Seq::<&Hint>::empty()), n, hent(x));
}
pub trait VxSlice<T> { spec fn items(&self) -> Seq<T>; fn vx_slice_from(&self, i: usize) -> (r: &[T]) requires i <= self.items().len(), ensures r@ == self.items().skip(i as int); }
impl<T> VxSlice<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &[T]) { unimplemented!() } }
impl<'b, T> VxSlice<T> for &'b Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &[T]) { unimplemented!() } }
pub trait VxInto<T> { spec fn into_is(&self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_is(r); }
impl<'a, 'b> VxInto<Vec<&'a str>> for &'b [&'a str] { open spec fn into_is(&self, r: Vec<&'a str>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Vec<&'a str>) { unimplemented!() } }
impl<'a> VxInto<Vec<&'a str>> for Vec<&'a str> { open spec fn into_is(&self, r: Vec<&'a str>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Vec<&'a str>) { unimplemented!() } }
pub open spec fn vstrs<'a>(v: Vec<&'a str>) -> Seq<&'a str> { v@ }
pub open spec fn vhs<'a>(v: Vec<(Vec<&'a str>, &'a Hint)>) -> Seq<(Vec<&'a str>, &'a Hint)> { v@ }
pub open spec fn vas<'a>(v: Vec<&'a Hint>) -> Seq<&'a Hint> { v@ }
pub open spec fn derefs<'a>(s: Seq<&(Vec<&'a str>, &'a Hint)>) -> Seq<(Vec<&'a str>, &'a Hint)> { Seq::new(s.len(), |i: int| *s[i]) }
// a pointer's tokens
pub open spec fn ptr_tokens(p: Seq<char>) -> Seq<Seq<char>> { if p.len() == 0 { here() } else { split_of(p, '/').skip(1) } }
pub proof fn lemma_ptr(p: Seq<char>)
    requires p.len() > 0 ==> p[0] == '/'
    ensures p.len() > 0 ==> split_of(p, '/').len() >= 2 && is_prefix(seq!['/'], p)
{ if p.len() > 0 { lemma_split_len(p.drop_first(), '/'); assert(p.take(1) =~= seq!['/']); } }
pub proof fn lemma_added(h0: Seq<(Vec<&str>, &Hint)>, a0: Seq<&Hint>, h1: Seq<(Vec<&str>, &Hint)>, a1: Seq<&Hint>, p: Seq<char>, hint: &Hint)
    requires
        p.len() == 0 ==> h1 == h0 && a1 == a0.push(hint),
        p.len() > 0 ==> a1 == a0 && h1 == h0.push(h1.last()) && h1.last().1 == hint && tv(h1.last().0@) == ptr_tokens(p),
    ensures lv(h1, a1) == lv(h0, a0).insert((ptr_tokens(p), gh(*hint)))
{ if p.len() == 0 { lemma_lv_push_app(h0, a0, hint); } else { lemma_lv_push(h0, a0, h1.last()); } }
//@ fn Hints::new
//@ header impl<'a> Hints<'a>
//@ attr terminates
    ensures hwf(r), hv(r) == GH::empty(), r.applicable@.len() == 0
//@ at end
    proof { lemma_lv_empty(vx_ret.hints@, vx_ret.applicable@); }
//@ subst-type Cow<[&str]> => Vec<&str>
//@ fn Hints::add
//@ header impl<'a> Hints<'a>
//@ attr terminates
    requires hwf(*old(self)), pointer@.len() > 0 ==> pointer@[0] == '/'
    ensures hwf(*final(self)), hv(*final(self)) == hv(*old(self)).insert((ptr_tokens(pointer@), gh(*hint)))
//@ at start
    proof { lemma_ptr(pointer@); reveal_strlit("/"); }
//@ loop 0
    invariant vstrs(vx_out0) == vx_s0.subrange(if vx_it0.pos() >= 1 { 1 } else { vx_it0.pos() }, vx_it0.pos()),
        vx_skip0 == (if vx_it0.pos() >= 1 { 0 } else { 1 - vx_it0.pos() }),
//@ at loop 0 after
    proof { lemma_ptr(pointer@); assert(tv(vstrs(vx_out0)) =~= ptr_tokens(pointer@)); }
//@ at end
    proof { lemma_added(old(self).hints@, old(self).applicable@, self.hints@, self.applicable@, pointer@, hint); }
//@ fn Hints::step_field
//@ header impl<'a> Hints<'a>
//@ attr terminates
    requires hwf(*self)
    ensures hwf(r), hv(r) == gstep(hv(*self), name@)
//@ at loop 0 before
    proof { lemma_lv_empty(vhs(filtered), vas(applicable)); lemma_lv_empty(derefs(vx_s0).take(0), Seq::<&Hint>::empty()); lemma_gstep_empty(name@); assert(derefs(vx_s0) =~= self.hints@); }
//@ loop 0
    invariant paths_ok(vhs(filtered)), paths_ok(derefs(vx_s0)), derefs(vx_s0) == self.hints@,
        lv(vhs(filtered), vas(applicable)) == gstep(lv(derefs(vx_s0).take(vx_it0.pos()), Seq::<&Hint>::empty()), name@),
//@ at loop 0 next
    let ghost f0 = vhs(filtered);
    let ghost a0 = vas(applicable);
//@ at loop 0 end
    proof { lemma_step_end(derefs(vx_s0), vx_it0.pos() - 1, f0, a0, vhs(filtered), vas(applicable), name@); }
//@ at end
    proof { lemma_gstep_app(self.hints@, self.applicable@, name@); assert(self.hints@.take(self.hints@.len() as int) =~= self.hints@); }
//@ fn Hints::step_index
//@ header impl<'a> Hints<'a>
//@ attr terminates
    requires hwf(*self)
    ensures hwf(r), hv(r) == gstep(hv(*self), dec(index as nat))
//@ at loop 0 before
    proof { lemma_lv_empty(vhs(filtered), vas(applicable)); lemma_lv_empty(derefs(vx_s0).take(0), Seq::<&Hint>::empty()); lemma_gstep_empty(dec(index as nat)); assert(derefs(vx_s0) =~= self.hints@); }
//@ loop 0
    invariant paths_ok(vhs(filtered)), paths_ok(derefs(vx_s0)), derefs(vx_s0) == self.hints@,
        lv(vhs(filtered), vas(applicable)) == gstep(lv(derefs(vx_s0).take(vx_it0.pos()), Seq::<&Hint>::empty()), dec(index as nat)),
//@ at loop 0 next
    let ghost f0 = vhs(filtered);
    let ghost a0 = vas(applicable);
//@ at loop 0 end
    proof { lemma_step_end(derefs(vx_s0), vx_it0.pos() - 1, f0, a0, vhs(filtered), vas(applicable), dec(index as nat)); }
//@ at end
    proof { lemma_gstep_app(self.hints@, self.applicable@, dec(index as nat)); assert(self.hints@.take(self.hints@.len() as int) =~= self.hints@); }
//@ raw
pub proof fn lemma_step_end(s: Seq<(Vec<&str>, &Hint)>, k: int, f0: Seq<(Vec<&str>, &Hint)>, a0: Seq<&Hint>, f1: Seq<(Vec<&str>, &Hint)>, a1: Seq<&Hint>, n: Seq<char>)
    requires 0 <= k < s.len(), s[k].0@.len() > 0,
        lv(f0, a0) == gstep(lv(s.take(k), Seq::<&Hint>::empty()), n),
        s[k].0@[0]@ == "-"@ || s[k].0@[0]@ == n ==> {
            if s[k].0@.len() == 1 { f1 == f0 && a1 == a0.push(s[k].1) }
            else { a1 == a0 && f1 == f0.push(f1.last()) && f1.last().0@ == s[k].0@.skip(1) && f1.last().1 == s[k].1 }
        },
        !(s[k].0@[0]@ == "-"@ || s[k].0@[0]@ == n) ==> f1 == f0 && a1 == a0,
    ensures lv(f1, a1) == gstep(lv(s.take(k + 1), Seq::<&Hint>::empty()), n)
{
    let x = s[k];
    assert(s.take(k + 1) =~= s.take(k).push(x));
    lemma_step_one(s.take(k), x, n);
    assert(tv(x.0@).skip(1) =~= tv(x.0@.skip(1)));
    if x.0@[0]@ == "-"@ || x.0@[0]@ == n {
        if x.0@.len() == 1 { assert(tv(x.0@).skip(1) =~= here()); lemma_lv_push_app(f0, a0, x.1); }
        else { lemma_lv_push(f0, a0, f1.last()); assert(hent(f1.last()) == (tv(x.0@).skip(1), gh(*x.1))); }
    }
}
