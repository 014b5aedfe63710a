//@ include prelude.vx
//@ include shape_types.vx
//@ raw
// ---- shapes without a type of the user's own ----
pub open spec fn clean(s: GShape) -> bool decreases s {
    match s {
        GShape::Opaque(_) => false,
        GShape::Optional(b) => clean(*b),
        GShape::Nullable(b) => clean(*b),
        GShape::VecT(b) => clean(*b),
        GShape::MapT(b) => clean(*b),
        GShape::Tuple(ss, _) => forall|i: int| 0 <= i < ss.len() ==> clean(#[trigger] ss[i]),
        GShape::Struct(fs) => forall|i: int| 0 <= i < fs.len() ==> clean((#[trigger] fs[i]).1),
        _ => true,
    }
}
pub open spec fn all_clean(s: Seq<Shape>) -> bool { forall|i: int| 0 <= i < s.len() ==> clean(sv(#[trigger] s[i])) }
pub open spec fn fclean(s: Seq<(Seq<char>, Shape)>) -> bool { forall|i: int| 0 <= i < s.len() ==> clean(sv((#[trigger] s[i]).1)) }
// ---- algebra of `covers` (every value the right shape admits, the left shape admits) ----
pub broadcast proof fn lemma_covers_refl(x: GShape) ensures #[trigger] covers(x, x) { reveal(covers); }
pub broadcast proof fn lemma_covers_trans(x: GShape, y: GShape, z: GShape)
    requires #[trigger] covers(x, y), #[trigger] covers(y, z), ensures covers(x, z) { reveal(covers); }
pub broadcast proof fn lemma_covers_base(x: GShape, y: GShape)
    requires x is Any || x is Opaque || y is Bottom || (x is Floating && y is Integer),
    ensures #[trigger] covers(x, y) { reveal(covers); }
pub broadcast proof fn lemma_covers_wrap(x: GShape, y: GShape)
    ensures
        x is Optional && covers(*x->Optional_0, y) ==> #[trigger] covers(x, y),
        x is Nullable && covers(*x->Nullable_0, y) ==> covers(x, y),
        x is Nullable && y is Null ==> covers(x, y),
        x is Optional && y is Optional && covers(x, *y->Optional_0) ==> covers(x, y),
        x is Nullable && y is Nullable && covers(x, *y->Nullable_0) ==> covers(x, y),
{ reveal(covers); }
pub broadcast proof fn lemma_covers_vec(x: Box<GShape>, y: Box<GShape>)
    requires covers(*x, *y), ensures #[trigger] covers(GShape::VecT(x), GShape::VecT(y)),
{
    reveal(covers);
    assert forall|v: Option<GVal>| admits(GShape::VecT(y), v) implies admits(GShape::VecT(x), v) by {
        let a = v->0->Arr_0;
        assert forall|i: int| 0 <= i < a.len() implies admits(*x, Some(#[trigger] a[i])) by { assert(admits(*y, Some(a[i]))); }
    }
}
pub broadcast proof fn lemma_covers_map(x: Box<GShape>, y: Box<GShape>)
    requires covers(*x, *y), ensures #[trigger] covers(GShape::MapT(x), GShape::MapT(y)),
{
    reveal(covers);
    assert forall|v: Option<GVal>| admits(GShape::MapT(y), v) implies admits(GShape::MapT(x), v) by {
        let m = v->0->Obj_0;
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies admits(*x, Some(m[k])) by { assert(admits(*y, Some(m[k]))); }
    }
}
pub broadcast proof fn lemma_covers_nullable(x: GShape, y: GShape)
    requires y is Nullable, covers(x, *y->Nullable_0), admits(x, Some(GVal::Null)),
    ensures #[trigger] covers(x, y),
{ reveal(covers); }
pub broadcast proof fn lemma_covers_optional(x: GShape, y: GShape)
    requires y is Optional, covers(x, *y->Optional_0), admits(x, None),
    ensures #[trigger] covers(x, y),
{ reveal(covers); }
pub broadcast proof fn lemma_covers_null(x: GShape)
    requires admits(x, Some(GVal::Null)), ensures #[trigger] covers(x, GShape::Null) { reveal(covers); }
pub broadcast proof fn lemma_covers_tuple(xs: Seq<GShape>, n: nat, ys: Seq<GShape>, m: nat)
    requires xs.len() == ys.len(), forall|i: int| #![trigger xs[i]] #![trigger ys[i]] 0 <= i < xs.len() ==> covers(xs[i], ys[i]),
    ensures #[trigger] covers(GShape::Tuple(xs, n), GShape::Tuple(ys, m)),
{
    reveal(covers);
    let (x, y) = (GShape::Tuple(xs, n), GShape::Tuple(ys, m));
    assert forall|v: Option<GVal>| admits(y, v) implies admits(x, v) by {
        let a = v->0->Arr_0;
        assert forall|i: int| 0 <= i < xs.len() implies admits(xs[i], Some(a[i])) by { assert(covers(xs[i], ys[i])); assert(admits(ys[i], Some(a[i]))); }
    }
}
pub broadcast proof fn lemma_covers_vec_tuple(x: Box<GShape>, ys: Seq<GShape>, m: nat)
    requires forall|i: int| #![trigger ys[i]] 0 <= i < ys.len() ==> covers(*x, ys[i]),
    ensures #[trigger] covers(GShape::VecT(x), GShape::Tuple(ys, m)),
{
    reveal(covers);
    let y = GShape::Tuple(ys, m);
    assert forall|v: Option<GVal>| admits(y, v) implies admits(GShape::VecT(x), v) by {
        let a = v->0->Arr_0;
        assert forall|i: int| 0 <= i < a.len() implies admits(*x, Some(#[trigger] a[i])) by { assert(covers(*x, ys[i])); }
    }
}
/// field `e` of a merged struct accounts for the same-named field of `fs`, or for its absence there
pub open spec fn field_ok(e: (Seq<char>, GShape), fs: Seq<(Seq<char>, GShape)>) -> bool {
    (exists|j: int| 0 <= j < fs.len() && (#[trigger] fs[j]).0 == e.0 && covers(e.1, fs[j].1))
    || (!has_key(fs, e.0) && admits(e.1, None))
}
pub proof fn lemma_covers_struct(xs: Seq<(Seq<char>, GShape)>, ys: Seq<(Seq<char>, GShape)>)
    requires forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() ==> field_ok(xs[i], ys),
        forall|j: int| #![trigger ys[j]] 0 <= j < ys.len() ==> has_key(xs, ys[j].0),
    ensures covers(GShape::Struct(xs), GShape::Struct(ys)),
{
    reveal(covers);
    let (x, y) = (GShape::Struct(xs), GShape::Struct(ys));
    assert forall|v: Option<GVal>| admits(y, v) implies admits(x, v) by {
        let m = v->0->Obj_0;
        assert forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() implies admits(xs[i].1, lookup(m, xs[i].0)) by {
            assert(field_ok(xs[i], ys));
            if exists|j: int| 0 <= j < ys.len() && (#[trigger] ys[j]).0 == xs[i].0 && covers(xs[i].1, ys[j].1) {
                let j = choose|j: int| 0 <= j < ys.len() && (#[trigger] ys[j]).0 == xs[i].0 && covers(xs[i].1, ys[j].1);
                assert(admits(ys[j].1, lookup(m, xs[i].0)));
            } else { assert(!m.dom().contains(xs[i].0)); }
        }
        assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies has_key(xs, k) by {
            let j = choose|j: int| 0 <= j < ys.len() && #[trigger] ys[j].0 == k;
            assert(has_key(xs, ys[j].0));
        }
    }
}
// ---- key removal and sizes of field lists ----
#[verifier::rlimit(40)] pub proof fn lemma_without<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>)
    ensures
        forall|i: int| #![trigger without(s, k)[i]] 0 <= i < without(s, k).len() ==> without(s, k)[i].0 != k
            && s.contains(without(s, k)[i]),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 != k ==> without(s, k).contains(s[i]),
        !has_key(s, k) ==> without(s, k) == s,
        uniq(s) ==> uniq(without(s, k)),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_without(d, k);
        let f = |e: (Seq<char>, V)| e.0 != k;
        let w = without(s, k);
        assert(w == if s.last().0 != k { without(d, k).push(s.last()) } else { without(d, k) });
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies w[i].0 != k && s.contains(w[i]) by {
            if i < without(d, k).len() {
                assert(w[i] == without(d, k)[i]);
                let j = choose|j: int| 0 <= j < d.len() && d[j] == w[i];
                assert(s[j] == w[i]);
            } else { assert(s[s.len() - 1] == w[i]); }
        }
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 != k implies w.contains(s[i]) by {
            if i < d.len() {
                assert(d[i] == s[i]);
                let j = choose|j: int| 0 <= j < without(d, k).len() && without(d, k)[j] == s[i];
                assert(w[j] == s[i]);
            } else { assert(w[w.len() - 1] == s[i]); }
        }
        if !has_key(s, k) {
            if has_key(d, k) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i].0 == k; assert(s[i].0 == k); }
            assert(s[s.len() - 1].0 != k);
            assert(w =~= s);
        }
        if uniq(s) {
            assert(uniq(d)) by { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies d[i].0 != d[j].0 by { assert(s[i].0 != s[j].0); } }
            assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies w[i].0 != w[j].0 by {
                assert(w[i] == without(d, k)[i]);
                if j < without(d, k).len() { assert(w[j] == without(d, k)[j]); }
                else {
                    let l = choose|l: int| 0 <= l < d.len() && d[l] == without(d, k)[i];
                    assert(s[l].0 != s[s.len() - 1].0);
                }
            }
        }
    } else { assert(without(s, k) =~= s); }
}
pub open spec fn vsh(v: Vec<Shape>) -> Seq<Shape> { v@ }
pub open spec fn zsum(s: Seq<Shape>) -> nat { nsum(sizes(svs(s))) }
pub proof fn lemma_zsum_push(s: Seq<Shape>, e: Shape) ensures zsum(s.push(e)) == zsum(s) + gsz(sv(e)) {
    broadcast use {group_sv, group_gsz};
    assert(sizes(svs(s.push(e))) =~= sizes(svs(s)).push(gsz(sv(e))));
    lemma_nsum_push(sizes(svs(s)), gsz(sv(e)));
}
/// summing element by element
pub proof fn lemma_zsum_step(s: Seq<Shape>, i: int)
    requires 0 <= i < s.len(),
    ensures zsum(s.take(i + 1)) == zsum(s.take(i)) + gsz(sv(s[i])), zsum(s.take(i + 1)) <= zsum(s), s.take(s.len() as int) == s,
        s.take(0) == Seq::<Shape>::empty(),
    decreases s.len() - i,
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<Shape>::empty());
    lemma_zsum_push(s.take(i), s[i]);
    if i + 1 < s.len() { lemma_zsum_step(s, i + 1); }
}
pub proof fn lemma_zsum_empty(s: Seq<Shape>) ensures s.len() == 0 ==> zsum(s) == 0, s.take(s.len() as int) == s, s.take(0) == Seq::<Shape>::empty(), zsum(Seq::<Shape>::empty()) == 0 {
    broadcast use {group_sv, group_gsz};
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<Shape>::empty());
    assert(sizes(svs(Seq::<Shape>::empty())) =~= Seq::<nat>::empty());
    if s.len() == 0 { assert(s =~= Seq::<Shape>::empty()); }
}
pub open spec fn fsum(s: Seq<(Seq<char>, Shape)>) -> nat { nsum(fsizes(svf(s))) }
/// the entry of the merged struct for a field of the first struct
pub open spec fn merged_ok(e: (Seq<char>, Shape), e1: (Seq<char>, Shape), a2: Seq<(Seq<char>, Shape)>) -> bool {
    e.0 == e1.0 && gwf(sv(e.1)) && !(sv(e.1) is Bottom) && covers(sv(e.1), sv(e1.1))
    && ((exists|l: int| 0 <= l < a2.len() && (#[trigger] a2[l]).0 == e.0 && covers(sv(e.1), sv(a2[l].1)))
        || (!has_key(a2, e.0) && admits(sv(e.1), None)))
}
pub proof fn lemma_fsum_push(s: Seq<(Seq<char>, Shape)>, e: (Seq<char>, Shape))
    ensures fsum(s.push(e)) == fsum(s) + gsz(sv(e.1)),
{
    broadcast use {group_sv, group_gsz};
    assert(fsizes(svf(s.push(e))) =~= fsizes(svf(s)).push(gsz(sv(e.1))));
    lemma_nsum_push(fsizes(svf(s)), gsz(sv(e.1)));
}
pub proof fn lemma_fsum_without(s: Seq<(Seq<char>, Shape)>, k: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i].0 == k,
    ensures fsum(without(s, k)) + gsz(sv(s[i].1)) <= fsum(s),
    decreases s.len(),
{
    reveal(Seq::filter);
    let d = s.drop_last();
    let l = s.last();
    assert(d.push(l) =~= s);
    lemma_fsum_push(d, l);
    if i < d.len() {
        lemma_fsum_without(d, k, i);
        if l.0 != k { lemma_fsum_push(without(d, k), l); assert(without(s, k) == without(d, k).push(l)); }
        else { assert(without(s, k) == without(d, k)); }
    } else {
        lemma_fsum_without_le(d, k);
        assert(without(s, k) == without(d, k));
    }
}
pub proof fn lemma_fsum_without_le(s: Seq<(Seq<char>, Shape)>, k: Seq<char>)
    ensures fsum(without(s, k)) <= fsum(s), decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        let l = s.last();
        assert(d.push(l) =~= s);
        lemma_fsum_push(d, l);
        lemma_fsum_without_le(d, k);
        if l.0 != k { lemma_fsum_push(without(d, k), l); assert(without(s, k) == without(d, k).push(l)); }
        else { assert(without(s, k) == without(d, k)); }
    } else { assert(without(s, k) =~= s); }
}
pub proof fn lemma_fsum_update(s: Seq<(Seq<char>, Shape)>, i: int, e: (Seq<char>, Shape))
    requires 0 <= i < s.len(),
    ensures fsum(s.update(i, e)) + gsz(sv(s[i].1)) == fsum(s) + gsz(sv(e.1)),
    decreases s.len(),
{
    let d = s.drop_last();
    let l = s.last();
    assert(d.push(l) =~= s);
    lemma_fsum_push(d, l);
    if i < d.len() {
        lemma_fsum_update(d, i, e);
        lemma_fsum_push(d.update(i, e), l);
        assert(d.update(i, e).push(l) =~= s.update(i, e));
    } else {
        lemma_fsum_push(d, e);
        assert(d.push(e) =~= s.update(i, e));
    }
}
pub open spec fn wff(a: Seq<(Seq<char>, Shape)>) -> bool {
    uniq(a) && forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> gwf(sv(a[i].1)) && !(sv(a[i].1) is Bottom)
}
pub proof fn lemma_wff(a: Seq<(Seq<char>, Shape)>) ensures wff(a) == gwf(GShape::Struct(svf(a))) {
    broadcast use group_sv;
    let s = svf(a);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i] == (a[i].0, sv(a[i].1)) by {}
    assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies s[i] == (a[i].0, sv(a[i].1)) by {}
}
pub proof fn lemma_fclean_without(s: Seq<(Seq<char>, Shape)>, k: Seq<char>) requires fclean(s), ensures fclean(without(s, k))
{ lemma_without(s, k); let w = without(s, k); assert forall|i: int| 0 <= i < w.len() implies clean(sv((#[trigger] w[i]).1)) by { assert(s.contains(w[i])); } }
pub proof fn lemma_fclean_push(s: Seq<(Seq<char>, Shape)>, k: Seq<char>, e: (Seq<char>, Shape)) requires fclean(s), clean(sv(e.1)), ensures fclean(without(s, k).push(e))
{ lemma_fclean_without(s, k); let w = without(s, k); let t = w.push(e); assert forall|i: int| 0 <= i < t.len() implies clean(sv((#[trigger] t[i]).1)) by { if i < w.len() { assert(t[i] == w[i]); } } }
/// state of the first loop of common_field_shapes after the first `n` fields: f1, f2 now; a1, a2 at entry
#[verifier::opaque]
pub open spec fn m1(f1: Seq<(Seq<char>, Shape)>, f2: Seq<(Seq<char>, Shape)>, a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>, n: int) -> bool {
    &&& wff(a1) && wff(a2)
    &&& fsum(f1) + fsum(f2) <= fsum(a1) + fsum(a2)
    &&& 0 <= n <= a1.len() && f1.len() == a1.len()
    &&& forall|j: int| #![trigger f1[j]] n <= j < a1.len() ==> f1[j] == a1[j]
    &&& forall|j: int| #![trigger f1[j]] 0 <= j < n ==> merged_ok(f1[j], a1[j], a2)
    &&& uniq(f2)
    &&& forall|l: int| #![trigger f2[l]] 0 <= l < f2.len() ==> a2.contains(f2[l])
    &&& forall|l: int, j: int| #![trigger f2[l], a1[j]] 0 <= l < f2.len() && 0 <= j < n ==> f2[l].0 != a1[j].0
    &&& forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() ==> f2.contains(a2[l]) || key_before(a1, n, a2[l].0)
}
pub open spec fn key_before(a: Seq<(Seq<char>, Shape)>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && #[trigger] a[j].0 == k }
pub proof fn lemma_m1_init(a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>)
    requires gwf(GShape::Struct(svf(a1))), gwf(GShape::Struct(svf(a2))),
    ensures m1(a1, a2, a1, a2, 0),
{ reveal(m1); lemma_wff(a1); lemma_wff(a2); }
pub proof fn lemma_fsum_elem(s: Seq<(Seq<char>, Shape)>, i: int)
    requires 0 <= i < s.len(), ensures gsz(sv(s[i].1)) <= fsum(s), decreases s.len(),
{
    assert(s.drop_last().push(s.last()) =~= s);
    lemma_fsum_push(s.drop_last(), s.last());
    if i < s.len() - 1 { lemma_fsum_elem(s.drop_last(), i); }
}
pub proof fn lemma_m1_get(b1: Seq<(Seq<char>, Shape)>, b2: Seq<(Seq<char>, Shape)>, a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>, n: int)
    requires m1(b1, b2, a1, a2, n), n < a1.len(),
    ensures b1[n] == a1[n], b1.len() == a1.len(), gwf(sv(a1[n].1)), !(sv(a1[n].1) is Bottom), 0 <= n,
        forall|l: int| #![trigger b2[l]] 0 <= l < b2.len() ==> gwf(sv(b2[l].1)) && !(sv(b2[l].1) is Bottom)
            && gsz(sv(a1[n].1)) + gsz(sv(b2[l].1)) <= fsum(a1) + fsum(a2),
{
    reveal(m1);
    lemma_fsum_elem(b1, n);
    assert forall|l: int| #![trigger b2[l]] 0 <= l < b2.len() implies gwf(sv(b2[l].1)) && !(sv(b2[l].1) is Bottom)
            && gsz(sv(a1[n].1)) + gsz(sv(b2[l].1)) <= fsum(a1) + fsum(a2) by {
        lemma_fsum_elem(b2, l);
        let m = choose|m: int| 0 <= m < a2.len() && a2[m] == b2[l];
        assert(gwf(sv(a2[m].1)));
    }
}
pub proof fn lemma_m1_step(b1: Seq<(Seq<char>, Shape)>, b2: Seq<(Seq<char>, Shape)>, c1: Seq<(Seq<char>, Shape)>, c2: Seq<(Seq<char>, Shape)>,
    a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>, n: int)
    requires m1(b1, b2, a1, a2, n), n < a1.len(),
        c1 == b1.update(n, c1[n]), c1[n].0 == a1[n].0,
        c2 == without(b2, a1[n].0),
        gwf(sv(c1[n].1)), !(sv(c1[n].1) is Bottom), covers(sv(c1[n].1), sv(a1[n].1)),
        (exists|l: int| 0 <= l < b2.len() && (#[trigger] b2[l]).0 == a1[n].0 && covers(sv(c1[n].1), sv(b2[l].1))
            && gsz(sv(c1[n].1)) <= gsz(sv(a1[n].1)) + gsz(sv(b2[l].1)))
        || (!has_key(b2, a1[n].0) && admits(sv(c1[n].1), None) && gsz(sv(c1[n].1)) <= gsz(sv(a1[n].1))),
    ensures m1(c1, c2, a1, a2, n + 1),
{
    reveal(m1);
    let k = a1[n].0;
    let e = c1[n];
    lemma_without(b2, k);
    lemma_fsum_update(b1, n, e);
    assert(b1[n] == a1[n]);
    if exists|l: int| 0 <= l < b2.len() && (#[trigger] b2[l]).0 == k && covers(sv(e.1), sv(b2[l].1)) && gsz(sv(e.1)) <= gsz(sv(a1[n].1)) + gsz(sv(b2[l].1)) {
        let l = choose|l: int| 0 <= l < b2.len() && (#[trigger] b2[l]).0 == k && covers(sv(e.1), sv(b2[l].1)) && gsz(sv(e.1)) <= gsz(sv(a1[n].1)) + gsz(sv(b2[l].1));
        lemma_fsum_without(b2, k, l);
        let m = choose|m: int| 0 <= m < a2.len() && a2[m] == b2[l];
        assert(a2[m].0 == e.0 && covers(sv(e.1), sv(a2[m].1)));
    } else {
        lemma_fsum_without_le(b2, k);
        if has_key(a2, k) {
            let m = choose|m: int| 0 <= m < a2.len() && #[trigger] a2[m].0 == k;
            if b2.contains(a2[m]) {
                let l = choose|l: int| 0 <= l < b2.len() && b2[l] == a2[m];
                assert(b2[l].0 == k);
            } else {
                let j = choose|j: int| 0 <= j < n && #[trigger] a1[j].0 == k;
                assert(a1[j].0 != a1[n].0);
            }
        }
    }
    assert(merged_ok(e, a1[n], a2));
    assert forall|j: int| #![trigger c1[j]] 0 <= j < n + 1 implies merged_ok(c1[j], a1[j], a2) by { if j < n { assert(c1[j] == b1[j]); } }
    assert forall|j: int| #![trigger c1[j]] n + 1 <= j < a1.len() implies c1[j] == a1[j] by { assert(c1[j] == b1[j]); }
    assert forall|l: int| #![trigger c2[l]] 0 <= l < c2.len() implies a2.contains(c2[l]) by {
        let m = choose|m: int| 0 <= m < b2.len() && b2[m] == c2[l];
        assert(a2.contains(b2[m]));
    }
    assert forall|l: int, j: int| #![trigger c2[l], a1[j]] 0 <= l < c2.len() && 0 <= j < n + 1 implies c2[l].0 != a1[j].0 by {
        let m = choose|m: int| 0 <= m < b2.len() && b2[m] == c2[l];
        if j < n { assert(b2[m].0 != a1[j].0); }
    }
    assert forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() implies c2.contains(a2[l]) || key_before(a1, n + 1, a2[l].0) by {
        if b2.contains(a2[l]) {
            let m = choose|m: int| 0 <= m < b2.len() && b2[m] == a2[l];
            if b2[m].0 == k { assert(a1[n].0 == a2[l].0); } else { assert(c2.contains(b2[m])); }
        } else {
            let j = choose|j: int| 0 <= j < n && #[trigger] a1[j].0 == a2[l].0;
            assert(a1[j].0 == a2[l].0);
        }
    }
}
/// state of the second loop: the leftovers g2 of the second struct, `n` of them appended so far
#[verifier::opaque]
pub open spec fn m2(f: Seq<(Seq<char>, Shape)>, g2: Seq<(Seq<char>, Shape)>, a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>, n: int) -> bool {
    &&& wff(a1) && wff(a2) && uniq(g2)
    &&& 0 <= n <= g2.len() && f.len() == a1.len() + n
    &&& fsum(f) + fsum(g2.skip(n)) <= fsum(a1) + fsum(a2)
    &&& forall|j: int| #![trigger f[j]] 0 <= j < a1.len() ==> merged_ok(f[j], a1[j], a2)
    &&& forall|j: int| #![trigger f[j]] a1.len() <= j < f.len() ==> f[j].0 == g2[j - a1.len()].0 && gwf(sv(f[j].1)) && !(sv(f[j].1) is Bottom)
            && covers(sv(f[j].1), sv(g2[j - a1.len()].1)) && admits(sv(f[j].1), None)
    &&& forall|l: int| #![trigger g2[l]] 0 <= l < g2.len() ==> a2.contains(g2[l])
    &&& forall|l: int, j: int| #![trigger g2[l], a1[j]] 0 <= l < g2.len() && 0 <= j < a1.len() ==> g2[l].0 != a1[j].0
    &&& forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() ==> g2.contains(a2[l]) || has_key(a1, a2[l].0)
}
pub proof fn lemma_m2_init(g1: Seq<(Seq<char>, Shape)>, g2: Seq<(Seq<char>, Shape)>, a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>)
    requires m1(g1, g2, a1, a2, a1.len() as int), ensures m2(g1, g2, a1, a2, 0),
{
    reveal(m1); reveal(m2);
    assert(g2.skip(0) =~= g2);
    assert forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() implies g2.contains(a2[l]) || has_key(a1, a2[l].0) by {
        if !g2.contains(a2[l]) { let j = choose|j: int| 0 <= j < a1.len() && #[trigger] a1[j].0 == a2[l].0; assert(has_key(a1, a2[l].0)); }
    }
}
pub proof fn lemma_m2_get(f: Seq<(Seq<char>, Shape)>, g2: Seq<(Seq<char>, Shape)>, a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>, n: int)
    requires m2(f, g2, a1, a2, n), n < g2.len(),
    ensures gwf(sv(g2[n].1)), !(sv(g2[n].1) is Bottom), !has_key(f, g2[n].0),
{
    reveal(m2);
    let m = choose|m: int| 0 <= m < a2.len() && a2[m] == g2[n];
    assert(gwf(sv(a2[m].1)));
    if has_key(f, g2[n].0) {
        let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j].0 == g2[n].0;
        if j < a1.len() { assert(a1[j].0 == f[j].0); } else { assert(g2[j - a1.len()].0 != g2[n].0); }
    }
}
pub proof fn lemma_m2_step(f: Seq<(Seq<char>, Shape)>, h: Seq<(Seq<char>, Shape)>, g2: Seq<(Seq<char>, Shape)>, a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>, n: int)
    requires m2(f, g2, a1, a2, n), n < g2.len(), h == without(f, g2[n].0).push(h.last()),
        h.last().0 == g2[n].0, gwf(sv(h.last().1)), !(sv(h.last().1) is Bottom), covers(sv(h.last().1), sv(g2[n].1)), admits(sv(h.last().1), None),
        gsz(sv(h.last().1)) <= gsz(sv(g2[n].1)),
    ensures m2(h, g2, a1, a2, n + 1),
{
    lemma_m2_get(f, g2, a1, a2, n);
    lemma_without(f, g2[n].0);
    reveal(m2);
    lemma_fsum_push(f, h.last());
    lemma_fsum_skip(g2, n);
    assert forall|j: int| #![trigger h[j]] 0 <= j < a1.len() implies merged_ok(h[j], a1[j], a2) by { assert(h[j] == f[j]); }
    assert forall|j: int| #![trigger h[j]] a1.len() <= j < h.len() implies h[j].0 == g2[j - a1.len()].0 && gwf(sv(h[j].1)) && !(sv(h[j].1) is Bottom)
            && covers(sv(h[j].1), sv(g2[j - a1.len()].1)) && admits(sv(h[j].1), None) by {
        if j < f.len() { assert(h[j] == f[j]); }
    }
}
pub proof fn lemma_fsum_skip(s: Seq<(Seq<char>, Shape)>, n: int)
    requires 0 <= n < s.len(), ensures fsum(s.skip(n)) == fsum(s.skip(n + 1)) + gsz(sv(s[n].1)), decreases s.len(),
{
    let d = s.drop_last();
    let l = s.last();
    lemma_fsum_push(d.skip(n), l);
    assert(s.skip(n) =~= d.skip(n).push(l));
    if n + 1 < s.len() {
        lemma_fsum_skip(d, n);
        lemma_fsum_push(d.skip(n + 1), l);
        assert(s.skip(n + 1) =~= d.skip(n + 1).push(l));
    } else {
        assert(d.skip(n) =~= s.skip(n + 1));
    }
}
pub proof fn lemma_m2_done(f: Seq<(Seq<char>, Shape)>, g2: Seq<(Seq<char>, Shape)>, a1: Seq<(Seq<char>, Shape)>, a2: Seq<(Seq<char>, Shape)>)
    requires m2(f, g2, a1, a2, g2.len() as int),
    ensures gwf(GShape::Struct(svf(f))), fsum(f) <= fsum(a1) + fsum(a2),
        covers(GShape::Struct(svf(f)), GShape::Struct(svf(a1))), covers(GShape::Struct(svf(f)), GShape::Struct(svf(a2))),
{
    reveal(m2);
    broadcast use group_sv;
    assert forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() implies f[i].0 != f[j].0 by {
        if j < a1.len() { assert(a1[i].0 != a1[j].0); }
        else if i < a1.len() { assert(g2[j - a1.len()].0 != a1[i].0); }
        else { assert(g2[i - a1.len()].0 != g2[j - a1.len()].0); }
    }
    assert(wff(f));
    lemma_wff(f);
    let (s, s1, s2) = (svf(f), svf(a1), svf(a2));
    let n = a1.len();
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies field_ok(s[i], s1) by {
        assert(s[i] == (f[i].0, sv(f[i].1)));
        if i < n { assert(s1[i] == (a1[i].0, sv(a1[i].1))); assert(merged_ok(f[i], a1[i], a2)); }
        else if has_key(s1, s[i].0) {
            let j = choose|j: int| 0 <= j < s1.len() && #[trigger] s1[j].0 == s[i].0;
            assert(s1[j].0 == a1[j].0);
            assert(g2[i - n].0 != a1[j].0);
        }
    }
    assert forall|j: int| #![trigger s1[j]] 0 <= j < s1.len() implies has_key(s, s1[j].0) by {
        assert(merged_ok(f[j], a1[j], a2));
        assert(s[j].0 == s1[j].0);
    }
    lemma_covers_struct(s, s1);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies field_ok(s[i], s2) by {
        assert(s[i] == (f[i].0, sv(f[i].1)));
        if i < n {
            assert(merged_ok(f[i], a1[i], a2));
            if exists|l: int| 0 <= l < a2.len() && (#[trigger] a2[l]).0 == f[i].0 && covers(sv(f[i].1), sv(a2[l].1)) {
                let l = choose|l: int| 0 <= l < a2.len() && (#[trigger] a2[l]).0 == f[i].0 && covers(sv(f[i].1), sv(a2[l].1));
                assert(s2[l] == (a2[l].0, sv(a2[l].1)));
            } else if has_key(s2, s[i].0) {
                let j = choose|j: int| 0 <= j < s2.len() && #[trigger] s2[j].0 == s[i].0;
                assert(s2[j].0 == a2[j].0);
                assert(has_key(a2, f[i].0));
            }
        } else {
            let l = choose|l: int| 0 <= l < a2.len() && a2[l] == g2[i - n];
            assert(s2[l] == (a2[l].0, sv(a2[l].1)));
        }
    }
    assert forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() implies has_key(s, s2[j].0) by {
        assert(s2[j] == (a2[j].0, sv(a2[j].1)));
        if g2.contains(a2[j]) {
            let l = choose|l: int| 0 <= l < g2.len() && g2[l] == a2[j];
            assert(f[n + l].0 == g2[l].0);
            assert(s[n + l].0 == a2[j].0);
        } else {
            let i = choose|i: int| 0 <= i < a1.len() && #[trigger] a1[i].0 == a2[j].0;
            assert(merged_ok(f[i], a1[i], a2));
            assert(s[i].0 == a2[j].0);
        }
    }
    lemma_covers_struct(s, s2);
}
pub proof fn lemma_pigeon<V>(a: Seq<(Seq<char>, V)>, b: Seq<(Seq<char>, V)>)
    requires uniq(a), a.len() == b.len(), forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> has_key(b, a[i].0),
    ensures forall|j: int| #![trigger b[j]] 0 <= j < b.len() ==> has_key(a, b[j].0),
    decreases a.len(),
{
    if a.len() > 0 {
        let d = a.drop_last();
        let n = a.len() - 1;
        assert(has_key(b, a[n].0));
        let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j].0 == a[n].0;
        let c = b.remove(j);
        assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies has_key(c, d[i].0) by {
            assert(d[i] == a[i]);
            assert(a[i].0 != a[n].0);
            let l = choose|l: int| 0 <= l < b.len() && #[trigger] b[l].0 == a[i].0;
            if l < j { assert(c[l].0 == d[i].0); } else { assert(c[l - 1].0 == d[i].0); }
        }
        assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies d[i].0 != d[j].0 by { assert(a[i].0 != a[j].0); }
        lemma_pigeon(d, c);
        assert forall|l: int| #![trigger b[l]] 0 <= l < b.len() implies has_key(a, b[l].0) by {
            if l == j { assert(a[n].0 == b[l].0); }
            else {
                let cl = if l < j { l } else { l - 1 };
                assert(c[cl] == b[l]);
                assert(has_key(d, c[cl].0));
                let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i].0 == c[cl].0;
                assert(a[i].0 == b[l].0);
            }
        }
    }
}
pub open spec fn sub_in(k: Seq<char>, v: Shape, b: Seq<(Seq<char>, Shape)>) -> bool {
    exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0 == k && covers(sv(v), sv(b[j].1))
}
pub proof fn lemma_same_keys(a: Seq<(Seq<char>, Shape)>, b: Seq<(Seq<char>, Shape)>, s: Seq<(&String, &Shape)>)
    requires uniq(a), a.len() == b.len(), s.len() == a.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] s[i]).0@ == a[i].0 && *s[i].1 == a[i].1,
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> sub_in(s[i].0@, *s[i].1, b),
    ensures covers(GShape::Struct(svf(a)), GShape::Struct(svf(b))),
{
    broadcast use group_sv;
    assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies has_key(b, a[i].0) by { assert(s[i].0@ == a[i].0); }
    lemma_pigeon(a, b);
    let (x, y) = (svf(a), svf(b));
    assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies field_ok(x[i], y) by {
        assert(s[i].0@ == a[i].0);
        let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0 == s[i].0@ && covers(sv(*s[i].1), sv(b[j].1));
        assert(y[j].0 == x[i].0 && covers(x[i].1, y[j].1));
    }
    assert forall|j: int| #![trigger y[j]] 0 <= j < y.len() implies has_key(x, y[j].0) by {
        assert(has_key(a, b[j].0));
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].0 == b[j].0;
        assert(x[i].0 == y[j].0);
    }
    lemma_covers_struct(x, y);
}
pub broadcast group group_shape {
    group_sv, group_gsz,
    lemma_covers_refl, lemma_covers_trans, lemma_covers_base, lemma_covers_wrap, lemma_covers_nullable, lemma_covers_optional,
    lemma_covers_null, lemma_covers_tuple, lemma_covers_vec_tuple, lemma_covers_vec, lemma_covers_map,
}
//@ prologue broadcast use group_shape; proof { lemma_sv_consts(); }
//@ file json_typegen_shared/src/shape.rs
//@ fn fold_shapes
    requires forall|i: int| 0 <= i < shapes@.len() ==> gwf(sv(#[trigger] shapes@[i])),
        zsum(shapes@) <= u64::MAX,
    ensures gwf(sv(r)), gsz(sv(r)) <= zsum(shapes@),
        forall|i: int| 0 <= i < shapes@.len() ==> covers(sv(r), sv(#[trigger] shapes@[i])),
        (sv(r) is Bottom) == (forall|i: int| 0 <= i < shapes@.len() ==> sv(#[trigger] shapes@[i]) is Bottom),
        all_clean(shapes@) ==> clean(sv(r)), shapes@.len() == 1 ==> sv(r) == sv(shapes@[0]),
    decreases zsum(shapes@), 1nat, 0nat
//@ loop 0
    invariant gwf(sv(vx_acc0)), gsz(sv(vx_acc0)) <= zsum(shapes@.take(vx_it0.pos())),
        forall|i: int| 0 <= i < vx_it0.pos() ==> covers(sv(vx_acc0), sv(#[trigger] shapes@[i])),
        (sv(vx_acc0) is Bottom) == (forall|i: int| 0 <= i < vx_it0.pos() ==> sv(#[trigger] shapes@[i]) is Bottom),
        all_clean(shapes@) ==> clean(sv(vx_acc0)), vx_it0.pos() == 1 ==> sv(vx_acc0) == sv(shapes@[0]),
//@ at loop 0 before
    proof { lemma_zsum_empty(shapes@); }
//@ at loop 0 next
    proof { lemma_zsum_step(shapes@, vx_it0.pos() - 1); }
//@ fn common_shape
//@ attr verifier::rlimit(60)
    requires gwf(sv(a)), gwf(sv(b)), gsz(sv(a)) + gsz(sv(b)) <= u64::MAX,
    ensures gwf(sv(r)), gsz(sv(r)) <= gsz(sv(a)) + gsz(sv(b)),
        covers(sv(r), sv(a)), covers(sv(r), sv(b)),
        (sv(r) is Bottom) == (sv(a) is Bottom && sv(b) is Bottom),
        clean(sv(a)) && clean(sv(b)) ==> clean(sv(r)), sv(a) is Bottom ==> sv(r) == sv(b),
    decreases gsz(sv(a)) + gsz(sv(b)), 0nat, wrappers(sv(a)) + wrappers(sv(b))
//@ at start
    proof { lemma_sv_kind(a); lemma_sv_kind(b); }
//@ loop 0
    invariant vsh(vx_out0).len() == vx_it0.pos(),
        forall|i: int| #![trigger vsh(vx_out0)[i]] 0 <= i < vx_it0.pos() ==> gwf(sv(vsh(vx_out0)[i])) && !(sv(vsh(vx_out0)[i]) is Bottom)
            && covers(sv(vsh(vx_out0)[i]), sv(vx_s0[i])) && covers(sv(vsh(vx_out0)[i]), sv(vx_zs0[i])),
        clean(sv(a)) && clean(sv(b)) ==> all_clean(vsh(vx_out0)),
        zsum(vsh(vx_out0)) <= zsum(vx_s0.take(vx_it0.pos())) + zsum(vx_zs0.take(vx_it0.pos())),
//@ at loop 0 before
    proof { lemma_zsum_empty(vx_s0); lemma_zsum_empty(vx_zs0); lemma_zsum_empty(vsh(vx_out0)); }
//@ at loop 0 next
    proof {
        lemma_zsum_step(vx_s0, vx_it0.pos() - 1);
        lemma_zsum_step(vx_zs0, vx_it0.pos() - 1);
        assert(gwf(svs(vx_s0)[vx_it0.pos() - 1]));
    }
    let ghost out_pre = vsh(vx_out0);
//@ at loop 0 end
    proof { lemma_zsum_push(out_pre, vsh(vx_out0).last()); assert(out_pre.push(vsh(vx_out0).last()) =~= vsh(vx_out0)); }
//@ prologue broadcast use {group_sv, lemma_covers_refl};
//@ fn common_field_shapes
    requires gwf(GShape::Struct(svf(f1@))), gwf(GShape::Struct(svf(f2@))),
        fsum(f1@) + fsum(f2@) <= u64::MAX,
    ensures gwf(GShape::Struct(svf(r@))),
        fsum(r@) <= fsum(f1@) + fsum(f2@),
        covers(GShape::Struct(svf(r@)), GShape::Struct(svf(f1@))),
        covers(GShape::Struct(svf(r@)), GShape::Struct(svf(f2@))),
        fclean(f1@) && fclean(f2@) ==> fclean(r@),
    decreases fsum(f1@) + fsum(f2@), 1nat, 0nat
//@ at start
    let ghost a1 = f1@;
    let ghost a2 = f2@;
    proof { f1.lemma_uniq(); f2.lemma_uniq(); lemma_m1_init(a1, a2); }
//@ loop 0
    invariant m1(f1@, f2@, a1, a2, vx_i0 as int), fclean(a1) && fclean(a2) ==> fclean(f1@) && fclean(f2@),
//@ at loop 0 next
    let ghost b1 = f1@;
    let ghost b2 = f2@;
    proof { lemma_m1_get(b1, b2, a1, a2, vx_i0 as int); }
//@ at loop 0 end
    proof {
        lemma_m1_step(b1, b2, f1@, f2@, a1, a2, vx_i0 - 1);
        if fclean(a1) && fclean(a2) { lemma_fclean_without(b2, a1[vx_i0 - 1].0);
            assert forall|i: int| 0 <= i < f1@.len() implies clean(sv((#[trigger] f1@[i]).1)) by { if i != vx_i0 - 1 { assert(f1@[i] == b1[i]); } } }
    }
//@ at loop 0 after
    proof { lemma_m2_init(f1@, f2@, a1, a2); }
//@ loop 1
    invariant m2(f1@, f2@, a1, a2, vx_it1.pos()), fclean(a1) && fclean(a2) ==> fclean(f1@) && fclean(f2@),
//@ at loop 1 next
    let ghost c1 = f1@;
    proof { lemma_m2_get(c1, f2@, a1, a2, vx_it1.pos() - 1); }
//@ at loop 1 end
    proof {
        lemma_m2_step(c1, f1@, f2@, a1, a2, vx_it1.pos() - 1);
        if fclean(a1) && fclean(a2) { lemma_fclean_push(c1, f2@[vx_it1.pos() - 1].0, f1@.last()); }
    }
//@ at end
    proof { lemma_m2_done(f1@, f2@, a1, a2); }
//@ prologue broadcast use group_shape; proof { lemma_sv_consts(); }
//@ fn Shape::into_optional
    requires gwf(sv(self)), !(sv(self) is Bottom)
    ensures gwf(sv(r)), gsz(sv(r)) == gsz(sv(self)), admits(sv(r), None), covers(sv(r), sv(self)), !(sv(r) is Bottom), clean(sv(self)) ==> clean(sv(r))
    decreases wrappers(sv(self))
//@ at start
    proof { lemma_sv_kind(self); }
//@ fn Shape::into_nullable
    requires gwf(sv(self)), !(sv(self) is Bottom)
    ensures gwf(sv(r)), gsz(sv(r)) == gsz(sv(self)), admits(sv(r), Some(GVal::Null)), covers(sv(r), sv(self)), !(sv(r) is Bottom), clean(sv(self)) ==> clean(sv(r))
    decreases wrappers(sv(self))
//@ at start
    proof { lemma_sv_kind(self); }
//@ fn Shape::is_acceptable_substitution_for
    ensures r ==> covers(sv(*self), sv(*other))
    decreases *self
//@ at start
    proof { lemma_sv_kind(*self); lemma_sv_kind(*other); }
//@ loop 0
    invariant vx_res0 ==>
        forall|i: int| #![trigger vx_s0[i]] #![trigger vx_zs0[i]] 0 <= i < vx_zip0.pos() ==> covers(sv(*vx_s0[i]), sv(*vx_zs0[i])),
//@ at loop 0 after
    proof {
        if vx_res0 && a@.len() == b@.len() {
            assert forall|i: int| #![trigger svs(a@)[i]] #![trigger svs(b@)[i]] 0 <= i < a@.len() implies covers(svs(a@)[i], svs(b@)[i]) by {
                assert(*vx_s0[i] == a@[i] && *vx_zs0[i] == b@[i]);
            }
        }
    }
//@ loop 1
    invariant vx_res1 ==>
        forall|i: int| #![trigger vx_s1[i]] 0 <= i < vx_it1.pos() ==> sub_in(vx_s1[i].0@, *vx_s1[i].1, f2@),
//@ at loop 1 after
    proof { if vx_res1 && f1@.len() == f2@.len() { f1.lemma_uniq(); lemma_same_keys(f1@, f2@, vx_s1); } }
