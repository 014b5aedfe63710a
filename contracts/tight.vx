//@ include prelude.vx
//@ include shape_types.vx
//@ include tight_spec.vx
//@ raw
#[verifier::rlimit(40)] pub proof fn lemma_without<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>)
    ensures
        forall|i: int| #![trigger without(s, k)[i]] 0 <= i < without(s, k).len() ==> without(s, k)[i].0 != k
            && s.contains(without(s, k)[i]),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 != k ==> without(s, k).contains(s[i]),
        !has_key(s, k) ==> without(s, k) == s,
        uniq(s) ==> uniq(without(s, k)),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_without(d, k);
        let f = |e: (Seq<char>, V)| e.0 != k;
        let w = without(s, k);
        assert(w == if s.last().0 != k { without(d, k).push(s.last()) } else { without(d, k) });
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies w[i].0 != k && s.contains(w[i]) by {
            if i < without(d, k).len() {
                assert(w[i] == without(d, k)[i]);
                let j = choose|j: int| 0 <= j < d.len() && d[j] == w[i];
                assert(s[j] == w[i]);
            } else { assert(s[s.len() - 1] == w[i]); }
        }
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 != k implies w.contains(s[i]) by {
            if i < d.len() {
                assert(d[i] == s[i]);
                let j = choose|j: int| 0 <= j < without(d, k).len() && without(d, k)[j] == s[i];
                assert(w[j] == s[i]);
            } else { assert(w[w.len() - 1] == s[i]); }
        }
        if !has_key(s, k) {
            if has_key(d, k) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i].0 == k; assert(s[i].0 == k); }
            assert(s[s.len() - 1].0 != k);
            assert(w =~= s);
        }
        if uniq(s) {
            assert(uniq(d)) by { assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies d[i].0 != d[j].0 by { assert(s[i].0 != s[j].0); } }
            assert forall|i: int, j: int| #![trigger w[i], w[j]] 0 <= i < j < w.len() implies w[i].0 != w[j].0 by {
                assert(w[i] == without(d, k)[i]);
                if j < without(d, k).len() { assert(w[j] == without(d, k)[j]); }
                else {
                    let l = choose|l: int| 0 <= l < d.len() && d[l] == without(d, k)[i];
                    assert(s[l].0 != s[s.len() - 1].0);
                }
            }
        }
    } else { assert(without(s, k) =~= s); }
}

#[verifier::external_body] pub fn vx_any_sum<A>(a: A, b: A) -> (r: A) { unimplemented!() }
pub open spec fn vsh(v: Vec<Shape>) -> Seq<Shape> { v@ }
pub type FS = Seq<(Seq<char>, Shape)>;
/// the entry of the merged record for a field of the first record
pub open spec fn nmerged(e: (Seq<char>, Shape), e1: (Seq<char>, Shape), a2: FS) -> bool {
    e.0 == e1.0
    && ((exists|l: int| 0 <= l < a2.len() && (#[trigger] a2[l]).0 == e.0 && narrow(sv(e.1), sv(e1.1), sv(a2[l].1)))
        || (!has_key(a2, e.0) && narrow(sv(e.1), sv(e1.1), ob())))
}
pub open spec fn key_before(a: FS, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && #[trigger] a[j].0 == k }
/// state of the first loop of common_field_shapes after the first `n` fields: f1, f2 now; a1, a2 at entry
#[verifier::opaque]
pub open spec fn m1(f1: FS, f2: FS, a1: FS, a2: FS, n: int) -> bool {
    &&& uniq(a1) && uniq(a2)
    &&& 0 <= n <= a1.len() && f1.len() == a1.len()
    &&& forall|j: int| #![trigger f1[j]] n <= j < a1.len() ==> f1[j] == a1[j]
    &&& forall|j: int| #![trigger f1[j]] 0 <= j < n ==> nmerged(f1[j], a1[j], a2)
    &&& uniq(f2)
    &&& forall|l: int| #![trigger f2[l]] 0 <= l < f2.len() ==> a2.contains(f2[l])
    &&& forall|l: int, j: int| #![trigger f2[l], a1[j]] 0 <= l < f2.len() && 0 <= j < n ==> f2[l].0 != a1[j].0
    &&& forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() ==> f2.contains(a2[l]) || key_before(a1, n, a2[l].0)
}
pub proof fn lemma_m1_init(a1: FS, a2: FS) requires uniq(a1), uniq(a2), ensures m1(a1, a2, a1, a2, 0) { reveal(m1); }
pub proof fn lemma_m1_get(b1: FS, b2: FS, a1: FS, a2: FS, n: int)
    requires m1(b1, b2, a1, a2, n), n < a1.len(), ensures b1[n] == a1[n], b1.len() == a1.len(), 0 <= n { reveal(m1); }
pub proof fn lemma_m1_step(b1: FS, b2: FS, c1: FS, c2: FS, a1: FS, a2: FS, n: int)
    requires m1(b1, b2, a1, a2, n), n < a1.len(),
        c1 == b1.update(n, c1[n]), c1[n].0 == a1[n].0,
        c2 == without(b2, a1[n].0),
        (exists|l: int| 0 <= l < b2.len() && (#[trigger] b2[l]).0 == a1[n].0 && narrow(sv(c1[n].1), sv(a1[n].1), sv(b2[l].1)))
        || (!has_key(b2, a1[n].0) && narrow(sv(c1[n].1), sv(a1[n].1), ob())),
    ensures m1(c1, c2, a1, a2, n + 1),
{
    reveal(m1);
    let k = a1[n].0;
    let e = c1[n];
    lemma_without(b2, k);
    assert(b1[n] == a1[n]);
    if exists|l: int| 0 <= l < b2.len() && (#[trigger] b2[l]).0 == k && narrow(sv(e.1), sv(a1[n].1), sv(b2[l].1)) {
        let l = choose|l: int| 0 <= l < b2.len() && (#[trigger] b2[l]).0 == k && narrow(sv(e.1), sv(a1[n].1), sv(b2[l].1));
        let m = choose|m: int| 0 <= m < a2.len() && a2[m] == b2[l];
        assert(a2[m].0 == e.0 && narrow(sv(e.1), sv(a1[n].1), sv(a2[m].1)));
    } else if has_key(a2, k) {
        let m = choose|m: int| 0 <= m < a2.len() && #[trigger] a2[m].0 == k;
        if b2.contains(a2[m]) {
            let l = choose|l: int| 0 <= l < b2.len() && b2[l] == a2[m];
            assert(b2[l].0 == k);
        } else {
            let j = choose|j: int| 0 <= j < n && #[trigger] a1[j].0 == k;
            assert(a1[j].0 != a1[n].0);
        }
    }
    assert(nmerged(e, a1[n], a2));
    assert forall|j: int| #![trigger c1[j]] 0 <= j < n + 1 implies nmerged(c1[j], a1[j], a2) by { if j < n { assert(c1[j] == b1[j]); } }
    assert forall|j: int| #![trigger c1[j]] n + 1 <= j < a1.len() implies c1[j] == a1[j] by { assert(c1[j] == b1[j]); }
    assert forall|l: int| #![trigger c2[l]] 0 <= l < c2.len() implies a2.contains(c2[l]) by {
        let m = choose|m: int| 0 <= m < b2.len() && b2[m] == c2[l];
        assert(a2.contains(b2[m]));
    }
    assert forall|l: int, j: int| #![trigger c2[l], a1[j]] 0 <= l < c2.len() && 0 <= j < n + 1 implies c2[l].0 != a1[j].0 by {
        let m = choose|m: int| 0 <= m < b2.len() && b2[m] == c2[l];
        if j < n { assert(b2[m].0 != a1[j].0); }
    }
    assert forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() implies c2.contains(a2[l]) || key_before(a1, n + 1, a2[l].0) by {
        if b2.contains(a2[l]) {
            let m = choose|m: int| 0 <= m < b2.len() && b2[m] == a2[l];
            if b2[m].0 == k { assert(a1[n].0 == a2[l].0); } else { assert(c2.contains(b2[m])); }
        } else {
            let j = choose|j: int| 0 <= j < n && #[trigger] a1[j].0 == a2[l].0;
            assert(a1[j].0 == a2[l].0);
        }
    }
}
/// state of the second loop: the leftovers g2 of the second record, `n` of them appended so far
#[verifier::opaque]
pub open spec fn m2(f: FS, g2: FS, a1: FS, a2: FS, n: int) -> bool {
    &&& uniq(a1) && uniq(a2) && uniq(g2)
    &&& 0 <= n <= g2.len() && f.len() == a1.len() + n
    &&& forall|j: int| #![trigger f[j]] 0 <= j < a1.len() ==> nmerged(f[j], a1[j], a2)
    &&& forall|j: int| #![trigger f[j]] a1.len() <= j < f.len() ==> f[j].0 == g2[j - a1.len()].0 && narrow(sv(f[j].1), sv(g2[j - a1.len()].1), ob())
    &&& forall|l: int| #![trigger g2[l]] 0 <= l < g2.len() ==> a2.contains(g2[l])
    &&& forall|l: int, j: int| #![trigger g2[l], a1[j]] 0 <= l < g2.len() && 0 <= j < a1.len() ==> g2[l].0 != a1[j].0
    &&& forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() ==> g2.contains(a2[l]) || has_key(a1, a2[l].0)
}
pub proof fn lemma_m2_init(g1: FS, g2: FS, a1: FS, a2: FS)
    requires m1(g1, g2, a1, a2, a1.len() as int), ensures m2(g1, g2, a1, a2, 0),
{
    reveal(m1); reveal(m2);
    assert forall|l: int| #![trigger a2[l]] 0 <= l < a2.len() implies g2.contains(a2[l]) || has_key(a1, a2[l].0) by {
        if !g2.contains(a2[l]) { let j = choose|j: int| 0 <= j < a1.len() && #[trigger] a1[j].0 == a2[l].0; assert(has_key(a1, a2[l].0)); }
    }
}
pub proof fn lemma_m2_step(f: FS, h: FS, g2: FS, a1: FS, a2: FS, n: int)
    requires m2(f, g2, a1, a2, n), n < g2.len(), h == without(f, g2[n].0).push(h.last()),
        h.last().0 == g2[n].0, narrow(sv(h.last().1), sv(g2[n].1), ob()),
    ensures m2(h, g2, a1, a2, n + 1),
{
    reveal(m2);
    if has_key(f, g2[n].0) {
        let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j].0 == g2[n].0;
        if j < a1.len() { assert(a1[j].0 == f[j].0); } else { assert(g2[j - a1.len()].0 != g2[n].0); }
    }
    lemma_without(f, g2[n].0);
    assert forall|j: int| #![trigger h[j]] 0 <= j < a1.len() implies nmerged(h[j], a1[j], a2) by { assert(h[j] == f[j]); }
    assert forall|j: int| #![trigger h[j]] a1.len() <= j < h.len() implies h[j].0 == g2[j - a1.len()].0 && narrow(sv(h[j].1), sv(g2[j - a1.len()].1), ob()) by {
        if j < f.len() { assert(h[j] == f[j]); }
    }
}
pub proof fn lemma_m2_done(f: FS, g2: FS, a1: FS, a2: FS)
    requires m2(f, g2, a1, a2, g2.len() as int),
    ensures narrow(GShape::Struct(svf(f)), GShape::Struct(svf(a1)), GShape::Struct(svf(a2))),
{
    reveal(m2);
    broadcast use group_sv;
    let (s, s1, s2) = (svf(f), svf(a1), svf(a2));
    let n = a1.len();
    assert forall|k: Seq<char>| #[trigger] has_key(s1, k) implies has_key(a1, k) by { let j = choose|j: int| 0 <= j < s1.len() && #[trigger] s1[j].0 == k; assert(a1[j].0 == k); }
    assert forall|k: Seq<char>| #[trigger] has_key(s2, k) implies has_key(a2, k) by { let j = choose|j: int| 0 <= j < s2.len() && #[trigger] s2[j].0 == k; assert(a2[j].0 == k); }
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies nfield(s[i], s1, s2) by {
        assert(s[i] == (f[i].0, sv(f[i].1)));
        if i < n {
            assert(nmerged(f[i], a1[i], a2));
            assert(s1[i] == (a1[i].0, sv(a1[i].1)));
            if exists|l: int| 0 <= l < a2.len() && (#[trigger] a2[l]).0 == f[i].0 && narrow(sv(f[i].1), sv(a1[i].1), sv(a2[l].1)) {
                let l = choose|l: int| 0 <= l < a2.len() && (#[trigger] a2[l]).0 == f[i].0 && narrow(sv(f[i].1), sv(a1[i].1), sv(a2[l].1));
                assert(s2[l] == (a2[l].0, sv(a2[l].1)));
                assert(s1[i].0 == s[i].0 && s2[l].0 == s[i].0 && narrow(s[i].1, s1[i].1, s2[l].1));
            } else {
                assert(s1[i].0 == s[i].0 && !has_key(s2, s[i].0) && narrow(s[i].1, s1[i].1, ob()));
            }
        } else {
            let l = choose|l: int| 0 <= l < a2.len() && a2[l] == g2[i - n];
            assert(s2[l] == (a2[l].0, sv(a2[l].1)));
            assert(!has_key(s1, s[i].0)) by {
                if has_key(a1, f[i].0) { let j = choose|j: int| 0 <= j < a1.len() && #[trigger] a1[j].0 == f[i].0; assert(g2[i - n].0 != a1[j].0); }
            }
            assert(s2[l].0 == s[i].0 && !has_key(s1, s[i].0) && narrow(s[i].1, s2[l].1, ob()));
        }
    }
    assert forall|j: int| #![trigger s1[j]] 0 <= j < s1.len() implies has_key(s, s1[j].0) by {
        assert(nmerged(f[j], a1[j], a2));
        assert(s[j].0 == s1[j].0);
    }
    lemma_narrow_struct(s, s1, s2);
}
//@ prologue broadcast use {group_sv, group_narrow}; proof { lemma_sv_consts(); }
//@ file json_typegen_shared/src/shape.rs
//@ fn fold_shapes
    ensures narrowv(sv(r), svs(shapes@))
//@ loop 0
    invariant narrowv(sv(vx_acc0), svs(shapes@).take(vx_it0.pos())), vx_s0 == shapes@,
//@ at loop 0 before
    proof { lemma_narrowv_empty(svs(shapes@)); }
//@ at loop 0 next
    let ghost p = sv(vx_acc0);
//@ at loop 0 end
    proof { lemma_narrowv_step(p, sv(vx_acc0), svs(shapes@), vx_it0.pos() - 1); }
//@ fn common_shape
//@ attr any-sum
    ensures narrow(sv(r), sv(a), sv(b))
//@ at start
    proof { lemma_sv_kind(a); lemma_sv_kind(b); }
//@ loop 0
    invariant vsh(vx_out0).len() == vx_it0.pos(),
        forall|i: int| #![trigger vsh(vx_out0)[i]] 0 <= i < vx_it0.pos() ==> narrow(sv(vsh(vx_out0)[i]), sv(vx_s0[i]), sv(vx_zs0[i])),
//@ prologue broadcast use {group_sv};
//@ fn common_field_shapes
    ensures narrow(GShape::Struct(svf(r@)), GShape::Struct(svf(f1@)), GShape::Struct(svf(f2@)))
//@ at start
    broadcast use {lemma_narrow_same};
    let ghost a1 = f1@;
    let ghost a2 = f2@;
    proof { f1.lemma_uniq(); f2.lemma_uniq(); lemma_m1_init(a1, a2); }
//@ loop 0
    invariant m1(f1@, f2@, a1, a2, vx_i0 as int),
//@ at loop 0 next
    let ghost b1 = f1@;
    let ghost b2 = f2@;
    proof { lemma_m1_get(b1, b2, a1, a2, vx_i0 as int); }
//@ at loop 0 end
    proof { lemma_m1_step(b1, b2, f1@, f2@, a1, a2, vx_i0 - 1); }
//@ at loop 0 after
    proof { lemma_m2_init(f1@, f2@, a1, a2); }
//@ loop 1
    invariant m2(f1@, f2@, a1, a2, vx_it1.pos()),
//@ at loop 1 next
    let ghost c1 = f1@;
//@ at loop 1 end
    proof { lemma_m2_step(c1, f1@, f2@, a1, a2, vx_it1.pos() - 1); }
//@ at end
    proof { lemma_m2_done(f1@, f2@, a1, a2); }
//@ prologue broadcast use {group_sv, group_narrow}; proof { lemma_sv_consts(); }
//@ fn Shape::into_optional
    ensures narrow(sv(r), sv(self), ob())
//@ at start
    proof { lemma_sv_kind(self); }
//@ fn Shape::into_nullable
    ensures narrow(sv(r), sv(self), GShape::Null)
//@ at start
    proof { lemma_sv_kind(self); }
