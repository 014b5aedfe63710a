//@ include merge.vx assume
//@ raw
// ===== one shape for the elements of a list =====
// the shape a list's elements are merged into; `clean` (no type of the user's own) is kept by merging
pub open spec fn folds(f: GShape, ss: Seq<GShape>) -> bool {
    gwf(f) && (forall|i: int| 0 <= i < ss.len() ==> covers(f, #[trigger] ss[i])) && ((forall|i: int| 0 <= i < ss.len() ==> clean(#[trigger] ss[i])) ==> clean(f))
    && (ss.len() == 0 ==> f is Bottom) && (ss.len() == 1 ==> f == ss[0])
}
pub broadcast proof fn lemma_same_shapes(a: Seq<Shape>, b: Seq<Shape>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> sv(#[trigger] a[i]) == sv(b[i]), ensures #![trigger svs(a), svs(b)] svs(a) == svs(b)
{ broadcast use group_sv; assert(svs(a) =~= svs(b)); }
pub fn vx_fold_shapes(shapes: Vec<Shape>) -> (r: Shape)
    requires forall|i: int| 0 <= i < shapes@.len() ==> gwf(sv(#[trigger] shapes@[i])), zsum(shapes@) <= u64::MAX,
    ensures folds(sv(r), svs(shapes@)), gsz(sv(r)) <= zsum(shapes@), gwf(sv(r)),
{
    let ghost ss = svs(shapes@);
    let ghost s0 = shapes@;
    let f = fold_shapes(shapes);
    proof {
        broadcast use group_sv;
        assert forall|i: int| 0 <= i < ss.len() implies covers(sv(f), #[trigger] ss[i]) by { assert(ss[i] == sv(s0[i])); }
        if forall|i: int| 0 <= i < ss.len() ==> clean(#[trigger] ss[i]) { assert forall|i: int| 0 <= i < s0.len() implies clean(sv(#[trigger] s0[i])) by { assert(ss[i] == sv(s0[i])); } }
    }
    f
}
pub proof fn lemma_tuple(s: Seq<Shape>, n: nat)
    requires gwf(GShape::Tuple(svs(s), n)), gsz(GShape::Tuple(svs(s), n)) <= u64::MAX,
    ensures gwf(GShape::Tuple(svs(s), 0)), zsum(s) < gsz(GShape::Tuple(svs(s), n)), forall|i: int| 0 <= i < s.len() ==> gwf(sv(#[trigger] s[i])) && gsz(sv(s[i])) <= zsum(s),
{
    broadcast use {group_gsz, group_sv};
    assert forall|i: int| 0 <= i < s.len() implies gwf(sv(#[trigger] s[i])) && gsz(sv(s[i])) <= zsum(s) by { assert(svs(s)[i] == sv(s[i])); lemma_zsum_step(s, i); }
}
pub proof fn lemma_fields(fs: Seq<(Seq<char>, GShape)>, n: int) requires 0 <= n < fs.len(), gwf(GShape::Struct(fs)), ensures gwf(fs[n].1), gsz(fs[n].1) < gsz(GShape::Struct(fs))
{ broadcast use group_gsz; lemma_nsum_mono(fsizes(fs), n); }
//@ end
