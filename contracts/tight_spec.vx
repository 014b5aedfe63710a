//@ raw
// ===== what a set of observations calls for: the dual of `admits` =====
pub type VS = ISet<Option<GVal>>;
pub open spec fn vkind(v: Option<GVal>) -> int {
    match v {
        None => 0, Some(GVal::Null) => 0, Some(GVal::Bool) => 1, Some(GVal::Int) => 2, Some(GVal::Float) => 2, Some(GVal::Str) => 3,
        Some(GVal::Arr(_)) => 4, Some(GVal::Obj(_)) => 5,
    }
}
pub open spec fn arr_of(w: Option<GVal>) -> Seq<GVal> { w->0->Arr_0 }
pub open spec fn obj_of(w: Option<GVal>) -> Map<Seq<char>, GVal> { w->0->Obj_0 }
pub open spec fn v_elems(a: VS) -> VS {
    ISet::new(|v: Option<GVal>| exists|w: Option<GVal>, i: int| #[trigger] a.contains(w) && vkind(w) == 4 && 0 <= i < arr_of(w).len() && v == Some(#[trigger] arr_of(w)[i]))
}
pub open spec fn v_nth(a: VS, n: nat, i: int) -> VS {
    ISet::new(|v: Option<GVal>| exists|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 4 && arr_of(w).len() == n && v == Some(arr_of(w)[i]))
}
pub open spec fn v_proj(a: VS, k: Seq<char>) -> VS {
    ISet::new(|v: Option<GVal>| exists|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 5 && v == lookup(obj_of(w), k))
}
pub open spec fn v_vals(a: VS) -> VS {
    ISet::new(|v: Option<GVal>| exists|w: Option<GVal>, k: Seq<char>| #[trigger] a.contains(w) && vkind(w) == 5 && #[trigger] obj_of(w).dom().contains(k) && v == Some(obj_of(w)[k]))
}
/// an object all of whose keys are fields of the record
pub open spec fn has_record(a: VS, fs: Seq<(Seq<char>, GShape)>) -> bool {
    exists|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 5 && forall|k: Seq<char>| #[trigger] obj_of(w).dom().contains(k) ==> has_key(fs, k)
}
pub open spec fn has_arr(a: VS) -> bool { exists|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 4 }
pub open spec fn has_arr_n(a: VS, n: nat) -> bool { exists|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 4 && arr_of(w).len() == n }
pub open spec fn has_obj(a: VS) -> bool { exists|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 5 }
pub open spec fn has_field(a: VS, k: Seq<char>) -> bool { exists|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 5 && obj_of(w).dom().contains(k) }
pub open spec fn diff_kinds(a: VS) -> bool {
    exists|v: Option<GVal>, w: Option<GVal>| #[trigger] a.contains(v) && #[trigger] a.contains(w) && vkind(v) != vkind(w) && vkind(v) != 0 && vkind(w) != 0
}
/// every freedom `s` grants was called for by one of the observations `a`.
/// `mx`: maps may occur next to records (map threshold or map hints); without it a map is never called for
pub open spec fn tight(mx: bool, s: GShape, a: VS) -> bool decreases s {
    match s {
        GShape::Bottom => true,
        GShape::Any => diff_kinds(a) || (mx && has_obj(a)),
        GShape::Optional(b) => a.contains(None) && tight(mx, *b, a),
        GShape::Nullable(b) => a.contains(Some(GVal::Null)) && tight(mx, *b, a),
        GShape::Null => a.contains(Some(GVal::Null)),
        GShape::Bool => a.contains(Some(GVal::Bool)),
        GShape::StringT => a.contains(Some(GVal::Str)),
        GShape::Integer => a.contains(Some(GVal::Int)),
        GShape::Floating => a.contains(Some(GVal::Float)),
        GShape::VecT(e) => has_arr(a) && tight(mx, *e, v_elems(a)),
        GShape::Tuple(es, _) => has_arr_n(a, es.len()) && forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> tight(mx, es[i], v_nth(a, es.len(), i)),
        GShape::Struct(fs) => has_record(a, fs)
            && forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> has_field(a, fs[i].0) && tight(mx, fs[i].1, v_proj(a, fs[i].0)),
        GShape::MapT(e) => mx && has_obj(a) && tight(mx, *e, v_vals(a)),
        GShape::Opaque(_) => mx,
    }
}
pub proof fn lemma_tight_mono(mx: bool, s: GShape, a: VS, b: VS)
    requires tight(mx, s, a), a.subset_of(b), ensures tight(mx, s, b), decreases s,
{
    match s {
        GShape::Optional(x) => lemma_tight_mono(mx, *x, a, b),
        GShape::Nullable(x) => lemma_tight_mono(mx, *x, a, b),
        GShape::VecT(e) => { assert(v_elems(a).subset_of(v_elems(b))); lemma_tight_mono(mx, *e, v_elems(a), v_elems(b)); }
        GShape::MapT(e) => { assert(v_vals(a).subset_of(v_vals(b))); lemma_tight_mono(mx, *e, v_vals(a), v_vals(b)); }
        GShape::Tuple(es, _) => {
            assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies tight(mx, es[i], v_nth(b, es.len(), i)) by {
                assert(v_nth(a, es.len(), i).subset_of(v_nth(b, es.len(), i)));
                lemma_tight_mono(mx, es[i], v_nth(a, es.len(), i), v_nth(b, es.len(), i));
            }
        }
        GShape::Struct(fs) => {
            let w = choose|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 5 && forall|k: Seq<char>| #[trigger] obj_of(w).dom().contains(k) ==> has_key(fs, k);
            assert(b.contains(w));
            assert forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() implies has_field(b, fs[i].0) && tight(mx, fs[i].1, v_proj(b, fs[i].0)) by {
                let k = fs[i].0;
                let u = choose|u: Option<GVal>| #[trigger] a.contains(u) && vkind(u) == 5 && obj_of(u).dom().contains(k);
                assert(b.contains(u));
                assert(v_proj(a, k).subset_of(v_proj(b, k)));
                lemma_tight_mono(mx, fs[i].1, v_proj(a, k), v_proj(b, k));
            }
        }
        GShape::Any => {
            if diff_kinds(a) {
                let (v, w) = choose|v: Option<GVal>, w: Option<GVal>| #[trigger] a.contains(v) && #[trigger] a.contains(w) && vkind(v) != vkind(w) && vkind(v) != 0 && vkind(w) != 0;
                assert(b.contains(v) && b.contains(w));
            }
        }
        _ => {}
    }
}
/// whatever observations call for both `x` and `y` also call for `r`
#[verifier::opaque]
pub open spec fn narrow(r: GShape, x: GShape, y: GShape) -> bool {
    forall|mx: bool, a: VS| #![trigger tight(mx, r, a)] tight(mx, x, a) && tight(mx, y, a) ==> tight(mx, r, a)
}
#[verifier::opaque]
pub open spec fn narrowv(r: GShape, xs: Seq<GShape>) -> bool {
    forall|mx: bool, a: VS| #![trigger tight(mx, r, a)] (forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() ==> tight(mx, xs[i], a)) ==> tight(mx, r, a)
}
pub open spec fn ob() -> GShape { GShape::Optional(Box::new(GShape::Bottom)) }
pub proof fn lemma_tight_ob(mx: bool, a: VS) ensures tight(mx, ob(), a) == a.contains(None) { reveal_with_fuel(tight, 3); }
pub proof fn lemma_tight_mix(mx: bool, s: GShape, a: VS) requires tight(mx, s, a), ensures tight(true, s, a), decreases s {
    match s {
        GShape::Optional(x) => lemma_tight_mix(mx, *x, a),
        GShape::Nullable(x) => lemma_tight_mix(mx, *x, a),
        GShape::VecT(e) => lemma_tight_mix(mx, *e, v_elems(a)),
        GShape::MapT(e) => lemma_tight_mix(mx, *e, v_vals(a)),
        GShape::Tuple(es, _) => {
            assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies tight(true, es[i], v_nth(a, es.len(), i)) by { lemma_tight_mix(mx, es[i], v_nth(a, es.len(), i)); }
        }
        GShape::Struct(fs) => {
            assert forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() implies tight(true, fs[i].1, v_proj(a, fs[i].0)) by { lemma_tight_mix(mx, fs[i].1, v_proj(a, fs[i].0)); }
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_narrow_same(r: GShape, y: GShape)
    ensures #[trigger] narrow(r, r, y) { reveal(narrow); }
pub broadcast proof fn lemma_narrow_same2(r: GShape, y: GShape)
    ensures #[trigger] narrow(r, y, r) { reveal(narrow); }
pub broadcast proof fn lemma_narrow_bottom(r: GShape, x: GShape)
    ensures #[trigger] narrow(GShape::Bottom, r, x) { reveal(narrow); }
pub broadcast proof fn lemma_narrow_sym(r: GShape, x: GShape, y: GShape)
    requires #[trigger] narrow(r, x, y), ensures narrow(r, y, x) { reveal(narrow); }
/// (a, Optional(b)) -> common(a, b).into_optional()
pub broadcast proof fn lemma_narrow_opt(r: GShape, m: GShape, x: GShape, y: Box<GShape>)
    requires #[trigger] narrow(m, x, *y), #[trigger] narrow(r, m, ob()),
    ensures narrow(r, x, GShape::Optional(y)), narrow(r, GShape::Optional(y), x),
{
    reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, x, a) && tight(mx, GShape::Optional(y), a) implies #[trigger] tight(mx, r, a) by {
        lemma_tight_ob(mx, a); assert(tight(mx, m, a));
    }
}
pub broadcast proof fn lemma_narrow_nul(r: GShape, m: GShape, x: GShape, y: Box<GShape>)
    requires #[trigger] narrow(m, x, *y), #[trigger] narrow(r, m, GShape::Null),
    ensures narrow(r, x, GShape::Nullable(y)), narrow(r, GShape::Nullable(y), x),
{
    reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, x, a) && tight(mx, GShape::Nullable(y), a) implies #[trigger] tight(mx, r, a) by {
        assert(tight(mx, m, a)); assert(tight(mx, GShape::Null, a));
    }
}
pub broadcast proof fn lemma_narrow_wrap(x: Box<GShape>)
    ensures #[trigger] narrow(GShape::Optional(x), *x, ob()), { reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, *x, a) && tight(mx, ob(), a) implies #[trigger] tight(mx, GShape::Optional(x), a) by {} }
pub broadcast proof fn lemma_narrow_wrapn(x: Box<GShape>)
    ensures #[trigger] narrow(GShape::Nullable(x), *x, GShape::Null), { reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, *x, a) && tight(mx, GShape::Null, a) implies #[trigger] tight(mx, GShape::Nullable(x), a) by {} }
/// Optional(inner).into_nullable() is Optional(inner.into_nullable())
pub broadcast proof fn lemma_narrow_optnul(r: Box<GShape>, x: Box<GShape>)
    requires narrow(*r, *x, GShape::Null), ensures #[trigger] narrow(GShape::Optional(r), GShape::Optional(x), GShape::Null),
{
    reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, GShape::Optional(x), a) && tight(mx, GShape::Null, a) implies #[trigger] tight(mx, GShape::Optional(r), a) by {
        assert(tight(mx, *r, a));
    }
}
pub open spec fn gkind(s: GShape) -> int {
    match s {
        GShape::Bool => 1, GShape::Integer => 2, GShape::Floating => 2, GShape::StringT => 3, GShape::VecT(_) => 4, GShape::Tuple(_, _) => 4,
        GShape::Struct(_) => 5, GShape::MapT(_) => 5, _ => 0,
    }
}
pub proof fn lemma_tight_kind(mx: bool, s: GShape, a: VS)
    requires tight(mx, s, a), gkind(s) != 0, ensures exists|v: Option<GVal>| #[trigger] a.contains(v) && vkind(v) == gkind(s),
{
    match s {
        GShape::Bool => { assert(vkind(Some(GVal::Bool)) == 1); }
        GShape::Integer => { assert(vkind(Some(GVal::Int)) == 2); }
        GShape::Floating => { assert(vkind(Some(GVal::Float)) == 2); }
        GShape::StringT => { assert(vkind(Some(GVal::Str)) == 3); }
        _ => {}
    }
}
/// two shapes of different kinds, or a record next to a map, call for Any
pub broadcast proof fn lemma_narrow_any(x: GShape, y: GShape)
    requires x is Any || y is Any
        || (gkind(x) != 0 && gkind(y) != 0 && (gkind(x) != gkind(y) || (gkind(x) == 5 && (x is MapT || y is MapT)))),
    ensures #[trigger] narrow(GShape::Any, x, y),
{
    reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, x, a) && tight(mx, y, a) implies #[trigger] tight(mx, GShape::Any, a) by {
        if !(x is Any || y is Any) {
            if gkind(x) != gkind(y) {
                lemma_tight_kind(mx, x, a);
                lemma_tight_kind(mx, y, a);
                let v = choose|v: Option<GVal>| #[trigger] a.contains(v) && vkind(v) == gkind(x);
                let w = choose|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == gkind(y);
                assert(a.contains(v) && a.contains(w));
            }
        }
    }
}
pub broadcast proof fn lemma_narrow_opaque(r: GShape, x: GShape, y: GShape)
    requires r is Opaque, x is Opaque || y is Opaque, ensures #[trigger] narrow(r, x, y) { reveal(narrow); }
pub broadcast proof fn lemma_narrow_vec(r: Box<GShape>, x: Box<GShape>, y: Box<GShape>)
    requires narrow(*r, *x, *y), ensures #[trigger] narrow(GShape::VecT(r), GShape::VecT(x), GShape::VecT(y)),
{
    reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, GShape::VecT(x), a) && tight(mx, GShape::VecT(y), a) implies #[trigger] tight(mx, GShape::VecT(r), a) by {
        assert(tight(mx, *r, v_elems(a)));
    }
}
pub broadcast proof fn lemma_narrow_map(r: Box<GShape>, x: Box<GShape>, y: Box<GShape>)
    requires narrow(*r, *x, *y), ensures #[trigger] narrow(GShape::MapT(r), GShape::MapT(x), GShape::MapT(y)),
{
    reveal(narrow);
    assert forall|mx: bool, a: VS| tight(mx, GShape::MapT(x), a) && tight(mx, GShape::MapT(y), a) implies #[trigger] tight(mx, GShape::MapT(r), a) by {
        assert(tight(mx, *r, v_vals(a)));
    }
}
pub broadcast proof fn lemma_narrow_tuple(rs: Seq<GShape>, l: nat, xs: Seq<GShape>, n: nat, ys: Seq<GShape>, m: nat)
    requires rs.len() == xs.len(), xs.len() == ys.len(),
        forall|i: int| #![trigger rs[i]] #![trigger xs[i]] 0 <= i < rs.len() ==> narrow(rs[i], xs[i], ys[i]),
    ensures #[trigger] narrow(GShape::Tuple(rs, l), GShape::Tuple(xs, n), GShape::Tuple(ys, m)),
{
    reveal(narrow);
    let (r, x, y) = (GShape::Tuple(rs, l), GShape::Tuple(xs, n), GShape::Tuple(ys, m));
    assert forall|mx: bool, a: VS| tight(mx, x, a) && tight(mx, y, a) implies #[trigger] tight(mx, r, a) by {
        assert forall|i: int| #![trigger rs[i]] 0 <= i < rs.len() implies tight(mx, rs[i], v_nth(a, rs.len(), i)) by {
            assert(narrow(rs[i], xs[i], ys[i]));
            assert(tight(mx, xs[i], v_nth(a, rs.len(), i)) && tight(mx, ys[i], v_nth(a, rs.len(), i)));
        }
    }
}
pub proof fn lemma_tight_elems(mx: bool, f: GShape, xs: Seq<GShape>, n: nat, a: VS)
    requires narrowv(f, xs), tight(mx, GShape::Tuple(xs, n), a), ensures tight(mx, f, v_elems(a)),
{
    reveal(narrowv);
    assert forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() implies tight(mx, xs[i], v_elems(a)) by {
        assert(v_nth(a, xs.len(), i).subset_of(v_elems(a)));
        lemma_tight_mono(mx, xs[i], v_nth(a, xs.len(), i), v_elems(a));
    }
}
pub broadcast proof fn lemma_narrow_tt(r: Box<GShape>, f: GShape, xs: Seq<GShape>, n: nat, g: GShape, ys: Seq<GShape>, m: nat)
    requires narrow(*r, f, g), narrowv(f, xs), narrowv(g, ys),
    ensures #![trigger narrow(GShape::VecT(r), GShape::Tuple(xs, n), GShape::Tuple(ys, m)), narrow(*r, f, g)]
        narrow(GShape::VecT(r), GShape::Tuple(xs, n), GShape::Tuple(ys, m)),
{
    reveal(narrow);
    let (x, y) = (GShape::Tuple(xs, n), GShape::Tuple(ys, m));
    assert forall|mx: bool, a: VS| tight(mx, x, a) && tight(mx, y, a) implies #[trigger] tight(mx, GShape::VecT(r), a) by {
        lemma_tight_elems(mx, f, xs, n, a);
        lemma_tight_elems(mx, g, ys, m, a);
        assert(tight(mx, *r, v_elems(a)));
    }
}
pub broadcast proof fn lemma_narrow_vt(r: Box<GShape>, e: Box<GShape>, g: GShape, ys: Seq<GShape>, m: nat)
    requires narrow(*r, *e, g), narrowv(g, ys),
    ensures #![trigger narrow(GShape::VecT(r), GShape::VecT(e), GShape::Tuple(ys, m)), narrow(*r, *e, g)]
        #![trigger narrow(GShape::VecT(r), GShape::Tuple(ys, m), GShape::VecT(e)), narrow(*r, *e, g)]
        narrow(GShape::VecT(r), GShape::VecT(e), GShape::Tuple(ys, m)), narrow(GShape::VecT(r), GShape::Tuple(ys, m), GShape::VecT(e)),
{
    reveal(narrow);
    let (x, y) = (GShape::VecT(e), GShape::Tuple(ys, m));
    assert forall|mx: bool, a: VS| tight(mx, x, a) && tight(mx, y, a) implies #[trigger] tight(mx, GShape::VecT(r), a) by {
        lemma_tight_elems(mx, g, ys, m, a);
        assert(tight(mx, *r, v_elems(a)));
    }
}
pub proof fn lemma_narrowv_step(p: GShape, r: GShape, xs: Seq<GShape>, i: int)
    requires 0 <= i < xs.len(), narrowv(p, xs.take(i)), narrow(r, p, xs[i]), ensures narrowv(r, xs.take(i + 1)),
{
    reveal(narrow); reveal(narrowv);
    let t = xs.take(i + 1);
    assert forall|mx: bool, a: VS| (forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> tight(mx, t[j], a)) implies #[trigger] tight(mx, r, a) by {
        assert(t[i] == xs[i]);
        let u = xs.take(i);
        assert forall|j: int| #![trigger u[j]] 0 <= j < u.len() implies tight(mx, u[j], a) by { assert(u[j] == t[j]); }
        assert(tight(mx, p, a));
    }
}
pub proof fn lemma_narrowv_empty(xs: Seq<GShape>) ensures narrowv(GShape::Bottom, xs.take(0)), xs.take(xs.len() as int) == xs {
    reveal(narrowv); assert(xs.take(xs.len() as int) =~= xs);
}
/// how a field of the merged record relates to the two records
pub open spec fn nfield(e: (Seq<char>, GShape), ys: Seq<(Seq<char>, GShape)>, zs: Seq<(Seq<char>, GShape)>) -> bool {
    ||| exists|j: int, l: int| 0 <= j < ys.len() && 0 <= l < zs.len() && (#[trigger] ys[j]).0 == e.0 && (#[trigger] zs[l]).0 == e.0 && narrow(e.1, ys[j].1, zs[l].1)
    ||| exists|j: int| 0 <= j < ys.len() && (#[trigger] ys[j]).0 == e.0 && !has_key(zs, e.0) && narrow(e.1, ys[j].1, ob())
    ||| exists|l: int| 0 <= l < zs.len() && (#[trigger] zs[l]).0 == e.0 && !has_key(ys, e.0) && narrow(e.1, zs[l].1, ob())
}
pub proof fn lemma_narrow_absent(e: GShape, y: GShape, k: Seq<char>, zs: Seq<(Seq<char>, GShape)>, mx: bool, a: VS)
    requires tight(mx, y, v_proj(a, k)), has_record(a, zs), !has_key(zs, k), narrow(e, y, ob()),
    ensures tight(mx, e, v_proj(a, k)),
{
    reveal(narrow);
    let w = choose|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 5 && forall|k: Seq<char>| #[trigger] obj_of(w).dom().contains(k) ==> has_key(zs, k);
    assert(!obj_of(w).dom().contains(k));
    assert(lookup(obj_of(w), k) is None);
    assert(v_proj(a, k).contains(None));
    lemma_tight_ob(mx, v_proj(a, k));
}
pub proof fn lemma_narrow_struct(xs: Seq<(Seq<char>, GShape)>, ys: Seq<(Seq<char>, GShape)>, zs: Seq<(Seq<char>, GShape)>)
    requires forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() ==> nfield(xs[i], ys, zs),
        forall|j: int| #![trigger ys[j]] 0 <= j < ys.len() ==> has_key(xs, ys[j].0),
    ensures narrow(GShape::Struct(xs), GShape::Struct(ys), GShape::Struct(zs)),
{
    reveal(narrow);
    let (x, y, z) = (GShape::Struct(xs), GShape::Struct(ys), GShape::Struct(zs));
    assert forall|mx: bool, a: VS| tight(mx, y, a) && tight(mx, z, a) implies #[trigger] tight(mx, x, a) by {
        let w = choose|w: Option<GVal>| #[trigger] a.contains(w) && vkind(w) == 5 && forall|k: Seq<char>| #[trigger] obj_of(w).dom().contains(k) ==> has_key(ys, k);
        assert forall|k: Seq<char>| #[trigger] obj_of(w).dom().contains(k) implies has_key(xs, k) by {
            let j = choose|j: int| 0 <= j < ys.len() && #[trigger] ys[j].0 == k;
            assert(has_key(xs, ys[j].0));
        }
        assert(has_record(a, xs));
        assert forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() implies has_field(a, xs[i].0) && tight(mx, xs[i].1, v_proj(a, xs[i].0)) by {
            let k = xs[i].0;
            let e = xs[i];
            if exists|j: int, l: int| 0 <= j < ys.len() && 0 <= l < zs.len() && (#[trigger] ys[j]).0 == e.0 && (#[trigger] zs[l]).0 == e.0 && narrow(e.1, ys[j].1, zs[l].1) {
                let (j, l) = choose|j: int, l: int| 0 <= j < ys.len() && 0 <= l < zs.len() && (#[trigger] ys[j]).0 == e.0 && (#[trigger] zs[l]).0 == e.0 && narrow(e.1, ys[j].1, zs[l].1);
                assert(has_field(a, ys[j].0) && tight(mx, ys[j].1, v_proj(a, k)) && tight(mx, zs[l].1, v_proj(a, k)));
            } else if exists|j: int| 0 <= j < ys.len() && (#[trigger] ys[j]).0 == e.0 && !has_key(zs, e.0) && narrow(e.1, ys[j].1, ob()) {
                let j = choose|j: int| 0 <= j < ys.len() && (#[trigger] ys[j]).0 == e.0 && !has_key(zs, e.0) && narrow(e.1, ys[j].1, ob());
                assert(has_field(a, ys[j].0));
                lemma_narrow_absent(e.1, ys[j].1, k, zs, mx, a);
            } else {
                let l = choose|l: int| 0 <= l < zs.len() && (#[trigger] zs[l]).0 == e.0 && !has_key(ys, e.0) && narrow(e.1, zs[l].1, ob());
                assert(has_field(a, zs[l].0));
                lemma_narrow_absent(e.1, zs[l].1, k, ys, mx, a);
            }
        }
    }
}
pub broadcast group group_narrow {
    lemma_narrow_same, lemma_narrow_same2, lemma_narrow_sym, lemma_narrow_bottom, lemma_narrow_opt, lemma_narrow_nul, lemma_narrow_wrap, lemma_narrow_wrapn,
    lemma_narrow_optnul, lemma_narrow_any, lemma_narrow_opaque, lemma_narrow_vec, lemma_narrow_map, lemma_narrow_tuple,
    lemma_narrow_tt, lemma_narrow_vt,
}
