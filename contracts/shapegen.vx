//@ include keyed.vx
//@ include options_type.vx
//@ rename-path shape::fold_shapes => vx_fold_shapes
//@ raw
// ===== the document that shows a shape =====
pub open spec fn ann(f: (Seq<char>, GShape)) -> Seq<char> { if f.1 is Optional { f.0 + "?"@ } else { f.0 } }
pub open spec fn bare(s: GShape) -> GShape { if let GShape::Optional(e) = s { *e } else { s } }
pub open spec fn tagged(items: Seq<(Seq<char>, GDoc)>, t: Seq<char>, k: Seq<char>) -> bool { uniq(items) && only(items, "__type__"@, k, k) && at(items, "__type__"@) == Some(GDoc::Str(t)) }
// the field each entry comes from
pub open spec fn origin(w: Seq<int>, ps: Seq<(Seq<char>, GDoc)>, fs: Seq<(Seq<char>, GShape)>) -> bool { w.len() == ps.len() && forall|j: int| 0 <= j < ps.len() ==> 0 <= #[trigger] w[j] < fs.len() && ps[j].0 == ann(fs[w[j]]) }
pub open spec fn shows(d: GDoc, s: GShape) -> bool decreases d, s {
    match s {
        GShape::Null => d == GDoc::Null,
        GShape::Any => d == GDoc::Str("any"@),
        GShape::Bottom => d == GDoc::Str("bottom"@),
        GShape::Bool => d == GDoc::Str("bool"@),
        GShape::StringT => d == GDoc::Str("string"@),
        GShape::Integer => d == GDoc::Str("integer"@),
        GShape::Floating => d == GDoc::Str("floating"@),
        GShape::Opaque(t) => d == GDoc::Str(t),
        GShape::VecT(e) => d is Node && !d->Node_0 && d->Node_1.len() == 1 && shows(d->Node_1[0].1, *e),
        GShape::MapT(e) => d is Node && d->Node_0 && tagged(d->Node_1, "map"@, "values"@) && exists|i: int| 0 <= i < d->Node_1.len() && (#[trigger] d->Node_1[i]).0 == "values"@ && shows(d->Node_1[i].1, *e),
        GShape::Optional(e) => d is Node && d->Node_0 && tagged(d->Node_1, "optional"@, "item"@) && exists|i: int| 0 <= i < d->Node_1.len() && (#[trigger] d->Node_1[i]).0 == "item"@ && shows(d->Node_1[i].1, *e),
        GShape::Nullable(e) => d is Node && d->Node_0 && tagged(d->Node_1, "nullable"@, "item"@) && exists|i: int| 0 <= i < d->Node_1.len() && (#[trigger] d->Node_1[i]).0 == "item"@ && shows(d->Node_1[i].1, *e),
        GShape::Tuple(ss, _) => d is Node && (if d->Node_0 {
                tagged(d->Node_1, "tuple"@, "items"@) && exists|i: int| 0 <= i < d->Node_1.len() && (#[trigger] d->Node_1[i]).0 == "items"@ && d->Node_1[i].1 is Node && !d->Node_1[i].1->Node_0
                    && d->Node_1[i].1->Node_1.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> shows((#[trigger] d->Node_1[i].1->Node_1[j]).1, ss[j])
            } else { d->Node_1.len() == 1 && exists|f: GShape| #[trigger] folds(f, ss) && shows(d->Node_1[0].1, f) }),
        // the names of two fields can coincide once marked: {"a?"} next to an optional {"a"}
        GShape::Struct(fs) => d is Node && d->Node_0 && uniq(d->Node_1) && all_named(d->Node_1, fs, fs.len() as int)
            && exists|w: Seq<int>| #[trigger] origin(w, d->Node_1, fs) && forall|j: int| 0 <= j < d->Node_1.len() ==> shows((#[trigger] d->Node_1[j]).1, bare(fs[w[j]].1)),
    }
}
#[verifier::opaque]
pub open spec fn all_named(ps: Seq<(Seq<char>, GDoc)>, fs: Seq<(Seq<char>, GShape)>, n: int) -> bool { forall|i: int| 0 <= i < n && i < fs.len() ==> has_key(ps, ann(#[trigger] fs[i])) }
pub proof fn lemma_words()
    ensures "__type__"@ != "values"@, "__type__"@ != "item"@, "__type__"@ != "items"@,
        unesc("any"@) == Some("any"@), unesc("bottom"@) == Some("bottom"@), unesc("bool"@) == Some("bool"@), unesc("string"@) == Some("string"@), unesc("integer"@) == Some("integer"@), unesc("floating"@) == Some("floating"@),
        unesc("map"@) == Some("map"@), unesc("optional"@) == Some("optional"@), unesc("nullable"@) == Some("nullable"@), unesc("tuple"@) == Some("tuple"@),
{
    reveal_strlit("__type__"); reveal_strlit("values"); reveal_strlit("item"); reveal_strlit("items");
    assert("__type__"@.len() == 8 && "values"@.len() == 6 && "item"@.len() == 4 && "items"@.len() == 5);
    reveal_strlit("any"); reveal_strlit("bottom"); reveal_strlit("bool"); reveal_strlit("string"); reveal_strlit("integer"); reveal_strlit("floating"); reveal_strlit("map"); reveal_strlit("optional");
    reveal_strlit("nullable"); reveal_strlit("tuple");
    assert(plain_text("any"@)); assert(plain_text("bottom"@)); assert(plain_text("bool"@)); assert(plain_text("string"@)); assert(plain_text("integer"@)); assert(plain_text("floating"@)); assert(plain_text("map"@));
    assert(plain_text("optional"@)); assert(plain_text("nullable"@)); assert(plain_text("tuple"@));
    lemma_unesc_text("any"@); lemma_unesc_text("bottom"@); lemma_unesc_text("bool"@); lemma_unesc_text("string"@); lemma_unesc_text("integer"@); lemma_unesc_text("floating"@); lemma_unesc_text("map"@);
    lemma_unesc_text("optional"@); lemma_unesc_text("nullable"@); lemma_unesc_text("tuple"@);
}
pub proof fn lemma_one_of(d: GDoc, f: GShape, ss: Seq<GShape>, n: nat) requires shows(d, GShape::VecT(Box::new(f))), folds(f, ss), ensures shows(d, GShape::Tuple(ss, n)) {
    let s = GShape::VecT(Box::new(f)); assert(*s->VecT_0 == f); assert(shows(d->Node_1[0].1, f));
    match GShape::Tuple(ss, n) { GShape::Tuple(t, _) => { assert(folds(f, t)); }, _ => {} }
}
pub broadcast proof fn lemma_shown_vec(d: GDoc, f: GShape, ss: Seq<GShape>, n: nat)
    requires shows(d, GShape::VecT(Box::new(f))), folds(f, ss), ensures #![trigger shows(d, GShape::VecT(Box::new(f))), shows(d, GShape::Tuple(ss, n))] shows(d, GShape::Tuple(ss, n)) { lemma_one_of(d, f, ss, n); }
pub proof fn lemma_shows_tuple2(d: GDoc, s: GShape, t: GShape) requires shows(d, s), s is Tuple, t is Tuple, s->Tuple_0 == t->Tuple_0, ensures shows(d, t) {
    match s { GShape::Tuple(ss, _) => { if d->Node_0 {
        let i = choose|i: int| 0 <= i < d->Node_1.len() && (#[trigger] d->Node_1[i]).0 == "items"@ && d->Node_1[i].1 is Node && !d->Node_1[i].1->Node_0
                    && d->Node_1[i].1->Node_1.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> shows((#[trigger] d->Node_1[i].1->Node_1[j]).1, ss[j]);
        assert(d->Node_1[i].0 == "items"@);
    } else { let f = choose|f: GShape| #[trigger] folds(f, ss) && shows(d->Node_1[0].1, f); assert(folds(f, ss)); } }, _ => {} }
}
pub broadcast proof fn lemma_shows_tuple(d: GDoc, ss: Seq<GShape>, n: nat, m: nat) requires #[trigger] shows(d, GShape::Tuple(ss, n)), ensures #[trigger] shows(d, GShape::Tuple(ss, m))
{ lemma_shows_tuple2(d, GShape::Tuple(ss, n), GShape::Tuple(ss, m)); }
pub broadcast proof fn lemma_shows_wrapped(items: Seq<(Seq<char>, GDoc)>, s: GShape)
    requires uniq(items), items.len() == 2, match s {
            GShape::Optional(e) => tagged(items, "optional"@, "item"@) && items[1].0 == "item"@ && shows(items[1].1, *e),
            GShape::Nullable(e) => tagged(items, "nullable"@, "item"@) && items[1].0 == "item"@ && shows(items[1].1, *e),
            _ => false },
    ensures #[trigger] shows(GDoc::Node(true, items), s)
{ let d = GDoc::Node(true, items); assert(d->Node_1 == items); assert(d->Node_1[1].0 == "item"@); }
pub open spec fn flat(d: GDoc, s: GShape) -> bool {
    match s { GShape::Null => d == GDoc::Null, GShape::Any => d == GDoc::Str("any"@), GShape::Bottom => d == GDoc::Str("bottom"@), GShape::Bool => d == GDoc::Str("bool"@), GShape::StringT => d == GDoc::Str("string"@),
        GShape::Integer => d == GDoc::Str("integer"@), GShape::Floating => d == GDoc::Str("floating"@), GShape::Opaque(t) => d == GDoc::Str(t), _ => false }
}
pub broadcast proof fn lemma_shows_flat(d: GDoc, s: GShape) requires flat(d, s), ensures #[trigger] shows(d, s) {}
// one more field
pub proof fn lemma_named(ps: Seq<(Seq<char>, GDoc)>, k: Seq<char>, v: GDoc, fs: Seq<(Seq<char>, GShape)>, n: int)
    requires all_named(ps, fs, n), 0 <= n < fs.len(), k == ann(fs[n]), ensures all_named(without(ps, k).push((k, v)), fs, n + 1)
{
    reveal(all_named); lemma_without(ps, k);
    let w = without(ps, k); let t = w.push((k, v));
    assert forall|i: int| 0 <= i < n + 1 && i < fs.len() implies has_key(t, ann(#[trigger] fs[i])) by {
        assert(t[w.len() as int].0 == k);
        if ann(fs[i]) != k { assert(has_key(ps, ann(fs[i]))); let j = choose|j: int| 0 <= j < ps.len() && #[trigger] ps[j].0 == ann(fs[i]); assert(w.contains(ps[j])); let l = choose|l: int| 0 <= l < w.len() && w[l] == ps[j]; assert(t[l].0 == ann(fs[i])); }
    }
}
pub open spec fn known(p: (Seq<char>, GDoc), fs: Seq<(Seq<char>, GShape)>, n: int) -> bool { exists|i: int| 0 <= i < n && i < fs.len() && p.0 == ann(#[trigger] fs[i]) && shows(p.1, bare(fs[i].1)) }
#[verifier::opaque]
pub open spec fn all_known(ps: Seq<(Seq<char>, GDoc)>, fs: Seq<(Seq<char>, GShape)>, n: int) -> bool { forall|j: int| 0 <= j < ps.len() ==> known(#[trigger] ps[j], fs, n) }
pub proof fn lemma_known(ps: Seq<(Seq<char>, GDoc)>, k: Seq<char>, v: GDoc, fs: Seq<(Seq<char>, GShape)>, n: int)
    requires all_known(ps, fs, n), 0 <= n < fs.len(), k == ann(fs[n]), shows(v, bare(fs[n].1)), ensures all_known(without(ps, k).push((k, v)), fs, n + 1)
{
    reveal(all_known); lemma_without(ps, k);
    let w = without(ps, k); let t = w.push((k, v));
    assert forall|j: int| 0 <= j < t.len() implies known(#[trigger] t[j], fs, n + 1) by {
        if j < w.len() { assert(t[j] == w[j]); assert(ps.contains(w[j])); let l = choose|l: int| 0 <= l < ps.len() && ps[l] == w[j]; assert(known(ps[l], fs, n));
            let i = choose|i: int| 0 <= i < n && i < fs.len() && ps[l].0 == ann(#[trigger] fs[i]) && shows(ps[l].1, bare(fs[i].1)); assert(t[j].0 == ann(fs[i])); }
        else { assert(t[j].0 == ann(fs[n])); }
    }
}
pub proof fn lemma_dvf_without(s: Seq<(Seq<char>, Value)>, k: Seq<char>) ensures dvf(without(s, k)) == without(dvf(s), k), decreases s.len()
{
    broadcast use group_dv;
    reveal(Seq::filter);
    if s.len() > 0 { let t = s.drop_last(); lemma_dvf_without(t, k); assert(dvf(s).drop_last() =~= dvf(t)); assert(dvf(s).last() == (s.last().0, dv(s.last().1))); assert(dvf(without(s, k)) =~= without(dvf(s), k)); }
    else { assert(dvf(without(s, k)) =~= without(dvf(s), k)); }
}
pub proof fn lemma_sound_without(s: Seq<(Seq<char>, GDoc)>, k: Seq<char>) requires sound_items(s), ensures sound_items(without(s, k))
{ reveal(sound_items); lemma_without(s, k); let w = without(s, k); assert forall|i: int| 0 <= i < w.len() implies sound((#[trigger] w[i]).1) by { assert(s.contains(w[i])); } }
pub proof fn lemma_struct_shown2(d: GDoc, s: GShape)
    requires d is Node, d->Node_0, s is Struct, uniq(d->Node_1), all_known(d->Node_1, s->Struct_0, s->Struct_0.len() as int), all_named(d->Node_1, s->Struct_0, s->Struct_0.len() as int), ensures shows(d, s)
{
    reveal(all_known);
    match s { GShape::Struct(fs) => {
        let ps = d->Node_1;
        let w = Seq::new(ps.len(), |j: int| choose|i: int| 0 <= i < fs.len() && ps[j].0 == ann(#[trigger] fs[i]) && shows(ps[j].1, bare(fs[i].1)));
        assert forall|j: int| 0 <= j < ps.len() implies 0 <= #[trigger] w[j] < fs.len() && ps[j].0 == ann(fs[w[j]]) && shows(ps[j].1, bare(fs[w[j]].1)) by { assert(known(ps[j], fs, fs.len() as int)); }
        assert forall|j: int| 0 <= j < d->Node_1.len() implies shows((#[trigger] d->Node_1[j]).1, bare(fs[w[j]].1)) by { assert(0 <= w[j]); }
        assert(origin(w, d->Node_1, fs));
    }, _ => {} }
}
pub proof fn lemma_struct_shown(ps: Seq<(Seq<char>, GDoc)>, fs: Seq<(Seq<char>, GShape)>)
    requires uniq(ps), all_known(ps, fs, fs.len() as int), all_named(ps, fs, fs.len() as int), ensures shows(GDoc::Node(true, ps), GShape::Struct(fs))
{ lemma_struct_shown2(GDoc::Node(true, ps), GShape::Struct(fs)); }
//@ file json_typegen_shared/src/generation/shape.rs
//@ type Ctxt
//@ type Code
//@ prologue hide(shows); broadcast use {group_sv, group_gsz, group_keyed, lemma_dv_map_ok, lemma_same_shapes, lemma_shown_vec, lemma_shows_flat, lemma_shows_wrapped, lemma_shows_tuple}; proof { lemma_words(); lemma_sv_consts(); lemma_dv_null(); }
//@ fn type_from_shape
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures shows(dv(r), sv(*shape)), sound(dv(r))
    decreases gsz(sv(*shape)), wrappers(sv(*shape)), 1nat
//@ at start
    proof { lemma_sv_kind(*shape); if *shape is Struct { shape->Struct_fields.lemma_uniq(); } if *shape is Tuple { lemma_tuple(shape->Tuple_0@, shape->Tuple_1 as nat); } }
//@ prologue broadcast use {group_sv, group_gsz, group_keyed, lemma_dv_map_ok}; proof { lemma_words(); lemma_sv_consts(); }
//@ fn generate_vec_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures shows(dv(r), GShape::VecT(Box::new(sv(*shape)))), sound(dv(r))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ fn generate_map_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures shows(dv(r), GShape::MapT(Box::new(sv(*shape)))), sound(dv(r))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ at end
    proof { let items = dv(vx_ret)->Node_1; assert(items[1].0 == "values"@); }
//@ fn collapse_option
    ensures *typ is Optional ==> r.0 && *r.1 == *(*typ)->Optional_0, !(*typ is Optional) ==> !r.0 && r.1 == typ
//@ fn generate_tuple_type
    requires gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX,
    ensures shows(dv(r), GShape::Tuple(svs(shapes@), 0)), sound(dv(r))
    decreases zsum(shapes@) + 1, 0nat, 0nat
//@ loop 0
    invariant gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, vx_s0 == refs(shapes@), types@.len() == vx_it0.pos(), sound_items(dvs(types@)),
        forall|j: int| 0 <= j < vx_it0.pos() ==> shows((#[trigger] dvs(types@)[j]).1, sv(shapes@[j])),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*shape == shapes@[n]); assert(svs(shapes@)[n] == sv(*shape)); lemma_zsum_step(shapes@, n); }
    let ghost t0 = types@;
//@ at loop 0 end
    proof { let n = vx_it0.pos() - 1; assert(types@ == t0.push(typ)); assert forall|j: int| 0 <= j < vx_it0.pos() implies shows((#[trigger] dvs(types@)[j]).1, sv(shapes@[j])) by { if j < n { assert(dvs(types@)[j] == dvs(t0)[j]); } } }
//@ at end
    proof { let items = dv(vx_ret)->Node_1; assert(items[1].0 == "items"@); }
//@ fn generate_struct_from_field_shapes
    requires gwf(GShape::Struct(svf(map@))), gsz(GShape::Struct(svf(map@))) <= u64::MAX,
    ensures shows(dv(r), GShape::Struct(svf(map@))), sound(dv(r))
    decreases gsz(GShape::Struct(svf(map@))), 0nat, 0nat
//@ at start
    proof { map.lemma_uniq(); reveal(all_named); reveal(all_known); }
    let ghost fs = svf(map@);
//@ loop 0
    invariant vx_s0.len() == map@.len(), (forall|i: int| 0 <= i < map@.len() ==> (#[trigger] vx_s0[i]).0@ == map@[i].0 && *vx_s0[i].1 == map@[i].1),
        fs == svf(map@), uniq(map@), gwf(GShape::Struct(fs)), gsz(GShape::Struct(fs)) <= u64::MAX, sound_items(dvf(properties@)),
        all_named(dvf(properties@), fs, vx_it0.pos()), all_known(dvf(properties@), fs, vx_it0.pos()),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*typ == map@[n].1); assert(fs[n] == (name@, sv(*typ))); lemma_sv_kind(*typ); lemma_fields(fs, n); }
    let ghost p0 = properties@;
//@ at loop 0 end
    proof {
        let n = vx_it0.pos() - 1;
        let k = ann(fs[n]);
        lemma_dvf_without(p0, k); lemma_sound_without(dvf(p0), k);
        lemma_named(dvf(p0), k, dv(field_code), fs, n); lemma_known(dvf(p0), k, dv(field_code), fs, n);
        assert(properties@ == without(p0, k).push((k, field_code)));
    }
//@ at tail
    proof { lemma_dv_map_ok(properties); lemma_struct_shown(dvf(properties@), fs); }
//@ fn shape_string
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures exists|d: GDoc| #[trigger] shows(d, sv(*shape)) && renders(r@, d)
//@ at tail
    proof { axiom_deep(value); }
