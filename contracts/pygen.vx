//@ include python.vx assume
//@ include named.vx
//@ rename-path HashSet::new => VxSet::new
//@ rename-path type_name => vx_type_name
//@ subst-type HashSet<Import> => VxSet<Import>
//@ rename-path import => vx_import
//@ raw
impl PartialEq for ImportStyle { #[verifier::external_body] fn eq(&self, other: &ImportStyle) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ImportStyle { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &ImportStyle) -> bool { *self == *other } }
impl<V> VxEmpty for LinkedHashMap<String, V> { open spec fn none(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl Clone for VxSet<String> { #[verifier::external_body] fn clone(&self) -> (r: VxSet<String>) ensures r.names() == self.names() { unimplemented!() } }
//@ file json_typegen_shared/src/generation/python.rs
//@ type Import
//@ raw
impl Clone for Import { #[verifier::external_body] fn clone(&self) -> (r: Import) ensures r == *self { unimplemented!() } }
impl Copy for Import {}
pub open spec fn module_of(i: Import) -> Seq<char> { match i { Import::Any | Import::Optional => "typing"@, Import::BaseModel | Import::Field => "pydantic"@ } }
pub open spec fn ident_of(i: Import) -> Seq<char> { match i { Import::Any => "Any"@, Import::Optional => "Optional"@, Import::BaseModel => "BaseModel"@, Import::Field => "Field"@ } }
impl VxElem for Import { open spec fn el(&self) -> Seq<char> { ident_of(*self) } }
pub proof fn lemma_import_el(a: Import, b: Import) requires a.el() == b.el(), ensures a == b
{ reveal_strlit("Any"); reveal_strlit("Optional"); reveal_strlit("BaseModel"); reveal_strlit("Field"); assert("Any"@.len() == 3 && "Optional"@.len() == 8 && "BaseModel"@.len() == 9 && "Field"@.len() == 5); }
// HashSet::drain gives each member once; Vec::sort puts them in another order
impl VxSet<Import> {
    #[verifier::external_body] pub fn vx_drain(&mut self) -> (r: VxIter<Import>)
        ensures r.pos() == 0, no_twice(r.seq()), forall|x: Import| #![trigger ident_of(x)] #![trigger r.seq().contains(x)] old(self).names().contains(ident_of(x)) <==> r.seq().contains(x), final(self).names() == Set::<Seq<char>>::empty()
    { unimplemented!() }
}
pub open spec fn no_twice(s: Seq<Import>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] != s[j] }
impl VxSort for Vec<Import> {
    #[verifier::external_body] fn vx_sort(&mut self)
        ensures final(self)@.len() == old(self)@.len(), no_twice(old(self)@) ==> no_twice(final(self)@), forall|x: Import| #![trigger final(self)@.contains(x)] #![trigger old(self)@.contains(x)] final(self)@.contains(x) <==> old(self)@.contains(x)
    { unimplemented!() }
}
//@ type Ctxt
//@ raw
#[verifier::external_body] pub fn vx_type_name(name: &str, used_names: &VxNames) -> (r: String) ensures r@ == type_name_of(name@, used_names.names()), good_name(r@), !used_names.names().contains(r@) { unimplemented!() }
pub open spec fn lang() -> Lang { Lang::Py }
pub open spec fn created(c: Ctxt) -> Seq<(Shape, String)> { c.created_classes@ }
pub open spec fn have(c: Ctxt) -> Set<Seq<char>> { c.imports.names() }
pub open spec fn field_needs(f: NField, h: Set<Seq<char>>, o: Options) -> bool { f.post.len() > 0 ==> h.contains("Field"@) }
pub open spec fn class_needs(h: Set<Seq<char>>, o: Options) -> bool { h.contains("BaseModel"@) }
pub open spec fn pydantic(n: Seq<char>, o: Options) -> Seq<char> { if o.import_style is QualifiedPaths { "pydantic."@ + n } else { n } }
pub open spec fn spelled(i: Import, o: Options) -> Seq<char> { match i { Import::Any | Import::Optional => typing(ident_of(i), o), Import::BaseModel | Import::Field => pydantic(ident_of(i), o) } }
pub open spec fn field_call(e: Seq<char>, o: Options) -> Seq<char> { " = "@ + spelled(Import::Field, o) + "(alias=\""@ + e + "\")"@ }
// the field is read from the key; one that is given a value does not hide what the annotations refer to
pub open spec fn binds(f: NField, o: Options) -> bool {
    good_name(f.name) && f.pre.len() == 0
    && ((f.post.len() == 0 && f.name == f.key) || (!ANNOTATION_NAMES_has(f.name) && exists|e: Seq<char>| f.post == field_call(e, o) && #[trigger] unesc(e) == Some(f.key)))
}
pub open spec fn field_text(f: NField, o: Options) -> Seq<char> { "    "@ + f.name + ": "@ + show(f.ty, o) + f.post }
#[verifier::opaque]
pub open spec fn decl_text(d: NDecl, o: Options) -> Seq<char> { "class "@ + d.name + "("@ + spelled(Import::BaseModel, o) + "):\n"@ + (if d.fields.len() > 0 { joined(fields_text(d.fields, o), "\n"@) + "\n"@ } else { "    pass\n"@ }) }
pub open spec fn class_text(n: Seq<char>, empty: bool, body: Seq<char>, o: Options) -> Seq<char> {
    let a = "class "@ + n + "("@ + spelled(Import::BaseModel, o) + "):\n"@;
    if empty { a + "    pass\n"@ } else { a + body + "\n"@ }
}
pub open spec fn with_rest(x: Seq<char>, alone: bool, k: Seq<char>) -> Seq<char> { if alone { x } else { (k + "\n\n"@) + x } }
pub proof fn lemma_class_text(d: NDecl, ls: Seq<Lay>, o: Options)
    ensures lay_text(Lay::Node(Some(d), ls), o) == with_rest(class_text(d.name, d.fields.len() == 0, joined(fields_text(d.fields, o), "\n"@), o), ls.len() == 0, joined(lay_all(ls, o), "\n\n"@)), lay_text(Lay::Node(Some(d), ls), o).len() > 0
{
    reveal(decl_text); lemma_lay_decl(d, ls, o); reveal_strlit("class ");
    assert(decl_text(d, o) =~= class_text(d.name, d.fields.len() == 0, joined(fields_text(d.fields, o), "\n"@), o));
    assert(decl_text(d, o).len() > 0);
}
pub open spec fn good_type(n: Seq<char>) -> bool { good_name(n) }
// the names the file uses itself
pub open spec fn own_name(n: Seq<char>) -> bool { n == "Any"@ || n == "Optional"@ || n == "BaseModel"@ || n == "Field"@ }
pub open spec fn alias_free(s: GShape) -> bool { true }
// ===== imports =====
pub open spec fn import_lines(p: Seq<Import>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { import_lines(p.drop_last()) + ("from "@ + module_of(p.last()) + " import "@ + ident_of(p.last()) + "\n"@) } }
pub open spec fn modules(p: Seq<Import>) -> Seq<Seq<char>> decreases p.len() { if p.len() == 0 { Seq::empty() } else { let m = modules(p.drop_last()); if m.contains(module_of(p.last())) { m } else { m.push(module_of(p.last())) } } }
pub open spec fn module_lines(m: Seq<Seq<char>>) -> Seq<char> decreases m.len() { if m.len() == 0 { Seq::empty() } else { module_lines(m.drop_last()) + ("import "@ + m.last() + "\n"@) } }
pub proof fn lemma_import_step(p: Seq<Import>, n: int) requires 0 < n <= p.len(), ensures import_lines(p.take(n)) == import_lines(p.take(n - 1)) + ("from "@ + module_of(p[n - 1]) + " import "@ + ident_of(p[n - 1]) + "\n"@) { assert(p.take(n).drop_last() =~= p.take(n - 1)); }
pub proof fn lemma_module_step(p: Seq<Import>, n: int) requires 0 < n <= p.len(),
    ensures ({ let (m, x) = (modules(p.take(n - 1)), module_of(p[n - 1])); if m.contains(x) { modules(p.take(n)) == m } else { modules(p.take(n)) == m.push(x) && module_lines(m.push(x)) == module_lines(m) + ("import "@ + x + "\n"@) } })
{ assert(p.take(n).drop_last() =~= p.take(n - 1)); let m = modules(p.take(n - 1)); let x = module_of(p[n - 1]); assert(m.push(x).drop_last() =~= m); }
pub open spec fn import_text(p: Seq<Import>, o: Options) -> Seq<char> { match o.import_style { ImportStyle::AssumeExisting => Seq::empty(), ImportStyle::AddImports => import_lines(p), ImportStyle::QualifiedPaths => module_lines(modules(p)) } }
pub open spec fn head_text(p: Seq<Import>, o: Options) -> Seq<char> { let t = import_text(p, o); if t.len() == 0 { t } else { t + "\n\n"@ } }
pub open spec fn alias_text(name: Seq<char>, id: Seq<char>, first: bool) -> Seq<char> { if id == name { Seq::empty() } else { (if first { Seq::empty() } else { "\n\n"@ }) + (name + " = "@ + id) } }
pub proof fn lemma_contains_push(a: Seq<Seq<char>>, x: Seq<char>) ensures forall|y: Seq<char>| #[trigger] a.push(x).contains(y) <==> a.contains(y) || y == x
{ assert forall|y: Seq<char>| #[trigger] a.push(x).contains(y) <==> a.contains(y) || y == x by {
    let b = a.push(x);
    if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(b[i] == y); }
    if y == x { assert(b[a.len() as int] == y); }
    if b.contains(y) { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; if i < a.len() { assert(a[i] == y); } }
} }
pub proof fn lemma_alias(b: Seq<char>, name: Seq<char>, id: Seq<char>) ensures b + alias_text(name, id, b.len() == 0) == (if id == name { b } else if b.len() == 0 { name + " = "@ + id } else { (b + "\n\n"@) + (name + " = "@ + id) })
{
    if id == name { assert(b + alias_text(name, id, b.len() == 0) =~= b); }
    else if b.len() == 0 { assert(b + alias_text(name, id, b.len() == 0) =~= name + " = "@ + id); }
    else { assert(b + alias_text(name, id, false) =~= (b + "\n\n"@) + (name + " = "@ + id)); }
}
pub open spec fn file_of(f: NFile, imps: Seq<Import>, text: Seq<char>, name: Seq<char>, s: GShape, o: Options) -> bool {
    let b = head_text(imps, o) + roots(f.l, o);
    text == b + alias_text(name, show(f.t, o), b.len() == 0) && no_twice(imps) && holds(f.t, f.l, name, s, o) && needs_met(f, imps, o)
}
// whatever the file uses from a module is among what its head imports
#[verifier::opaque]
pub open spec fn needs_met(f: NFile, imps: Seq<Import>, o: Options) -> bool { exists|h: Set<Seq<char>>| #[trigger] stocked(f.t, h) && decls_stocked(lays(f.l), h, o) && (!(o.import_style is AssumeExisting) ==> forall|x: Import| #[trigger] h.contains(ident_of(x)) ==> imps.contains(x)) }
//@ prologue
//@ fn Import::pair
    ensures r.0@ == module_of(*self), r.1@ == ident_of(*self)
//@ fn Import::module
    ensures r@ == module_of(*self)
//@ fn Import::identifier
    ensures r@ == ident_of(*self)
//@ prologue broadcast use lemma_cat_none;
//@ fn Import::qualified
    ensures r@ == (match *self { Import::Any | Import::Optional => "typing."@, Import::BaseModel | Import::Field => "pydantic."@ }) + ident_of(*self)
//@ at start
    proof { reveal_strlit("typing"); reveal_strlit("typing."); reveal_strlit("pydantic"); reveal_strlit("pydantic."); reveal_strlit("."); assert("typing"@ + "."@ =~= "typing."@); assert("pydantic"@ + "."@ =~= "pydantic."@); }
//@ prologue
//@ fn import as vx_import
    ensures r@ == spelled(import, old(ctxt).options), keeps(*old(ctxt), *final(ctxt)), final(ctxt).imports.names() == old(ctxt).imports.names().insert(ident_of(import))
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, lemma_cat_none, group_makes, lemma_makes_after, lemma_show_flat, lemma_show_user, lemma_same_shapes}; proof { lemma_sv_consts(); }
//@ fn type_from_shape
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*shape), *old(ctxt), *final(ctxt)),
        sv(*shape) is Struct && old(ctxt).created_classes@.len() == 0 ==> r.0@ == type_name_of(path@, old(ctxt).type_names.names()),
    decreases gsz(sv(*shape)), wrappers(sv(*shape)), 1nat
//@ at start
    proof { lemma_sv_kind(*shape); if *shape is Struct { shape->Struct_fields.lemma_uniq(); } if *shape is Tuple { lemma_tuple(shape->Tuple_0@, shape->Tuple_1 as nat); } }
//@ fn generate_vec_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::VecT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ fn generate_map_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::MapT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, lemma_cat_none, lemma_texts_none, lemma_texts_push, lemma_texts_len}; proof { lemma_sv_consts(); }
//@ fn generate_tuple_type
    requires gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::Tuple(svs(shapes@), 0), *old(ctxt), *final(ctxt))
    decreases zsum(shapes@) + 1, 0nat, 0nat
//@ at start
    broadcast use {lemma_shows_none, lemma_shows_push, lemma_lay_all_none};
    let ghost c0 = *ctxt;
    let ghost mut ts = Seq::<NTy>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { lemma_batch_none(*ctxt); }
//@ loop 0
    invariant gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, vx_s0 == refs(shapes@), ts.len() == vx_it0.pos(), batch(ts, ls, c0, *ctxt), ctxt.options == c0.options, cinv(*ctxt),
        types@.len() == ts.len(), texts(types@) == shows(ts, c0.options), texts(defs@) == lay_all(ls, c0.options),
        forall|j: int| 0 <= j < vx_it0.pos() ==> fits(#[trigger] ts[j], sv(shapes@[j]), c0.options.use_default_for_missing_fields),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*shape == shapes@[n]); assert(svs(shapes@)[n] == sv(*shape)); lemma_zsum_step(shapes@, n); }
    let ghost c1 = *ctxt;
//@ at loop 0 end
    proof {
        reveal(makes);
        let s = sv(*shape);
        assert(makes((typ, def), s, c1, *ctxt));
        let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, typ@, txt(def), s, c1, *ctxt);
        lemma_batch_step(ts, ls, w.0, w.1, typ@, txt(def), s, c0, c1, *ctxt);
        lemma_made_parts(w.0, w.1, typ@, txt(def), s, c1, *ctxt, ls);
        ts = ts.push(w.0); ls = more_lays(ls, w.1);
    }
//@ at end
    proof { lemma_makes_tuple(vx_ret, ts, ls, svs(shapes@), c0, *ctxt); }
//@ const ANNOTATION_NAMES table
//@ fn generate_data_class
//@ attr eq
    requires sv(*containing_shape) == GShape::Struct(svf(field_shapes@)), gwf(GShape::Struct(svf(field_shapes@))), gsz(GShape::Struct(svf(field_shapes@))) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*containing_shape), *old(ctxt), *final(ctxt)),
        old(ctxt).created_classes@.len() == 0 ==> r.0@ == type_name_of(path@, old(ctxt).type_names.names()),
    decreases gsz(GShape::Struct(svf(field_shapes@))), 0nat, 0nat
//@ at start
    broadcast use {lemma_fields_text_none, lemma_fields_text_push, lemma_lay_all_none, lemma_cs_push, lemma_cinv_keeps, lemma_makes_after};
    let ghost c0 = *ctxt;
    let ghost o = ctxt.options;
    let ghost mut c1 = c0;
    let ghost mut c2 = c0;
    let ghost fs = svf(field_shapes@);
    let ghost mut gs = Seq::<NField>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { field_shapes.lemma_uniq(); }
//@ loop 0
    invariant *ctxt == c0, cinv(c0), vx_s0 == refs(c0.created_classes@), sv(*containing_shape) == GShape::Struct(fs), sv(*containing_shape) is Struct,
//@ at loop 0 return
    proof { let n = vx_it0.pos() - 1; assert(c0.created_classes@[n].1@ == ident@); assert forall|r: (String, Option<String>)| r.0@ == ident@ && r.1 is None implies #[trigger] makes(r, sv(*containing_shape), c0, c0) by { lemma_makes_seen(r, sv(*containing_shape), c0, n); } }
//@ at loop 1 before
    proof { c1 = *ctxt; assert(noted(c0, c1, type_name@, sv(*containing_shape))); lemma_noted(c0, c1, type_name@, sv(*containing_shape)); lemma_batch_none(c1); lemma_fields_none(fs, o); lemma_fields_stocked_none(have(c1), o); assert(tys(gs) =~= Seq::<NTy>::empty());
        assert(vx_out1.vcol() =~= Seq::<String>::empty()); }
//@ loop 1
    invariant vx_s1.len() == field_shapes@.len(), (forall|i: int| 0 <= i < field_shapes@.len() ==> (#[trigger] vx_s1[i]).0@ == field_shapes@[i].0 && *vx_s1[i].1 == field_shapes@[i].1),
        fs == svf(field_shapes@), gwf(GShape::Struct(fs)), gsz(GShape::Struct(fs)) <= u64::MAX, o == c1.options,
        gs.len() == vx_it1.pos(), batch(tys(gs), ls, c1, *ctxt), ctxt.options == o, cinv(*ctxt),
        texts(vx_out1.vcol()) == fields_text(gs, o), texts(defs@) == lay_all(ls, o), fields_ok(gs, fs, o), fields_stocked(gs, have(*ctxt), o), names_in(gs, field_names.names()),
//@ at loop 1 next
    let ghost d1 = *ctxt;
    let ghost used = field_names.names();
    proof { let n = vx_it1.pos() - 1; let (k, ty) = vx_x1; assert(*ty == field_shapes@[n].1); assert(fs[n] == (k@, sv(*ty))); lemma_sv_kind(*ty); lemma_fields(fs, n); }
//@ loop 2
    invariant (forall|n: Seq<char>| #[trigger] ANNOTATION_NAMES_has(n) ==> exists|i: int| 0 <= i < vx_s2.len() && (*#[trigger] vx_s2[i])@ == n),
        (forall|i: int| 0 <= i < vx_it2.pos() ==> used_names.names().contains((*#[trigger] vx_s2[i])@)),
        (forall|n: Seq<char>| #[trigger] used.contains(n) ==> used_names.names().contains(n)),
//@ at loop 1 end
    proof {
        reveal(makes);
        let s = sv(*typ);
        assert(makes((field_type, child_defs), s, d1, *ctxt));
        let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, field_type@, txt(child_defs), s, d1, *ctxt);
        lemma_batch_step(tys(gs), ls, w.0, w.1, field_type@, txt(child_defs), s, c1, d1, *ctxt);
        lemma_made_parts(w.0, w.1, field_type@, txt(child_defs), s, d1, *ctxt, ls);
        let n = vx_it1.pos() - 1;
        let f = NField { key: name@, pre: Seq::empty(), name: field_name@, post: field_code@, opt: false, ty: w.0 };
        assert(fs[n].0 == name@ && fs[n].1 == sv(*typ));
        assert(binds(f, o));
        lemma_fields_stocked_step(gs, f, have(d1), have(*ctxt), o);
        lemma_fields_ok_step(gs, f, fs, used, o);
        gs = gs.push(f); ls = more_lays(ls, w.1);
    }
//@ at loop 1 after
    proof { c2 = *ctxt; }
//@ at end
    proof {
        let d = NDecl { name: vx_ret.0@, shape: sv(*containing_shape), fields: gs };
        lemma_class_text(d, ls, o);
        assert(fields_text(gs, o).len() == gs.len()) by { reveal(fields_text); }
        assert(lay_all(ls, o).len() == ls.len()) by { reveal(lay_all); }
        lemma_fields_stocked_more(gs, have(c2), have(*ctxt), o);
        lemma_makes_decl(vx_ret, d, ls, c0, c1, c2, *ctxt);
    }
//@ const RESERVED_TYPE_NAMES table
//@ prologue hide(makes); broadcast use {group_sv, lemma_cat_none, lemma_cat_none2, lemma_texts_len, lemma_texts_idx}; proof { lemma_sv_consts(); }
//@ fn python_types
//@ attr eq
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures exists|f: NFile, imps: Seq<Import>| #[trigger] file_of(f, imps, r@, name@, sv(*shape), options)
//@ at start
    let ghost o = options;
    let ghost mut c0: Ctxt = arbitrary();
    let ghost mut imps = Seq::<Import>::empty();
    let ghost mut root: (NTy, Option<Lay>) = arbitrary();
    let ghost mut body = Seq::<char>::empty();
    let ghost mut id0 = Seq::<char>::empty();
    let ghost mut had = Set::<Seq<char>>::empty();
    proof { lemma_sv_kind(*shape); }
//@ loop 0
    invariant (forall|i: int| 0 <= i < vx_it0.pos() && (*vx_s0[i])@ != name@ ==> ctxt.type_names.names().contains((*#[trigger] vx_s0[i])@)),
        (forall|n: Seq<char>| #[trigger] RESERVED_TYPE_NAMES_has(n) ==> exists|i: int| 0 <= i < vx_s0.len() && (*#[trigger] vx_s0[i])@ == n),
        ctxt.options == o, ctxt.created_classes@.len() == 0,
//@ at call type_from_shape before
    proof {
        if sv(*shape) is Struct { assert(taken(ctxt, name@) || type_name_of(name@, ctxt.type_names.names()) == name@); }
        assert forall|n: Seq<char>| own_name(n) && n != name@ implies #[trigger] taken(ctxt, n) by { assert(RESERVED_TYPE_NAMES_has(n)); }
        c0 = ctxt; assert(cinv(c0)) by { reveal(cinv); reveal(cs); }
    }
//@ at call type_from_shape after
    proof {
        reveal(makes);
        let s = sv(*shape);
        root = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, ident@, txt(code), s, c0, ctxt);
        assert(taken(c0, name@) || ident@ == name@);
        lemma_file(root.0, root.1, ident@, txt(code), s, c0, ctxt, name@);
        lemma_makes_inv((ident, code), s, c0, ctxt); assert(ctxt.options == o);
        id0 = ident@; had = ctxt.imports.names();
    }
//@ at loop 1 before
    proof { body = code@; assert(collected(vx_out1) =~= Seq::<Import>::empty()); assert(vx_s1.take(0) =~= Seq::<Import>::empty()); }
//@ loop 1
    invariant collected(vx_out1) == vx_s1.take(vx_it1.pos()),
//@ at loop 1 end
    proof { let n = vx_it1.pos(); assert(vx_s1.take(n) =~= vx_s1.take(n - 1).push(vx_s1[n - 1])); }
//@ at loop 1 after
    proof { assert(vx_s1.take(vx_it1.pos()) =~= vx_s1); }
//@ at loop 2 before
    proof { imps = vx_s2; assert(imps.take(0) =~= Seq::<Import>::empty()); }
//@ loop 2
    invariant imps == vx_s2, import_code@ == import_lines(imps.take(vx_it2.pos())),
//@ at loop 2 end
    proof { lemma_import_step(imps, vx_it2.pos()); }
//@ at loop 2 after
    proof { assert(imps.take(imps.len() as int) =~= imps); }
//@ at loop 3 before
    proof { imps = vx_s3; assert(imps.take(0) =~= Seq::<Import>::empty()); }
//@ loop 3
    invariant imps == vx_s3, import_code@ == module_lines(modules(imps.take(vx_it3.pos()))), (forall|x: Seq<char>| #![trigger seen.names().contains(x)] #![trigger modules(imps.take(vx_it3.pos())).contains(x)] seen.names().contains(x) <==> modules(imps.take(vx_it3.pos())).contains(x)),
//@ at loop 3 next
    let ghost before = modules(imps.take(vx_it3.pos() - 1));
//@ at loop 3 end
    proof { lemma_module_step(imps, vx_it3.pos()); lemma_contains_push(before, module_of(imps[vx_it3.pos() - 1])); }
//@ at loop 3 after
    proof { assert(imps.take(imps.len() as int) =~= imps); }
//@ at tail
    proof {
        let f = NFile { t: root.0, l: root.1, head: Seq::empty() };
        let (h, r0) = (head_text(imps, o), roots(f.l, o));
        let b = h + r0;
        assert(import_text(Seq::<Import>::empty(), o) =~= Seq::<char>::empty());
        assert(code@ == b + alias_text(name@, id0, b.len() == 0)) by {
            lemma_alias(b, name@, id0);
        }
        assert(needs_met(f, imps, o)) by { reveal(needs_met); assert(stocked(f.t, had)); if !(o.import_style is AssumeExisting) { assert forall|x: Import| #[trigger] had.contains(ident_of(x)) implies imps.contains(x) by {} } }
        assert(file_of(f, imps, code@, name@, sv(*shape), o));
    }
