//@ include typescript.vx assume
//@ include named.vx
//@ rename-path HashSet::new => VxNames::new
//@ rename-path type_name => vx_type_name
//@ file json_typegen_shared/src/generation/typescript.rs
//@ type Ctxt
//@ raw
#[verifier::external_body] pub fn vx_type_name(name: &str, used_names: &VxNames) -> (r: String) ensures r@ == type_name_of(name@, used_names.names()), ident(r@), !used_names.names().contains(r@) { unimplemented!() }
pub open spec fn lang() -> Lang { Lang::Ts }
pub open spec fn created(c: Ctxt) -> Seq<(Shape, String)> { c.created_interfaces@ }
// a TypeScript file takes nothing from a module
pub open spec fn have(c: Ctxt) -> Set<Seq<char>> { Set::empty() }
pub open spec fn field_needs(f: NField, h: Set<Seq<char>>, o: Options) -> bool { true }
pub open spec fn class_needs(h: Set<Seq<char>>, o: Options) -> bool { true }
// a property name is an identifier, or a string literal
pub open spec fn key_word(word: Seq<char>, key: Seq<char>) -> bool { (ts_ident(word) && word == key) || exists|e: Seq<char>| word == "\""@ + e + "\""@ && #[trigger] unesc(e) == Some(key) }
pub open spec fn quote(q: bool) -> Seq<char> { if q { "\""@ } else { ""@ } }
pub open spec fn line_of(q: bool, e: Seq<char>, o: bool, t: Seq<char>) -> Seq<char> { "    "@ + quote(q) + e + quote(q) + (if o { "?"@ } else { ""@ }) + ": "@ + t + ";"@ }
// the property `name` (its key as it is written) is looked up by the key
pub open spec fn binds(f: NField, o: Options) -> bool { key_word(f.name, f.key) && f.pre.len() == 0 && f.post.len() == 0 }
pub open spec fn field_text(f: NField, o: Options) -> Seq<char> { "    "@ + f.name + (if f.opt { "?"@ } else { Seq::empty() }) + ": "@ + show(f.ty, o) + ";"@ }
#[verifier::opaque]
pub open spec fn decl_text(d: NDecl, o: Options) -> Seq<char> { "export interface "@ + d.name + " {\n"@ + (if d.fields.len() > 0 { joined(fields_text(d.fields, o), "\n"@) + "\n"@ } else { Seq::empty() }) + "}"@ }
pub proof fn lemma_line(q: bool, e: Seq<char>, key: Seq<char>, o: bool, t: NTy, op: Options)
    requires unesc(e) == Some(key), plain_text(key) ==> e == key, !q ==> ts_ident(key),
    ensures ({ let f = NField { key: key, pre: Seq::empty(), name: if q { "\""@ + e + "\""@ } else { e }, post: Seq::empty(), opt: o, ty: t }; binds(f, op) && field_text(f, op) == line_of(q, e, o, show(t, op)) })
{
    if !q { assert(plain_text(key)) by { assert forall|i: int| 0 <= i < key.len() implies (#[trigger] key[i]) != '"' && key[i] != '\\' && key[i] as u32 >= 0x20 by { assert(ts_part(key[i])); } } }
    reveal_strlit("");
    let f = NField { key: key, pre: Seq::empty(), name: if q { "\""@ + e + "\""@ } else { e }, post: Seq::empty(), opt: o, ty: t };
    assert(""@ =~= Seq::<char>::empty());
    assert(field_text(f, op) =~= line_of(q, e, o, show(t, op)));
}
pub open spec fn iface_text(n: Seq<char>, empty: bool, body: Seq<char>) -> Seq<char> { if empty { "export interface "@ + n + " {\n"@ + "}"@ } else { "export interface "@ + n + " {\n"@ + body + "\n"@ + "}"@ } }
pub open spec fn with_rest(x: Seq<char>, alone: bool, k: Seq<char>) -> Seq<char> { if alone { x } else { x + "\n\n"@ + k } }
pub proof fn lemma_iface_text(d: NDecl, ls: Seq<Lay>, o: Options)
    ensures lay_text(Lay::Node(Some(d), ls), o) == with_rest(iface_text(d.name, d.fields.len() == 0, joined(fields_text(d.fields, o), "\n"@)), ls.len() == 0, joined(lay_all(ls, o), "\n\n"@))
{
    reveal(decl_text); lemma_lay_decl(d, ls, o);
    assert(decl_text(d, o) =~= iface_text(d.name, d.fields.len() == 0, joined(fields_text(d.fields, o), "\n"@)));
}
pub open spec fn good_type(n: Seq<char>) -> bool { ident(n) }
pub open spec fn own_name(n: Seq<char>) -> bool { false }
pub open spec fn alias_free(s: GShape) -> bool { !(s is Struct) }
pub open spec fn alias_text(name: Seq<char>, id: Seq<char>) -> Seq<char> { if id == name { Seq::empty() } else { "export type "@ + name + " = "@ + id + ";\n\n"@ } }
pub open spec fn file_of(f: NFile, text: Seq<char>, name: Seq<char>, s: GShape, o: Options) -> bool { text == alias_text(name, show(f.t, o)) + roots(f.l, o) && holds(f.t, f.l, name, s, o) }
//@ prologue
//@ fn collapse_option
    ensures *r.1 == (match *typ { Shape::Optional(e) => *e, _ => *typ }), r.0 == (*typ is Optional),
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, lemma_cat_none, group_makes, lemma_show_flat, lemma_show_user, lemma_same_shapes}; proof { lemma_sv_consts(); }
//@ fn type_from_shape
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*shape), *old(ctxt), *final(ctxt)),
    decreases gsz(sv(*shape)), wrappers(sv(*shape)), 1nat
//@ at start
    proof { lemma_sv_kind(*shape); if *shape is Struct { shape->Struct_fields.lemma_uniq(); } if *shape is Tuple { lemma_tuple(shape->Tuple_0@, shape->Tuple_1 as nat); } }
//@ fn generate_vec_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::VecT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ at start
    proof { lemma_sv_kind(*shape); }
//@ fn generate_map_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::MapT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ at start
    proof { lemma_sv_kind(*shape); }
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, lemma_cat_none, lemma_texts_none, lemma_texts_push, lemma_texts_len}; proof { lemma_sv_consts(); }
//@ fn generate_tuple_type
    requires gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::Tuple(svs(shapes@), 0), *old(ctxt), *final(ctxt))
    decreases zsum(shapes@) + 1, 0nat, 0nat
//@ at start
    broadcast use {lemma_shows_none, lemma_shows_push, lemma_lay_all_none};
    let ghost c0 = *ctxt;
    let ghost mut ts = Seq::<NTy>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { lemma_batch_none(*ctxt); }
//@ loop 0
    invariant gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, vx_s0 == refs(shapes@), ts.len() == vx_it0.pos(), batch(ts, ls, c0, *ctxt), ctxt.options == c0.options, cinv(*ctxt),
        texts(types@) == shows(ts, c0.options), texts(defs@) == lay_all(ls, c0.options),
        forall|j: int| 0 <= j < vx_it0.pos() ==> fits(#[trigger] ts[j], sv(shapes@[j]), c0.options.use_default_for_missing_fields),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*shape == shapes@[n]); assert(svs(shapes@)[n] == sv(*shape)); lemma_zsum_step(shapes@, n); }
    let ghost c1 = *ctxt;
//@ at loop 0 end
    proof {
        reveal(makes);
        let s = sv(*shape);
        assert(makes((typ, def), s, c1, *ctxt));
        let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, typ@, txt(def), s, c1, *ctxt);
        lemma_batch_step(ts, ls, w.0, w.1, typ@, txt(def), s, c0, c1, *ctxt);
        lemma_made_parts(w.0, w.1, typ@, txt(def), s, c1, *ctxt, ls);
        ts = ts.push(w.0); ls = more_lays(ls, w.1);
    }
//@ at end
    proof { lemma_makes_tuple(vx_ret, ts, ls, svs(shapes@), c0, *ctxt); }
//@ fn generate_interface_type
//@ attr eq
    requires sv(*containing_shape) == GShape::Struct(svf(field_shapes@)), gwf(GShape::Struct(svf(field_shapes@))), gsz(GShape::Struct(svf(field_shapes@))) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*containing_shape), *old(ctxt), *final(ctxt)),
    decreases gsz(GShape::Struct(svf(field_shapes@))), 0nat, 0nat
//@ at start
    broadcast use {lemma_fields_text_none, lemma_fields_text_push, lemma_lay_all_none, lemma_cs_push};
    let ghost c0 = *ctxt;
    let ghost o = ctxt.options;
    let ghost mut c1 = c0;
    let ghost fs = svf(field_shapes@);
    let ghost mut gs = Seq::<NField>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { field_shapes.lemma_uniq(); }
//@ loop 0
    invariant *ctxt == c0, cinv(c0), vx_s0 == refs(c0.created_interfaces@), sv(*containing_shape) == GShape::Struct(fs), sv(*containing_shape) is Struct,
//@ at loop 0 return
    proof { let n = vx_it0.pos() - 1; assert(c0.created_interfaces@[n].1@ == ident@); assert forall|r: (String, Option<String>)| r.0@ == ident@ && r.1 is None implies #[trigger] makes(r, sv(*containing_shape), c0, c0) by { lemma_makes_seen(r, sv(*containing_shape), c0, n); } }
//@ at loop 1 before
    proof { c1 = *ctxt; assert(noted(c0, c1, type_name@, sv(*containing_shape))); lemma_noted(c0, c1, type_name@, sv(*containing_shape)); lemma_batch_none(c1); lemma_fields_none(fs, o); assert(tys(gs) =~= Seq::<NTy>::empty());
        assert(vx_out1.vcol() =~= Seq::<String>::empty()); }
//@ loop 1
    invariant vx_s1.len() == field_shapes@.len(), (forall|i: int| 0 <= i < field_shapes@.len() ==> (#[trigger] vx_s1[i]).0@ == field_shapes@[i].0 && *vx_s1[i].1 == field_shapes@[i].1),
        fs == svf(field_shapes@), gwf(GShape::Struct(fs)), gsz(GShape::Struct(fs)) <= u64::MAX, o == c1.options,
        gs.len() == vx_it1.pos(), batch(tys(gs), ls, c1, *ctxt), ctxt.options == o, cinv(*ctxt),
        texts(vx_out1.vcol()) == fields_text(gs, o), texts(defs@) == lay_all(ls, o), fields_ok(gs, fs, o),
//@ at loop 1 next
    let ghost c2 = *ctxt;
    proof { let n = vx_it1.pos() - 1; let (k, ty) = vx_x1; assert(*ty == field_shapes@[n].1); assert(fs[n] == (k@, sv(*ty))); lemma_sv_kind(*ty); lemma_fields(fs, n); lemma_bare(sv(*ty)); }
//@ at loop 1 end
    proof {
        reveal(makes);
        let s = sv(*collapsed);
        assert(s == bare(sv(*typ)));
        assert(makes((field_type, child_defs), s, c2, *ctxt));
        let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, field_type@, txt(child_defs), s, c2, *ctxt);
        lemma_batch_step(tys(gs), ls, w.0, w.1, field_type@, txt(child_defs), s, c1, c2, *ctxt);
        lemma_made_parts(w.0, w.1, field_type@, txt(child_defs), s, c2, *ctxt, ls);
        let n = vx_it1.pos() - 1;
        let text = vx_out1.vcol().last()@;
        let e = choose|e: Seq<char>| #[trigger] unesc(e) == Some(name@) && (plain_text(name@) ==> e == name@) && text == line_of(escape_name, e, was_optional, field_type@);
        lemma_line(escape_name, e, name@, was_optional, w.0, o);
        let f = NField { key: name@, pre: Seq::empty(), name: if escape_name { "\""@ + e + "\""@ } else { e }, post: Seq::empty(), opt: was_optional, ty: w.0 };
        assert(fs[n].0 == name@ && fs[n].1 == sv(*typ));
        lemma_fields_ok_step(gs, f, fs, Set::empty(), o);
        gs = gs.push(f); ls = more_lays(ls, w.1);
    }
//@ at end
    proof {
        let d = NDecl { name: vx_ret.0@, shape: sv(*containing_shape), fields: gs };
        lemma_iface_text(d, ls, o);
        assert(fields_text(gs, o).len() == gs.len()) by { reveal(fields_text); }
        assert(lay_all(ls, o).len() == ls.len()) by { reveal(lay_all); }
        assert(fields_stocked(gs, have(*ctxt), o)) by { reveal(fields_stocked); }
        lemma_makes_decl(vx_ret, d, ls, c0, c1, *ctxt, *ctxt);
    }
//@ prologue hide(makes); broadcast use {group_sv, lemma_cat_none, lemma_cat_none2, lemma_cat}; proof { lemma_sv_consts(); }
//@ fn typescript_types
//@ attr eq
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures exists|f: NFile| #[trigger] file_of(f, r@, name@, sv(*shape), options)
//@ at start
    let ghost o = options;
    let ghost mut c0: Ctxt = arbitrary();
    let ghost mut root: (NTy, Option<Lay>) = arbitrary();
//@ at call type_from_shape before
    proof { c0 = ctxt; assert(cinv(c0)) by { reveal(cinv); reveal(cs); } lemma_sv_kind(*shape); }
//@ at call type_from_shape after
    proof {
        reveal(makes);
        let s = sv(*shape);
        root = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, ident@, txt(code), s, c0, ctxt);
        lemma_file(root.0, root.1, ident@, txt(code), s, c0, ctxt, name@);
        assert(alias_free(s) ==> c0.type_names.names().contains(name@));
    }
//@ at tail
    proof { let f = NFile { t: root.0, l: root.1, head: Seq::empty() }; assert(file_of(f, code@, name@, sv(*shape), o)); }
