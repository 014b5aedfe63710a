//@ include kotlin.vx assume
//@ include named.vx
//@ rename-path HashSet::new => VxNames::new
//@ rename-path type_name => vx_type_name
//@ rename-path type_case => vx_type_case
//@ rename-path snake_case => vx_snake_case
//@ rename-path kebab_case => vx_kebab_case
//@ rename-method rsplit => vx_rsplit_char
//@ raw
impl<V> VxEmpty for LinkedHashMap<String, V> { open spec fn none(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl PartialEq for ImportStyle { #[verifier::external_body] fn eq(&self, other: &ImportStyle) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ImportStyle { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &ImportStyle) -> bool { *self == *other } }
impl PartialEq for OutputMode { #[verifier::external_body] fn eq(&self, other: &OutputMode) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for OutputMode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &OutputMode) -> bool { *self == *other } }
impl VxEq<OutputMode> for OutputMode { open spec fn eq_is(&self, r: &OutputMode) -> bool { *self == *r } #[verifier::external_body] fn vx_eq(&self, r: &OutputMode) -> (b: bool) { unimplemented!() } }
// the case functions (verified in unit util) are functions: the same name gives the same answer
pub uninterp spec fn type_cased(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn snake_cased(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn kebab_cased(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_type_case(s: &str) -> (r: String) ensures r@ == type_cased(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_snake_case(s: &str) -> (r: String) ensures r@ == snake_cased(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_kebab_case(s: &str) -> (r: String) ensures r@ == kebab_cased(s@) { unimplemented!() }
// str::rsplit with a character
pub trait VxRsplitChar { spec fn rscv(&self) -> Seq<char>; fn vx_rsplit_char(&self, p: char) -> (r: VxIter<&str>) ensures r.pos() == 0, r.seq().len() > 0, r.seq()[0]@ == after_last(self.rscv(), seq![p]); }
impl VxRsplitChar for str { open spec fn rscv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_rsplit_char(&self, p: char) -> (r: VxIter<&str>) { unimplemented!() } }
// String::replace with a character
pub open spec fn replaced(s: Seq<char>, c: char, to: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { (if s[0] == c { to } else { seq![s[0]] }) + replaced(s.skip(1), c, to) } }
pub trait VxReplace { spec fn rv(&self) -> Seq<char>; fn vx_replace(&self, c: char, to: &str) -> (r: String) ensures r@ == replaced(self.rv(), c, to@); }
impl VxReplace for String { open spec fn rv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace(&self, c: char, to: &str) -> (r: String) { unimplemented!() } }
impl VxReplace for str { open spec fn rv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace(&self, c: char, to: &str) -> (r: String) { unimplemented!() } }
// ===== what stands between the quotes of a Kotlin string: a $ would start a template =====
pub open spec fn kt_unesc(t: Seq<char>) -> Option<Seq<char>> decreases t.len() {
    if t.len() == 0 { Some(seq![]) }
    else if t[0] == '"' || t[0] == '$' || (t[0] as u32) < 0x20 { None }
    else if t[0] == '\\' {
        if t.len() < 2 { None }
        else if t[1] == 'u' { if t.len() < 6 { None } else { match (unhex4(t.subrange(2, 6)), kt_unesc(t.skip(6))) { (Some(c), Some(r)) => Some(seq![c] + r), _ => None } } }
        else { match (if t[1] == '$' { Some('$') } else { simple(t[1]) }, kt_unesc(t.skip(2))) { (Some(c), Some(r)) => Some(seq![c] + r), _ => None } }
    } else { match kt_unesc(t.skip(1)) { Some(r) => Some(seq![t[0]] + r), None => None } }
}
pub proof fn lemma_kt_unesc(e: Seq<char>) requires unesc(e) is Some, ensures kt_unesc(replaced(e, '$', seq!['\\', '$'])) == unesc(e), decreases e.len()
{
    hide(unesc); hide(kt_unesc); hide(replaced);
    let d = seq!['\\', '$'];
    let t = replaced(e, '$', d);
    reveal_with_fuel(unesc, 1);
    if e.len() == 0 { reveal_with_fuel(replaced, 1); reveal_with_fuel(kt_unesc, 1); }
    else if e[0] == '\\' {
        let n: int = if e[1] == 'u' { 6 } else { 2 };
        lemma_kt_unesc(e.skip(n));
        let r = replaced(e.skip(n), '$', d);
        if e[1] == 'u' {
            let h = e.subrange(2, 6);
            assert(h[0] == e[2] && h[1] == e[3] && h[2] == e[4] && h[3] == e[5]);
            assert(hexv('$') is None);
            lemma_replaced(e, '$', d, 6);
            assert(t =~= e.take(6) + r); assert(t.skip(6) =~= r); assert(t.subrange(2, 6) =~= h);
        } else {
            lemma_replaced(e, '$', d, 2);
            assert(t =~= e.take(2) + r); assert(t.skip(2) =~= r);
        }
        reveal_with_fuel(kt_unesc, 1);
    } else {
        lemma_kt_unesc(e.skip(1));
        let r = replaced(e.skip(1), '$', d);
        assert(t == (if e[0] == '$' { d } else { seq![e[0]] }) + r) by { reveal_with_fuel(replaced, 1); }
        if e[0] == '$' { assert(t.skip(2) =~= r); } else { assert(t.skip(1) =~= r); }
        reveal_with_fuel(kt_unesc, 1);
    }
}
pub proof fn lemma_replaced(s: Seq<char>, c: char, to: Seq<char>, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] != c, ensures replaced(s, c, to) == s.take(n) + replaced(s.skip(n), c, to), decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); assert(s.take(0) + replaced(s, c, to) =~= replaced(s, c, to)); }
    else { lemma_replaced(s.skip(1), c, to, n - 1); assert(s.skip(1).skip(n - 1) =~= s.skip(n)); assert(s.take(n) =~= seq![s[0]] + s.skip(1).take(n - 1)); assert(replaced(s, c, to) =~= s.take(n) + replaced(s.skip(n), c, to)); }
}
//@ file json_typegen_shared/src/generation/kotlin.rs
//@ type Ctxt
//@ raw
#[verifier::external_body] pub fn vx_type_name(name: &str, used_names: &VxNames) -> (r: String) ensures r@ == type_name_of(name@, used_names.names()), good_name(r@), !used_names.names().contains(r@) { unimplemented!() }
pub open spec fn lang() -> Lang { Lang::Kt }
pub open spec fn created(c: Ctxt) -> Seq<(Shape, String)> { c.created_classes@ }
pub open spec fn have(c: Ctxt) -> Set<Seq<char>> { c.imports.names() }
pub open spec fn needs(q: Seq<char>, h: Set<Seq<char>>, o: Options) -> bool { o.import_style is AddImports ==> h.contains(q) }
pub open spec fn field_needs(f: NField, h: Set<Seq<char>>, o: Options) -> bool { f.pre.len() > 0 ==> needs(key_path(o), h, o) }
pub open spec fn naming_needs(h: Set<Seq<char>>, o: Options) -> bool { strategy(o) is Some ==> needs("com.fasterxml.jackson.databind.annotation.JsonNaming"@, h, o) && needs("com.fasterxml.jackson.databind.PropertyNamingStrategies"@, h, o) }
pub open spec fn class_needs(h: Set<Seq<char>>, o: Options) -> bool {
    naming_needs(h, o) && (o.output_mode is KotlinKotlinx ==> needs("kotlinx.serialization.Serializable"@, h, o))
    && (o.collect_additional ==> needs("com.fasterxml.jackson.annotation.JsonAnySetter"@, h, o) && needs("com.fasterxml.jackson.annotation.JsonAnyGetter"@, h, o))
}
pub open spec fn spelled(q: Seq<char>, o: Options) -> Seq<char> { if o.import_style is QualifiedPaths { q } else { after_last(q, seq!['.']) } }
// the key that Jackson's naming strategy makes of a property name
pub open spec fn cased(n: Seq<char>, o: Options) -> Seq<char> {
    if !(o.output_mode is KotlinJackson) { n } else { match o.property_name_format { Some(StringTransform::LowerCase) => lows(n), Some(StringTransform::PascalCase) => type_cased(n), Some(StringTransform::SnakeCase) => snake_cased(n), Some(StringTransform::KebabCase) => kebab_cased(n), _ => n } }
}
pub open spec fn strategy(o: Options) -> Option<Seq<char>> {
    if !(o.output_mode is KotlinJackson) { None } else { match o.property_name_format { Some(StringTransform::LowerCase) => Some("LowerCaseStrategy"@), Some(StringTransform::PascalCase) => Some("UpperCamelCaseStrategy"@), Some(StringTransform::SnakeCase) => Some("SnakeCaseStrategy"@), Some(StringTransform::KebabCase) => Some("KebabCaseStrategy"@), _ => None } }
}
pub open spec fn key_path(o: Options) -> Seq<char> { if o.output_mode is KotlinJackson { "com.fasterxml.jackson.annotation.JsonProperty"@ } else { "kotlinx.serialization.SerialName"@ } }
pub open spec fn annotates(o: Options) -> bool { o.output_mode is KotlinJackson || o.output_mode is KotlinKotlinx }
pub open spec fn key_text(e: Seq<char>, o: Options) -> Seq<char> { "    @"@ + spelled(key_path(o), o) + "(\""@ + e + "\")\n"@ }
// the property is read from the key
pub open spec fn binds(f: NField, o: Options) -> bool {
    good_name(f.name) && f.post.len() == 0 && (o.collect_additional ==> f.name != "additionalFields"@)
    && (annotates(o) ==> (f.pre.len() == 0 && cased(f.name, o) == f.key) || exists|e: Seq<char>| f.pre == key_text(e, o) && #[trigger] kt_unesc(e) == Some(f.key))
}
pub open spec fn field_text(f: NField, o: Options) -> Seq<char> { f.pre + "    val "@ + f.name + ": "@ + show(f.ty, o) }
pub open spec fn naming_text(o: Options) -> Seq<char> { match strategy(o) { Some(s) => "@"@ + spelled("com.fasterxml.jackson.databind.annotation.JsonNaming"@, o) + "("@ + spelled("com.fasterxml.jackson.databind.PropertyNamingStrategies"@, o) + "."@ + s + "::class)\n"@, None => Seq::empty() } }
pub open spec fn kotlinx_text(o: Options) -> Seq<char> { if o.output_mode is KotlinKotlinx { "@"@ + spelled("kotlinx.serialization.Serializable"@, o) + "\n"@ } else { Seq::empty() } }
pub open spec fn rest_text(o: Options) -> Seq<char> { if o.collect_additional { "    @"@ + spelled("com.fasterxml.jackson.annotation.JsonAnySetter"@, o) + "\n    @get:"@ + spelled("com.fasterxml.jackson.annotation.JsonAnyGetter"@, o) + "\n    val additionalFields: Map<String, Any> = mutableMapOf(),\n"@ } else { Seq::empty() } }
#[verifier::opaque]
pub open spec fn decl_text(d: NDecl, o: Options) -> Seq<char> { naming_text(o) + kotlinx_text(o) + "data class "@ + d.name + "(\n"@ + (if d.fields.len() > 0 { joined(fields_text(d.fields, o), ",\n"@) + ",\n"@ } else { Seq::empty() }) + rest_text(o) + ")"@ }
pub open spec fn class_text(x: Seq<char>, n: Seq<char>, empty: bool, body: Seq<char>, o: Options) -> Seq<char> {
    let a = x + ("data class "@ + n + "(\n"@);
    let b = if empty { a } else { a + body + ",\n"@ };
    let c = if o.collect_additional { b + rest_text(o) } else { b };
    c + ")"@
}
pub open spec fn with_rest(x: Seq<char>, alone: bool, k: Seq<char>) -> Seq<char> { if alone { x } else { x + "\n\n"@ + k } }
pub open spec fn lead_text(o: Options) -> Seq<char> { if o.output_mode is KotlinKotlinx { naming_text(o) + kotlinx_text(o) } else { naming_text(o) } }
pub proof fn lemma_class_text(d: NDecl, ls: Seq<Lay>, o: Options)
    ensures lay_text(Lay::Node(Some(d), ls), o) == with_rest(class_text(lead_text(o), d.name, d.fields.len() == 0, joined(fields_text(d.fields, o), ",\n"@), o), ls.len() == 0, joined(lay_all(ls, o), "\n\n"@))
{
    reveal(decl_text); lemma_lay_decl(d, ls, o);
    assert(decl_text(d, o) =~= class_text(lead_text(o), d.name, d.fields.len() == 0, joined(fields_text(d.fields, o), ",\n"@), o));
}
pub open spec fn good_type(n: Seq<char>) -> bool { good_name(n) }
// the names the file uses itself
pub open spec fn own_name(n: Seq<char>) -> bool {
    n == "Any"@ || n == "Boolean"@ || n == "String"@ || n == "Long"@ || n == "Double"@ || n == "List"@ || n == "Map"@ || n == "Pair"@ || n == "Triple"@ || n == "JsonProperty"@ || n == "JsonNaming"@
    || n == "PropertyNamingStrategies"@ || n == "JsonAnySetter"@ || n == "JsonAnyGetter"@ || n == "SerialName"@ || n == "Serializable"@
}
// a root without fields is no class
pub open spec fn alias_free(s: GShape) -> bool { !(s is Struct && s->Struct_0.len() == 0) }
pub open spec fn import_lines(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { import_lines(p.drop_last()) + "import "@ + p.last() + "\n"@ } }
pub broadcast proof fn lemma_import_none() ensures #[trigger] import_lines(Seq::<Seq<char>>::empty()) == Seq::<char>::empty() {}
pub proof fn lemma_import_step(p: Seq<Seq<char>>, n: int) requires 0 < n <= p.len(), ensures import_lines(p.take(n)) == import_lines(p.take(n - 1)) + "import "@ + p[n - 1] + "\n"@ { assert(p.take(n).drop_last() =~= p.take(n - 1)); }
pub open spec fn import_block(imps: Seq<Seq<char>>) -> Seq<char> { if imps.len() == 0 { Seq::empty() } else { import_lines(imps) + "\n"@ } }
pub open spec fn alias_text(name: Seq<char>, id: Seq<char>) -> Seq<char> { if id == name { Seq::empty() } else { "typealias "@ + name + " = "@ + id + ";\n\n"@ } }
pub open spec fn file_of(f: NFile, imps: Seq<Seq<char>>, text: Seq<char>, name: Seq<char>, s: GShape, o: Options) -> bool { text == import_block(imps) + (alias_text(name, show(f.t, o)) + roots(f.l, o)) && holds(f.t, f.l, name, s, o) && needs_met(f, imps, o) }
// whatever the file takes from a package is among what its head imports
#[verifier::opaque]
pub open spec fn needs_met(f: NFile, imps: Seq<Seq<char>>, o: Options) -> bool { exists|h: Set<Seq<char>>| #[trigger] stocked(f.t, h) && decls_stocked(lays(f.l), h, o) && forall|q: Seq<char>| #[trigger] h.contains(q) ==> imps.contains(q) }
//@ prologue
//@ fn import
    ensures r@ == spelled(qualified@, old(ctxt).options), keeps(*old(ctxt), *final(ctxt)), needs(qualified@, have(*final(ctxt)), old(ctxt).options),
//@ fn kotlin_escape
    ensures kt_unesc(r@) == Some(name@)
//@ at start
    proof { assert forall|e: Seq<char>| unesc(e) is Some implies #[trigger] kt_unesc(replaced(e, '$', "\\$"@)) == unesc(e) by { reveal_strlit("\\$"); assert("\\$"@ =~= seq!['\\', '$']); lemma_kt_unesc(e); } }
//@ fn apply_transform
    ensures r@ == cased(field_name@, ctxt.options)
//@ prologue broadcast use {lemma_cat_none};
//@ fn jackson_naming_annotation
    ensures r@ == "@"@ + spelled("com.fasterxml.jackson.databind.annotation.JsonNaming"@, old(ctxt).options) + "("@ + spelled("com.fasterxml.jackson.databind.PropertyNamingStrategies"@, old(ctxt).options) + "."@ + strategy@ + "::class)\n"@, keeps(*old(ctxt), *final(ctxt)),
        needs("com.fasterxml.jackson.databind.annotation.JsonNaming"@, have(*final(ctxt)), old(ctxt).options), needs("com.fasterxml.jackson.databind.PropertyNamingStrategies"@, have(*final(ctxt)), old(ctxt).options),
//@ fn transform_annotation
    ensures r@ == naming_text(old(ctxt).options), keeps(*old(ctxt), *final(ctxt)), naming_needs(have(*final(ctxt)), old(ctxt).options),
//@ at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, lemma_cat_none, group_makes, lemma_show_flat, lemma_show_user, lemma_same_shapes}; proof { lemma_sv_consts(); }
//@ fn type_from_shape
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*shape), *old(ctxt), *final(ctxt)),
        sv(*shape) is Struct && sv(*shape)->Struct_0.len() > 0 && old(ctxt).created_classes@.len() == 0 ==> r.0@ == type_name_of(path@, old(ctxt).type_names.names()),
    decreases gsz(sv(*shape)), wrappers(sv(*shape)), 1nat
//@ at start
    proof { lemma_sv_kind(*shape); if *shape is Struct { shape->Struct_fields.lemma_uniq(); } if *shape is Tuple { lemma_tuple(shape->Tuple_0@, shape->Tuple_1 as nat); } }
//@ fn generate_vec_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::VecT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ fn generate_map_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::MapT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, lemma_cat_none, lemma_texts_none, lemma_texts_push, lemma_texts_len}; proof { lemma_sv_consts(); }
//@ fn generate_tuple_type
    requires gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, cinv(*old(ctxt)), 2 <= shapes@.len() <= 3,
    ensures makes(r, GShape::Tuple(svs(shapes@), 0), *old(ctxt), *final(ctxt))
    decreases zsum(shapes@) + 1, 0nat, 0nat
//@ at start
    broadcast use {lemma_shows_none, lemma_shows_push, lemma_lay_all_none};
    let ghost c0 = *ctxt;
    let ghost mut ts = Seq::<NTy>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { lemma_batch_none(*ctxt); }
//@ loop 0
    invariant gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, vx_s0 == refs(shapes@), ts.len() == vx_it0.pos(), batch(ts, ls, c0, *ctxt), ctxt.options == c0.options, cinv(*ctxt),
        types@.len() == ts.len(), texts(types@) == shows(ts, c0.options), texts(defs@) == lay_all(ls, c0.options),
        forall|j: int| 0 <= j < vx_it0.pos() ==> fits(#[trigger] ts[j], sv(shapes@[j]), c0.options.use_default_for_missing_fields),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*shape == shapes@[n]); assert(svs(shapes@)[n] == sv(*shape)); lemma_zsum_step(shapes@, n); }
    let ghost c1 = *ctxt;
//@ at loop 0 end
    proof {
        reveal(makes);
        let s = sv(*shape);
        assert(makes((typ, def), s, c1, *ctxt));
        let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, typ@, txt(def), s, c1, *ctxt);
        lemma_batch_step(ts, ls, w.0, w.1, typ@, txt(def), s, c0, c1, *ctxt);
        lemma_made_parts(w.0, w.1, typ@, txt(def), s, c1, *ctxt, ls);
        ts = ts.push(w.0); ls = more_lays(ls, w.1);
    }
//@ at end
    proof {
        let q = joined(shows(ts, c0.options), ", "@);
        assert((if ts.len() == 2 { "Pair"@ } else { "Triple"@ }) + "<"@ + q + ">"@ =~= tup_text(ts.len(), q));
        lemma_makes_tuple(vx_ret, ts, ls, svs(shapes@), c0, *ctxt);
    }
//@ fn generate_data_class
//@ attr eq
    requires sv(*containing_shape) == GShape::Struct(svf(field_shapes@)), gwf(GShape::Struct(svf(field_shapes@))), gsz(GShape::Struct(svf(field_shapes@))) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*containing_shape), *old(ctxt), *final(ctxt)),
        sv(*containing_shape)->Struct_0.len() > 0 && old(ctxt).created_classes@.len() == 0 ==> r.0@ == type_name_of(path@, old(ctxt).type_names.names()),
    decreases gsz(GShape::Struct(svf(field_shapes@))), 0nat, 0nat
//@ at start
    broadcast use {lemma_fields_text_none, lemma_fields_text_push, lemma_lay_all_none, lemma_cs_push, lemma_cinv_keeps, lemma_makes_before, lemma_makes_within};
    let ghost c0 = *ctxt;
    let ghost o = ctxt.options;
    let ghost mut c1 = c0;
    let ghost mut c2 = c0;
    let ghost fs = svf(field_shapes@);
    let ghost mut gs = Seq::<NField>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { field_shapes.lemma_uniq(); if fs.len() == 0 { broadcast use {lemma_show_flat, lemma_makes_flat}; assert(flat_ty(GShape::Struct(fs)) == NTy::Blank); } }
//@ loop 0
    invariant *ctxt == c0, cinv(c0), vx_s0 == refs(c0.created_classes@), sv(*containing_shape) == GShape::Struct(fs), sv(*containing_shape) is Struct,
//@ at loop 0 return
    proof { let n = vx_it0.pos() - 1; assert(c0.created_classes@[n].1@ == ident@); assert forall|r: (String, Option<String>)| r.0@ == ident@ && r.1 is None implies #[trigger] makes(r, sv(*containing_shape), c0, c0) by { lemma_makes_seen(r, sv(*containing_shape), c0, n); } }
//@ at loop 1 before
    proof { c1 = *ctxt; assert(noted(c0, c1, type_name@, sv(*containing_shape))); lemma_noted(c0, c1, type_name@, sv(*containing_shape)); lemma_batch_none(c1); lemma_fields_none(fs, o); lemma_fields_stocked_none(have(c1), o); assert(tys(gs) =~= Seq::<NTy>::empty());
        assert(vx_out1.vcol() =~= Seq::<String>::empty()); }
//@ loop 1
    invariant vx_s1.len() == field_shapes@.len(), (forall|i: int| 0 <= i < field_shapes@.len() ==> (#[trigger] vx_s1[i]).0@ == field_shapes@[i].0 && *vx_s1[i].1 == field_shapes@[i].1),
        fs == svf(field_shapes@), gwf(GShape::Struct(fs)), gsz(GShape::Struct(fs)) <= u64::MAX, o == c1.options,
        gs.len() == vx_it1.pos(), batch(tys(gs), ls, c1, *ctxt), ctxt.options == o, cinv(*ctxt),
        texts(vx_out1.vcol()) == fields_text(gs, o), texts(defs@) == lay_all(ls, o), fields_ok(gs, fs, o), fields_stocked(gs, have(*ctxt), o), names_in(gs, field_names.names()), o.collect_additional ==> field_names.names().contains("additionalFields"@),
//@ at loop 1 next
    let ghost d1 = *ctxt;
    let ghost used = field_names.names();
    proof { let n = vx_it1.pos() - 1; let (k, ty) = vx_x1; assert(*ty == field_shapes@[n].1); assert(fs[n] == (k@, sv(*ty))); lemma_sv_kind(*ty); lemma_fields(fs, n); }
//@ at loop 1 end
    proof {
        reveal(makes);
        let s = sv(*typ);
        assert(makes((field_type, child_defs), s, d1, *ctxt));
        let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, field_type@, txt(child_defs), s, d1, *ctxt);
        lemma_batch_step(tys(gs), ls, w.0, w.1, field_type@, txt(child_defs), s, c1, d1, *ctxt);
        lemma_made_parts(w.0, w.1, field_type@, txt(child_defs), s, d1, *ctxt, ls);
        let n = vx_it1.pos() - 1;
        let f = NField { key: name@, pre: field_code@, name: field_name@, post: Seq::empty(), opt: false, ty: w.0 };
        assert(fs[n].0 == name@ && fs[n].1 == sv(*typ));
        assert(binds(f, o));
        lemma_fields_stocked_step(gs, f, have(d1), have(*ctxt), o);
        lemma_fields_ok_step(gs, f, fs, used, o);
        gs = gs.push(f); ls = more_lays(ls, w.1);
    }
//@ at loop 1 after
    proof { c2 = *ctxt; }
//@ at end
    proof {
        let d = NDecl { name: vx_ret.0@, shape: sv(*containing_shape), fields: gs };
        lemma_class_text(d, ls, o);
        assert(fields_text(gs, o).len() == gs.len()) by { reveal(fields_text); }
        assert(lay_all(ls, o).len() == ls.len()) by { reveal(lay_all); }
        lemma_fields_stocked_more(gs, have(c2), have(*ctxt), o);
        lemma_makes_decl(vx_ret, d, ls, c0, c1, c2, *ctxt);
    }
//@ const RESERVED_TYPE_NAMES table
//@ prologue hide(makes); broadcast use {group_sv, lemma_cat_none, lemma_cat_none2, lemma_texts_len, lemma_texts_idx}; proof { lemma_sv_consts(); }
//@ fn kotlin_types
//@ attr eq
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures exists|f: NFile, imps: Seq<Seq<char>>| #[trigger] file_of(f, imps, r@, name@, sv(*shape), options)
//@ at start
    broadcast use lemma_import_none;
    let ghost o = options;
    let ghost mut c0: Ctxt = arbitrary();
    let ghost mut imps = Seq::<Seq<char>>::empty();
    let ghost mut root: (NTy, Option<Lay>) = arbitrary();
    let ghost mut body = Seq::<char>::empty();
    let ghost mut id0 = Seq::<char>::empty();
    let ghost mut had = Set::<Seq<char>>::empty();
    proof { lemma_sv_kind(*shape); }
    let ghost fs0: int = if sv(*shape) is Struct { sv(*shape)->Struct_0.len() as int } else { 1 };
//@ loop 0
    invariant (forall|i: int| 0 <= i < vx_it0.pos() && (*vx_s0[i])@ != name@ ==> ctxt.type_names.names().contains((*#[trigger] vx_s0[i])@)),
        (forall|n: Seq<char>| #[trigger] RESERVED_TYPE_NAMES_has(n) ==> exists|i: int| 0 <= i < vx_s0.len() && (*#[trigger] vx_s0[i])@ == n),
        ctxt.options == o, ctxt.created_classes@.len() == 0,
//@ at call type_from_shape before
    proof {
        if fs0 > 0 { assert(taken(ctxt, name@) || type_name_of(name@, ctxt.type_names.names()) == name@); }
        assert forall|n: Seq<char>| own_name(n) && n != name@ implies #[trigger] taken(ctxt, n) by { assert(RESERVED_TYPE_NAMES_has(n)); }
        c0 = ctxt; assert(cinv(c0)) by { reveal(cinv); reveal(cs); }
    }
//@ at call type_from_shape after
    proof {
        reveal(makes);
        let s = sv(*shape);
        root = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, ident@, txt(code), s, c0, ctxt);
        assert(fs0 > 0 ==> taken(c0, name@) || ident@ == name@);
        lemma_file(root.0, root.1, ident@, txt(code), s, c0, ctxt, name@);
        id0 = ident@; had = ctxt.imports.names();
    }
//@ at loop 1 before
    proof { body = code@; assert(collected(vx_out1) =~= Seq::<String>::empty()); assert(vx_s1.take(0) =~= Seq::<String>::empty()); }
//@ loop 1
    invariant collected(vx_out1) == vx_s1.take(vx_it1.pos()),
//@ at loop 1 end
    proof { let n = vx_it1.pos(); assert(vx_s1.take(n) =~= vx_s1.take(n - 1).push(vx_s1[n - 1])); }
//@ at loop 1 after
    proof { assert(vx_s1.take(vx_it1.pos()) =~= vx_s1); }
//@ at loop 2 before
    proof { imps = texts(vx_s2); assert(imps.take(0) =~= Seq::<Seq<char>>::empty()); }
//@ loop 2
    invariant imps == texts(vx_s2), import_code@ == import_lines(imps.take(vx_it2.pos())),
//@ at loop 2 end
    proof { lemma_import_step(imps, vx_it2.pos()); }
//@ at tail
    proof {
        assert(imps.take(imps.len() as int) =~= imps);
        let f = NFile { t: root.0, l: root.1, head: Seq::empty() };
        let t = alias_text(name@, show(f.t, o)) + roots(f.l, o);
        if imps.len() == 0 && had.len() != 0 { let p = had.choose(); assert(had.contains(p)); assert(imps.contains(p)); }
        if had.len() == 0 { had.lemma_len0_is_empty(); if imps.len() > 0 { assert(imps.contains(imps[0])); } }
        let b = if imps.len() == 0 { code@ } else { body };
        assert(b == t) by { assert(alias_text(name@, id0) + roots(f.l, o) =~= b); }
        if imps.len() > 0 { assert(code@ == (import_lines(imps) + "\n"@) + b); } else { assert(import_block(imps) + t =~= t); }
        assert(code@ == import_block(imps) + t);
        assert(needs_met(f, imps, o)) by { reveal(needs_met); assert(stocked(f.t, had)); assert forall|q: Seq<char>| #[trigger] had.contains(q) implies imps.contains(q) by {} }
        assert(file_of(f, imps, code@, name@, sv(*shape), o));
    }
