//@ include rust.vx assume
//@ include serdecase.vx assume
//@ include folding.vx
//@ include text.vx
//@ include options_type.vx
//@ rename-path shape::fold_shapes => vx_fold_shapes
//@ rename-path HashSet::new => VxNames::new
//@ rename-path type_name => vx_type_name
//@ raw
impl PartialEq for ImportStyle { #[verifier::external_body] fn eq(&self, other: &ImportStyle) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ImportStyle { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &ImportStyle) -> bool { *self == *other } }
impl VxEq<ImportStyle> for ImportStyle { open spec fn eq_is(&self, r: &ImportStyle) -> bool { *self == *r } #[verifier::external_body] fn vx_eq(&self, r: &ImportStyle) -> (b: bool) { unimplemented!() } }
impl VxEq<StringTransform> for StringTransform { open spec fn eq_is(&self, r: &StringTransform) -> bool { *self == *r } #[verifier::external_body] fn vx_eq(&self, r: &StringTransform) -> (b: bool) { unimplemented!() } }
impl PartialEq for StringTransform { #[verifier::external_body] fn eq(&self, other: &StringTransform) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for StringTransform { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &StringTransform) -> bool { *self == *other } }
// the Rust literal `{:?}` prints for a string; the standard library promises that it reads back as that string
pub uninterp spec fn rust_lit(s: Seq<char>) -> Seq<char>;
pub trait VxDebug { spec fn dbg(&self) -> Seq<char>; fn vx_fmt_debug(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.dbg(); }
impl VxDebug for String { open spec fn dbg(&self) -> Seq<char> { rust_lit(self@) } #[verifier::external_body] fn vx_fmt_debug(&self, s: &mut String) { unimplemented!() } }
impl VxDebug for &String { open spec fn dbg(&self) -> Seq<char> { rust_lit(self@) } #[verifier::external_body] fn vx_fmt_debug(&self, s: &mut String) { unimplemented!() } }
impl VxDebug for &str { open spec fn dbg(&self) -> Seq<char> { rust_lit(self@) } #[verifier::external_body] fn vx_fmt_debug(&self, s: &mut String) { unimplemented!() } }
//@ file json_typegen_shared/src/generation/rust.rs
//@ type Ctxt
//@ raw
// type_name (verified in unit rust) called twice with the same name and the same names taken gives the same answer
pub uninterp spec fn type_name_of(name: Seq<char>, used: Set<Seq<char>>) -> Seq<char>;
#[verifier::external_body] pub fn vx_type_name(name: &str, used_names: &VxNames) -> (r: String) ensures r@ == type_name_of(name@, used_names.names()), good_name(r@), !used_names.names().contains(r@) { unimplemented!() }
//@ raw
// ===== generated types =====
pub enum RTy { Value, Bool, Str, I64, F64, Named(Seq<char>, GShape), User(Seq<char>), List(Box<RTy>), Table(Box<RTy>), Tup(Seq<RTy>), Opt(Box<RTy>) }
pub struct RField { pub key: Seq<char>, pub name: Seq<char>, pub ty: RTy, pub renamed: bool, pub lax: bool }
pub struct RDecl { pub name: Seq<char>, pub shape: GShape, pub fields: Seq<RField> }
// a struct (if there is one) followed by what its fields need
pub enum Lay { Node(Option<RDecl>, Seq<Lay>) }
pub open spec fn value_path() -> Seq<char> { "serde_json::Value"@ }
pub open spec fn map_path() -> Seq<char> { "std::collections::HashMap"@ }
pub open spec fn has_colons(q: Seq<char>) -> bool { exists|i: int| #[trigger] occurs_at("::"@, q, i) }
// how a path is written where it is used
pub open spec fn spelled(q: Seq<char>, o: Options) -> Seq<char> { if !has_colons(q) || o.import_style is QualifiedPaths { q } else { after_last(q, "::"@) } }
// whether writing it takes an import of p
pub open spec fn calls_for(q: Seq<char>, p: Seq<char>, o: Options) -> bool { p == q && has_colons(q) && o.import_style is AddImports }
#[verifier::opaque]
pub open spec fn show(t: RTy, o: Options) -> Seq<char> decreases t {
    match t {
        RTy::Value => spelled(value_path(), o), RTy::Bool => "bool"@, RTy::Str => "String"@, RTy::I64 => "i64"@, RTy::F64 => "f64"@,
        RTy::Named(n, _) => n, RTy::User(s) => s,
        RTy::List(e) => "Vec<"@ + show(*e, o) + ">"@,
        RTy::Table(e) => spelled(map_path(), o) + "<String, "@ + show(*e, o) + ">"@,
        RTy::Opt(e) => "Option<"@ + show(*e, o) + ">"@,
        RTy::Tup(ts) => "("@ + joined(showv(ts, o), ", "@) + ")"@,
    }
}
#[verifier::opaque]
pub open spec fn showv(ts: Seq<RTy>, o: Options) -> Seq<Seq<char>> decreases ts { Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { show(ts[i], o) } else { arbitrary() }) }
#[verifier::opaque]
pub open spec fn shows(ts: Seq<RTy>, o: Options) -> Seq<Seq<char>> { Seq::new(ts.len(), |i: int| show(ts[i], o)) }
pub proof fn lemma_show_flat(o: Options)
    ensures show(RTy::Value, o) == spelled(value_path(), o), show(RTy::Bool, o) == "bool"@, show(RTy::Str, o) == "String"@, show(RTy::I64, o) == "i64"@, show(RTy::F64, o) == "f64"@ { reveal(show); }
pub broadcast proof fn lemma_show_named(n: Seq<char>, s: GShape, o: Options) ensures #[trigger] show(RTy::Named(n, s), o) == n { reveal(show); }
pub broadcast proof fn lemma_show_user(n: Seq<char>, o: Options) ensures #[trigger] show(RTy::User(n), o) == n { reveal(show); }
pub broadcast proof fn lemma_show_list(e: Box<RTy>, o: Options) ensures #[trigger] show(RTy::List(e), o) == "Vec<"@ + show(*e, o) + ">"@ { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_table(e: Box<RTy>, o: Options) ensures #[trigger] show(RTy::Table(e), o) == spelled(map_path(), o) + "<String, "@ + show(*e, o) + ">"@ { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_opt(e: Box<RTy>, o: Options) ensures #[trigger] show(RTy::Opt(e), o) == "Option<"@ + show(*e, o) + ">"@ { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_tup(ts: Seq<RTy>, o: Options) ensures #[trigger] show(RTy::Tup(ts), o) == "("@ + joined(shows(ts, o), ", "@) + ")"@
{ reveal(show); reveal(showv); reveal(shows); assert(showv(ts, o) =~= shows(ts, o)); }
pub broadcast proof fn lemma_shows_none(o: Options) ensures #[trigger] shows(Seq::<RTy>::empty(), o) == Seq::<Seq<char>>::empty() { reveal(shows); assert(shows(Seq::<RTy>::empty(), o) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_shows_push(ts: Seq<RTy>, t: RTy, o: Options) ensures #[trigger] shows(ts.push(t), o) == shows(ts, o).push(show(t, o)) { reveal(shows); assert(shows(ts.push(t), o) =~= shows(ts, o).push(show(t, o))); }
pub broadcast group group_show { lemma_show_named, lemma_show_user, lemma_show_list, lemma_show_table, lemma_show_opt, lemma_show_tup, lemma_shows_none, lemma_shows_push }

// ===== what a type says about a shape =====
#[verifier::opaque]
pub open spec fn fits(t: RTy, s: GShape, dflt: bool) -> bool decreases t, s {
    match s {
        GShape::Null | GShape::Any | GShape::Bottom => t is Value,
        GShape::Bool => t is Bool, GShape::StringT => t is Str, GShape::Integer => t is I64, GShape::Floating => t is F64,
        GShape::Opaque(n) => t == RTy::User(n),
        GShape::VecT(e) => t is List && fits(*t->List_0, *e, dflt),
        GShape::MapT(e) => t is Table && fits(*t->Table_0, *e, dflt),
        GShape::Tuple(ss, _) => (t is List && exists|f: GShape| #[trigger] folds(f, ss) && fits(*t->List_0, f, dflt))
            || (t is Tup && t->Tup_0.len() == ss.len() && ss.len() > 1 && forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] t->Tup_0[j], ss[j], dflt)),
        GShape::Struct(_) => t is Named && t->Named_1 is Struct && covers(t->Named_1, s),
        GShape::Optional(e) => if dflt { fits(t, *e, dflt) } else { t is Opt && fits(*t->Opt_0, *e, dflt) },
        GShape::Nullable(e) => t is Opt && fits(*t->Opt_0, *e, dflt),
    }
}
pub broadcast proof fn lemma_fits_flat(t: RTy, s: GShape, dflt: bool)
    requires match s { GShape::Null | GShape::Any | GShape::Bottom => t is Value, GShape::Bool => t is Bool, GShape::StringT => t is Str, GShape::Integer => t is I64, GShape::Floating => t is F64,
        GShape::Opaque(n) => t == RTy::User(n), GShape::Struct(_) => t is Named && t->Named_1 is Struct && covers(t->Named_1, s), _ => false }
    ensures #[trigger] fits(t, s, dflt) { reveal(fits); }
pub broadcast proof fn lemma_fits_list(t: Box<RTy>, e: Box<GShape>, dflt: bool) requires fits(*t, *e, dflt), ensures #[trigger] fits(RTy::List(t), GShape::VecT(e), dflt) { reveal_with_fuel(fits, 2); }
pub broadcast proof fn lemma_fits_table(t: Box<RTy>, e: Box<GShape>, dflt: bool) requires fits(*t, *e, dflt), ensures #[trigger] fits(RTy::Table(t), GShape::MapT(e), dflt) { reveal_with_fuel(fits, 2); }
pub broadcast proof fn lemma_fits_opt(t: Box<RTy>, e: Box<GShape>, dflt: bool) requires fits(*t, *e, dflt), ensures #[trigger] fits(RTy::Opt(t), GShape::Nullable(e), dflt), !dflt ==> fits(RTy::Opt(t), GShape::Optional(e), dflt) { reveal_with_fuel(fits, 2); }
pub broadcast proof fn lemma_fits_absent(t: RTy, e: Box<GShape>, dflt: bool) requires dflt, fits(t, *e, dflt), ensures #[trigger] fits(t, GShape::Optional(e), dflt) { reveal_with_fuel(fits, 2); }
pub broadcast proof fn lemma_fits_fold(t: RTy, f: GShape, ss: Seq<GShape>, n: nat, dflt: bool)
    requires fits(t, GShape::VecT(Box::new(f)), dflt), folds(f, ss), ensures #![trigger fits(t, GShape::VecT(Box::new(f)), dflt), fits(t, GShape::Tuple(ss, n), dflt)] fits(t, GShape::Tuple(ss, n), dflt)
{ reveal_with_fuel(fits, 2); let s = GShape::VecT(Box::new(f)); assert(*s->VecT_0 == f); let u = GShape::Tuple(ss, n); assert(u->Tuple_0 == ss); assert(folds(f, u->Tuple_0)); }
pub proof fn lemma_fits_tup(t: RTy, ss: Seq<GShape>, n: nat, dflt: bool)
    requires t is Tup, t->Tup_0.len() == ss.len(), ss.len() > 1, forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] t->Tup_0[j], ss[j], dflt), ensures fits(t, GShape::Tuple(ss, n), dflt)
{ reveal_with_fuel(fits, 2); let s = GShape::Tuple(ss, n); assert(s->Tuple_0 == ss); }
pub proof fn lemma_fits_tup2(t: RTy, s: GShape, u: GShape, dflt: bool) requires fits(t, s, dflt), s is Tuple, u is Tuple, s->Tuple_0 == u->Tuple_0, ensures fits(t, u, dflt) { reveal(fits); }
pub broadcast proof fn lemma_fits_tuple(t: RTy, ss: Seq<GShape>, n: nat, m: nat, dflt: bool) requires #[trigger] fits(t, GShape::Tuple(ss, n), dflt), ensures #[trigger] fits(t, GShape::Tuple(ss, m), dflt)
{ lemma_fits_tup2(t, GShape::Tuple(ss, n), GShape::Tuple(ss, m), dflt); }

// ===== names a type refers to =====
#[verifier::opaque]
pub open spec fn known(t: RTy, cs: Seq<(GShape, Seq<char>)>) -> bool decreases t {
    match t {
        RTy::Named(n, s) => cs.contains((s, n)),
        RTy::List(e) => known(*e, cs), RTy::Table(e) => known(*e, cs), RTy::Opt(e) => known(*e, cs),
        RTy::Tup(ts) => forall|j: int| 0 <= j < ts.len() ==> known(#[trigger] ts[j], cs),
        _ => true,
    }
}
pub open spec fn more(a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) -> bool { forall|x: (GShape, Seq<char>)| a.contains(x) ==> #[trigger] b.contains(x) }
pub broadcast proof fn lemma_known_more(t: RTy, a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) requires #[trigger] known(t, a), #[trigger] more(a, b), ensures known(t, b), decreases t
{
    reveal_with_fuel(known, 2);
    match t { RTy::List(e) => lemma_known_more(*e, a, b), RTy::Table(e) => lemma_known_more(*e, a, b), RTy::Opt(e) => lemma_known_more(*e, a, b),
        RTy::Tup(ts) => { assert forall|j: int| 0 <= j < ts.len() implies known(#[trigger] ts[j], b) by { lemma_known_more(ts[j], a, b); } }, _ => {} }
}
#[verifier::opaque]
pub open spec fn uses(t: RTy, p: Seq<char>, o: Options) -> bool decreases t {
    match t {
        RTy::Value => calls_for(value_path(), p, o),
        RTy::Table(e) => calls_for(map_path(), p, o) || uses(*e, p, o),
        RTy::List(e) => uses(*e, p, o), RTy::Opt(e) => uses(*e, p, o),
        RTy::Tup(ts) => exists|j: int| 0 <= j < ts.len() && uses(#[trigger] ts[j], p, o),
        _ => false,
    }
}
pub broadcast proof fn lemma_uses_list(e: Box<RTy>, p: Seq<char>, o: Options) ensures #[trigger] uses(RTy::List(e), p, o) == uses(*e, p, o) { reveal_with_fuel(uses, 2); }
pub broadcast proof fn lemma_uses_opt(e: Box<RTy>, p: Seq<char>, o: Options) ensures #[trigger] uses(RTy::Opt(e), p, o) == uses(*e, p, o) { reveal_with_fuel(uses, 2); }
pub broadcast proof fn lemma_uses_table(e: Box<RTy>, p: Seq<char>, o: Options) ensures #[trigger] uses(RTy::Table(e), p, o) == (calls_for(map_path(), p, o) || uses(*e, p, o)) { reveal_with_fuel(uses, 2); }
pub broadcast proof fn lemma_uses_flat(t: RTy, p: Seq<char>, o: Options) requires !(t is List || t is Opt || t is Table || t is Tup), ensures #[trigger] uses(t, p, o) == (t is Value && calls_for(value_path(), p, o)) { reveal(uses); }
pub open spec fn uses_any(ts: Seq<RTy>, p: Seq<char>, o: Options) -> bool { exists|j: int| 0 <= j < ts.len() && uses(#[trigger] ts[j], p, o) }
pub broadcast proof fn lemma_uses_tup(ts: Seq<RTy>, p: Seq<char>, o: Options) ensures #[trigger] uses(RTy::Tup(ts), p, o) == uses_any(ts, p, o)
{ reveal_with_fuel(uses, 2); let t = RTy::Tup(ts); assert(t->Tup_0 == ts); }
pub broadcast proof fn lemma_uses_push(ts: Seq<RTy>, t: RTy, p: Seq<char>, o: Options) ensures #[trigger] uses_any(ts.push(t), p, o) == (uses_any(ts, p, o) || uses(t, p, o))
{
    let u = ts.push(t);
    if uses_any(ts, p, o) { let j = choose|j: int| 0 <= j < ts.len() && uses(#[trigger] ts[j], p, o); assert(uses(u[j], p, o)); }
    if uses(t, p, o) { assert(uses(u[ts.len() as int], p, o)); }
    if uses_any(u, p, o) { let j = choose|j: int| 0 <= j < u.len() && uses(#[trigger] u[j], p, o); if j < ts.len() { assert(uses(ts[j], p, o)); } }
}
pub broadcast proof fn lemma_known_list(e: Box<RTy>, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] known(RTy::List(e), cs) == known(*e, cs) { reveal_with_fuel(known, 2); }
pub broadcast proof fn lemma_known_table(e: Box<RTy>, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] known(RTy::Table(e), cs) == known(*e, cs) { reveal_with_fuel(known, 2); }
pub broadcast proof fn lemma_known_opt(e: Box<RTy>, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] known(RTy::Opt(e), cs) == known(*e, cs) { reveal_with_fuel(known, 2); }
pub broadcast group group_rty { group_show, lemma_fits_flat, lemma_fits_list, lemma_fits_table, lemma_fits_opt, lemma_fits_absent, lemma_uses_list, lemma_uses_opt, lemma_uses_table, lemma_uses_flat, lemma_uses_tup, lemma_uses_push }

// ===== structs =====
pub open spec fn rule_for(t: StringTransform) -> RenameRule {
    match t {
        StringTransform::LowerCase => RenameRule::LowerCase, StringTransform::UpperCase => RenameRule::UPPERCASE, StringTransform::PascalCase => RenameRule::PascalCase, StringTransform::CamelCase => RenameRule::CamelCase,
        StringTransform::SnakeCase => RenameRule::SnakeCase, StringTransform::ScreamingSnakeCase => RenameRule::ScreamingSnakeCase, StringTransform::KebabCase => RenameRule::KebabCase, StringTransform::ScreamingKebabCase => RenameRule::ScreamingKebabCase,
    }
}
// what serde calls the rule
pub open spec fn rule_word(r: RenameRule) -> Seq<char> {
    match r {
        RenameRule::LowerCase => "lowercase"@, RenameRule::UPPERCASE => "UPPERCASE"@, RenameRule::PascalCase => "PascalCase"@, RenameRule::CamelCase => "camelCase"@, RenameRule::SnakeCase => "snake_case"@,
        RenameRule::ScreamingSnakeCase => "SCREAMING_SNAKE_CASE"@, RenameRule::KebabCase => "kebab-case"@, RenameRule::ScreamingKebabCase => "SCREAMING-KEBAB-CASE"@, RenameRule::None => Seq::empty(),
    }
}
// the rule the struct is annotated with
pub open spec fn rename_all(o: Options) -> Option<RenameRule> { match o.property_name_format { Some(t) => if t is SnakeCase { None } else { Some(rule_for(t)) }, None => None } }
// the key serde reads and writes for a field
pub open spec fn wire(f: RField, o: Options) -> Seq<char> { if f.renamed { f.key } else { match rename_all(o) { Some(r) => serde_field(r, f.name), None => f.name } } }
pub open spec fn fvis(o: Options) -> Seq<char> { match o.field_visibility { Some(v) => v@, None => o.type_visibility@ } }
pub open spec fn padded(v: Seq<char>) -> Seq<char> { if v.len() == 0 { v } else { v + " "@ } }
pub open spec fn field_text(f: RField, o: Options) -> Seq<char> {
    (if f.renamed { "    #[serde(rename = "@ + rust_lit(f.key) + ")]\n"@ } else { Seq::empty() }) + (if f.lax { "    #[serde(default)]\n"@ } else { Seq::empty() })
    + "    "@ + padded(fvis(o)) + f.name + ": "@ + show(f.ty, o) + ","@
}
#[verifier::opaque]
pub open spec fn fields_text(fs: Seq<RField>, o: Options) -> Seq<Seq<char>> { Seq::new(fs.len(), |i: int| field_text(fs[i], o)) }
pub broadcast proof fn lemma_fields_text_none(o: Options) ensures #[trigger] fields_text(Seq::<RField>::empty(), o) == Seq::<Seq<char>>::empty() { reveal(fields_text); assert(fields_text(Seq::<RField>::empty(), o) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_fields_text_push(fs: Seq<RField>, f: RField, o: Options) ensures #[trigger] fields_text(fs.push(f), o) == fields_text(fs, o).push(field_text(f, o)) { reveal(fields_text); assert(fields_text(fs.push(f), o) =~= fields_text(fs, o).push(field_text(f, o))); }
pub open spec fn derive_item(o: Options, i: int) -> Seq<char> { trim_end_of(trim_start_of(split_of(o.derives@, ',')[i])) }
#[verifier::opaque]
pub open spec fn derive_items(o: Options, n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| spelled(derive_item(o, i), o)) }
pub open spec fn derive_text(o: Options) -> Seq<char> { if o.import_style is QualifiedPaths { o.derives@ } else { joined(derive_items(o, split_of(o.derives@, ',').len() as int), ", "@) } }
pub open spec fn uses_derive(o: Options, p: Seq<char>, n: int) -> bool { exists|i: int| 0 <= i < n && calls_for(#[trigger] derive_item(o, i), p, o) }
pub broadcast proof fn lemma_derive_none(o: Options) ensures #[trigger] derive_items(o, 0) == Seq::<Seq<char>>::empty() { reveal(derive_items); assert(derive_items(o, 0) =~= Seq::<Seq<char>>::empty()); }
pub proof fn lemma_derive_step(o: Options, n: int) requires n > 0, ensures derive_items(o, n) == derive_items(o, n - 1).push(spelled(derive_item(o, n - 1), o)),
    forall|p: Seq<char>| #[trigger] uses_derive(o, p, n) == (uses_derive(o, p, n - 1) || calls_for(derive_item(o, n - 1), p, o))
{
    reveal(derive_items); assert(derive_items(o, n) =~= derive_items(o, n - 1).push(spelled(derive_item(o, n - 1), o)));
    assert forall|p: Seq<char>| #[trigger] uses_derive(o, p, n) == (uses_derive(o, p, n - 1) || calls_for(derive_item(o, n - 1), p, o)) by {
        if uses_derive(o, p, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && calls_for(#[trigger] derive_item(o, i), p, o); assert(calls_for(derive_item(o, i), p, o)); }
        if calls_for(derive_item(o, n - 1), p, o) { assert(uses_derive(o, p, n)); }
        if uses_derive(o, p, n) { let i = choose|i: int| 0 <= i < n && calls_for(#[trigger] derive_item(o, i), p, o); if i < n - 1 { assert(uses_derive(o, p, n - 1)); } }
    }
}
pub open spec fn decl_text(d: RDecl, o: Options) -> Seq<char> {
    "#[derive("@ + derive_text(o) + ")]\n"@ + (if o.deny_unknown_fields { "#[serde(deny_unknown_fields)]\n"@ } else { Seq::empty() }) + (if o.use_default_for_missing_fields { "#[serde(default)]\n"@ } else { Seq::empty() })
    + (match rename_all(o) { Some(r) => "#[serde(rename_all = \""@ + rule_word(r) + "\")]\n"@, None => Seq::empty() })
    + padded(o.type_visibility@) + "struct "@ + d.name + " {\n"@ + (if d.fields.len() > 0 { joined(fields_text(d.fields, o), "\n"@) + "\n"@ } else { Seq::empty() })
    + (if o.collect_additional { "    #[serde(flatten)]\n    additional_fields: "@ + spelled(map_path(), o) + "<String, "@ + spelled(value_path(), o) + ">,\n"@ } else { Seq::empty() }) + "}"@
}
pub open spec fn tys(fs: Seq<RField>) -> Seq<RTy> { Seq::new(fs.len(), |i: int| fs[i].ty) }
pub open spec fn uses_head(p: Seq<char>, o: Options) -> bool {
    (!(o.import_style is QualifiedPaths) && uses_derive(o, p, split_of(o.derives@, ',').len() as int)) || (o.collect_additional && (calls_for(map_path(), p, o) || calls_for(value_path(), p, o)))
}
pub open spec fn uses_decl(d: RDecl, p: Seq<char>, o: Options) -> bool { uses_head(p, o) || uses_any(tys(d.fields), p, o) }
pub open spec fn rfield_ok(f: RField, key: Seq<char>, s: GShape, o: Options) -> bool {
    f.key == key && wire(f, o) == key && good_name(f.name) && (o.collect_additional ==> f.name != "additional_fields"@)
    && (fits(f.ty, s, o.use_default_for_missing_fields) || (f.lax && s is Optional && fits(f.ty, *s->Optional_0, o.use_default_for_missing_fields)))
}
#[verifier::opaque]
pub open spec fn fields_ok(fs: Seq<RField>, ss: Seq<(Seq<char>, GShape)>, o: Options) -> bool {
    fs.len() <= ss.len() && (forall|j: int| 0 <= j < fs.len() ==> rfield_ok(#[trigger] fs[j], ss[j].0, ss[j].1, o)) && (forall|i: int, j: int| #![trigger fs[i], fs[j]] 0 <= i < j < fs.len() ==> fs[i].name != fs[j].name)
}
pub open spec fn decl_ok(d: RDecl, o: Options) -> bool { d.shape is Struct && gwf(d.shape) && good_name(d.name) && d.fields.len() == d.shape->Struct_0.len() && fields_ok(d.fields, d.shape->Struct_0, o) }
pub open spec fn known_all(ts: Seq<RTy>, cs: Seq<(GShape, Seq<char>)>) -> bool { forall|j: int| 0 <= j < ts.len() ==> known(#[trigger] ts[j], cs) }
#[verifier::opaque]
pub open spec fn decls_ok(ds: Seq<RDecl>, o: Options, cs: Seq<(GShape, Seq<char>)>) -> bool { forall|i: int| 0 <= i < ds.len() ==> decl_ok(#[trigger] ds[i], o) && known_all(tys(ds[i].fields), cs) }
#[verifier::opaque]
pub open spec fn uses_ds(ds: Seq<RDecl>, p: Seq<char>, o: Options) -> bool { exists|i: int| 0 <= i < ds.len() && uses_decl(#[trigger] ds[i], p, o) }
#[verifier::opaque]
pub open spec fn pairs(ds: Seq<RDecl>) -> Seq<(GShape, Seq<char>)> { Seq::new(ds.len(), |i: int| (ds[i].shape, ds[i].name)) }
pub broadcast proof fn lemma_pairs_none() ensures #[trigger] pairs(Seq::<RDecl>::empty()) == Seq::<(GShape, Seq<char>)>::empty() { reveal(pairs); assert(pairs(Seq::<RDecl>::empty()) =~= Seq::<(GShape, Seq<char>)>::empty()); }
pub broadcast proof fn lemma_pairs_add(a: Seq<RDecl>, b: Seq<RDecl>) ensures #[trigger] pairs(a + b) == pairs(a) + pairs(b) { reveal(pairs); assert(pairs(a + b) =~= pairs(a) + pairs(b)); }
pub broadcast proof fn lemma_pairs_one(d: RDecl) ensures #[trigger] pairs(seq![d]) == seq![(d.shape, d.name)] { reveal(pairs); assert(pairs(seq![d]) =~= seq![(d.shape, d.name)]); }
pub broadcast proof fn lemma_uses_none(p: Seq<char>, o: Options) ensures !#[trigger] uses_ds(Seq::<RDecl>::empty(), p, o) { reveal(uses_ds); }
pub broadcast proof fn lemma_uses_any_none(p: Seq<char>, o: Options) ensures !#[trigger] uses_any(Seq::<RTy>::empty(), p, o) { }
pub broadcast proof fn lemma_uses_one(d: RDecl, p: Seq<char>, o: Options) ensures #[trigger] uses_ds(seq![d], p, o) == uses_decl(d, p, o) { reveal(uses_ds); let s = seq![d]; if uses_decl(d, p, o) { assert(uses_decl(s[0], p, o)); } }
pub broadcast proof fn lemma_uses_add(a: Seq<RDecl>, b: Seq<RDecl>, p: Seq<char>, o: Options) ensures #[trigger] uses_ds(a + b, p, o) == (uses_ds(a, p, o) || uses_ds(b, p, o))
{
    reveal(uses_ds); let s = a + b;
    if uses_ds(a, p, o) { let i = choose|i: int| 0 <= i < a.len() && uses_decl(#[trigger] a[i], p, o); assert(uses_decl(s[i], p, o)); }
    if uses_ds(b, p, o) { let i = choose|i: int| 0 <= i < b.len() && uses_decl(#[trigger] b[i], p, o); assert(uses_decl(s[i + a.len()], p, o)); }
    if uses_ds(s, p, o) { let i = choose|i: int| 0 <= i < s.len() && uses_decl(#[trigger] s[i], p, o); if i < a.len() { assert(uses_decl(a[i], p, o)); } else { assert(uses_decl(b[i - a.len()], p, o)); } }
}
pub broadcast proof fn lemma_decls_none(o: Options, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] decls_ok(Seq::<RDecl>::empty(), o, cs) { reveal(decls_ok); }
pub proof fn lemma_decls_add(a: Seq<RDecl>, b: Seq<RDecl>, o: Options, cs: Seq<(GShape, Seq<char>)>) requires decls_ok(a, o, cs), decls_ok(b, o, cs), ensures decls_ok(a + b, o, cs)
{ reveal(decls_ok); let s = a + b; assert forall|i: int| 0 <= i < s.len() implies decl_ok(#[trigger] s[i], o) && known_all(tys(s[i].fields), cs) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } } }
pub proof fn lemma_decls_one(d: RDecl, o: Options, cs: Seq<(GShape, Seq<char>)>) requires decl_ok(d, o), known_all(tys(d.fields), cs), ensures decls_ok(seq![d], o, cs) { reveal(decls_ok); }
pub proof fn lemma_known_all_more(ts: Seq<RTy>, a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) requires known_all(ts, a), more(a, b), ensures known_all(ts, b)
{ assert forall|j: int| 0 <= j < ts.len() implies known(#[trigger] ts[j], b) by { lemma_known_more(ts[j], a, b); } }
pub proof fn lemma_decls_more(ds: Seq<RDecl>, o: Options, a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) requires decls_ok(ds, o, a), more(a, b), ensures decls_ok(ds, o, b)
{ reveal(decls_ok); assert forall|i: int| 0 <= i < ds.len() implies decl_ok(#[trigger] ds[i], o) && known_all(tys(ds[i].fields), b) by { lemma_known_all_more(tys(ds[i].fields), a, b); } }
pub proof fn lemma_more_add(a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) ensures more(a, a + b)
{ assert forall|x: (GShape, Seq<char>)| a.contains(x) implies #[trigger] (a + b).contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); } }

// ===== layout =====
pub open spec fn heads(d: Option<RDecl>) -> Seq<RDecl> { match d { Some(d) => seq![d], None => Seq::empty() } }
#[verifier::opaque]
pub open spec fn flats(ls: Seq<Lay>, n: int) -> Seq<RDecl> decreases ls, n { if n <= 0 || n > ls.len() { Seq::empty() } else { flats(ls, n - 1) + flat(ls[n - 1]) } }
#[verifier::opaque]
pub open spec fn flat(l: Lay) -> Seq<RDecl> decreases l, 0int { match l { Lay::Node(d, ls) => heads(d) + flats(ls, ls.len() as int) } }
#[verifier::opaque]
pub open spec fn lay_texts(ls: Seq<Lay>, o: Options) -> Seq<Seq<char>> decreases ls, 0int { Seq::new(ls.len(), |i: int| if 0 <= i < ls.len() { lay_text(ls[i], o) } else { arbitrary() }) }
#[verifier::opaque]
pub open spec fn lay_text(l: Lay, o: Options) -> Seq<char> decreases l, 0int { match l { Lay::Node(d, ls) => joined((match d { Some(d) => seq![decl_text(d, o)], None => Seq::empty() }) + lay_texts(ls, o), "\n\n"@) } }
pub open spec fn flatten(ls: Seq<Lay>) -> Seq<RDecl> { flats(ls, ls.len() as int) }
#[verifier::opaque]
pub open spec fn lay_all(ls: Seq<Lay>, o: Options) -> Seq<Seq<char>> { Seq::new(ls.len(), |i: int| lay_text(ls[i], o)) }
pub broadcast proof fn lemma_flat(d: Option<RDecl>, ls: Seq<Lay>) ensures #[trigger] flat(Lay::Node(d, ls)) == heads(d) + flatten(ls) { reveal(flat); reveal_with_fuel(flats, 1); }
pub proof fn lemma_flats_push(ls: Seq<Lay>, l: Lay, n: int) requires 0 <= n <= ls.len(), ensures flats(ls.push(l), n) == flats(ls, n), decreases n { reveal(flats); reveal(flat); if n > 0 { lemma_flats_push(ls, l, n - 1); assert(ls.push(l)[n - 1] == ls[n - 1]); } }
pub broadcast proof fn lemma_flatten_push(ls: Seq<Lay>, l: Lay) ensures #[trigger] flatten(ls.push(l)) == flatten(ls) + flat(l) { let u = ls.push(l); lemma_flats_push(ls, l, ls.len() as int); reveal(flats); reveal(flat); assert(u[ls.len() as int] == l); }
pub broadcast proof fn lemma_flatten_none() ensures #[trigger] flatten(Seq::<Lay>::empty()) == Seq::<RDecl>::empty() { reveal(flats); reveal(flat); }
pub broadcast proof fn lemma_lay_all_none(o: Options) ensures #[trigger] lay_all(Seq::<Lay>::empty(), o) == Seq::<Seq<char>>::empty() { reveal(lay_all); assert(lay_all(Seq::<Lay>::empty(), o) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_lay_all_push(ls: Seq<Lay>, l: Lay, o: Options) ensures #[trigger] lay_all(ls.push(l), o) == lay_all(ls, o).push(lay_text(l, o)) { reveal(lay_all); assert(lay_all(ls.push(l), o) =~= lay_all(ls, o).push(lay_text(l, o))); }
pub broadcast proof fn lemma_lay_group(ls: Seq<Lay>, o: Options) ensures #[trigger] lay_text(Lay::Node(None, ls), o) == joined(lay_all(ls, o), "\n\n"@)
{ reveal(lay_text); reveal(lay_texts); reveal(lay_all); assert(lay_texts(ls, o) =~= lay_all(ls, o)); assert(Seq::<Seq<char>>::empty() + lay_all(ls, o) =~= lay_all(ls, o)); }
pub broadcast proof fn lemma_lay_struct(d: RDecl, ls: Seq<Lay>, o: Options)
    ensures #[trigger] lay_text(Lay::Node(Some(d), ls), o) == (if ls.len() == 0 { decl_text(d, o) } else { decl_text(d, o) + "\n\n"@ + joined(lay_all(ls, o), "\n\n"@) })
{
    reveal(lay_text); reveal(lay_texts); reveal(lay_all); assert(lay_texts(ls, o) =~= lay_all(ls, o));
    let x = decl_text(d, o);
    if ls.len() == 0 { assert(seq![x] + lay_all(ls, o) =~= seq![x]); assert(joined(seq![x], "\n\n"@) == x); } else { lemma_joined_front(x, lay_all(ls, o), "\n\n"@); }
}
pub broadcast group group_lay { lemma_flat, lemma_flatten_push, lemma_flatten_none, lemma_lay_all_none, lemma_lay_all_push, lemma_lay_group, lemma_lay_struct, lemma_pairs_none, lemma_pairs_add, lemma_pairs_one,
    lemma_uses_none, lemma_uses_any_none, lemma_uses_one, lemma_uses_add, lemma_decls_none, lemma_fields_text_none, lemma_fields_text_push }

// ===== what the context has collected =====
#[verifier::opaque]
pub open spec fn cs(v: Seq<(Shape, String)>) -> Seq<(GShape, Seq<char>)> { Seq::new(v.len(), |i: int| (sv(v[i].0), v[i].1@)) }
pub broadcast proof fn lemma_cs_none() ensures #[trigger] cs(Seq::<(Shape, String)>::empty()) == Seq::<(GShape, Seq<char>)>::empty() { reveal(cs); assert(cs(Seq::<(Shape, String)>::empty()) =~= Seq::<(GShape, Seq<char>)>::empty()); }
pub broadcast proof fn lemma_cs_push(v: Seq<(Shape, String)>, x: (Shape, String)) ensures #[trigger] cs(v.push(x)) == cs(v) + seq![(sv(x.0), x.1@)] { reveal(cs); assert(cs(v.push(x)) =~= cs(v) + seq![(sv(x.0), x.1@)]); }
pub open spec fn made_of(c: Ctxt) -> Seq<(GShape, Seq<char>)> { cs(c.created_structs@) }
pub open spec fn imp(c: Ctxt, p: Seq<char>) -> bool { c.imports.names().contains(p) }
pub open spec fn taken(c: Ctxt, n: Seq<char>) -> bool { c.type_names.names().contains(n) }
#[verifier::opaque]
pub open spec fn cinv(c: Ctxt) -> bool {
    let m = made_of(c);
    (forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Struct && taken(c, m[i].1)) && (forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() ==> m[i].1 != m[j].1)
}
pub open spec fn lays(l: Option<Lay>) -> Seq<RDecl> { match l { Some(l) => flat(l), None => Seq::empty() } }
// nothing new is called what was already taken
pub open spec fn fresh(c: Ctxt, ds: Seq<RDecl>) -> bool { forall|i: int| 0 <= i < ds.len() ==> !taken(c, (#[trigger] ds[i]).name) }
pub open spec fn grown(ds: Seq<RDecl>, c: Ctxt, e: Ctxt) -> bool {
    e.options == c.options && cinv(e) && made_of(e) == made_of(c) + pairs(ds) && (forall|n: Seq<char>| #[trigger] taken(c, n) ==> taken(e, n)) && decls_ok(ds, e.options, made_of(e)) && fresh(c, ds)
}
// what has been generated for a shape: its type t, written id, and the structs in l
#[verifier::opaque]
pub open spec fn made(t: RTy, l: Option<Lay>, id: Seq<char>, code: Option<String>, s: GShape, c: Ctxt, e: Ctxt) -> bool {
    let o = c.options;
    id == show(t, o) && (match (l, code) { (Some(l), Some(x)) => x@ == lay_text(l, o), (None, None) => true, _ => false })
    && fits(t, s, o.use_default_for_missing_fields) && known(t, made_of(e)) && grown(lays(l), c, e)
    && forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || uses(t, p, o) || uses_ds(lays(l), p, o))
}
pub open spec fn makes(r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) -> bool { exists|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, r.1, s, c, e) }
pub proof fn lemma_paths()
    ensures has_colons(value_path()), has_colons(map_path()), after_last(value_path(), "::"@) == "Value"@, after_last(map_path(), "::"@) == "HashMap"@, value_path() != map_path(),
{
    reveal_strlit("::"); reveal_strlit("serde_json::Value"); reveal_strlit("std::collections::HashMap"); reveal_strlit("Value"); reveal_strlit("HashMap");
    let (v, m, p) = (value_path(), map_path(), "::"@);
    assert(v.subrange(10, 12) =~= p); assert(occurs_at(p, v, 10));
    assert(m.subrange(16, 18) =~= p); assert(occurs_at(p, m, 16));
    assert forall|j: int| 10 < j implies !#[trigger] occurs_at(p, v, j) by { if occurs_at(p, v, j) { assert(v.subrange(j, j + 2)[1] == ':'); assert(v[j + 1] == ':'); } }
    assert forall|j: int| 16 < j implies !#[trigger] occurs_at(p, m, j) by { if occurs_at(p, m, j) { assert(m.subrange(j, j + 2)[1] == ':'); assert(m[j + 1] == ':'); } }
    lemma_after_last(v, p, 10); lemma_after_last(m, p, 16);
    assert(v.skip(12) =~= "Value"@); assert(m.skip(18) =~= "HashMap"@);
    assert(v.len() != m.len());
}
pub open spec fn keeps(a: Ctxt, b: Ctxt) -> bool { a.options == b.options && a.type_names == b.type_names && a.created_structs == b.created_structs }
pub open spec fn flat_ty(s: GShape) -> RTy { match s { GShape::Bool => RTy::Bool, GShape::StringT => RTy::Str, GShape::Integer => RTy::I64, GShape::Floating => RTy::F64, GShape::Opaque(n) => RTy::User(n), _ => RTy::Value } }
pub proof fn lemma_grown_none(c: Ctxt, e: Ctxt) requires keeps(c, e), cinv(c), ensures grown(Seq::empty(), c, e)
{ reveal(cinv); broadcast use {lemma_decls_none, lemma_pairs_none}; assert(made_of(c) + pairs(Seq::empty()) =~= made_of(c)); }
pub broadcast proof fn lemma_makes_flat(r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt)
    requires s is Null || s is Any || s is Bottom || s is Bool || s is StringT || s is Integer || s is Floating || s is Opaque, cinv(c), keeps(c, e), r.0@ == show(flat_ty(s), c.options), r.1 is None,
        forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || (flat_ty(s) is Value && calls_for(value_path(), p, c.options))),
    ensures #[trigger] makes(r, s, c, e)
{
    broadcast use {group_rty, group_lay}; reveal(made); reveal(known);
    let t = flat_ty(s);
    lemma_grown_none(c, e);
    assert(made((t, None::<Lay>).0, (t, None::<Lay>).1, r.0@, r.1, s, c, e));
}
pub broadcast proof fn lemma_makes_inv(r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) requires #[trigger] makes(r, s, c, e), ensures cinv(e), e.options == c.options { reveal(made); }
pub broadcast proof fn lemma_makes_same(r: (String, Option<String>), q: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) requires #[trigger] makes(q, s, c, e), r.0@ == q.0@, r.1 == q.1, ensures #[trigger] makes(r, s, c, e)
{ let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, q.1, s, c, e); assert(made(w.0, w.1, r.0@, r.1, s, c, e)); }
pub proof fn lemma_made_wrap(t: RTy, u: RTy, l: Option<Lay>, id: Seq<char>, code: Option<String>, s: GShape, c: Ctxt, e: Ctxt)
    requires made(t, l, id, code, s, c, e), (u is List && *u->List_0 == t) || (u is Opt && *u->Opt_0 == t), ensures made(u, l, show(u, c.options), code, (if u is List { GShape::VecT(Box::new(s)) } else { GShape::Nullable(Box::new(s)) }), c, e)
{
    broadcast use {group_rty, group_lay}; broadcast use {lemma_known_list, lemma_known_table, lemma_known_opt}; reveal(made);
    let o = c.options;
    if u is List { let b = u->List_0; assert(u == RTy::List(b)); lemma_fits_list(b, Box::new(s), o.use_default_for_missing_fields); assert(known(RTy::List(b), made_of(e)));
        assert forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || uses(u, p, o) || uses_ds(lays(l), p, o)) by { lemma_uses_list(b, p, o); } }
    else { let b = u->Opt_0; assert(u == RTy::Opt(b)); lemma_fits_opt(b, Box::new(s), o.use_default_for_missing_fields); assert(known(RTy::Opt(b), made_of(e)));
        assert forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || uses(u, p, o) || uses_ds(lays(l), p, o)) by { lemma_uses_opt(b, p, o); } }
}
pub broadcast proof fn lemma_makes_list(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(q, *s, c, e), r.0@ == "Vec<"@ + q.0@ + ">"@, r.1 == q.1, ensures #[trigger] makes(r, GShape::VecT(s), c, e)
{
    broadcast use group_rty;
    let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, q.1, *s, c, e);
    let u = RTy::List(Box::new(w.0));
    lemma_made_wrap(w.0, u, w.1, q.0@, q.1, *s, c, e);
    assert(q.0@ == show(w.0, c.options)) by { reveal(made); }
    let x = (u, w.1); assert(made(x.0, x.1, r.0@, r.1, GShape::VecT(s), c, e));
}
pub broadcast proof fn lemma_makes_opt(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(q, *s, c, e), r.0@ == "Option<"@ + q.0@ + ">"@, r.1 == q.1, ensures #[trigger] makes(r, GShape::Nullable(s), c, e)
{
    broadcast use group_rty;
    let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, q.1, *s, c, e);
    let u = RTy::Opt(Box::new(w.0));
    lemma_made_wrap(w.0, u, w.1, q.0@, q.1, *s, c, e);
    assert(q.0@ == show(w.0, c.options)) by { reveal(made); }
    let x = (u, w.1); assert(made(x.0, x.1, r.0@, r.1, GShape::Nullable(s), c, e));
}
pub broadcast proof fn lemma_makes_missing(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(q, *s, c, e), if c.options.use_default_for_missing_fields { r.0@ == q.0@ } else { r.0@ == "Option<"@ + q.0@ + ">"@ }, r.1 == q.1, ensures #[trigger] makes(r, GShape::Optional(s), c, e)
{
    broadcast use group_rty; reveal(made); reveal_with_fuel(fits, 2);
    let g = GShape::Optional(s);
    if c.options.use_default_for_missing_fields {
        let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, q.1, *s, c, e);
        assert(made(w.0, w.1, r.0@, r.1, g, c, e));
    } else {
        lemma_makes_opt(r, q, s, c, e);
        let n = GShape::Nullable(s);
        let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, r.1, n, c, e);
        assert(fits(w.0, g, false));
        assert(made(w.0, w.1, r.0@, r.1, g, c, e));
    }
}
// the import of the map type comes before or after what its values need
pub broadcast proof fn lemma_makes_table(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt, c1: Ctxt, e1: Ctxt)
    requires #[trigger] makes(q, *s, c1, e1), keeps(c, c1), keeps(e, e1), r.0@ == spelled(map_path(), c.options) + "<String, "@ + q.0@ + ">"@, r.1 == q.1,
        forall|p: Seq<char>| imp(c, p) ==> #[trigger] imp(c1, p), forall|p: Seq<char>| #[trigger] imp(c1, p) ==> imp(c, p) || calls_for(map_path(), p, c.options),
        forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(e1, p) || calls_for(map_path(), p, c.options)),
    ensures #[trigger] makes(r, GShape::MapT(s), c, e)
{
    broadcast use {group_rty, group_lay}; broadcast use {lemma_known_list, lemma_known_table, lemma_known_opt}; reveal(made); reveal(cinv);
    let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, q.1, *s, c1, e1);
    let b = Box::new(w.0);
    let u = RTy::Table(b);
    let o = c.options;
    lemma_fits_table(b, s, o.use_default_for_missing_fields);
    assert(known(u, made_of(e)));
    assert forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || uses(u, p, o) || uses_ds(lays(w.1), p, o)) by {
        lemma_uses_table(b, p, o);
        assert(imp(e1, p) == (imp(c1, p) || uses(w.0, p, o) || uses_ds(lays(w.1), p, o)));
        assert(imp(c, p) ==> imp(c1, p));
    }
    assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(c1, n)); assert(taken(e1, n)); }
    assert forall|i: int| 0 <= i < lays(w.1).len() implies !taken(c, (#[trigger] lays(w.1)[i]).name) by { assert(!taken(c1, lays(w.1)[i].name)); }
    assert(cinv(e)); assert(made_of(e) == made_of(c) + pairs(lays(w.1)));
    assert(grown(lays(w.1), c, e));
    let x = (u, w.1); assert(made(x.0, x.1, r.0@, r.1, GShape::MapT(s), c, e));
}
pub broadcast proof fn lemma_makes_fold(r: (String, Option<String>), f: GShape, ss: Seq<GShape>, n: nat, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(r, GShape::VecT(Box::new(f)), c, e), folds(f, ss), ensures #[trigger] makes(r, GShape::Tuple(ss, n), c, e)
{
    reveal(made);
    let v = GShape::VecT(Box::new(f));
    let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, r.1, v, c, e);
    lemma_fits_fold(w.0, f, ss, n, c.options.use_default_for_missing_fields);
    assert(made(w.0, w.1, r.0@, r.1, GShape::Tuple(ss, n), c, e));
}
pub broadcast proof fn lemma_makes_count(r: (String, Option<String>), ss: Seq<GShape>, m: nat, n: nat, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(r, GShape::Tuple(ss, m), c, e), ensures #[trigger] makes(r, GShape::Tuple(ss, n), c, e)
{
    reveal(made);
    let v = GShape::Tuple(ss, m);
    let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, r.1, v, c, e);
    lemma_fits_tuple(w.0, ss, m, n, c.options.use_default_for_missing_fields);
    assert(made(w.0, w.1, r.0@, r.1, GShape::Tuple(ss, n), c, e));
}
// a struct generated before serves again
pub broadcast proof fn lemma_makes_seen(r: (String, Option<String>), s: GShape, c: Ctxt, i: int)
    requires cinv(c), 0 <= i < c.created_structs@.len(), s is Struct, covers(sv(c.created_structs@[i].0), s), r.0@ == c.created_structs@[i].1@, r.1 is None, ensures #![trigger makes(r, s, c, c), c.created_structs@[i]] makes(r, s, c, c)
{
    broadcast use {group_rty, group_lay}; reveal(made); reveal(known);
    let m = made_of(c);
    assert(m[i] == (sv(c.created_structs@[i].0), r.0@) && m.len() == c.created_structs@.len()) by { reveal(cs); }
    assert(m[i].0 is Struct) by { reveal(cinv); }
    let t = RTy::Named(m[i].1, m[i].0);
    lemma_grown_none(c, c);
    let x = (t, None::<Lay>); assert(made(x.0, x.1, r.0@, r.1, s, c, c));
}
pub broadcast group group_makes { lemma_makes_flat, lemma_makes_inv, lemma_makes_same, lemma_makes_list, lemma_makes_opt, lemma_makes_missing, lemma_makes_table, lemma_makes_fold, lemma_makes_count }

// ===== several shapes after one another =====
#[verifier::opaque]
pub open spec fn batch(ts: Seq<RTy>, ls: Seq<Lay>, c: Ctxt, e: Ctxt) -> bool {
    known_all(ts, made_of(e)) && grown(flatten(ls), c, e) && e.options == c.options
    && forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || uses_any(ts, p, c.options) || uses_ds(flatten(ls), p, c.options))
}
pub proof fn lemma_batch_none(c: Ctxt) requires cinv(c), ensures batch(Seq::empty(), Seq::empty(), c, c)
{ broadcast use group_lay; reveal(batch); lemma_grown_none(c, c); }
pub proof fn lemma_batch_inv(ts: Seq<RTy>, ls: Seq<Lay>, c: Ctxt, e: Ctxt) requires batch(ts, ls, c, e), ensures cinv(e), e.options == c.options { reveal(batch); }
pub open spec fn more_lays(ls: Seq<Lay>, l: Option<Lay>) -> Seq<Lay> { match l { Some(l) => ls.push(l), None => ls } }
pub proof fn lemma_batch_step(ts: Seq<RTy>, ls: Seq<Lay>, t: RTy, l: Option<Lay>, id: Seq<char>, code: Option<String>, s: GShape, c: Ctxt, d: Ctxt, e: Ctxt)
    requires batch(ts, ls, c, d), made(t, l, id, code, s, d, e), ensures batch(ts.push(t), more_lays(ls, l), c, e)
{
    broadcast use {group_rty, group_lay}; reveal(batch); reveal(made);
    let (a, b, k, o) = (flatten(ls), lays(l), more_lays(ls, l), c.options);
    assert(flatten(k) =~= a + b);
    lemma_more_add(made_of(d), pairs(b));
    lemma_decls_more(a, o, made_of(d), made_of(e));
    lemma_decls_add(a, b, o, made_of(e));
    lemma_known_all_more(ts, made_of(d), made_of(e));
    let u = ts.push(t);
    assert forall|j: int| 0 <= j < u.len() implies known(#[trigger] u[j], made_of(e)) by { if j < ts.len() { assert(u[j] == ts[j]); } }
    lemma_pairs_add(a, b);
    assert(made_of(e) =~= made_of(c) + pairs(a + b));
    let ds = a + b;
    assert forall|i: int| 0 <= i < ds.len() implies !taken(c, (#[trigger] ds[i]).name) by { if i < a.len() { assert(ds[i] == a[i]); } else { assert(ds[i] == b[i - a.len()]); } }
    assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(d, n)); }
    assert forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || uses_any(u, p, o) || uses_ds(flatten(k), p, o)) by { lemma_uses_add(a, b, p, o); lemma_uses_push(ts, t, p, o); assert(imp(d, p) == (imp(c, p) || uses_any(ts, p, o) || uses_ds(a, p, o))); }
}
pub open spec fn codes(t: Seq<Seq<char>>, code: Option<String>) -> Seq<Seq<char>> { match code { Some(x) => t.push(x@), None => t } }
pub proof fn lemma_made_parts(t: RTy, l: Option<Lay>, id: Seq<char>, code: Option<String>, s: GShape, c: Ctxt, e: Ctxt, ls: Seq<Lay>)
    requires made(t, l, id, code, s, c, e), ensures id == show(t, c.options), fits(t, s, c.options.use_default_for_missing_fields), cinv(e), e.options == c.options, lay_all(more_lays(ls, l), c.options) == codes(lay_all(ls, c.options), code)
{ broadcast use group_lay; reveal(made); }
pub proof fn lemma_makes_tuple(r: (String, Option<String>), ts: Seq<RTy>, ls: Seq<Lay>, ss: Seq<GShape>, c: Ctxt, e: Ctxt)
    requires batch(ts, ls, c, e), ts.len() == ss.len(), ss.len() > 1, forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] ts[j], ss[j], c.options.use_default_for_missing_fields),
        r.0@ == "("@ + joined(shows(ts, c.options), ", "@) + ")"@, r.1 is Some, r.1->Some_0@ == joined(lay_all(ls, c.options), "\n\n"@),
    ensures makes(r, GShape::Tuple(ss, 0), c, e)
{
    broadcast use {group_rty, group_lay}; reveal(batch); reveal(made); reveal_with_fuel(known, 2);
    let (t, l) = (RTy::Tup(ts), Some(Lay::Node(None, ls)));
    assert(t->Tup_0 == ts);
    lemma_fits_tup(t, ss, 0, c.options.use_default_for_missing_fields);
    lemma_flat(None, ls);
    assert(lays(l) =~= flatten(ls));
    assert(made((t, l).0, (t, l).1, r.0@, r.1, GShape::Tuple(ss, 0), c, e));
}
pub open spec fn names_in(fs: Seq<RField>, used: Set<Seq<char>>, o: Options) -> bool { (forall|j: int| 0 <= j < fs.len() ==> used.contains((#[trigger] fs[j]).name)) && (o.collect_additional ==> used.contains("additional_fields"@)) }
pub proof fn lemma_fields_ok_step(fs: Seq<RField>, f: RField, ss: Seq<(Seq<char>, GShape)>, used: Set<Seq<char>>, o: Options)
    requires fields_ok(fs, ss, o), fs.len() < ss.len(), rfield_ok(f, ss[fs.len() as int].0, ss[fs.len() as int].1, o), names_in(fs, used, o), !used.contains(f.name),
    ensures fields_ok(fs.push(f), ss, o), names_in(fs.push(f), used.insert(f.name), o), tys(fs.push(f)) == tys(fs).push(f.ty)
{
    reveal(fields_ok); let g = fs.push(f);
    assert forall|j: int| 0 <= j < g.len() implies rfield_ok(#[trigger] g[j], ss[j].0, ss[j].1, o) by { if j < fs.len() { assert(g[j] == fs[j]); } }
    assert forall|i: int, j: int| #![trigger g[i], g[j]] 0 <= i < j < g.len() implies g[i].name != g[j].name by { if j < fs.len() { assert(g[j] == fs[j] && g[i] == fs[i]); } else { assert(g[i] == fs[i]); assert(used.contains(fs[i].name)); } }
    assert(tys(g) =~= tys(fs).push(f.ty));
}
// the name is taken and the shape noted before the fields are generated
pub open spec fn noted(c: Ctxt, d: Ctxt, n: Seq<char>, s: GShape) -> bool {
    d.options == c.options && d.imports == c.imports && made_of(d) == made_of(c) + seq![(s, n)] && !taken(c, n) && d.type_names.names() == c.type_names.names().insert(n)
}
pub proof fn lemma_noted(c: Ctxt, d: Ctxt, n: Seq<char>, s: GShape) requires noted(c, d, n, s), cinv(c), s is Struct, ensures cinv(d)
{
    reveal(cinv);
    let (a, b) = (made_of(c), made_of(d));
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 is Struct && taken(d, b[i].1) by { if i < a.len() { assert(b[i] == a[i]); } }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies b[i].1 != b[j].1 by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } }
}
pub proof fn lemma_makes_struct(r: (String, Option<String>), d: RDecl, ls: Seq<Lay>, c: Ctxt, c1: Ctxt, c2: Ctxt, e: Ctxt)
    requires cinv(c), noted(c, c1, d.name, d.shape), batch(tys(d.fields), ls, c1, c2), keeps(c2, e), decl_ok(d, c.options),
        forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c2, p) || uses_head(p, c.options)),
        r.0@ == d.name, r.1 is Some, r.1->Some_0@ == lay_text(Lay::Node(Some(d), ls), c.options),
    ensures makes(r, d.shape, c, e)
{
    broadcast use {group_rty, group_lay}; reveal(batch); reveal(made); reveal(known); reveal(covers);
    let (t, l, o) = (RTy::Named(d.name, d.shape), Some(Lay::Node(Some(d), ls)), c.options);
    let (h, k) = (seq![d], flatten(ls));
    lemma_flat(Some(d), ls);
    assert(lays(l) =~= h + k);
    lemma_pairs_add(h, k); lemma_pairs_one(d);
    assert(made_of(e) =~= made_of(c) + (pairs(h) + pairs(k)));
    assert(made_of(e)[made_of(c).len() as int] == (d.shape, d.name));
    lemma_decls_one(d, o, made_of(e));
    lemma_decls_add(h, k, o, made_of(e));
    reveal(cinv);
    let ds = h + k;
    assert forall|i: int| 0 <= i < ds.len() implies !taken(c, (#[trigger] ds[i]).name) by { if i > 0 { assert(ds[i] == k[i - 1]); assert(!taken(c1, k[i - 1].name)); } }
    assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(c1, n)); assert(taken(c2, n)); }
    assert forall|p: Seq<char>| #[trigger] imp(e, p) == (imp(c, p) || uses(t, p, o) || uses_ds(lays(l), p, o)) by { lemma_uses_add(h, k, p, o); lemma_uses_one(d, p, o); assert(imp(c2, p) == (imp(c1, p) || uses_any(tys(d.fields), p, o) || uses_ds(k, p, o))); assert(imp(c1, p) == imp(c, p)); }
    assert(made((t, l).0, (t, l).1, r.0@, r.1, d.shape, c, e));
}
// ===== a whole file =====
pub open spec fn import_lines(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { import_lines(p.drop_last()) + "use "@ + p.last() + ";\n"@ } }
pub broadcast proof fn lemma_import_none() ensures #[trigger] import_lines(Seq::<Seq<char>>::empty()) == Seq::<char>::empty() {}
pub proof fn lemma_import_step(p: Seq<Seq<char>>, n: int) requires 0 < n <= p.len(), ensures import_lines(p.take(n)) == import_lines(p.take(n - 1)) + "use "@ + p[n - 1] + ";\n"@ { assert(p.take(n).drop_last() =~= p.take(n - 1)); }
pub open spec fn own_name(n: Seq<char>) -> bool { n == "String"@ || n == "Vec"@ || n == "Option"@ || n == "HashMap"@ || n == "Value"@ }
pub open spec fn roots(l: Option<Lay>, o: Options) -> Seq<char> { match l { Some(l) => lay_text(l, o), None => Seq::empty() } }
pub open spec fn import_block(imps: Seq<Seq<char>>) -> Seq<char> { if imps.len() == 0 { Seq::empty() } else { import_lines(imps) + "\n"@ } }
pub open spec fn alias_block(t: RTy, name: Seq<char>, o: Options) -> Seq<char> { if show(t, o) == name { Seq::empty() } else { o.type_visibility@ + " type "@ + name + " = "@ + show(t, o) + ";\n\n"@ } }
pub open spec fn body_text(t: RTy, name: Seq<char>, o: Options, r: Seq<char>) -> Seq<char> {
    if show(t, o) == name { r } else { Seq::<char>::empty() + o.type_visibility@ + " type "@ + name + " = "@ + show(t, o) + ";\n\n"@ + r }
}
pub proof fn lemma_body_text(ib: Seq<char>, t: RTy, name: Seq<char>, o: Options, r: Seq<char>)
    ensures ib + body_text(t, name, o, r) == ib + alias_block(t, name, o) + r, body_text(t, name, o, r) == Seq::<char>::empty() + alias_block(t, name, o) + r
{ assert(ib + body_text(t, name, o, r) =~= ib + alias_block(t, name, o) + r); assert(body_text(t, name, o, r) =~= Seq::<char>::empty() + alias_block(t, name, o) + r); }
pub open spec fn decl_names(ds: Seq<RDecl>, t: RTy, name: Seq<char>, o: Options) -> bool {
    (forall|i: int, j: int| #![trigger ds[i], ds[j]] 0 <= i < j < ds.len() ==> ds[i].name != ds[j].name)
    && forall|i: int| 0 <= i < ds.len() ==> good_name((#[trigger] ds[i]).name) && (own_name(ds[i].name) ==> ds[i].name == name) && (ds[i].name == name ==> show(t, o) == name)
}
pub open spec fn import_set(imps: Seq<Seq<char>>, t: RTy, ds: Seq<RDecl>, o: Options) -> bool { nodup(imps) && forall|p: Seq<char>| #[trigger] imps.contains(p) == (uses(t, p, o) || uses_ds(ds, p, o)) }
pub struct RFile { pub t: RTy, pub l: Option<Lay>, pub imps: Seq<Seq<char>> }
// text is a file with the root type t called name, the structs of l and the imports imps, and all of it fits the shape s
#[verifier::opaque]
pub open spec fn file_of(f: RFile, text: Seq<char>, name: Seq<char>, s: GShape, o: Options) -> bool {
    let ds = lays(f.l);
    text == import_block(f.imps) + alias_block(f.t, name, o) + roots(f.l, o)
    && fits(f.t, s, o.use_default_for_missing_fields) && known(f.t, pairs(ds)) && decls_ok(ds, o, pairs(ds)) && decl_names(ds, f.t, name, o) && import_set(f.imps, f.t, ds, o)
}
pub proof fn lemma_file(t: RTy, l: Option<Lay>, id: Seq<char>, code: Option<String>, s: GShape, c: Ctxt, e: Ctxt, imps: Seq<Seq<char>>, text: Seq<char>, name: Seq<char>)
    requires made(t, l, id, code, s, c, e), made_of(c) == Seq::<(GShape, Seq<char>)>::empty(), forall|p: Seq<char>| !#[trigger] imp(c, p),
        forall|n: Seq<char>| own_name(n) && n != name ==> #[trigger] taken(c, n), taken(c, name) || id == name,
        nodup(imps), forall|p: Seq<char>| #[trigger] imps.contains(p) == imp(e, p),
        text == import_block(imps) + alias_block(t, name, c.options) + roots(l, c.options),
    ensures file_of(RFile { t, l, imps }, text, name, s, c.options)
{
    broadcast use {group_rty, group_lay}; reveal(made); reveal(file_of); reveal(decls_ok); reveal(cinv); reveal(pairs);
    let (ds, o, m) = (lays(l), c.options, made_of(e));
    assert(m =~= pairs(ds));
    assert forall|i: int, j: int| #![trigger ds[i], ds[j]] 0 <= i < j < ds.len() implies ds[i].name != ds[j].name by { assert(m[i].1 == ds[i].name && m[j].1 == ds[j].name); }
    assert forall|i: int| 0 <= i < ds.len() implies good_name((#[trigger] ds[i]).name) && (own_name(ds[i].name) ==> ds[i].name == name) && (ds[i].name == name ==> show(t, o) == name) by { assert(decl_ok(ds[i], o)); assert(!taken(c, ds[i].name)); }
}

// ===== serde accepts what the shape admits =====
pub open spec fn may_miss(f: RField, o: Options) -> bool { o.use_default_for_missing_fields || f.lax || f.ty is Opt || f.ty is Value || f.ty is User }
// serde_json's reading of a value as a type (https://serde.rs/data-model.html); a type of the user's own takes anything
#[verifier::opaque]
pub open spec fn racc(t: RTy, g: GVal, ds: Seq<RDecl>, o: Options) -> bool decreases g, t {
    match t {
        RTy::Value | RTy::User(_) => true,
        RTy::Bool => g is Bool, RTy::Str => g is Str, RTy::I64 => g is Int, RTy::F64 => g is Int || g is Float,
        RTy::Opt(e) => g is Null || racc(*e, g, ds, o),
        RTy::List(e) => match g { GVal::Arr(a) => forall|i: int| 0 <= i < a.len() ==> racc(*e, #[trigger] a[i], ds, o), _ => false },
        RTy::Tup(ts) => match g { GVal::Arr(a) => a.len() == ts.len() && forall|i: int| #![trigger a[i]] #![trigger ts[i]] 0 <= i < a.len() && i < ts.len() ==> racc(ts[i], a[i], ds, o), _ => false },
        RTy::Table(e) => match g { GVal::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> racc(*e, m[k], ds, o), _ => false },
        RTy::Named(n, _) => match g {
            GVal::Obj(m) => exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).name == n
                && (forall|j: int| #![trigger ds[i].fields[j]] 0 <= j < ds[i].fields.len() ==> if m.dom().contains(wire(ds[i].fields[j], o)) { racc(ds[i].fields[j].ty, m[wire(ds[i].fields[j], o)], ds, o) } else { may_miss(ds[i].fields[j], o) })
                && (o.deny_unknown_fields ==> forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|j: int| 0 <= j < ds[i].fields.len() && wire(#[trigger] ds[i].fields[j], o) == k),
            _ => false },
    }
}
pub proof fn lemma_missing(t: RTy, s: GShape, dflt: bool) requires fits(t, s, dflt), admits(s, None), ensures dflt || t is Opt || t is Value || t is User { reveal(fits); }
pub proof fn lemma_racc(t: RTy, s: GShape, g: GVal, ds: Seq<RDecl>, o: Options)
    requires fits(t, s, o.use_default_for_missing_fields), gwf(s), admits(s, Some(g)), known(t, pairs(ds)), decls_ok(ds, o, pairs(ds)),
    ensures racc(t, g, ds, o), decreases g, t, s
{
    let dflt = o.use_default_for_missing_fields;
    reveal_with_fuel(fits, 2); reveal_with_fuel(known, 2); reveal_with_fuel(racc, 2);
    match s {
        GShape::Null | GShape::Any | GShape::Bottom | GShape::Bool | GShape::StringT | GShape::Integer | GShape::Floating | GShape::Opaque(_) => {},
        GShape::VecT(e) => { let a = g->Arr_0; assert forall|i: int| 0 <= i < a.len() implies racc(*t->List_0, #[trigger] a[i], ds, o) by { assert(admits(*e, Some(a[i]))); lemma_racc(*t->List_0, *e, a[i], ds, o); } },
        GShape::MapT(e) => { let m = g->Obj_0; assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies racc(*t->Table_0, m[k], ds, o) by { assert(admits(*e, Some(m[k]))); lemma_racc(*t->Table_0, *e, m[k], ds, o); } },
        GShape::Optional(e) => { if dflt { lemma_racc(t, *e, g, ds, o); } else { lemma_racc(*t->Opt_0, *e, g, ds, o); } },
        GShape::Nullable(e) => { if !(g is Null) { lemma_racc(*t->Opt_0, *e, g, ds, o); } },
        GShape::Tuple(ss, _) => {
            let a = g->Arr_0;
            if t is List {
                let f = choose|f: GShape| #[trigger] folds(f, ss) && fits(*t->List_0, f, dflt);
                assert forall|j: int| 0 <= j < a.len() implies racc(*t->List_0, #[trigger] a[j], ds, o) by { assert(admits(ss[j], Some(a[j]))); assert(covers(f, ss[j])); reveal(covers); lemma_racc(*t->List_0, f, a[j], ds, o); }
            } else {
                let ts = t->Tup_0;
                assert forall|i: int| #![trigger a[i]] #![trigger ts[i]] 0 <= i < a.len() && i < ts.len() implies racc(ts[i], a[i], ds, o) by { assert(admits(ss[i], Some(a[i]))); assert(fits(ts[i], ss[i], dflt)); lemma_racc(ts[i], ss[i], a[i], ds, o); }
            }
        },
        GShape::Struct(_) => {
            let (n, u) = (t->Named_0, t->Named_1);
            reveal(covers); assert(admits(u, Some(g)));
            reveal(pairs); reveal(decls_ok);
            let i = choose|i: int| 0 <= i < pairs(ds).len() && pairs(ds)[i] == (u, n);
            assert(pairs(ds)[i] == (ds[i].shape, ds[i].name));
            let d = ds[i];
            assert(decl_ok(d, o) && known_all(tys(d.fields), pairs(ds)));
            let (fs, m) = (u->Struct_0, g->Obj_0);
            reveal(fields_ok);
            assert forall|j: int| #![trigger d.fields[j]] 0 <= j < d.fields.len() implies if m.dom().contains(wire(d.fields[j], o)) { racc(d.fields[j].ty, m[wire(d.fields[j], o)], ds, o) } else { may_miss(d.fields[j], o) } by {
                let f = d.fields[j];
                let (k, s1) = fs[j];
                assert(rfield_ok(f, fs[j].0, fs[j].1, o));
                assert(admits(fs[j].1, lookup(m, fs[j].0)));
                assert(gwf(fs[j].1));
                assert(known(tys(d.fields)[j], pairs(ds)));
                if m.dom().contains(k) {
                    if fits(f.ty, s1, dflt) { lemma_racc(f.ty, s1, m[k], ds, o); } else { let e = *s1->Optional_0; assert(admits(e, Some(m[k]))); assert(gwf(e)); lemma_racc(f.ty, e, m[k], ds, o); }
                } else if !f.lax { lemma_missing(f.ty, s1, dflt); }
            }
            assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|j: int| 0 <= j < ds[i].fields.len() && wire(#[trigger] ds[i].fields[j], o) == k by {
                assert(has_key(fs, k));
                let j = choose|j: int| 0 <= j < fs.len() && #[trigger] fs[j].0 == k;
                assert(rfield_ok(d.fields[j], fs[j].0, fs[j].1, o));
                assert(wire(ds[i].fields[j], o) == k);
            }
            assert(ds[i].name == n);
        },
    }
}
//@ prologue broadcast use {group_text, group_rty}; proof { lemma_show_flat(ctxt.options); }
//@ file json_typegen_shared/src/generation/rust.rs
//@ fn import
    ensures r@ == spelled(qualified@, final(ctxt).options), final(ctxt).options == old(ctxt).options, final(ctxt).type_names == old(ctxt).type_names, final(ctxt).created_structs == old(ctxt).created_structs,
        forall|p: Seq<char>| #[trigger] imp(*final(ctxt), p) == (imp(*old(ctxt), p) || calls_for(qualified@, p, old(ctxt).options)),
//@ at start
    proof { assert("::".pat() == "::"@); assert(qualified.sview() == qualified@); }
//@ fn derives
    ensures r@ == derive_text(final(ctxt).options), final(ctxt).options == old(ctxt).options, final(ctxt).type_names == old(ctxt).type_names, final(ctxt).created_structs == old(ctxt).created_structs,
        forall|p: Seq<char>| #[trigger] imp(*final(ctxt), p) == (imp(*old(ctxt), p) || (!(old(ctxt).options.import_style is QualifiedPaths) && uses_derive(old(ctxt).options, p, split_of(old(ctxt).options.derives@, ',').len() as int))),
//@ at start
    let ghost c0 = *ctxt;
//@ loop 0
    invariant ctxt.options == c0.options, ctxt.type_names == c0.type_names, ctxt.created_structs == c0.created_structs, vx_s0.len() == split_of(c0.options.derives@, ',').len(),
        forall|i: int| 0 <= i < vx_s0.len() ==> (#[trigger] vx_s0[i])@ == split_of(c0.options.derives@, ',')[i],
        texts(vx_out0.vcol()) == derive_items(c0.options, vx_it0.pos()), !(c0.options.import_style is QualifiedPaths),
        forall|p: Seq<char>| #[trigger] imp(*ctxt, p) == (imp(c0, p) || uses_derive(c0.options, p, vx_it0.pos())),
//@ at loop 0 before
    proof { lemma_derive_none(c0.options); assert(vx_out0.vcol() =~= Seq::<String>::empty()); }
//@ at loop 0 next
    proof { lemma_derive_step(c0.options, vx_it0.pos()); }
//@ prologue
//@ fn to_rename_rule
    ensures r == rule_for(*transform)
//@ fn serde_name
    ensures r@ == rule_word(rule_for(*transform))
//@ fn collapse_option_vec
    ensures *final(ctxt) == *old(ctxt), r.0 ==> *typ is Optional && *r.1 == *(*typ)->Optional_0, !r.0 ==> r.1 == typ
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, group_text, group_makes, lemma_same_shapes}; proof { lemma_sv_consts(); lemma_show_flat(ctxt.options); lemma_paths(); }
//@ fn type_from_shape
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*shape), *old(ctxt), *final(ctxt)),
        sv(*shape) is Struct && old(ctxt).created_structs@.len() == 0 ==> r.0@ == type_name_of(path@, old(ctxt).type_names.names()),
    decreases gsz(sv(*shape)), wrappers(sv(*shape)), 1nat
//@ at start
    broadcast use lemma_show_user;
    proof { lemma_sv_kind(*shape); if *shape is Struct { shape->Struct_fields.lemma_uniq(); } if *shape is Tuple { lemma_tuple(shape->Tuple_0@, shape->Tuple_1 as nat); } }
//@ fn generate_vec_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::VecT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ fn generate_map_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, GShape::MapT(Box::new(sv(*shape))), *old(ctxt), *final(ctxt))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, group_text, group_makes}; proof { lemma_sv_consts(); }
//@ fn generate_tuple_type
    requires gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, cinv(*old(ctxt)), shapes@.len() > 1,
    ensures makes(r, GShape::Tuple(svs(shapes@), 0), *old(ctxt), *final(ctxt))
    decreases zsum(shapes@) + 1, 0nat, 0nat
//@ at start
    broadcast use {lemma_shows_none, lemma_shows_push, lemma_lay_all_none};
    let ghost c0 = *ctxt;
    let ghost mut ts = Seq::<RTy>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { lemma_batch_none(*ctxt); }
//@ loop 0
    invariant gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, vx_s0 == refs(shapes@), ts.len() == vx_it0.pos(), batch(ts, ls, c0, *ctxt), ctxt.options == c0.options, cinv(*ctxt),
        texts(types@) == shows(ts, c0.options), texts(defs@) == lay_all(ls, c0.options),
        forall|j: int| 0 <= j < vx_it0.pos() ==> fits(#[trigger] ts[j], sv(shapes@[j]), c0.options.use_default_for_missing_fields),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*shape == shapes@[n]); assert(svs(shapes@)[n] == sv(*shape)); lemma_zsum_step(shapes@, n); }
    let ghost c1 = *ctxt;
    let ghost t0 = types@;
    let ghost d0 = defs@;
//@ at loop 0 end
    proof {
        reveal(makes);
        let r = (types@.last(), if defs@.len() > d0.len() { Some(defs@.last()) } else { None });
        let s = sv(*shape);
        assert(makes((typ, def), s, c1, *ctxt));
        let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, typ@, def, s, c1, *ctxt);
        lemma_batch_step(ts, ls, w.0, w.1, typ@, def, s, c0, c1, *ctxt);
        lemma_made_parts(w.0, w.1, typ@, def, s, c1, *ctxt, ls);
        let k = ts.len();
        ts = ts.push(w.0); ls = more_lays(ls, w.1);
    }
//@ at end
    proof { lemma_makes_tuple(vx_ret, ts, ls, svs(shapes@), c0, *ctxt); }
//@ prologue hide(makes); broadcast use {group_sv, group_gsz, group_text}; proof { lemma_sv_consts(); }
//@ fn generate_struct_type
//@ attr eq
    requires sv(*containing_shape) == GShape::Struct(svf(field_shapes@)), gwf(GShape::Struct(svf(field_shapes@))), gsz(GShape::Struct(svf(field_shapes@))) <= u64::MAX, cinv(*old(ctxt)),
    ensures makes(r, sv(*containing_shape), *old(ctxt), *final(ctxt)),
        sv(*containing_shape) is Struct && old(ctxt).created_structs@.len() == 0 ==> r.0@ == type_name_of(path@, old(ctxt).type_names.names()),
    decreases gsz(GShape::Struct(svf(field_shapes@))), 0nat, 0nat
//@ at start
    broadcast use {lemma_fields_text_none, lemma_fields_text_push, lemma_lay_all_none, lemma_lay_struct, lemma_cs_push};
    let ghost c0 = *ctxt;
    let ghost o = ctxt.options;
    let ghost mut c1 = c0;
    let ghost mut c2 = c0;
    let ghost fs = svf(field_shapes@);
    let ghost mut gs = Seq::<RField>::empty();
    let ghost mut ls = Seq::<Lay>::empty();
    proof { field_shapes.lemma_uniq(); }
//@ loop 0
    invariant *ctxt == c0, cinv(c0), vx_s0 == refs(c0.created_structs@), sv(*containing_shape) == GShape::Struct(fs), sv(*containing_shape) is Struct,
//@ at loop 0 return
    proof { let n = vx_it0.pos() - 1; assert(c0.created_structs@[n].1@ == ident@); assert forall|r: (String, Option<String>)| r.0@ == ident@ && r.1 is None implies #[trigger] makes(r, sv(*containing_shape), c0, c0) by { lemma_makes_seen(r, sv(*containing_shape), c0, n); } }
//@ at loop 1 before
    proof { c1 = *ctxt; assert(noted(c0, c1, type_name@, sv(*containing_shape))); lemma_noted(c0, c1, type_name@, sv(*containing_shape)); lemma_batch_none(c1); assert(tys(gs) =~= Seq::<RTy>::empty());
        assert(fields_ok(gs, fs, o)) by { reveal(fields_ok); } assert(vx_out1.vcol() =~= Seq::<String>::empty()); }
//@ loop 1
    invariant vx_s1.len() == field_shapes@.len(), (forall|i: int| 0 <= i < field_shapes@.len() ==> (#[trigger] vx_s1[i]).0@ == field_shapes@[i].0 && *vx_s1[i].1 == field_shapes@[i].1),
        fs == svf(field_shapes@), gwf(GShape::Struct(fs)), gsz(GShape::Struct(fs)) <= u64::MAX, o == c1.options,
        gs.len() == vx_it1.pos(), batch(tys(gs), ls, c1, *ctxt), ctxt.options == o, cinv(*ctxt), field_visibility@ == fvis(o),
        texts(vx_out1.vcol()) == fields_text(gs, o), texts(defs@) == lay_all(ls, o), fields_ok(gs, fs, o), names_in(gs, field_names.names(), o),
//@ at loop 1 after
    proof { c2 = *ctxt; }
//@ at loop 1 next
    let ghost c2 = *ctxt;
    let ghost used = field_names.names();
    proof { let n = vx_it1.pos() - 1; let (k, ty) = vx_x1; assert(*ty == field_shapes@[n].1); assert(fs[n] == (k@, sv(*ty))); lemma_sv_kind(*ty); lemma_fields(fs, n); }
//@ at loop 1 end
    proof {
        reveal(makes);
        let s = sv(*collapsed);
        assert(makes((field_type, child_defs), s, c2, *ctxt));
        let w = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, field_type@, child_defs, s, c2, *ctxt);
        lemma_batch_step(tys(gs), ls, w.0, w.1, field_type@, child_defs, s, c1, c2, *ctxt);
        lemma_made_parts(w.0, w.1, field_type@, child_defs, s, c2, *ctxt, ls);
        let f = RField { key: name@, name: field_name@, ty: w.0, renamed: needs_rename, lax: is_collapsed };
        let n = vx_it1.pos() - 1;
        assert(fs[n].0 == name@ && fs[n].1 == sv(*typ));
        assert(good_name(f.name) && f.key == fs[n].0);
        assert(wire(f, o) == f.key);
        assert(o.collect_additional ==> f.name != "additional_fields"@);
        assert(fits(f.ty, fs[n].1, o.use_default_for_missing_fields) || (f.lax && fs[n].1 is Optional && fits(f.ty, *fs[n].1->Optional_0, o.use_default_for_missing_fields)));
        lemma_fields_ok_step(gs, f, fs, used, o);
        gs = gs.push(f); ls = more_lays(ls, w.1);
    }
//@ at end
    proof {
        let d = RDecl { name: vx_ret.0@, shape: sv(*containing_shape), fields: gs };
        reveal(fields_text); reveal(lay_all);
        lemma_makes_struct(vx_ret, d, ls, c0, c1, c2, *ctxt);
    }
//@ const RESERVED_TYPE_NAMES unroll
//@ prologue hide(makes); broadcast use {group_sv, lemma_texts_len, lemma_texts_idx}; proof { lemma_sv_consts(); }
//@ fn rust_types
//@ attr eq
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures exists|f: RFile| #[trigger] file_of(f, r@, name@, sv(*shape), options)
//@ at start
    broadcast use {lemma_import_none, lemma_cs_none};
    let ghost o = options;
    let ghost mut c0: Ctxt = arbitrary();
    let ghost mut c1: Ctxt = arbitrary();
    let ghost mut imps = Seq::<Seq<char>>::empty();
    let ghost mut root: (RTy, Option<Lay>) = arbitrary();
//@ at call type_from_shape before
    proof {
        c0 = ctxt; assert(cinv(c0)) by { reveal(cinv); }
        assert forall|n: Seq<char>| own_name(n) && n != name@ implies #[trigger] taken(c0, n) by {}
        assert(taken(c0, name@) || (sv(*shape) is Struct && type_name_of(name@, c0.type_names.names()) == name@)) by { lemma_sv_kind(*shape); }
    }
//@ at call type_from_shape after
    proof {
        c1 = ctxt; assert(taken(c0, name@) || ident@ == name@);
        reveal(makes);
        let s = sv(*shape);
        root = choose|w: (RTy, Option<Lay>)| #[trigger] made(w.0, w.1, ident@, code, s, c0, c1);
        assert(made(root.0, root.1, ident@, code, s, c0, c1));
        assert(c1.options == o && ident@ == show(root.0, o) && (match code { Some(x) => x@, None => Seq::empty() }) == roots(root.1, o)) by { reveal(made); }
    }
    let ghost res = (ident, code);
//@ at loop 0 before
    proof { assert(collected(vx_out0) =~= Seq::<String>::empty()); assert(vx_s0.take(0) =~= Seq::<String>::empty()); }
//@ loop 0
    invariant collected(vx_out0) == vx_s0.take(vx_it0.pos()),
//@ at loop 0 end
    proof { let n = vx_it0.pos(); assert(vx_s0.take(n) =~= vx_s0.take(n - 1).push(vx_s0[n - 1])); }
//@ at loop 0 after
    proof { assert(vx_s0.take(vx_it0.pos()) =~= vx_s0); assert(nodup(texts(vx_s0))); }
//@ at loop 1 before
    proof { imps = texts(vx_s1); assert(nodup(imps)); assert forall|p: Seq<char>| #[trigger] imps.contains(p) == imp(c1, p) by {} assert(imps.take(0) =~= Seq::<Seq<char>>::empty()); }
//@ loop 1
    invariant imps == texts(vx_s1), import_code@ == import_lines(imps.take(vx_it1.pos())),
//@ at loop 1 end
    proof { lemma_import_step(imps, vx_it1.pos()); }
//@ at tail
    proof {
        let w = root;
        assert(imps.take(imps.len() as int) =~= imps);
        let (text, ib, r) = (code@, import_block(imps), roots(w.1, o));
        assert forall|p: Seq<char>| #[trigger] imps.contains(p) == imp(c1, p) by { if c1.imports.names().len() == 0 { c1.imports.names().lemma_len0_is_empty(); } }
        if imps.len() == 0 && c1.imports.names().len() != 0 { let p = c1.imports.names().choose(); assert(imps.contains(p)); }
        lemma_body_text(ib, w.0, name@, o, r);
        assert(text == if imps.len() == 0 { body_text(w.0, name@, o, r) } else { ib + body_text(w.0, name@, o, r) });
        lemma_file(w.0, w.1, res.0@, res.1, sv(*shape), c0, c1, imps, code@, name@);
    }
