//@ include folding.vx
//@ include text.vx
//@ include options_type.vx
//@ rename-path shape::fold_shapes => vx_fold_shapes
//@ raw
// type_name (verified in the unit of the language) called twice with the same name and the same names taken gives the same answer
pub uninterp spec fn type_name_of(name: Seq<char>, used: Set<Seq<char>>) -> Seq<char>;
// ===== generated types that refer to each other by name: TypeScript interfaces, Kotlin and Python classes =====
// The unit that includes this one says which language it is (lang), how a declaration and a field are written (decl_text, field_text), how a field finds its key (binds),
// which names are legal (good_type) and what the context has collected (made_of, taken, keeps).
pub enum Lang { Ts, Kt, Py }
pub enum NTy { Any, Bool, Str, Int, Num, Blank, User(Seq<char>), Named(Seq<char>, GShape), List(Box<NTy>, bool), Table(Box<NTy>), Tup(Seq<NTy>), Undef(Box<NTy>), Nul(Box<NTy>) }
pub struct NField { pub key: Seq<char>, pub pre: Seq<char>, pub name: Seq<char>, pub post: Seq<char>, pub opt: bool, pub ty: NTy }
pub struct NDecl { pub name: Seq<char>, pub shape: GShape, pub fields: Seq<NField> }
// a declaration (if there is one) and what its fields need
pub enum Lay { Node(Option<NDecl>, Seq<Lay>) }
// Python names that come from the typing module
pub open spec fn typing(n: Seq<char>, o: Options) -> Seq<char> { if o.import_style is QualifiedPaths { "typing."@ + n } else { n } }
pub open spec fn list_text(q: Seq<char>, paren: bool) -> Seq<char> { match lang() { Lang::Ts => if paren { "("@ + q + ")[]"@ } else { q + "[]"@ }, Lang::Kt => "List<"@ + q + ">"@, Lang::Py => "list["@ + q + "]"@ } }
pub open spec fn table_text(q: Seq<char>) -> Seq<char> { match lang() { Lang::Ts => "{ [key: string]: "@ + q + " }"@, Lang::Kt => "Map<String, "@ + q + ">"@, Lang::Py => "dict[str, "@ + q + "]"@ } }
pub open spec fn tup_text(n: nat, q: Seq<char>) -> Seq<char> { match lang() { Lang::Ts => "["@ + q + "]"@, Lang::Kt => (if n == 2 { "Pair"@ } else { "Triple"@ }) + "<"@ + q + ">"@, Lang::Py => "tuple["@ + q + "]"@ } }
pub open spec fn undef_text(q: Seq<char>, o: Options) -> Seq<char> { match lang() { Lang::Ts => q + " | undefined"@, Lang::Kt => q + "?"@, Lang::Py => typing("Optional"@, o) + "["@ + q + "]"@ } }
pub open spec fn nul_text(q: Seq<char>, o: Options) -> Seq<char> { match lang() { Lang::Ts => q + " | null"@, Lang::Kt => q + "?"@, Lang::Py => typing("Optional"@, o) + "["@ + q + "]"@ } }
pub open spec fn flat_text(t: NTy, o: Options) -> Seq<char> {
    match lang() {
        Lang::Ts => match t { NTy::Bool => "boolean"@, NTy::Str => "string"@, NTy::Int | NTy::Num => "number"@, _ => "any"@ },
        Lang::Kt => match t { NTy::Bool => "Boolean"@, NTy::Str => "String"@, NTy::Int => "Long"@, NTy::Num => "Double"@, NTy::Blank => "Map<String, Any>"@, _ => "Any?"@ },
        Lang::Py => match t { NTy::Bool => "bool"@, NTy::Str => "str"@, NTy::Int => "int"@, NTy::Num => "float"@, _ => typing("Any"@, o) },
    }
}
#[verifier::opaque]
pub open spec fn show(t: NTy, o: Options) -> Seq<char> decreases t {
    match t {
        NTy::Any | NTy::Bool | NTy::Str | NTy::Int | NTy::Num | NTy::Blank => flat_text(t, o),
        NTy::Named(n, _) => n, NTy::User(s) => s,
        NTy::List(e, p) => list_text(show(*e, o), p),
        NTy::Table(e) => table_text(show(*e, o)),
        NTy::Undef(e) => undef_text(show(*e, o), o),
        NTy::Nul(e) => nul_text(show(*e, o), o),
        NTy::Tup(ts) => tup_text(ts.len(), joined(showv(ts, o), ", "@)),
    }
}
#[verifier::opaque]
pub open spec fn showv(ts: Seq<NTy>, o: Options) -> Seq<Seq<char>> decreases ts { Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { show(ts[i], o) } else { arbitrary() }) }
#[verifier::opaque]
pub open spec fn shows(ts: Seq<NTy>, o: Options) -> Seq<Seq<char>> { Seq::new(ts.len(), |i: int| show(ts[i], o)) }
pub broadcast proof fn lemma_show_flat(t: NTy, o: Options) requires t is Any || t is Bool || t is Str || t is Int || t is Num || t is Blank, ensures #[trigger] show(t, o) == flat_text(t, o) { reveal(show); }
pub broadcast proof fn lemma_show_named(n: Seq<char>, s: GShape, o: Options) ensures #[trigger] show(NTy::Named(n, s), o) == n { reveal(show); }
pub broadcast proof fn lemma_show_user(n: Seq<char>, o: Options) ensures #[trigger] show(NTy::User(n), o) == n { reveal(show); }
pub broadcast proof fn lemma_show_list(e: Box<NTy>, p: bool, o: Options) ensures #[trigger] show(NTy::List(e, p), o) == list_text(show(*e, o), p) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_table(e: Box<NTy>, o: Options) ensures #[trigger] show(NTy::Table(e), o) == table_text(show(*e, o)) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_undef(e: Box<NTy>, o: Options) ensures #[trigger] show(NTy::Undef(e), o) == undef_text(show(*e, o), o) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_nul(e: Box<NTy>, o: Options) ensures #[trigger] show(NTy::Nul(e), o) == nul_text(show(*e, o), o) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_tup(ts: Seq<NTy>, o: Options) ensures #[trigger] show(NTy::Tup(ts), o) == tup_text(ts.len(), joined(shows(ts, o), ", "@))
{ reveal(show); reveal(showv); reveal(shows); assert(showv(ts, o) =~= shows(ts, o)); }
pub broadcast proof fn lemma_shows_none(o: Options) ensures #[trigger] shows(Seq::<NTy>::empty(), o) == Seq::<Seq<char>>::empty() { reveal(shows); assert(shows(Seq::<NTy>::empty(), o) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_shows_push(ts: Seq<NTy>, t: NTy, o: Options) ensures #[trigger] shows(ts.push(t), o) == shows(ts, o).push(show(t, o)) { reveal(shows); assert(shows(ts.push(t), o) =~= shows(ts, o).push(show(t, o))); }
pub broadcast group group_show { lemma_show_flat, lemma_show_named, lemma_show_user, lemma_show_list, lemma_show_table, lemma_show_undef, lemma_show_nul, lemma_show_tup, lemma_shows_none, lemma_shows_push }

// ===== what a type says about a shape =====
pub open spec fn bare(s: GShape) -> GShape { match s { GShape::Optional(e) => *e, _ => s } }
pub open spec fn union(t: NTy) -> bool { t is Undef || t is Nul }
#[verifier::opaque]
pub open spec fn fits(t: NTy, s: GShape, dflt: bool) -> bool decreases t, s {
    match s {
        GShape::Null | GShape::Any | GShape::Bottom => t is Any,
        GShape::Bool => t is Bool, GShape::StringT => t is Str, GShape::Integer => t is Int, GShape::Floating => t is Num,
        GShape::Opaque(n) => t == NTy::User(n),
        // in TypeScript X | null[] is something else
        GShape::VecT(e) => t is List && (lang() is Ts && union(*t->List_0) ==> t->List_1) && fits(*t->List_0, *e, dflt),
        GShape::MapT(e) => t is Table && fits(*t->Table_0, *e, dflt),
        GShape::Tuple(ss, _) => (t is List && (lang() is Ts && union(*t->List_0) ==> t->List_1) && exists|f: GShape| #[trigger] folds(f, ss) && fits(*t->List_0, f, dflt))
            || (t is Tup && t->Tup_0.len() == ss.len() && (lang() is Kt ==> 2 <= ss.len() <= 3) && forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] t->Tup_0[j], ss[j], dflt)),
        GShape::Struct(fs) => (t is Named && t->Named_1 is Struct && covers(t->Named_1, s)) || (lang() is Kt && fs.len() == 0 && t is Blank),
        GShape::Optional(e) => if dflt { fits(t, *e, dflt) } else { t is Undef && fits(*t->Undef_0, *e, dflt) },
        GShape::Nullable(e) => if dflt && !(lang() is Ts) { fits(t, *e, dflt) } else { t is Nul && fits(*t->Nul_0, *e, dflt) },
    }
}
pub open spec fn flat_ty(s: GShape) -> NTy { match s { GShape::Bool => NTy::Bool, GShape::StringT => NTy::Str, GShape::Integer => NTy::Int, GShape::Floating => NTy::Num, GShape::Opaque(n) => NTy::User(n), GShape::Struct(_) => NTy::Blank, _ => NTy::Any } }
pub open spec fn flat_shape(s: GShape) -> bool { s is Null || s is Any || s is Bottom || s is Bool || s is StringT || s is Integer || s is Floating || s is Opaque || (lang() is Kt && s is Struct && s->Struct_0.len() == 0) }
pub broadcast proof fn lemma_fits_flat(s: GShape, dflt: bool) requires flat_shape(s), ensures #[trigger] fits(flat_ty(s), s, dflt) { reveal(fits); }
pub proof fn lemma_fits_named(t: NTy, s: GShape, dflt: bool) requires t is Named, t->Named_1 is Struct, s is Struct, covers(t->Named_1, s), ensures fits(t, s, dflt) { reveal(fits); }
pub proof fn lemma_fits_list(t: Box<NTy>, e: Box<GShape>, dflt: bool) requires fits(*t, *e, dflt), ensures fits(NTy::List(t, *e is Optional || *e is Nullable), GShape::VecT(e), dflt) { reveal_with_fuel(fits, 2); }
pub broadcast proof fn lemma_fits_table(t: Box<NTy>, e: Box<GShape>, dflt: bool) requires fits(*t, *e, dflt), ensures #[trigger] fits(NTy::Table(t), GShape::MapT(e), dflt) { reveal_with_fuel(fits, 2); }
pub proof fn lemma_fits_undef(t: NTy, e: Box<GShape>, dflt: bool) requires fits(t, *e, dflt), ensures if dflt { fits(t, GShape::Optional(e), dflt) } else { fits(NTy::Undef(Box::new(t)), GShape::Optional(e), dflt) } { reveal_with_fuel(fits, 2); }
pub proof fn lemma_fits_nul(t: NTy, e: Box<GShape>, dflt: bool) requires fits(t, *e, dflt), ensures if dflt && !(lang() is Ts) { fits(t, GShape::Nullable(e), dflt) } else { fits(NTy::Nul(Box::new(t)), GShape::Nullable(e), dflt) } { reveal_with_fuel(fits, 2); }
pub proof fn lemma_fits_fold(t: NTy, f: GShape, ss: Seq<GShape>, n: nat, dflt: bool)
    requires fits(t, GShape::VecT(Box::new(f)), dflt), folds(f, ss), ensures fits(t, GShape::Tuple(ss, n), dflt)
{ reveal_with_fuel(fits, 2); let s = GShape::VecT(Box::new(f)); assert(*s->VecT_0 == f); let u = GShape::Tuple(ss, n); assert(u->Tuple_0 == ss); assert(folds(f, u->Tuple_0)); }
pub proof fn lemma_fits_tup(t: NTy, ss: Seq<GShape>, n: nat, dflt: bool)
    requires t is Tup, t->Tup_0.len() == ss.len(), lang() is Kt ==> 2 <= ss.len() <= 3, forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] t->Tup_0[j], ss[j], dflt), ensures fits(t, GShape::Tuple(ss, n), dflt)
{ reveal_with_fuel(fits, 2); let s = GShape::Tuple(ss, n); assert(s->Tuple_0 == ss); }
pub proof fn lemma_fits_tup2(t: NTy, s: GShape, u: GShape, dflt: bool) requires fits(t, s, dflt), s is Tuple, u is Tuple, s->Tuple_0 == u->Tuple_0, ensures fits(t, u, dflt) { reveal(fits); }

// ===== names a type refers to =====
#[verifier::opaque]
pub open spec fn known(t: NTy, cs: Seq<(GShape, Seq<char>)>) -> bool decreases t {
    match t {
        NTy::Named(n, s) => cs.contains((s, n)),
        NTy::List(e, _) => known(*e, cs), NTy::Table(e) => known(*e, cs), NTy::Undef(e) => known(*e, cs), NTy::Nul(e) => known(*e, cs),
        NTy::Tup(ts) => forall|j: int| 0 <= j < ts.len() ==> known(#[trigger] ts[j], cs),
        _ => true,
    }
}
pub open spec fn more(a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) -> bool { forall|x: (GShape, Seq<char>)| a.contains(x) ==> #[trigger] b.contains(x) }
pub proof fn lemma_known_more(t: NTy, a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) requires known(t, a), more(a, b), ensures known(t, b), decreases t
{
    reveal_with_fuel(known, 2);
    match t { NTy::List(e, _) => lemma_known_more(*e, a, b), NTy::Table(e) => lemma_known_more(*e, a, b), NTy::Undef(e) => lemma_known_more(*e, a, b), NTy::Nul(e) => lemma_known_more(*e, a, b),
        NTy::Tup(ts) => { assert forall|j: int| 0 <= j < ts.len() implies known(#[trigger] ts[j], b) by { lemma_known_more(ts[j], a, b); } }, _ => {} }
}
pub broadcast proof fn lemma_known_list(e: Box<NTy>, p: bool, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] known(NTy::List(e, p), cs) == known(*e, cs) { reveal_with_fuel(known, 2); }
pub broadcast proof fn lemma_known_table(e: Box<NTy>, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] known(NTy::Table(e), cs) == known(*e, cs) { reveal_with_fuel(known, 2); }
pub broadcast proof fn lemma_known_undef(e: Box<NTy>, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] known(NTy::Undef(e), cs) == known(*e, cs) { reveal_with_fuel(known, 2); }
pub broadcast proof fn lemma_known_nul(e: Box<NTy>, cs: Seq<(GShape, Seq<char>)>) ensures #[trigger] known(NTy::Nul(e), cs) == known(*e, cs) { reveal_with_fuel(known, 2); }
pub broadcast group group_known { lemma_known_list, lemma_known_table, lemma_known_undef, lemma_known_nul }
pub open spec fn known_all(ts: Seq<NTy>, cs: Seq<(GShape, Seq<char>)>) -> bool { forall|j: int| 0 <= j < ts.len() ==> known(#[trigger] ts[j], cs) }
pub proof fn lemma_known_all_more(ts: Seq<NTy>, a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) requires known_all(ts, a), more(a, b), ensures known_all(ts, b)
{ assert forall|j: int| 0 <= j < ts.len() implies known(#[trigger] ts[j], b) by { lemma_known_more(ts[j], a, b); } }
pub proof fn lemma_more_add(a: Seq<(GShape, Seq<char>)>, b: Seq<(GShape, Seq<char>)>) ensures more(a, a + b), more(b, a + b)
{
    assert forall|x: (GShape, Seq<char>)| a.contains(x) implies #[trigger] (a + b).contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    assert forall|x: (GShape, Seq<char>)| b.contains(x) implies #[trigger] (a + b).contains(x) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[i + a.len()] == x); }
}

// ===== names a type takes from a module: h has them =====
#[verifier::opaque]
pub open spec fn stocked(t: NTy, h: Set<Seq<char>>) -> bool decreases t {
    match t {
        NTy::Any => lang() is Py ==> h.contains("Any"@),
        NTy::Undef(e) => (lang() is Py ==> h.contains("Optional"@)) && stocked(*e, h),
        NTy::Nul(e) => (lang() is Py ==> h.contains("Optional"@)) && stocked(*e, h),
        NTy::List(e, _) => stocked(*e, h), NTy::Table(e) => stocked(*e, h),
        NTy::Tup(ts) => forall|j: int| 0 <= j < ts.len() ==> stocked(#[trigger] ts[j], h),
        _ => true,
    }
}
pub open spec fn within(a: Set<Seq<char>>, b: Set<Seq<char>>) -> bool { forall|x: Seq<char>| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) ==> b.contains(x) }
pub proof fn lemma_stocked_more(t: NTy, a: Set<Seq<char>>, b: Set<Seq<char>>) requires stocked(t, a), within(a, b), ensures stocked(t, b), decreases t
{
    reveal_with_fuel(stocked, 2);
    match t { NTy::List(e, _) => lemma_stocked_more(*e, a, b), NTy::Table(e) => lemma_stocked_more(*e, a, b), NTy::Undef(e) => lemma_stocked_more(*e, a, b), NTy::Nul(e) => lemma_stocked_more(*e, a, b),
        NTy::Tup(ts) => { assert forall|j: int| 0 <= j < ts.len() implies stocked(#[trigger] ts[j], b) by { lemma_stocked_more(ts[j], a, b); } }, _ => {} }
}
pub broadcast proof fn lemma_stocked_list(e: Box<NTy>, p: bool, h: Set<Seq<char>>) ensures #[trigger] stocked(NTy::List(e, p), h) == stocked(*e, h) { reveal_with_fuel(stocked, 2); }
pub broadcast proof fn lemma_stocked_table(e: Box<NTy>, h: Set<Seq<char>>) ensures #[trigger] stocked(NTy::Table(e), h) == stocked(*e, h) { reveal_with_fuel(stocked, 2); }
pub broadcast proof fn lemma_stocked_undef(e: Box<NTy>, h: Set<Seq<char>>) ensures #[trigger] stocked(NTy::Undef(e), h) == ((lang() is Py ==> h.contains("Optional"@)) && stocked(*e, h)) { reveal_with_fuel(stocked, 2); }
pub broadcast proof fn lemma_stocked_nul(e: Box<NTy>, h: Set<Seq<char>>) ensures #[trigger] stocked(NTy::Nul(e), h) == ((lang() is Py ==> h.contains("Optional"@)) && stocked(*e, h)) { reveal_with_fuel(stocked, 2); }
pub broadcast group group_stocked { lemma_stocked_list, lemma_stocked_table, lemma_stocked_undef, lemma_stocked_nul }
pub open spec fn stocked_all(ts: Seq<NTy>, h: Set<Seq<char>>) -> bool { forall|j: int| 0 <= j < ts.len() ==> stocked(#[trigger] ts[j], h) }
pub proof fn lemma_stocked_all_more(ts: Seq<NTy>, a: Set<Seq<char>>, b: Set<Seq<char>>) requires stocked_all(ts, a), within(a, b), ensures stocked_all(ts, b)
{ assert forall|j: int| 0 <= j < ts.len() implies stocked(#[trigger] ts[j], b) by { lemma_stocked_more(ts[j], a, b); } }
// what the fields and the class itself are annotated with
#[verifier::opaque]
pub open spec fn fields_stocked(fs: Seq<NField>, h: Set<Seq<char>>, o: Options) -> bool { forall|j: int| 0 <= j < fs.len() ==> field_needs(#[trigger] fs[j], h, o) }
pub proof fn lemma_fields_stocked_step(fs: Seq<NField>, f: NField, a: Set<Seq<char>>, b: Set<Seq<char>>, o: Options) requires fields_stocked(fs, a, o), within(a, b), field_needs(f, b, o), ensures fields_stocked(fs.push(f), b, o)
{ reveal(fields_stocked); let g = fs.push(f); assert forall|j: int| 0 <= j < g.len() implies field_needs(#[trigger] g[j], b, o) by { if j < fs.len() { assert(g[j] == fs[j]); } } }
pub proof fn lemma_fields_stocked_more(fs: Seq<NField>, a: Set<Seq<char>>, b: Set<Seq<char>>, o: Options) requires fields_stocked(fs, a, o), within(a, b), ensures fields_stocked(fs, b, o) { reveal(fields_stocked); }
pub proof fn lemma_fields_stocked_none(a: Set<Seq<char>>, o: Options) ensures fields_stocked(Seq::empty(), a, o) { reveal(fields_stocked); }
pub open spec fn decl_stocked(d: NDecl, h: Set<Seq<char>>, o: Options) -> bool { class_needs(h, o) && fields_stocked(d.fields, h, o) && stocked_all(tys(d.fields), h) }
#[verifier::opaque]
pub open spec fn decls_stocked(ds: Seq<NDecl>, h: Set<Seq<char>>, o: Options) -> bool { forall|i: int| 0 <= i < ds.len() ==> decl_stocked(#[trigger] ds[i], h, o) }
pub proof fn lemma_decls_stocked_none(h: Set<Seq<char>>, o: Options) ensures decls_stocked(Seq::empty(), h, o) { reveal(decls_stocked); }
pub proof fn lemma_decls_stocked_more(ds: Seq<NDecl>, a: Set<Seq<char>>, b: Set<Seq<char>>, o: Options) requires decls_stocked(ds, a, o), within(a, b), ensures decls_stocked(ds, b, o)
{
    reveal(decls_stocked); reveal(fields_stocked);
    assert forall|i: int| 0 <= i < ds.len() implies decl_stocked(#[trigger] ds[i], b, o) by { lemma_stocked_all_more(tys(ds[i].fields), a, b); }
}
pub proof fn lemma_decls_stocked_add(x: Seq<NDecl>, y: Seq<NDecl>, h: Set<Seq<char>>, o: Options) requires decls_stocked(x, h, o), decls_stocked(y, h, o), ensures decls_stocked(x + y, h, o)
{ reveal(decls_stocked); let s = x + y; assert forall|i: int| 0 <= i < s.len() implies decl_stocked(#[trigger] s[i], h, o) by { if i < x.len() { assert(s[i] == x[i]); } else { assert(s[i] == y[i - x.len()]); } } }

// ===== declarations =====
pub open spec fn tys(fs: Seq<NField>) -> Seq<NTy> { Seq::new(fs.len(), |i: int| fs[i].ty) }
#[verifier::opaque]
pub open spec fn fields_text(fs: Seq<NField>, o: Options) -> Seq<Seq<char>> { Seq::new(fs.len(), |i: int| field_text(fs[i], o)) }
pub broadcast proof fn lemma_fields_text_none(o: Options) ensures #[trigger] fields_text(Seq::<NField>::empty(), o) == Seq::<Seq<char>>::empty() { reveal(fields_text); assert(fields_text(Seq::<NField>::empty(), o) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_fields_text_push(fs: Seq<NField>, f: NField, o: Options) ensures #[trigger] fields_text(fs.push(f), o) == fields_text(fs, o).push(field_text(f, o)) { reveal(fields_text); assert(fields_text(fs.push(f), o) =~= fields_text(fs, o).push(field_text(f, o))); }
// TypeScript marks the property instead of its type
pub open spec fn nfield_ok(f: NField, key: Seq<char>, s: GShape, o: Options) -> bool {
    f.key == key && binds(f, o) && (if lang() is Ts { f.opt == (s is Optional) && fits(f.ty, bare(s), o.use_default_for_missing_fields) } else { !f.opt && fits(f.ty, s, o.use_default_for_missing_fields) })
}
#[verifier::opaque]
pub open spec fn fields_ok(fs: Seq<NField>, ss: Seq<(Seq<char>, GShape)>, o: Options) -> bool {
    fs.len() <= ss.len() && (forall|j: int| 0 <= j < fs.len() ==> nfield_ok(#[trigger] fs[j], ss[j].0, ss[j].1, o)) && (lang() is Ts || forall|i: int, j: int| #![trigger fs[i], fs[j]] 0 <= i < j < fs.len() ==> fs[i].name != fs[j].name)
}
pub open spec fn decl_ok(d: NDecl, o: Options) -> bool { d.shape is Struct && gwf(d.shape) && good_type(d.name) && d.fields.len() == d.shape->Struct_0.len() && fields_ok(d.fields, d.shape->Struct_0, o) }
#[verifier::opaque]
pub open spec fn pairs(ds: Seq<NDecl>) -> Seq<(GShape, Seq<char>)> { Seq::new(ds.len(), |i: int| (ds[i].shape, ds[i].name)) }
pub broadcast proof fn lemma_pairs_none() ensures #[trigger] pairs(Seq::<NDecl>::empty()) == Seq::<(GShape, Seq<char>)>::empty() { reveal(pairs); assert(pairs(Seq::<NDecl>::empty()) =~= Seq::<(GShape, Seq<char>)>::empty()); }
pub broadcast proof fn lemma_pairs_add(a: Seq<NDecl>, b: Seq<NDecl>) ensures #[trigger] pairs(a + b) == pairs(a) + pairs(b) { reveal(pairs); assert(pairs(a + b) =~= pairs(a) + pairs(b)); }
pub broadcast proof fn lemma_pairs_one(d: NDecl) ensures #[trigger] pairs(seq![d]) == seq![(d.shape, d.name)] { reveal(pairs); assert(pairs(seq![d]) =~= seq![(d.shape, d.name)]); }
// the types that declaration i may refer to: in Python those before it
pub open spec fn scope(ds: Seq<NDecl>, i: int, base: Seq<(GShape, Seq<char>)>) -> Seq<(GShape, Seq<char>)> { if lang() is Py { base + pairs(ds.take(i)) } else { base + pairs(ds) } }
#[verifier::opaque]
pub open spec fn decls_ok(ds: Seq<NDecl>, o: Options, base: Seq<(GShape, Seq<char>)>) -> bool { forall|i: int| 0 <= i < ds.len() ==> decl_ok(#[trigger] ds[i], o) && known_all(tys(ds[i].fields), scope(ds, i, base)) }
pub broadcast proof fn lemma_decls_none(o: Options, base: Seq<(GShape, Seq<char>)>) ensures #[trigger] decls_ok(Seq::<NDecl>::empty(), o, base) { reveal(decls_ok); }
pub proof fn lemma_decls_add(a: Seq<NDecl>, b: Seq<NDecl>, o: Options, base: Seq<(GShape, Seq<char>)>) requires decls_ok(a, o, base), decls_ok(b, o, base + pairs(a)), ensures decls_ok(a + b, o, base)
{
    reveal(decls_ok); let s = a + b;
    assert forall|i: int| 0 <= i < s.len() implies decl_ok(#[trigger] s[i], o) && known_all(tys(s[i].fields), scope(s, i, base)) by {
        lemma_pairs_add(a, b);
        if i < a.len() {
            assert(s[i] == a[i]); assert(s.take(i) =~= a.take(i));
            lemma_more_add(base + pairs(a), pairs(b)); assert(base + pairs(a) + pairs(b) =~= base + pairs(s));
            lemma_known_all_more(tys(a[i].fields), scope(a, i, base), scope(s, i, base));
        } else {
            let j = i - a.len();
            assert(s[i] == b[j]); assert(s.take(i) =~= a + b.take(j)); lemma_pairs_add(a, b.take(j));
            assert(base + pairs(a) + pairs(b) =~= base + pairs(s)); assert(base + pairs(a) + pairs(b.take(j)) =~= base + pairs(s.take(i)));
        }
    }
}
// a declaration with what its fields need: after it, in Python before it
pub open spec fn order(d: Option<NDecl>, k: Seq<NDecl>) -> Seq<NDecl> { match d { Some(d) => if lang() is Py { k.push(d) } else { seq![d] + k }, None => k } }
pub proof fn lemma_decls_order(d: NDecl, k: Seq<NDecl>, o: Options, base: Seq<(GShape, Seq<char>)>)
    requires decl_ok(d, o), if lang() is Py { decls_ok(k, o, base) && known_all(tys(d.fields), base + pairs(k)) } else { decls_ok(k, o, base.push((d.shape, d.name))) && known_all(tys(d.fields), base.push((d.shape, d.name)) + pairs(k)) },
    ensures decls_ok(order(Some(d), k), o, base)
{
    reveal(decls_ok); let s = order(Some(d), k);
    lemma_pairs_one(d);
    if lang() is Py {
        assert forall|i: int| 0 <= i < s.len() implies decl_ok(#[trigger] s[i], o) && known_all(tys(s[i].fields), scope(s, i, base)) by {
            if i < k.len() { assert(s[i] == k[i]); assert(s.take(i) =~= k.take(i)); } else { assert(s.take(i) =~= k); }
        }
    } else {
        let h = seq![d];
        lemma_pairs_add(h, k);
        assert(base.push((d.shape, d.name)) + pairs(k) =~= base + pairs(s));
        assert forall|i: int| 0 <= i < s.len() implies decl_ok(#[trigger] s[i], o) && known_all(tys(s[i].fields), scope(s, i, base)) by { if i > 0 { assert(s[i] == k[i - 1]); } }
    }
}

// ===== layout =====
#[verifier::opaque]
pub open spec fn flats(ls: Seq<Lay>, n: int) -> Seq<NDecl> decreases ls, n { if n <= 0 || n > ls.len() { Seq::empty() } else { flats(ls, n - 1) + flat(ls[n - 1]) } }
#[verifier::opaque]
pub open spec fn flat(l: Lay) -> Seq<NDecl> decreases l, 0int { match l { Lay::Node(d, ls) => order(d, flats(ls, ls.len() as int)) } }
#[verifier::opaque]
pub open spec fn lay_texts(ls: Seq<Lay>, o: Options) -> Seq<Seq<char>> decreases ls, 0int { Seq::new(ls.len(), |i: int| if 0 <= i < ls.len() { lay_text(ls[i], o) } else { arbitrary() }) }
#[verifier::opaque]
pub open spec fn lay_text(l: Lay, o: Options) -> Seq<char> decreases l, 0int {
    match l { Lay::Node(d, ls) => {
        let k = lay_texts(ls, o);
        match d { Some(d) => if lang() is Py { joined(k.push(decl_text(d, o)), "\n\n"@) } else { joined(seq![decl_text(d, o)] + k, "\n\n"@) }, None => joined(k, "\n\n"@) }
    } }
}
pub open spec fn flatten(ls: Seq<Lay>) -> Seq<NDecl> { flats(ls, ls.len() as int) }
#[verifier::opaque]
pub open spec fn lay_all(ls: Seq<Lay>, o: Options) -> Seq<Seq<char>> { Seq::new(ls.len(), |i: int| lay_text(ls[i], o)) }
pub broadcast proof fn lemma_flat(d: Option<NDecl>, ls: Seq<Lay>) ensures #[trigger] flat(Lay::Node(d, ls)) == order(d, flatten(ls)) { reveal(flat); reveal_with_fuel(flats, 1); }
pub proof fn lemma_flats_push(ls: Seq<Lay>, l: Lay, n: int) requires 0 <= n <= ls.len(), ensures flats(ls.push(l), n) == flats(ls, n), decreases n { reveal(flats); reveal(flat); if n > 0 { lemma_flats_push(ls, l, n - 1); assert(ls.push(l)[n - 1] == ls[n - 1]); } }
pub broadcast proof fn lemma_flatten_push(ls: Seq<Lay>, l: Lay) ensures #[trigger] flatten(ls.push(l)) == flatten(ls) + flat(l) { let u = ls.push(l); lemma_flats_push(ls, l, ls.len() as int); reveal(flats); reveal(flat); assert(u[ls.len() as int] == l); }
pub broadcast proof fn lemma_flatten_none() ensures #[trigger] flatten(Seq::<Lay>::empty()) == Seq::<NDecl>::empty() { reveal(flats); reveal(flat); }
pub broadcast proof fn lemma_lay_all_len(ls: Seq<Lay>, o: Options) ensures (#[trigger] lay_all(ls, o)).len() == ls.len() { reveal(lay_all); }
pub broadcast proof fn lemma_lay_all_none(o: Options) ensures #[trigger] lay_all(Seq::<Lay>::empty(), o) == Seq::<Seq<char>>::empty() { reveal(lay_all); assert(lay_all(Seq::<Lay>::empty(), o) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_lay_all_push(ls: Seq<Lay>, l: Lay, o: Options) ensures #[trigger] lay_all(ls.push(l), o) == lay_all(ls, o).push(lay_text(l, o)) { reveal(lay_all); assert(lay_all(ls.push(l), o) =~= lay_all(ls, o).push(lay_text(l, o))); }
pub broadcast proof fn lemma_lay_group(ls: Seq<Lay>, o: Options) ensures #[trigger] lay_text(Lay::Node(None, ls), o) == joined(lay_all(ls, o), "\n\n"@)
{ reveal(lay_text); reveal(lay_texts); reveal(lay_all); assert(lay_texts(ls, o) =~= lay_all(ls, o)); }
pub open spec fn around(x: Seq<char>, none: bool, k: Seq<char>) -> Seq<char> { if none { x } else if lang() is Py { k + "\n\n"@ + x } else { x + "\n\n"@ + k } }
pub broadcast proof fn lemma_lay_decl(d: NDecl, ls: Seq<Lay>, o: Options)
    ensures #[trigger] lay_text(Lay::Node(Some(d), ls), o) == around(decl_text(d, o), ls.len() == 0, joined(lay_all(ls, o), "\n\n"@))
{
    reveal(lay_text); reveal(lay_texts); reveal(lay_all); assert(lay_texts(ls, o) =~= lay_all(ls, o));
    let (x, k) = (decl_text(d, o), lay_all(ls, o));
    if lang() is Py { lemma_joined_push(k, x, "\n\n"@); }
    else if ls.len() == 0 { assert(seq![x] + k =~= seq![x]); assert(joined(seq![x], "\n\n"@) == x); } else { lemma_joined_front(x, k, "\n\n"@); }
}
pub broadcast group group_lay { lemma_flat, lemma_flatten_push, lemma_flatten_none, lemma_lay_all_none, lemma_lay_all_push, lemma_lay_group, lemma_lay_decl, lemma_pairs_none, lemma_pairs_add, lemma_pairs_one, lemma_decls_none }

// ===== what the context has collected =====
#[verifier::opaque]
pub open spec fn cs(v: Seq<(Shape, String)>) -> Seq<(GShape, Seq<char>)> { Seq::new(v.len(), |i: int| (sv(v[i].0), v[i].1@)) }
pub broadcast proof fn lemma_cs_none() ensures #[trigger] cs(Seq::<(Shape, String)>::empty()) == Seq::<(GShape, Seq<char>)>::empty() { reveal(cs); assert(cs(Seq::<(Shape, String)>::empty()) =~= Seq::<(GShape, Seq<char>)>::empty()); }
pub broadcast proof fn lemma_cs_push(v: Seq<(Shape, String)>, x: (Shape, String)) ensures #[trigger] cs(v.push(x)) == cs(v).push((sv(x.0), x.1@)) { reveal(cs); assert(cs(v.push(x)) =~= cs(v).push((sv(x.0), x.1@))); }
pub open spec fn made_of(c: Ctxt) -> Seq<(GShape, Seq<char>)> { cs(created(c)) }
pub open spec fn taken(c: Ctxt, n: Seq<char>) -> bool { c.type_names.names().contains(n) }
pub open spec fn keeps(a: Ctxt, b: Ctxt) -> bool { a.options == b.options && a.type_names == b.type_names && created(a) == created(b) && within(have(a), have(b)) }
#[verifier::opaque]
pub open spec fn cinv(c: Ctxt) -> bool {
    let m = made_of(c);
    (forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Struct && taken(c, m[i].1)) && (forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() ==> m[i].1 != m[j].1)
}
pub broadcast proof fn lemma_cinv_keeps(a: Ctxt, b: Ctxt) requires #[trigger] keeps(a, b), cinv(a), ensures #[trigger] cinv(b) { reveal(cinv); }
pub open spec fn lays(l: Option<Lay>) -> Seq<NDecl> { match l { Some(l) => flat(l), None => Seq::empty() } }
// nothing new is called what was already taken
pub open spec fn fresh(c: Ctxt, ds: Seq<NDecl>) -> bool { forall|i: int| 0 <= i < ds.len() ==> !taken(c, (#[trigger] ds[i]).name) }
pub open spec fn grown(ds: Seq<NDecl>, c: Ctxt, e: Ctxt) -> bool {
    e.options == c.options && cinv(e) && made_of(e) == made_of(c) + pairs(ds) && (forall|n: Seq<char>| #[trigger] taken(c, n) ==> taken(e, n)) && decls_ok(ds, e.options, made_of(c)) && fresh(c, ds) && within(have(c), have(e)) && decls_stocked(ds, have(e), e.options)
}
// in Python a tuple of types that need no classes comes with an empty text
pub open spec fn code_of(l: Option<Lay>, code: Option<Seq<char>>, o: Options) -> bool { match (l, code) { (Some(l), Some(x)) => x == lay_text(l, o) && (lang() is Py ==> x.len() > 0), (None, Some(x)) => lang() is Py && x.len() == 0, (None, None) => true, _ => false } }
pub open spec fn txt(code: Option<String>) -> Option<Seq<char>> { match code { Some(x) => Some(x@), None => None } }
// what has been generated for a shape: its type t, written id, and the declarations in l
#[verifier::opaque]
pub open spec fn made(t: NTy, l: Option<Lay>, id: Seq<char>, code: Option<Seq<char>>, s: GShape, c: Ctxt, e: Ctxt) -> bool {
    let o = c.options;
    id == show(t, o) && code_of(l, code, o) && fits(t, s, o.use_default_for_missing_fields) && known(t, made_of(e)) && stocked(t, have(e)) && grown(lays(l), c, e)
}
pub open spec fn makes(r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) -> bool { exists|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, txt(r.1), s, c, e) }
pub proof fn lemma_grown_none(c: Ctxt, e: Ctxt) requires keeps(c, e), cinv(c), ensures grown(Seq::empty(), c, e)
{ reveal(cinv); broadcast use {lemma_decls_none, lemma_pairs_none}; lemma_decls_stocked_none(have(e), e.options); assert(made_of(c) + pairs(Seq::empty()) =~= made_of(c)); }
pub broadcast proof fn lemma_makes_flat(r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt)
    requires flat_shape(s), cinv(c), keeps(c, e), lang() is Py && flat_ty(s) is Any ==> have(e).contains("Any"@), r.0@ == show(flat_ty(s), c.options), r.1 is None, ensures #[trigger] makes(r, s, c, e)
{
    reveal(made); reveal(known); reveal(stocked);
    lemma_fits_flat(s, c.options.use_default_for_missing_fields);
    lemma_grown_none(c, e);
    let x = (flat_ty(s), None::<Lay>); assert(made(x.0, x.1, r.0@, txt(r.1), s, c, e));
}
pub broadcast proof fn lemma_makes_inv(r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) requires #[trigger] makes(r, s, c, e), ensures cinv(e), e.options == c.options { reveal(made); }
pub broadcast proof fn lemma_makes_same(r: (String, Option<String>), q: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) requires #[trigger] makes(q, s, c, e), r.0@ == q.0@, r.1 == q.1, ensures #[trigger] makes(r, s, c, e)
{ let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, txt(q.1), s, c, e); assert(made(w.0, w.1, r.0@, txt(r.1), s, c, e)); }
// what only touches the imports may come in between
pub broadcast proof fn lemma_makes_after(r: (String, Option<String>), s: GShape, c: Ctxt, d: Ctxt, e: Ctxt) requires #[trigger] makes(r, s, c, d), #[trigger] keeps(d, e), ensures makes(r, s, c, e)
{
    reveal(made); reveal(cinv);
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, txt(r.1), s, c, d);
    assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(d, n)); }
    lemma_stocked_more(w.0, have(d), have(e)); lemma_decls_stocked_more(lays(w.1), have(d), have(e), e.options);
    assert(grown(lays(w.1), c, e));
    assert(made(w.0, w.1, r.0@, txt(r.1), s, c, e));
}
pub broadcast proof fn lemma_makes_before(r: (String, Option<String>), s: GShape, c: Ctxt, d: Ctxt, e: Ctxt) requires #[trigger] keeps(c, d), #[trigger] makes(r, s, d, e), ensures makes(r, s, c, e)
{
    reveal(made); reveal(cinv);
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, txt(r.1), s, d, e);
    let ds = lays(w.1);
    assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(d, n)); }
    assert forall|i: int| 0 <= i < ds.len() implies !taken(c, (#[trigger] ds[i]).name) by { assert(!taken(d, ds[i].name)); }
    assert(grown(lays(w.1), c, e));
    assert(made(w.0, w.1, r.0@, txt(r.1), s, c, e));
}
pub proof fn lemma_makes_of(t: NTy, l: Option<Lay>, r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) requires made(t, l, r.0@, txt(r.1), s, c, e), ensures makes(r, s, c, e)
{ let w = (t, l); assert(made(w.0, w.1, r.0@, txt(r.1), s, c, e)); }
pub broadcast proof fn lemma_makes_list(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(q, *s, c, e), r.0@ == list_text(q.0@, *s is Optional || *s is Nullable), r.1 == q.1, ensures #[trigger] makes(r, GShape::VecT(s), c, e)
{
    broadcast use {group_show, group_known, group_stocked}; reveal(made);
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, txt(q.1), *s, c, e);
    let b = Box::new(w.0);
    lemma_fits_list(b, s, c.options.use_default_for_missing_fields);
    lemma_makes_of(NTy::List(b, *s is Optional || *s is Nullable), w.1, r, GShape::VecT(s), c, e);
}
pub broadcast proof fn lemma_makes_table(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(q, *s, c, e), r.0@ == table_text(q.0@), r.1 == q.1, ensures #[trigger] makes(r, GShape::MapT(s), c, e)
{
    broadcast use {group_show, group_known, group_stocked}; reveal(made);
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, txt(q.1), *s, c, e);
    let b = Box::new(w.0);
    lemma_fits_table(b, s, c.options.use_default_for_missing_fields);
    lemma_makes_of(NTy::Table(b), w.1, r, GShape::MapT(s), c, e);
}
pub broadcast proof fn lemma_makes_undef(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(q, *s, c, e), if c.options.use_default_for_missing_fields { r.0@ == q.0@ } else { r.0@ == undef_text(q.0@, c.options) && (lang() is Py ==> have(e).contains("Optional"@)) }, r.1 == q.1, ensures #[trigger] makes(r, GShape::Optional(s), c, e)
{
    broadcast use {group_show, group_known, group_stocked}; reveal(made);
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, txt(q.1), *s, c, e);
    let dflt = c.options.use_default_for_missing_fields;
    let b = Box::new(w.0);
    lemma_fits_undef(w.0, s, dflt);
    if dflt { lemma_makes_of(w.0, w.1, r, GShape::Optional(s), c, e); } else { lemma_makes_of(NTy::Undef(b), w.1, r, GShape::Optional(s), c, e); }
}
pub broadcast proof fn lemma_makes_nul(r: (String, Option<String>), q: (String, Option<String>), s: Box<GShape>, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(q, *s, c, e), if c.options.use_default_for_missing_fields && !(lang() is Ts) { r.0@ == q.0@ } else { r.0@ == nul_text(q.0@, c.options) && (lang() is Py ==> have(e).contains("Optional"@)) }, r.1 == q.1, ensures #[trigger] makes(r, GShape::Nullable(s), c, e)
{
    broadcast use {group_show, group_known, group_stocked}; reveal(made);
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, q.0@, txt(q.1), *s, c, e);
    let dflt = c.options.use_default_for_missing_fields;
    let b = Box::new(w.0);
    lemma_fits_nul(w.0, s, dflt);
    if dflt && !(lang() is Ts) { lemma_makes_of(w.0, w.1, r, GShape::Nullable(s), c, e); } else { lemma_makes_of(NTy::Nul(b), w.1, r, GShape::Nullable(s), c, e); }
}
pub broadcast proof fn lemma_makes_fold(r: (String, Option<String>), f: GShape, ss: Seq<GShape>, n: nat, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(r, GShape::VecT(Box::new(f)), c, e), folds(f, ss), ensures #[trigger] makes(r, GShape::Tuple(ss, n), c, e)
{
    reveal(made);
    let v = GShape::VecT(Box::new(f));
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, txt(r.1), v, c, e);
    lemma_fits_fold(w.0, f, ss, n, c.options.use_default_for_missing_fields);
    lemma_makes_of(w.0, w.1, r, GShape::Tuple(ss, n), c, e);
}
pub broadcast proof fn lemma_makes_count(r: (String, Option<String>), ss: Seq<GShape>, m: nat, n: nat, c: Ctxt, e: Ctxt)
    requires #[trigger] makes(r, GShape::Tuple(ss, m), c, e), ensures #[trigger] makes(r, GShape::Tuple(ss, n), c, e)
{
    reveal(made);
    let v = GShape::Tuple(ss, m);
    let w = choose|w: (NTy, Option<Lay>)| #[trigger] made(w.0, w.1, r.0@, txt(r.1), v, c, e);
    lemma_fits_tup2(w.0, v, GShape::Tuple(ss, n), c.options.use_default_for_missing_fields);
    lemma_makes_of(w.0, w.1, r, GShape::Tuple(ss, n), c, e);
}
// a type generated before serves again
pub proof fn lemma_makes_seen(r: (String, Option<String>), s: GShape, c: Ctxt, i: int)
    requires cinv(c), 0 <= i < created(c).len(), s is Struct, covers(sv(created(c)[i].0), s), r.0@ == created(c)[i].1@, r.1 is None, ensures makes(r, s, c, c)
{
    broadcast use group_show; reveal(made); reveal(known); reveal(stocked);
    let m = made_of(c);
    assert(m[i] == (sv(created(c)[i].0), r.0@) && m.len() == created(c).len()) by { reveal(cs); }
    assert(m[i].0 is Struct) by { reveal(cinv); }
    let t = NTy::Named(m[i].1, m[i].0);
    lemma_fits_named(t, s, c.options.use_default_for_missing_fields);
    lemma_grown_none(c, c);
    lemma_makes_of(t, None, r, s, c, c);
}
pub broadcast group group_makes { lemma_makes_flat, lemma_makes_inv, lemma_makes_same, lemma_makes_list, lemma_makes_undef, lemma_makes_nul, lemma_makes_table, lemma_makes_fold, lemma_makes_count }

// ===== several shapes after one another =====
#[verifier::opaque]
pub open spec fn batch(ts: Seq<NTy>, ls: Seq<Lay>, c: Ctxt, e: Ctxt) -> bool {
    known_all(ts, made_of(e)) && stocked_all(ts, have(e)) && grown(flatten(ls), c, e) && e.options == c.options && (lang() is Py ==> forall|i: int| 0 <= i < ls.len() ==> (#[trigger] lay_all(ls, c.options)[i]).len() > 0)
}
pub proof fn lemma_batch_none(c: Ctxt) requires cinv(c), ensures batch(Seq::empty(), Seq::empty(), c, c)
{ broadcast use group_lay; reveal(batch); lemma_grown_none(c, c); }
pub proof fn lemma_batch_keeps(ts: Seq<NTy>, ls: Seq<Lay>, c: Ctxt, d: Ctxt, e: Ctxt) requires batch(ts, ls, c, d), keeps(d, e), ensures batch(ts, ls, c, e)
{ reveal(batch); reveal(cinv); lemma_stocked_all_more(ts, have(d), have(e)); lemma_decls_stocked_more(flatten(ls), have(d), have(e), e.options); assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(d, n)); } }
pub proof fn lemma_batch_inv(ts: Seq<NTy>, ls: Seq<Lay>, c: Ctxt, e: Ctxt) requires batch(ts, ls, c, e), ensures cinv(e), e.options == c.options { reveal(batch); }
pub open spec fn more_lays(ls: Seq<Lay>, l: Option<Lay>) -> Seq<Lay> { match l { Some(l) => ls.push(l), None => ls } }
pub proof fn lemma_batch_step(ts: Seq<NTy>, ls: Seq<Lay>, t: NTy, l: Option<Lay>, id: Seq<char>, code: Option<Seq<char>>, s: GShape, c: Ctxt, d: Ctxt, e: Ctxt)
    requires batch(ts, ls, c, d), made(t, l, id, code, s, d, e), ensures batch(ts.push(t), more_lays(ls, l), c, e)
{
    broadcast use group_lay; reveal(batch); reveal(made);
    let (a, b, k, o) = (flatten(ls), lays(l), more_lays(ls, l), c.options);
    assert(flatten(k) =~= a + b);
    lemma_more_add(made_of(d), pairs(b));
    lemma_decls_add(a, b, o, made_of(c));
    lemma_known_all_more(ts, made_of(d), made_of(e));
    lemma_stocked_all_more(ts, have(d), have(e)); lemma_decls_stocked_more(a, have(d), have(e), o); lemma_decls_stocked_add(a, b, have(e), o);
    let u = ts.push(t);
    assert forall|j: int| 0 <= j < u.len() implies stocked(#[trigger] u[j], have(e)) by { if j < ts.len() { assert(u[j] == ts[j]); } }
    assert forall|j: int| 0 <= j < u.len() implies known(#[trigger] u[j], made_of(e)) by { if j < ts.len() { assert(u[j] == ts[j]); } }
    lemma_pairs_add(a, b);
    assert(made_of(e) =~= made_of(c) + pairs(a + b));
    let ds = a + b;
    assert forall|i: int| 0 <= i < ds.len() implies !taken(c, (#[trigger] ds[i]).name) by { if i < a.len() { assert(ds[i] == a[i]); } else { assert(ds[i] == b[i - a.len()]); assert(!taken(d, ds[i].name)); } }
    assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(d, n)); }
    if lang() is Py {
        let (x, y) = (lay_all(ls, o), lay_all(k, o));
        assert forall|i: int| 0 <= i < k.len() implies (#[trigger] y[i]).len() > 0 by { broadcast use lemma_lay_all_len; if i < ls.len() { assert(y[i] == x[i]); } }
    }
}
// the texts that are kept
pub open spec fn codes(t: Seq<Seq<char>>, code: Option<Seq<char>>) -> Seq<Seq<char>> { match code { Some(x) => if lang() is Py && x.len() == 0 { t } else { t.push(x) }, None => t } }
pub broadcast proof fn lemma_makes_within(r: (String, Option<String>), s: GShape, c: Ctxt, e: Ctxt) requires #[trigger] makes(r, s, c, e), ensures within(have(c), have(e)) { reveal(made); }
pub proof fn lemma_made_parts(t: NTy, l: Option<Lay>, id: Seq<char>, code: Option<Seq<char>>, s: GShape, c: Ctxt, e: Ctxt, ls: Seq<Lay>)
    requires made(t, l, id, code, s, c, e), ensures id == show(t, c.options), fits(t, s, c.options.use_default_for_missing_fields), cinv(e), e.options == c.options, within(have(c), have(e)), lay_all(more_lays(ls, l), c.options) == codes(lay_all(ls, c.options), code)
{ broadcast use group_lay; reveal(made); }
pub proof fn lemma_joined_some(p: Seq<Seq<char>>, sep: Seq<char>) requires p.len() > 0, p.last().len() > 0, ensures joined(p, sep).len() > 0 {}
pub proof fn lemma_makes_tuple(r: (String, Option<String>), ts: Seq<NTy>, ls: Seq<Lay>, ss: Seq<GShape>, c: Ctxt, e: Ctxt)
    requires batch(ts, ls, c, e), ts.len() == ss.len(), lang() is Kt ==> 2 <= ss.len() <= 3, forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] ts[j], ss[j], c.options.use_default_for_missing_fields),
        r.0@ == tup_text(ts.len(), joined(shows(ts, c.options), ", "@)), r.1 is Some, r.1->Some_0@ == joined(lay_all(ls, c.options), "\n\n"@),
    ensures makes(r, GShape::Tuple(ss, 0), c, e)
{
    broadcast use {group_show, group_lay, lemma_lay_all_len, lemma_joined_none}; reveal(batch); reveal(made); reveal_with_fuel(known, 2); reveal_with_fuel(stocked, 2);
    let t = NTy::Tup(ts);
    let l = if lang() is Py && ls.len() == 0 { None } else { Some(Lay::Node(None, ls)) };
    assert(t->Tup_0 == ts);
    lemma_fits_tup(t, ss, 0, c.options.use_default_for_missing_fields);
    lemma_flat(None, ls);
    if ls.len() == 0 { assert(ls =~= Seq::<Lay>::empty()); } else if lang() is Py { let x = lay_all(ls, c.options); assert(x[ls.len() - 1].len() > 0); assert(x.last() == x[ls.len() - 1]); lemma_joined_some(x, "\n\n"@); }
    assert(lays(l) =~= flatten(ls));
    lemma_makes_of(t, l, r, GShape::Tuple(ss, 0), c, e);
}
// field names given out so far
pub open spec fn names_in(fs: Seq<NField>, used: Set<Seq<char>>) -> bool { forall|j: int| 0 <= j < fs.len() ==> used.contains((#[trigger] fs[j]).name) }
pub proof fn lemma_fields_ok_step(fs: Seq<NField>, f: NField, ss: Seq<(Seq<char>, GShape)>, used: Set<Seq<char>>, o: Options)
    requires fields_ok(fs, ss, o), fs.len() < ss.len(), nfield_ok(f, ss[fs.len() as int].0, ss[fs.len() as int].1, o), !(lang() is Ts) ==> names_in(fs, used) && !used.contains(f.name),
    ensures fields_ok(fs.push(f), ss, o), !(lang() is Ts) ==> names_in(fs.push(f), used.insert(f.name)), tys(fs.push(f)) == tys(fs).push(f.ty)
{
    reveal(fields_ok); let g = fs.push(f);
    assert forall|j: int| 0 <= j < g.len() implies nfield_ok(#[trigger] g[j], ss[j].0, ss[j].1, o) by { if j < fs.len() { assert(g[j] == fs[j]); } }
    if !(lang() is Ts) {
        assert forall|i: int, j: int| #![trigger g[i], g[j]] 0 <= i < j < g.len() implies g[i].name != g[j].name by { if j < fs.len() { assert(g[j] == fs[j] && g[i] == fs[i]); } else { assert(g[i] == fs[i]); assert(used.contains(fs[i].name)); } }
    }
    assert(tys(g) =~= tys(fs).push(f.ty));
}
pub proof fn lemma_fields_none(ss: Seq<(Seq<char>, GShape)>, o: Options) ensures fields_ok(Seq::empty(), ss, o), tys(Seq::empty()) == Seq::<NTy>::empty() { reveal(fields_ok); assert(tys(Seq::empty()) =~= Seq::<NTy>::empty()); }
// the name is taken (and, except in Python, the shape noted) before the fields are generated
pub open spec fn noted(c: Ctxt, d: Ctxt, n: Seq<char>, s: GShape) -> bool {
    d.options == c.options && made_of(d) == (if lang() is Py { made_of(c) } else { made_of(c).push((s, n)) }) && !taken(c, n) && d.type_names.names() == c.type_names.names().insert(n) && within(have(c), have(d))
}
pub proof fn lemma_cinv_push(m: Seq<(GShape, Seq<char>)>, d: Ctxt, n: Seq<char>, s: GShape)
    requires s is Struct, taken(d, n), made_of(d) == m.push((s, n)), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Struct && taken(d, m[i].1) && m[i].1 != n, forall|i: int, j: int| #![trigger m[i], m[j]] 0 <= i < j < m.len() ==> m[i].1 != m[j].1,
    ensures cinv(d)
{
    reveal(cinv); let b = made_of(d);
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 is Struct && taken(d, b[i].1) by { if i < m.len() { assert(b[i] == m[i]); } }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies b[i].1 != b[j].1 by { assert(b[i] == m[i]); if j < m.len() { assert(b[j] == m[j]); } }
}
pub proof fn lemma_noted(c: Ctxt, d: Ctxt, n: Seq<char>, s: GShape) requires noted(c, d, n, s), cinv(c), s is Struct, ensures cinv(d)
{ reveal(cinv); let m = made_of(c); assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0 is Struct && taken(d, m[i].1) && m[i].1 != n by { assert(taken(c, m[i].1)); } if !(lang() is Py) { lemma_cinv_push(m, d, n, s); } }
// e has the declaration noted, at the latest now
pub open spec fn finished(c2: Ctxt, e: Ctxt, n: Seq<char>, s: GShape) -> bool { e.options == c2.options && e.type_names == c2.type_names && within(have(c2), have(e)) && made_of(e) == (if lang() is Py { made_of(c2).push((s, n)) } else { made_of(c2) }) }
pub proof fn lemma_makes_decl(r: (String, Option<String>), d: NDecl, ls: Seq<Lay>, c: Ctxt, c1: Ctxt, c2: Ctxt, e: Ctxt)
    requires cinv(c), noted(c, c1, d.name, d.shape), batch(tys(d.fields), ls, c1, c2), finished(c2, e, d.name, d.shape), decl_ok(d, c.options), class_needs(have(e), c.options), fields_stocked(d.fields, have(e), c.options),
        r.0@ == d.name, r.1 is Some, r.1->Some_0@ == lay_text(Lay::Node(Some(d), ls), c.options), lang() is Py ==> r.1->Some_0@.len() > 0,
    ensures makes(r, d.shape, c, e)
{
    broadcast use {group_show, group_lay}; reveal(batch); reveal(made); reveal(known); reveal(covers);
    let (t, l, o) = (NTy::Named(d.name, d.shape), Some(Lay::Node(Some(d), ls)), c.options);
    let k = flatten(ls);
    let ds = order(Some(d), k);
    let (m, x) = (made_of(c), (d.shape, d.name));
    lemma_flat(Some(d), ls); lemma_pairs_one(d); lemma_pairs_add(seq![d], k); lemma_pairs_add(k, seq![d]);
    assert(k.push(d) =~= k + seq![d]);
    assert(made_of(e) =~= m + pairs(ds));
    if lang() is Py { assert(made_of(e).last() == x); } else { assert(made_of(e)[m.len() as int] == x); }
    assert(made_of(e).contains(x));
    lemma_decls_order(d, k, o, m);
    lemma_fits_named(t, d.shape, o.use_default_for_missing_fields);
    lemma_stocked_all_more(tys(d.fields), have(c2), have(e)); lemma_decls_stocked_more(k, have(c2), have(e), o);
    assert(decls_stocked(seq![d], have(e), o)) by { reveal(decls_stocked); }
    lemma_decls_stocked_add(seq![d], k, have(e), o); lemma_decls_stocked_add(k, seq![d], have(e), o);
    assert(stocked(t, have(e))) by { reveal(stocked); }
    assert forall|i: int| 0 <= i < ds.len() implies !taken(c, (#[trigger] ds[i]).name) by { assert(forall|j: int| 0 <= j < k.len() ==> !taken(c1, (#[trigger] k[j]).name)); if lang() is Py { if i < k.len() { assert(ds[i] == k[i]); } } else if i > 0 { assert(ds[i] == k[i - 1]); } }
    assert forall|n: Seq<char>| #[trigger] taken(c, n) implies taken(e, n) by { assert(taken(c1, n)); assert(taken(c2, n)); }
    if lang() is Py {
        reveal(cinv); reveal(pairs);
        let p = made_of(c2);
        assert(p == m + pairs(k));
        assert(taken(c1, d.name)); assert(taken(c2, d.name));
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 is Struct && taken(e, p[i].1) && p[i].1 != d.name by {
            assert(taken(c2, p[i].1));
            if i < m.len() { assert(p[i] == m[i]); assert(taken(c, m[i].1)); } else { let j = i - m.len(); assert(p[i] == pairs(k)[j]); assert(!taken(c1, k[j].name)); }
        }
        lemma_cinv_push(p, e, d.name, d.shape);
    } else { assert(cinv(e)) by { reveal(cinv); } }
    lemma_makes_of(t, l, r, d.shape, c, e);
}
// ===== a whole file =====
pub open spec fn roots(l: Option<Lay>, o: Options) -> Seq<char> { match l { Some(l) => lay_text(l, o), None => Seq::empty() } }
pub open spec fn distinct(ds: Seq<NDecl>) -> bool { forall|i: int, j: int| #![trigger ds[i], ds[j]] 0 <= i < j < ds.len() ==> ds[i].name != ds[j].name }
pub struct NFile { pub t: NTy, pub l: Option<Lay>, pub head: Seq<char> }
// the root type t and the declarations of l fit the shape s and accept what it admits; no declaration takes a name of its own that own_name reserves, or the alias
#[verifier::opaque]
pub open spec fn holds(t: NTy, l: Option<Lay>, name: Seq<char>, s: GShape, o: Options) -> bool {
    let ds = lays(l);
    fits(t, s, o.use_default_for_missing_fields) && known(t, pairs(ds)) && decls_ok(ds, o, Seq::empty()) && distinct(ds)
    && (forall|i: int| 0 <= i < ds.len() ==> good_type((#[trigger] ds[i]).name) && (own_name(ds[i].name) ==> ds[i].name == name) && (alias_free(s) && ds[i].name == name ==> show(t, o) == name))
    && (!o.use_default_for_missing_fields ==> forall|g: GVal| #[trigger] admits(s, Some(g)) ==> nacc(t, g, ds, o))
}
pub proof fn lemma_file(t: NTy, l: Option<Lay>, id: Seq<char>, code: Option<Seq<char>>, s: GShape, c: Ctxt, e: Ctxt, name: Seq<char>)
    requires made(t, l, id, code, s, c, e), gwf(s), created(c).len() == 0, forall|n: Seq<char>| own_name(n) && n != name ==> #[trigger] taken(c, n), alias_free(s) ==> taken(c, name) || id == name,
    ensures holds(t, l, name, s, c.options), stocked(t, have(e)), decls_stocked(lays(l), have(e), c.options), id == show(t, c.options), match code { Some(x) => x, None => Seq::empty() } == roots(l, c.options)
{
    broadcast use {group_show, group_lay, lemma_cs_none}; reveal(made); reveal(holds); reveal(decls_ok); reveal(cinv); reveal(pairs);
    let (ds, o, m) = (lays(l), c.options, made_of(e));
    assert(created(c) =~= Seq::empty());
    assert(m =~= pairs(ds));
    assert(made_of(c) =~= Seq::empty());
    assert forall|i: int, j: int| #![trigger ds[i], ds[j]] 0 <= i < j < ds.len() implies ds[i].name != ds[j].name by { assert(m[i].1 == ds[i].name && m[j].1 == ds[j].name); }
    assert forall|i: int| 0 <= i < ds.len() implies good_type((#[trigger] ds[i]).name) && (own_name(ds[i].name) ==> ds[i].name == name) && (alias_free(s) && ds[i].name == name ==> show(t, o) == name) by { assert(decl_ok(ds[i], o)); assert(!taken(c, ds[i].name)); }
    if !o.use_default_for_missing_fields { assert forall|g: GVal| #[trigger] admits(s, Some(g)) implies nacc(t, g, ds, o) by { lemma_nacc(t, s, g, ds, o); } }
}

// ===== the values a type accepts =====
// known finding: in TypeScript a property of type any is read as one that may be missing
pub open spec fn lax(t: NTy) -> bool decreases t { match t { NTy::Any | NTy::User(_) => true, NTy::Undef(_) => !(lang() is Ts), NTy::Nul(e) => !(lang() is Ts) || lax(*e), _ => false } }
pub open spec fn may_miss(f: NField) -> bool { f.opt || lax(f.ty) }
#[verifier::opaque]
pub open spec fn nacc(t: NTy, g: GVal, ds: Seq<NDecl>, o: Options) -> bool decreases g, t {
    match t {
        NTy::Any | NTy::User(_) => true,
        NTy::Bool => g is Bool, NTy::Str => g is Str, NTy::Int => g is Int, NTy::Num => g is Int || g is Float,
        NTy::Undef(e) => (g is Null && !(lang() is Ts)) || nacc(*e, g, ds, o),
        NTy::Nul(e) => g is Null || nacc(*e, g, ds, o),
        NTy::List(e, _) => match g { GVal::Arr(a) => forall|i: int| 0 <= i < a.len() ==> nacc(*e, #[trigger] a[i], ds, o), _ => false },
        NTy::Tup(ts) => match g { GVal::Arr(a) => a.len() == ts.len() && forall|i: int| #![trigger a[i]] #![trigger ts[i]] 0 <= i < a.len() && i < ts.len() ==> nacc(ts[i], a[i], ds, o), _ => false },
        NTy::Table(e) => match g { GVal::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> nacc(*e, m[k], ds, o), _ => false },
        NTy::Blank => match g { GVal::Obj(m) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> !(m[k] is Null), _ => false },
        NTy::Named(n, _) => match g {
            GVal::Obj(m) => exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).name == n
                && (forall|j: int| #![trigger ds[i].fields[j]] 0 <= j < ds[i].fields.len() ==> if m.dom().contains(ds[i].fields[j].key) { nacc(ds[i].fields[j].ty, m[ds[i].fields[j].key], ds, o) } else { may_miss(ds[i].fields[j]) }),
            _ => false },
    }
}
pub proof fn lemma_lax(t: NTy, s: GShape) requires fits(t, s, false), admits(s, None), gwf(s), lang() is Ts ==> !(s is Optional), ensures lax(t), decreases s
{ reveal(fits); if s is Nullable { if lang() is Ts { lemma_lax(*t->Nul_0, *s->Nullable_0); } } }
pub proof fn lemma_bare(s: GShape) requires gwf(s), ensures gwf(bare(s)), forall|g: GVal| admits(s, Some(g)) ==> #[trigger] admits(bare(s), Some(g)) { reveal_with_fuel(gwf, 2); reveal_with_fuel(admits, 2); }
pub proof fn lemma_nacc(t: NTy, s: GShape, g: GVal, ds: Seq<NDecl>, o: Options)
    requires fits(t, s, false), gwf(s), admits(s, Some(g)), known(t, pairs(ds)), decls_ok(ds, o, Seq::empty()), !o.use_default_for_missing_fields,
    ensures nacc(t, g, ds, o), decreases g, t, s
{
    reveal_with_fuel(fits, 2); reveal_with_fuel(known, 2); reveal_with_fuel(nacc, 2);
    match s {
        GShape::Null | GShape::Any | GShape::Bottom | GShape::Bool | GShape::StringT | GShape::Integer | GShape::Floating | GShape::Opaque(_) => {},
        GShape::VecT(e) => { let a = g->Arr_0; assert forall|i: int| 0 <= i < a.len() implies nacc(*t->List_0, #[trigger] a[i], ds, o) by { assert(admits(*e, Some(a[i]))); lemma_nacc(*t->List_0, *e, a[i], ds, o); } },
        GShape::MapT(e) => { let m = g->Obj_0; assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies nacc(*t->Table_0, m[k], ds, o) by { assert(admits(*e, Some(m[k]))); lemma_nacc(*t->Table_0, *e, m[k], ds, o); } },
        GShape::Optional(e) => { lemma_nacc(*t->Undef_0, *e, g, ds, o); },
        GShape::Nullable(e) => { if !(g is Null) { lemma_nacc(*t->Nul_0, *e, g, ds, o); } },
        GShape::Tuple(ss, _) => {
            let a = g->Arr_0;
            if t is List {
                let f = choose|f: GShape| #[trigger] folds(f, ss) && fits(*t->List_0, f, false);
                assert forall|j: int| 0 <= j < a.len() implies nacc(*t->List_0, #[trigger] a[j], ds, o) by { assert(admits(ss[j], Some(a[j]))); assert(covers(f, ss[j])); reveal(covers); lemma_nacc(*t->List_0, f, a[j], ds, o); }
            } else {
                let ts = t->Tup_0;
                assert forall|i: int| #![trigger a[i]] #![trigger ts[i]] 0 <= i < a.len() && i < ts.len() implies nacc(ts[i], a[i], ds, o) by { assert(admits(ss[i], Some(a[i]))); assert(fits(ts[i], ss[i], false)); lemma_nacc(ts[i], ss[i], a[i], ds, o); }
            }
        },
        GShape::Struct(fs0) => {
            if t is Blank {
                let m = g->Obj_0;
                assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies !(m[k] is Null) by { assert(has_key(fs0, k)); }
            } else {
                let (n, u) = (t->Named_0, t->Named_1);
                reveal(covers); assert(admits(u, Some(g)));
                reveal(pairs); reveal(decls_ok);
                let i = choose|i: int| 0 <= i < pairs(ds).len() && pairs(ds)[i] == (u, n);
                assert(pairs(ds)[i] == (ds[i].shape, ds[i].name));
                let d = ds[i];
                assert(decl_ok(d, o) && known_all(tys(d.fields), scope(ds, i, Seq::empty())));
                lemma_scope(ds, i);
                lemma_known_all_more(tys(d.fields), scope(ds, i, Seq::empty()), pairs(ds));
                let (fs, m) = (u->Struct_0, g->Obj_0);
                reveal(fields_ok);
                assert forall|j: int| #![trigger d.fields[j]] 0 <= j < d.fields.len() implies if m.dom().contains(d.fields[j].key) { nacc(d.fields[j].ty, m[d.fields[j].key], ds, o) } else { may_miss(d.fields[j]) } by {
                    let f = d.fields[j];
                    let (k, s1) = fs[j];
                    assert(nfield_ok(f, fs[j].0, fs[j].1, o));
                    assert(admits(fs[j].1, lookup(m, fs[j].0)));
                    assert(gwf(fs[j].1));
                    assert(known(tys(d.fields)[j], pairs(ds)));
                    lemma_bare(s1);
                    let v = bare(s1);
                    if m.dom().contains(k) { assert(admits(v, Some(m[k]))); if lang() is Ts { lemma_nacc(f.ty, v, m[k], ds, o); } else { lemma_nacc(f.ty, s1, m[k], ds, o); } }
                    else if !f.opt { lemma_lax(f.ty, s1); }
                }
                assert(ds[i].name == n);
            }
        },
    }
}
pub proof fn lemma_scope(ds: Seq<NDecl>, i: int) requires 0 <= i < ds.len(), ensures more(scope(ds, i, Seq::empty()), pairs(ds))
{
    reveal(pairs); let b = scope(ds, i, Seq::empty());
    assert(Seq::<(GShape, Seq<char>)>::empty() + pairs(ds) =~= pairs(ds));
    if lang() is Py { assert forall|x: (GShape, Seq<char>)| b.contains(x) implies #[trigger] pairs(ds).contains(x) by { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert(pairs(ds)[j] == x); } }
}
//@ end
