//@ include typescript.vx assume
//@ include docs.vx
//@ include folding.vx
//@ include text.vx
//@ include options_type.vx
//@ rename-path shape::fold_shapes => vx_fold_shapes
//@ rename-method len => vx_len
//@ raw
impl<V> VxLen for LinkedHashMap<String, V> { open spec fn vlen(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
// a &LinkedHashMap is iterated in order
pub uninterp spec fn entry_refs<'a, V>(m: &'a LinkedHashMap<String, V>) -> Seq<(&'a String, &'a V)>;
#[verifier::external_body] pub broadcast proof fn axiom_entry_refs<'a, V>(m: &'a LinkedHashMap<String, V>)
    ensures #![trigger entry_refs(m)] entry_refs(m).len() == m@.len(), forall|i: int| 0 <= i < m@.len() ==> (#[trigger] entry_refs(m)[i]).0@ == m@[i].0 && *entry_refs(m)[i].1 == m@[i].1 {}
impl<'a, V> VxIntoIter<(&'a String, &'a V)> for &'a LinkedHashMap<String, V> {
    open spec fn vseq(&self) -> Seq<(&'a String, &'a V)> { entry_refs(*self) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(&'a String, &'a V)>) { unimplemented!() }
}
// ===== types without names: TypeScript type aliases, and Zod schemas, which are read the same way =====
pub enum STy { Any, Bool, Str, Num, User(Seq<char>), List(Box<STy>), Table(Box<STy>), Tup(Seq<STy>), Undef(Box<STy>), Nul(Box<STy>), Obj(Seq<SField>) }
// a property: its key, how the key is written, whether it is marked as one that may be absent, and its type
pub struct SField { pub key: Seq<char>, pub word: Seq<char>, pub opt: bool, pub ty: STy }
pub ghost struct Cfg { pub dflt: bool, pub lim: Option<int>, pub z: bool }
// a property name is an identifier, or a string literal
pub open spec fn key_word(word: Seq<char>, key: Seq<char>) -> bool { (ts_ident(word) && word == key) || exists|e: Seq<char>| word == "\""@ + e + "\""@ && #[trigger] unesc(e) == Some(key) }
#[verifier::opaque]
pub open spec fn show(t: STy, d: nat, z: bool) -> Seq<char> decreases t, 0int {
    match t {
        STy::Any => if z { "z.unknown()"@ } else { "any"@ }, STy::Bool => if z { "z.boolean()"@ } else { "boolean"@ }, STy::Str => if z { "z.string()"@ } else { "string"@ }, STy::Num => if z { "z.number()"@ } else { "number"@ },
        STy::User(n) => n,
        STy::List(e) => if z { show(*e, d, z) + ".array()"@ } else { "Array<"@ + show(*e, d, z) + ">"@ },
        STy::Table(e) => if z { "z.record(z.string(), "@ + show(*e, d, z) + ")"@ } else { "Record<string, "@ + show(*e, d, z) + ">"@ },
        STy::Undef(e) => if z { show(*e, d, z) + ".optional()"@ } else { show(*e, d, z) + " | undefined"@ },
        STy::Nul(e) => if z { show(*e, d, z) + ".nullable()"@ } else { show(*e, d, z) + " | null"@ },
        STy::Tup(ts) => if z { "z.tuple(["@ + joined(showv(ts, d, z), ", "@) + "])"@ } else { "["@ + joined(showv(ts, d, z), ", "@) + "]"@ },
        STy::Obj(fs) => (if z { "z.object({\n"@ } else { "{\n"@ }) + (if fs.len() > 0 { joined(linev(fs, d, z), "\n"@) + "\n"@ } else { Seq::empty() }) + rep("    "@, (d - 1) as nat) + (if z { "})"@ } else { "}"@ }),
    }
}
#[verifier::opaque]
pub open spec fn showv(ts: Seq<STy>, d: nat, z: bool) -> Seq<Seq<char>> decreases ts, 0int { Seq::new(ts.len(), |i: int| if 0 <= i < ts.len() { show(ts[i], d, z) } else { arbitrary() }) }
#[verifier::opaque]
pub open spec fn linev(fs: Seq<SField>, d: nat, z: bool) -> Seq<Seq<char>> decreases fs, 0int { Seq::new(fs.len(), |i: int| if 0 <= i < fs.len() { line(fs[i], d, z) } else { arbitrary() }) }
#[verifier::opaque]
pub open spec fn line(f: SField, d: nat, z: bool) -> Seq<char> decreases f, 0int { rep("    "@, d) + f.word + (if f.opt { "?"@ } else { Seq::empty() }) + ": "@ + show(f.ty, d + 1, z) + (if z { ","@ } else { ";"@ }) }
// twins of showv and linev to reason with
#[verifier::opaque]
pub open spec fn shows(ts: Seq<STy>, d: nat, z: bool) -> Seq<Seq<char>> { Seq::new(ts.len(), |i: int| show(ts[i], d, z)) }
#[verifier::opaque]
pub open spec fn lines(fs: Seq<SField>, d: nat, z: bool) -> Seq<Seq<char>> { Seq::new(fs.len(), |i: int| line(fs[i], d, z)) }
pub proof fn lemma_show_flat()
    ensures forall|d: nat, z: bool| #[trigger] show(STy::Any, d, z) == (if z { "z.unknown()"@ } else { "any"@ }), forall|d: nat, z: bool| #[trigger] show(STy::Bool, d, z) == (if z { "z.boolean()"@ } else { "boolean"@ }),
        forall|d: nat, z: bool| #[trigger] show(STy::Str, d, z) == (if z { "z.string()"@ } else { "string"@ }), forall|d: nat, z: bool| #[trigger] show(STy::Num, d, z) == (if z { "z.number()"@ } else { "number"@ }),
{ reveal(show); }
pub broadcast proof fn lemma_show_user(n: Seq<char>, d: nat, z: bool) ensures #[trigger] show(STy::User(n), d, z) == n { reveal(show); }
pub broadcast proof fn lemma_show_list(e: Box<STy>, d: nat, z: bool) ensures #[trigger] show(STy::List(e), d, z) == (if z { show(*e, d, z) + ".array()"@ } else { "Array<"@ + show(*e, d, z) + ">"@ }) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_table(e: Box<STy>, d: nat, z: bool) ensures #[trigger] show(STy::Table(e), d, z) == (if z { "z.record(z.string(), "@ + show(*e, d, z) + ")"@ } else { "Record<string, "@ + show(*e, d, z) + ">"@ }) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_undef(e: Box<STy>, d: nat, z: bool) ensures #[trigger] show(STy::Undef(e), d, z) == (if z { show(*e, d, z) + ".optional()"@ } else { show(*e, d, z) + " | undefined"@ }) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_nul(e: Box<STy>, d: nat, z: bool) ensures #[trigger] show(STy::Nul(e), d, z) == (if z { show(*e, d, z) + ".nullable()"@ } else { show(*e, d, z) + " | null"@ }) { reveal_with_fuel(show, 2); }
pub broadcast proof fn lemma_show_tup(ts: Seq<STy>, d: nat, z: bool) ensures #[trigger] show(STy::Tup(ts), d, z) == (if z { "z.tuple(["@ + joined(shows(ts, d, z), ", "@) + "])"@ } else { "["@ + joined(shows(ts, d, z), ", "@) + "]"@ })
{ reveal(show); reveal(showv); reveal(shows); reveal(line); reveal(linev); assert(showv(ts, d, z) =~= shows(ts, d, z)); }
pub broadcast proof fn lemma_show_obj(fs: Seq<SField>, d: nat, z: bool)
    ensures #[trigger] show(STy::Obj(fs), d, z) == (if z { "z.object({\n"@ } else { "{\n"@ }) + (if fs.len() > 0 { joined(lines(fs, d, z), "\n"@) + "\n"@ } else { Seq::empty() }) + rep("    "@, (d - 1) as nat) + (if z { "})"@ } else { "}"@ })
{ reveal(show); reveal(showv); reveal(lines); reveal(line); reveal(linev); assert(linev(fs, d, z) =~= lines(fs, d, z)); }
pub broadcast proof fn lemma_shows_none(d: nat, z: bool) ensures #[trigger] shows(Seq::<STy>::empty(), d, z) == Seq::<Seq<char>>::empty() { reveal(shows); assert(shows(Seq::<STy>::empty(), d, z) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_shows_push(ts: Seq<STy>, t: STy, d: nat, z: bool) ensures #[trigger] shows(ts.push(t), d, z) == shows(ts, d, z).push(show(t, d, z)) { reveal(shows); assert(shows(ts.push(t), d, z) =~= shows(ts, d, z).push(show(t, d, z))); }
pub broadcast proof fn lemma_lines_none(d: nat, z: bool) ensures #[trigger] lines(Seq::<SField>::empty(), d, z) == Seq::<Seq<char>>::empty() { reveal(lines); assert(lines(Seq::<SField>::empty(), d, z) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_lines_push(fs: Seq<SField>, f: SField, d: nat, z: bool) ensures #[trigger] lines(fs.push(f), d, z) == lines(fs, d, z).push(line(f, d, z)) { reveal(lines); assert(lines(fs.push(f), d, z) =~= lines(fs, d, z).push(line(f, d, z))); }
pub broadcast group group_sty { lemma_show_user, lemma_show_list, lemma_show_table, lemma_show_undef, lemma_show_nul, lemma_show_tup, lemma_show_obj, lemma_shows_none, lemma_shows_push, lemma_lines_none, lemma_lines_push }

// ===== what a type says about a shape =====
pub open spec fn bare(s: GShape) -> GShape { match s { GShape::Optional(e) => *e, _ => s } }
pub open spec fn vals(fs: Seq<(Seq<char>, GShape)>) -> Seq<GShape> { Seq::new(fs.len(), |i: int| fs[i].1) }
pub open spec fn over(n: int, c: Cfg) -> bool { match c.lim { Some(l) => n > l, None => false } }
#[verifier::opaque]
pub open spec fn fits(t: STy, s: GShape, c: Cfg) -> bool decreases t, s {
    match s {
        GShape::Null | GShape::Any | GShape::Bottom => t is Any,
        GShape::Bool => t is Bool, GShape::StringT => t is Str, GShape::Integer | GShape::Floating => t is Num,
        GShape::Opaque(n) => t == STy::User(n),
        GShape::VecT(e) => t is List && fits(*t->List_0, *e, c),
        GShape::MapT(e) => t is Table && fits(*t->Table_0, bare(*e), c),
        GShape::Tuple(ss, _) => (t is List && exists|f: GShape| #[trigger] folds(f, ss) && fits(*t->List_0, f, c))
            || (t is Tup && t->Tup_0.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] t->Tup_0[j], ss[j], c)),
        GShape::Struct(fs) => if over(fs.len() as int, c) { t is Table && exists|f: GShape| #[trigger] folds(f, vals(fs)) && fits(*t->Table_0, bare(f), c) }
            else { t is Obj && t->Obj_0.len() == fs.len() && forall|j: int| 0 <= j < fs.len() ==> (#[trigger] t->Obj_0[j]).key == fs[j].0 && key_word(t->Obj_0[j].word, fs[j].0)
                && (if c.z { !t->Obj_0[j].opt && fits(t->Obj_0[j].ty, fs[j].1, c) } else { t->Obj_0[j].opt == (fs[j].1 is Optional) && fits(t->Obj_0[j].ty, bare(fs[j].1), c) }) },
        GShape::Optional(e) => if c.dflt { fits(t, *e, c) } else { t is Undef && fits(*t->Undef_0, *e, c) },
        GShape::Nullable(e) => if c.dflt { fits(t, *e, c) } else { t is Nul && fits(*t->Nul_0, *e, c) },
    }
}
pub open spec fn field_fits(f: SField, k: Seq<char>, s: GShape, c: Cfg) -> bool {
    f.key == k && key_word(f.word, k) && (if c.z { !f.opt && fits(f.ty, s, c) } else { f.opt == (s is Optional) && fits(f.ty, bare(s), c) })
}
pub broadcast proof fn lemma_fits_flat(t: STy, s: GShape, c: Cfg)
    requires match s { GShape::Null | GShape::Any | GShape::Bottom => t is Any, GShape::Bool => t is Bool, GShape::StringT => t is Str, GShape::Integer | GShape::Floating => t is Num, GShape::Opaque(n) => t == STy::User(n), _ => false }
    ensures #[trigger] fits(t, s, c) { reveal(fits); }
pub broadcast proof fn lemma_fits_list(t: Box<STy>, e: Box<GShape>, c: Cfg) requires fits(*t, *e, c), ensures #[trigger] fits(STy::List(t), GShape::VecT(e), c) { reveal_with_fuel(fits, 2); }
pub broadcast proof fn lemma_fits_table(t: Box<STy>, e: Box<GShape>, c: Cfg) requires fits(*t, bare(*e), c), ensures #[trigger] fits(STy::Table(t), GShape::MapT(e), c) { reveal_with_fuel(fits, 2); }
pub proof fn lemma_fits_fold(t: STy, f: GShape, ss: Seq<GShape>, n: nat, c: Cfg)
    requires fits(t, GShape::VecT(Box::new(f)), c), folds(f, ss), ensures fits(t, GShape::Tuple(ss, n), c)
{ reveal_with_fuel(fits, 2); let s = GShape::VecT(Box::new(f)); assert(*s->VecT_0 == f); let u = GShape::Tuple(ss, n); assert(u->Tuple_0 == ss); assert(folds(f, u->Tuple_0)); }
pub proof fn lemma_fits_map(t: STy, f: GShape, fs: Seq<(Seq<char>, GShape)>, c: Cfg)
    requires fits(t, GShape::MapT(Box::new(f)), c), folds(f, vals(fs)), over(fs.len() as int, c), ensures fits(t, GShape::Struct(fs), c)
{ reveal_with_fuel(fits, 2); let s = GShape::MapT(Box::new(f)); assert(*s->MapT_0 == f); let u = GShape::Struct(fs); assert(u->Struct_0 == fs); assert(folds(f, vals(u->Struct_0))); }
pub proof fn lemma_fits_tup(ts: Seq<STy>, ss: Seq<GShape>, n: nat, c: Cfg)
    requires ts.len() == ss.len(), forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] ts[j], ss[j], c), ensures fits(STy::Tup(ts), GShape::Tuple(ss, n), c)
{ reveal_with_fuel(fits, 2); let s = GShape::Tuple(ss, n); let t = STy::Tup(ts); assert(s->Tuple_0 == ss && t->Tup_0 == ts); }
pub proof fn lemma_fits_tup2(t: STy, s: GShape, u: GShape, c: Cfg) requires fits(t, s, c), s is Tuple, u is Tuple, s->Tuple_0 == u->Tuple_0, ensures fits(t, u, c) { reveal(fits); }
pub proof fn lemma_fits_obj(gs: Seq<SField>, fs: Seq<(Seq<char>, GShape)>, c: Cfg)
    requires !over(fs.len() as int, c), gs.len() == fs.len(), forall|j: int| 0 <= j < fs.len() ==> field_fits(#[trigger] gs[j], fs[j].0, fs[j].1, c), ensures fits(STy::Obj(gs), GShape::Struct(fs), c)
{
    reveal_with_fuel(fits, 2); let s = GShape::Struct(fs); let t = STy::Obj(gs); assert(s->Struct_0 == fs && t->Obj_0 == gs);
    assert forall|j: int| 0 <= j < fs.len() implies (#[trigger] t->Obj_0[j]).key == fs[j].0 && key_word(t->Obj_0[j].word, fs[j].0)
                && (if c.z { !t->Obj_0[j].opt && fits(t->Obj_0[j].ty, fs[j].1, c) } else { t->Obj_0[j].opt == (fs[j].1 is Optional) && fits(t->Obj_0[j].ty, bare(fs[j].1), c) }) by { assert(field_fits(gs[j], fs[j].0, fs[j].1, c)); }
}
// ===== the values a type or schema accepts =====
// a property that may be missing: marked so, or of a type that takes undefined. Known finding: a property of type `any` is read as one that may be missing.
pub open spec fn lax(t: STy, z: bool) -> bool decreases t { match t { STy::Any | STy::User(_) => true, STy::Undef(_) => z, STy::Nul(e) => lax(*e, z), _ => false } }
pub open spec fn accepts(t: STy, g: GVal, z: bool) -> bool decreases t {
    match t {
        STy::Any => true, STy::User(_) => true, STy::Bool => g is Bool, STy::Str => g is Str, STy::Num => g is Int || g is Float,
        STy::List(e) => g is Arr && forall|i: int| 0 <= i < g->Arr_0.len() ==> accepts(*e, #[trigger] g->Arr_0[i], z),
        STy::Table(e) => g is Obj && forall|k: Seq<char>| #[trigger] g->Obj_0.dom().contains(k) ==> accepts(*e, g->Obj_0[k], z),
        STy::Tup(ts) => g is Arr && g->Arr_0.len() == ts.len() && forall|i: int| #![trigger ts[i]] #![trigger g->Arr_0[i]] 0 <= i < ts.len() ==> accepts(ts[i], g->Arr_0[i], z),
        STy::Undef(e) => accepts(*e, g, z),
        STy::Nul(e) => g is Null || accepts(*e, g, z),
        STy::Obj(fs) => g is Obj && forall|j: int| 0 <= j < fs.len() ==> if g->Obj_0.dom().contains((#[trigger] fs[j]).key) { accepts(fs[j].ty, g->Obj_0[fs[j].key], z) } else { fs[j].opt || lax(fs[j].ty, z) },
    }
}
pub proof fn lemma_lax(t: STy, s: GShape, c: Cfg) requires fits(t, s, c), admits(s, None), !c.dflt, c.z || !(s is Optional), gwf(s), ensures lax(t, c.z), decreases s
{ reveal(fits); if s is Nullable { lemma_lax(*t->Nul_0, *s->Nullable_0, c); } }
pub proof fn lemma_bare(s: GShape) requires gwf(s), ensures gwf(bare(s)), forall|g: GVal| admits(s, Some(g)) ==> #[trigger] admits(bare(s), Some(g)) { reveal_with_fuel(gwf, 2); reveal_with_fuel(admits, 2); }
/// the generated type accepts every value its shape admits
pub proof fn lemma_accepts(t: STy, s: GShape, g: GVal, c: Cfg)
    requires fits(t, s, c), gwf(s), admits(s, Some(g)), !c.dflt, ensures accepts(t, g, c.z), decreases t, s
{
    reveal(fits);
    let z = c.z;
    match s {
        GShape::VecT(e) => { let a = g->Arr_0; assert forall|i: int| 0 <= i < a.len() implies accepts(*t->List_0, #[trigger] a[i], z) by { lemma_accepts(*t->List_0, *e, a[i], c); } },
        GShape::MapT(e) => { let m = g->Obj_0; let u = bare(*e); lemma_bare(*e); assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies accepts(*t->Table_0, m[k], z) by { assert(admits(u, Some(m[k]))); lemma_accepts(*t->Table_0, u, m[k], c); } },
        GShape::Tuple(ss, _) => {
            let a = g->Arr_0;
            if t is List {
                let f = choose|f: GShape| #[trigger] folds(f, ss) && fits(*t->List_0, f, c);
                assert forall|i: int| 0 <= i < a.len() implies accepts(*t->List_0, #[trigger] a[i], z) by { assert(admits(ss[i], Some(a[i]))); assert(covers(f, ss[i])); reveal(covers); lemma_accepts(*t->List_0, f, a[i], c); }
            } else {
                let ts = t->Tup_0;
                assert forall|i: int| #![trigger ts[i]] #![trigger a[i]] 0 <= i < ts.len() implies accepts(ts[i], a[i], z) by { assert(admits(ss[i], Some(a[i]))); assert(fits(ts[i], ss[i], c)); lemma_accepts(ts[i], ss[i], a[i], c); }
            }
        },
        GShape::Struct(fs) => {
            let m = g->Obj_0;
            if over(fs.len() as int, c) {
                let f = choose|f: GShape| #[trigger] folds(f, vals(fs)) && fits(*t->Table_0, bare(f), c);
                let u = bare(f);
                assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies accepts(*t->Table_0, m[k], z) by {
                    assert(has_key(fs, k));
                    let j = choose|j: int| 0 <= j < fs.len() && #[trigger] fs[j].0 == k;
                    assert(admits(fs[j].1, lookup(m, fs[j].0))); assert(vals(fs)[j] == fs[j].1); assert(covers(f, vals(fs)[j])); reveal(covers);
                    assert(admits(f, Some(m[k]))); lemma_bare(f); assert(admits(u, Some(m[k]))); lemma_accepts(*t->Table_0, u, m[k], c);
                }
            } else {
                let gs = t->Obj_0;
                assert forall|j: int| 0 <= j < gs.len() implies if m.dom().contains((#[trigger] gs[j]).key) { accepts(gs[j].ty, m[gs[j].key], z) } else { gs[j].opt || lax(gs[j].ty, z) } by {
                    assert(gs[j].key == fs[j].0);
                    let (k, s1) = fs[j];
                    let u = bare(s1);
                    assert(admits(s1, lookup(m, k))); assert(gwf(s1)); lemma_bare(s1);
                    if m.dom().contains(k) { assert(admits(u, Some(m[k]))); if z { lemma_accepts(gs[j].ty, s1, m[k], c); } else { lemma_accepts(gs[j].ty, u, m[k], c); } }
                    else if !gs[j].opt { lemma_lax(gs[j].ty, s1, c); }
                }
            }
        },
        GShape::Optional(e) => { lemma_accepts(*t->Undef_0, *e, g, c); },
        GShape::Nullable(e) => { if !(g is Null) { lemma_accepts(*t->Nul_0, *e, g, c); } },
        _ => {},
    }
}
// ===== generated text =====
pub open spec fn cfg_of(o: Options, z: bool) -> Cfg { Cfg { dflt: o.use_default_for_missing_fields, lim: match o.infer_map_threshold { Some(l) => Some(l as int), None => None }, z: z } }
pub open spec fn written(t: STy, r: Seq<char>, s: GShape, o: Options, d: nat, z: bool) -> bool { fits(t, s, cfg_of(o, z)) && r == show(t, d, z) }
pub open spec fn writes(r: Seq<char>, s: GShape, o: Options, d: nat, z: bool) -> bool { exists|t: STy| #[trigger] written(t, r, s, o, d, z) }
pub open spec fn flat_ty(s: GShape) -> STy { match s { GShape::Bool => STy::Bool, GShape::StringT => STy::Str, GShape::Integer | GShape::Floating => STy::Num, GShape::Opaque(n) => STy::User(n), _ => STy::Any } }
pub broadcast proof fn lemma_writes_flat(r: Seq<char>, s: GShape, o: Options, d: nat, z: bool)
    requires s is Null || s is Any || s is Bottom || s is Bool || s is StringT || s is Integer || s is Floating || s is Opaque, r == show(flat_ty(s), d, z), ensures #[trigger] writes(r, s, o, d, z)
{ broadcast use lemma_fits_flat; assert(written(flat_ty(s), r, s, o, d, z)); }
pub broadcast proof fn lemma_writes_list(r: Seq<char>, q: Seq<char>, s: Box<GShape>, o: Options, d: nat, z: bool)
    requires #[trigger] writes(q, *s, o, d, z), r == (if z { q + ".array()"@ } else { "Array<"@ + q + ">"@ }), ensures #[trigger] writes(r, GShape::VecT(s), o, d, z)
{ broadcast use {group_sty, lemma_fits_list}; let t = choose|t: STy| #[trigger] written(t, q, *s, o, d, z); assert(written(STy::List(Box::new(t)), r, GShape::VecT(s), o, d, z)); }
pub broadcast proof fn lemma_writes_table(r: Seq<char>, q: Seq<char>, s: Box<GShape>, o: Options, d: nat, z: bool)
    requires #[trigger] writes(q, bare(*s), o, d, z), r == (if z { "z.record(z.string(), "@ + q + ")"@ } else { "Record<string, "@ + q + ">"@ }), ensures #[trigger] writes(r, GShape::MapT(s), o, d, z)
{ broadcast use {group_sty, lemma_fits_table}; let t = choose|t: STy| #[trigger] written(t, q, bare(*s), o, d, z); assert(written(STy::Table(Box::new(t)), r, GShape::MapT(s), o, d, z)); }
pub broadcast proof fn lemma_writes_undef(r: Seq<char>, q: Seq<char>, s: Box<GShape>, o: Options, d: nat, z: bool)
    requires #[trigger] writes(q, *s, o, d, z), if o.use_default_for_missing_fields { r == q } else { r == (if z { q + ".optional()"@ } else { q + " | undefined"@ }) }, ensures #[trigger] writes(r, GShape::Optional(s), o, d, z)
{
    broadcast use group_sty; reveal_with_fuel(fits, 2); let t = choose|t: STy| #[trigger] written(t, q, *s, o, d, z);
    let g = GShape::Optional(s);
    if o.use_default_for_missing_fields { assert(written(t, r, g, o, d, z)); } else { assert(written(STy::Undef(Box::new(t)), r, g, o, d, z)); }
}
pub broadcast proof fn lemma_writes_nul(r: Seq<char>, q: Seq<char>, s: Box<GShape>, o: Options, d: nat, z: bool)
    requires #[trigger] writes(q, *s, o, d, z), if o.use_default_for_missing_fields { r == q } else { r == (if z { q + ".nullable()"@ } else { q + " | null"@ }) }, ensures #[trigger] writes(r, GShape::Nullable(s), o, d, z)
{
    broadcast use group_sty; reveal_with_fuel(fits, 2); let t = choose|t: STy| #[trigger] written(t, q, *s, o, d, z);
    let g = GShape::Nullable(s);
    if o.use_default_for_missing_fields { assert(written(t, r, g, o, d, z)); } else { assert(written(STy::Nul(Box::new(t)), r, g, o, d, z)); }
}
pub broadcast proof fn lemma_writes_fold(r: Seq<char>, f: GShape, ss: Seq<GShape>, n: nat, o: Options, d: nat, z: bool)
    requires #[trigger] writes(r, GShape::VecT(Box::new(f)), o, d, z), folds(f, ss), ensures #[trigger] writes(r, GShape::Tuple(ss, n), o, d, z)
{ let v = GShape::VecT(Box::new(f)); let t = choose|t: STy| #[trigger] written(t, r, v, o, d, z); lemma_fits_fold(t, f, ss, n, cfg_of(o, z)); assert(written(t, r, GShape::Tuple(ss, n), o, d, z)); }
pub broadcast proof fn lemma_writes_map(r: Seq<char>, f: GShape, fs: Seq<(Seq<char>, GShape)>, o: Options, d: nat, z: bool)
    requires #[trigger] writes(r, GShape::MapT(Box::new(f)), o, d, z), folds(f, vals(fs)), over(fs.len() as int, cfg_of(o, z)), ensures #[trigger] writes(r, GShape::Struct(fs), o, d, z)
{ let v = GShape::MapT(Box::new(f)); let t = choose|t: STy| #[trigger] written(t, r, v, o, d, z); lemma_fits_map(t, f, fs, cfg_of(o, z)); assert(written(t, r, GShape::Struct(fs), o, d, z)); }
pub broadcast proof fn lemma_writes_count(r: Seq<char>, ss: Seq<GShape>, m: nat, n: nat, o: Options, d: nat, z: bool)
    requires #[trigger] writes(r, GShape::Tuple(ss, m), o, d, z), ensures #[trigger] writes(r, GShape::Tuple(ss, n), o, d, z)
{ let (v, u) = (GShape::Tuple(ss, m), GShape::Tuple(ss, n)); let t = choose|t: STy| #[trigger] written(t, r, v, o, d, z); lemma_fits_tup2(t, v, u, cfg_of(o, z)); assert(written(t, r, u, o, d, z)); }
pub broadcast group group_writes { lemma_writes_flat, lemma_writes_list, lemma_writes_table, lemma_writes_undef, lemma_writes_nul, lemma_writes_fold, lemma_writes_map, lemma_writes_count }
pub proof fn lemma_writes_tup(r: Seq<char>, ts: Seq<STy>, ss: Seq<GShape>, o: Options, d: nat, z: bool)
    requires ts.len() == ss.len(), forall|j: int| 0 <= j < ss.len() ==> fits(#[trigger] ts[j], ss[j], cfg_of(o, z)), r == (if z { "z.tuple(["@ + joined(shows(ts, d, z), ", "@) + "])"@ } else { "["@ + joined(shows(ts, d, z), ", "@) + "]"@ }), ensures writes(r, GShape::Tuple(ss, 0), o, d, z)
{ broadcast use group_sty; lemma_fits_tup(ts, ss, 0, cfg_of(o, z)); assert(written(STy::Tup(ts), r, GShape::Tuple(ss, 0), o, d, z)); }
pub proof fn lemma_writes_obj(r: Seq<char>, gs: Seq<SField>, fs: Seq<(Seq<char>, GShape)>, o: Options, d: nat, z: bool)
    requires !over(fs.len() as int, cfg_of(o, z)), gs.len() == fs.len(), forall|j: int| 0 <= j < fs.len() ==> field_fits(#[trigger] gs[j], fs[j].0, fs[j].1, cfg_of(o, z)), r == show(STy::Obj(gs), d, z), ensures writes(r, GShape::Struct(fs), o, d, z)
{ lemma_fits_obj(gs, fs, cfg_of(o, z)); assert(written(STy::Obj(gs), r, GShape::Struct(fs), o, d, z)); }
pub proof fn lemma_key_word(q: bool, esc: Seq<char>, key: Seq<char>)
    requires unesc(esc) == Some(key), plain_text(key) ==> esc == key, !q ==> ts_ident(key), ensures key_word(if q { "\""@ + esc + "\""@ } else { esc }, key)
{ if !q { assert(plain_text(key)) by { assert forall|i: int| 0 <= i < key.len() implies (#[trigger] key[i]) != '"' && key[i] != '\\' && key[i] as u32 >= 0x20 by { assert(ts_part(key[i])); } } } }
pub proof fn lemma_inner(s: GShape) requires gwf(s), ensures match s { GShape::Optional(e) => gwf(*e), GShape::Nullable(e) => gwf(*e), GShape::VecT(e) => gwf(*e), GShape::MapT(e) => gwf(*e), _ => true } {}
// how a property line is put together
pub open spec fn quote(q: bool) -> Seq<char> { if q { "\""@ } else { ""@ } }
pub open spec fn line_of(d: nat, q: bool, e: Seq<char>, o: bool, t: Seq<char>, z: bool) -> Seq<char> {
    if z { rep("    "@, d) + quote(q) + e + quote(q) + ": "@ + t + ","@ } else { rep("    "@, d) + quote(q) + e + quote(q) + (if o { "?"@ } else { ""@ }) + ": "@ + t + ";"@ }
}
pub proof fn lemma_line(q: bool, e: Seq<char>, key: Seq<char>, o: bool, t: STy, d: nat, z: bool)
    requires unesc(e) == Some(key), plain_text(key) ==> e == key, !q ==> ts_ident(key), z ==> !o,
    ensures ({ let f = SField { key: key, word: if q { "\""@ + e + "\""@ } else { e }, opt: o, ty: t }; key_word(f.word, key) && line(f, d, z) == line_of(d, q, e, o, show(t, d + 1, z), z) })
{
    lemma_key_word(q, e, key); reveal(show); reveal(showv); reveal(line); reveal(linev); reveal_strlit("");
    let f = SField { key: key, word: if q { "\""@ + e + "\""@ } else { e }, opt: o, ty: t };
    assert(""@ =~= Seq::<char>::empty());
    assert(line(f, d, z) =~= line_of(d, q, e, o, show(t, d + 1, z), z));
}
pub open spec fn obj_text(open: Seq<char>, empty: bool, body: Seq<char>, ind: Seq<char>, close: Seq<char>) -> Seq<char> { if empty { open + ind + close } else { open + body + "\n"@ + ind + close } }
pub proof fn lemma_obj_text(fs: Seq<SField>, d: nat, z: bool)
    ensures show(STy::Obj(fs), d, z) == obj_text(if z { "z.object({\n"@ } else { "{\n"@ }, fs.len() == 0, joined(lines(fs, d, z), "\n"@), rep("    "@, (d - 1) as nat), if z { "})"@ } else { "}"@ })
{
    lemma_show_obj(fs, d, z);
    assert(show(STy::Obj(fs), d, z) =~= obj_text(if z { "z.object({\n"@ } else { "{\n"@ }, fs.len() == 0, joined(lines(fs, d, z), "\n"@), rep("    "@, (d - 1) as nat), if z { "})"@ } else { "}"@ }));
}
// merging the values of a map one after another
pub open spec fn folding(a: GShape, ss: Seq<GShape>, n: int) -> bool {
    gwf(a) && 0 <= n <= ss.len() && (forall|i: int| 0 <= i < n ==> covers(a, #[trigger] ss[i])) && ((forall|i: int| 0 <= i < n ==> clean(#[trigger] ss[i])) ==> clean(a)) && (n == 0 ==> a is Bottom) && (n == 1 ==> a == ss[0])
}
pub proof fn lemma_folding_step(a: GShape, b: GShape, ss: Seq<GShape>, n: int)
    requires 0 <= n < ss.len(), folding(a, ss, n), gwf(b), covers(b, a), covers(b, ss[n]), clean(a) && clean(ss[n]) ==> clean(b), a is Bottom ==> b == ss[n], ensures folding(b, ss, n + 1)
{
    reveal(covers);
    if forall|i: int| 0 <= i < n + 1 ==> clean(#[trigger] ss[i]) { assert forall|i: int| 0 <= i < n implies clean(#[trigger] ss[i]) by {} assert(clean(ss[n])); }
    assert forall|i: int| 0 <= i < n + 1 implies covers(b, #[trigger] ss[i]) by { if i < n { assert(covers(a, ss[i])); } }
}
// after n of the fields
#[verifier::opaque]
pub open spec fn part(a: GShape, m: Seq<(Seq<char>, Shape)>, n: int) -> bool {
    let fs = svf(m);
    folding(a, vals(fs), n) && gsz(a) <= 1 + nsum(fsizes(fs).take(n)) && (n > 0 ==> gsz(a) <= nsum(fsizes(fs).take(n)))
}
pub proof fn lemma_part_none(m: Seq<(Seq<char>, Shape)>) ensures part(GShape::Bottom, m, 0) { reveal(part); }
// before the next one
pub proof fn lemma_part_pre(a: GShape, m: Seq<(Seq<char>, Shape)>, n: int) requires part(a, m, n), n < m.len(), gwf(GShape::Struct(svf(m))), gsz(GShape::Struct(svf(m))) <= u64::MAX, ensures gwf(a), gwf(sv(m[n].1)), gsz(a) + gsz(sv(m[n].1)) <= u64::MAX
{ broadcast use {group_gsz, group_sv}; reveal(part); let fs = svf(m); lemma_nsum_mono(fsizes(fs), n); lemma_fields(fs, n); }
pub proof fn lemma_part_step(a: GShape, b: GShape, m: Seq<(Seq<char>, Shape)>, n: int)
    requires part(a, m, n), 0 <= n < m.len(), gwf(b), covers(b, a), covers(b, sv(m[n].1)), clean(a) && clean(sv(m[n].1)) ==> clean(b), a is Bottom ==> b == sv(m[n].1), gsz(b) <= gsz(a) + gsz(sv(m[n].1)), ensures part(b, m, n + 1)
{
    broadcast use {group_gsz, group_sv}; reveal(part); let fs = svf(m); lemma_nsum_mono(fsizes(fs), n); assert(vals(fs)[n] == sv(m[n].1)); lemma_folding_step(a, b, vals(fs), n);
    if n == 0 { assert(gsz(b) == fsizes(fs)[n]); }
}
pub proof fn lemma_part_all(a: GShape, m: Seq<(Seq<char>, Shape)>) requires part(a, m, m.len() as int), ensures folds(a, vals(svf(m))), gwf(a), m.len() > 0 ==> gsz(a) < gsz(GShape::Struct(svf(m)))
{ broadcast use {group_gsz, group_sv}; reveal(part); assert(fsizes(svf(m)).take(m.len() as int) =~= fsizes(svf(m))); }
// the whole output: a declaration of a type that accepts what the shape admits
pub open spec fn declared(t: STy, r: Seq<char>, lead: Seq<char>, n: Seq<char>, s: GShape, o: Options, z: bool) -> bool {
    fits(t, s, cfg_of(o, z)) && r == lead + n + " = "@ + show(t, 1, z) + ";\n\n"@ && (!o.use_default_for_missing_fields ==> forall|g: GVal| #[trigger] admits(s, Some(g)) ==> accepts(t, g, z))
}
pub proof fn lemma_declared(t: STy, q: Seq<char>, r: Seq<char>, lead: Seq<char>, n: Seq<char>, s: GShape, o: Options, z: bool)
    requires written(t, q, s, o, 1, z), gwf(s), r == lead + n + " = "@ + q + ";\n\n"@, ensures declared(t, r, lead, n, s, o, z)
{ if !o.use_default_for_missing_fields { assert forall|g: GVal| #[trigger] admits(s, Some(g)) implies accepts(t, g, z) by { lemma_accepts(t, s, g, cfg_of(o, z)); } } }
//@ end
