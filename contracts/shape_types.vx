//@ raw
// ===== stand-in for linked_hash_map::LinkedHashMap (insertion ordered map; trusted) =====
pub struct LinkedHashMap<K, V> { pub v: Vec<(K, V)> }
pub open spec fn has_key<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k
}
pub open spec fn uniq<V>(s: Seq<(Seq<char>, V)>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0
}
pub open spec fn without<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>) -> Seq<(Seq<char>, V)> {
    s.filter(|e: (Seq<char>, V)| e.0 != k)
}
impl<V> LinkedHashMap<String, V> {
    pub open spec fn view(&self) -> Seq<(Seq<char>, V)> {
        Seq::new(self.v@.len(), |i: int| (self.v@[i].0@, self.v@[i].1))
    }
    #[verifier::external_body]
    pub proof fn lemma_uniq(&self) ensures uniq(self@) {}
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(Seq<char>, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == has_key(self@, k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&V>)
        ensures
            r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i].0 == k@ && r == Some(&self@[i].1),
            r is None ==> !has_key(self@, k@),
    { unimplemented!() }
    /// an existing key is replaced and moved to the back, as the real crate does
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == without(old(self)@, k@).push((k@, v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) -> (r: Option<V>)
        ensures
            final(self)@ == without(old(self)@, k@),
            r is Some ==> exists|i: int| 0 <= i < old(self)@.len() && #[trigger] old(self)@[i].0 == k@ && r == Some(old(self)@[i].1),
            r is None ==> !has_key(old(self)@, k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_mut(&mut self, i: usize) -> (r: (&String, &mut V))
        requires i < old(self)@.len(),
        ensures r.0@ == old(self)@[i as int].0, *r.1 == old(self)@[i as int].1,
            final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, *final(r.1))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIter<(&String, &V)>)
        ensures r.pos() == 0, r.seq().len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r.seq()[i]).0@ == self@[i].0 && *r.seq()[i].1 == self@[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: VxIter<(String, V)>)
        ensures r.pos() == 0, r.seq().len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r.seq()[i]).0@ == self@[i].0 && r.seq()[i].1 == self@[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: VxIter<&V>)
        ensures r.pos() == 0, r.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.seq()[i]) == self@[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: VxIter<&String>)
        ensures r.pos() == 0, r.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> (#[trigger] r.seq()[i])@ == self@[i].0,
    { unimplemented!() }
}
impl<V> VxIntoIter<(String, V)> for LinkedHashMap<String, V> {
    open spec fn vseq(&self) -> Seq<(String, V)> { self.v@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<(String, V)>) { unimplemented!() }
}

// ===== ghost shapes: the exec type with String/Vec/Box/LinkedHashMap replaced by mathematical values =====
pub enum GShape {
    Bottom, Any, Optional(Box<GShape>), Nullable(Box<GShape>), Null, Bool, StringT, Integer, Floating,
    VecT(Box<GShape>), Struct(Seq<(Seq<char>, GShape)>), Tuple(Seq<GShape>, nat), MapT(Box<GShape>), Opaque(Seq<char>),
}
//@ file json_typegen_shared/src/shape.rs
//@ type Shape derives PartialEq,Clone
//@ raw
#[verifier::opaque]
pub open spec fn sv(s: Shape) -> GShape decreases s {
    match s {
        Shape::Bottom => GShape::Bottom,
        Shape::Any => GShape::Any,
        Shape::Optional(b) => GShape::Optional(Box::new(sv(*b))),
        Shape::Nullable(b) => GShape::Nullable(Box::new(sv(*b))),
        Shape::Null => GShape::Null,
        Shape::Bool => GShape::Bool,
        Shape::StringT => GShape::StringT,
        Shape::Integer => GShape::Integer,
        Shape::Floating => GShape::Floating,
        Shape::VecT { elem_type } => GShape::VecT(Box::new(sv(*elem_type))),
        Shape::Struct { fields } => GShape::Struct(Seq::new(fields.v@.len(),
            |i: int| if 0 <= i < fields.v@.len() { (fields.v@[i].0@, sv(fields.v@[i].1)) } else { arbitrary() })),
        Shape::Tuple(v, n) => GShape::Tuple(Seq::new(v@.len(),
            |i: int| if 0 <= i < v@.len() { sv(v@[i]) } else { arbitrary() }), n as nat),
        Shape::MapT { val_type } => GShape::MapT(Box::new(sv(*val_type))),
        Shape::Opaque(s) => GShape::Opaque(s@),
    }
}
#[verifier::opaque]
pub open spec fn svs(s: Seq<Shape>) -> Seq<GShape> { Seq::new(s.len(), |i: int| sv(s[i])) }
#[verifier::opaque]
pub open spec fn svf(s: Seq<(Seq<char>, Shape)>) -> Seq<(Seq<char>, GShape)> {
    Seq::new(s.len(), |i: int| (s[i].0, sv(s[i].1)))
}
pub broadcast proof fn lemma_sv_tuple(v: Vec<Shape>, n: u64)
    ensures #[trigger] sv(Shape::Tuple(v, n)) == GShape::Tuple(svs(v@), n as nat),
{ reveal_with_fuel(sv, 2); reveal(svs); assert(sv(Shape::Tuple(v, n))->Tuple_0 =~= svs(v@)); }
pub broadcast proof fn lemma_sv_struct(fields: LinkedHashMap<String, Shape>)
    ensures #[trigger] sv(Shape::Struct { fields }) == GShape::Struct(svf(fields@)),
{ reveal_with_fuel(sv, 2); reveal(svf); assert(sv(Shape::Struct { fields })->Struct_0 =~= svf(fields@)); }
pub broadcast proof fn lemma_sv_opt(b: Box<Shape>)
    ensures #[trigger] sv(Shape::Optional(b)) == GShape::Optional(Box::new(sv(*b))) { reveal_with_fuel(sv, 2); }
pub broadcast proof fn lemma_sv_nul(b: Box<Shape>)
    ensures #[trigger] sv(Shape::Nullable(b)) == GShape::Nullable(Box::new(sv(*b))) { reveal_with_fuel(sv, 2); }
pub broadcast proof fn lemma_sv_vec(b: Box<Shape>)
    ensures #[trigger] sv(Shape::VecT { elem_type: b }) == GShape::VecT(Box::new(sv(*b))) { reveal_with_fuel(sv, 2); }
pub broadcast proof fn lemma_sv_map(b: Box<Shape>)
    ensures #[trigger] sv(Shape::MapT { val_type: b }) == GShape::MapT(Box::new(sv(*b))) { reveal_with_fuel(sv, 2); }
pub broadcast proof fn lemma_sv_opaque(s: String) ensures #[trigger] sv(Shape::Opaque(s)) == GShape::Opaque(s@) { reveal(sv); }
pub proof fn lemma_sv_consts()
    ensures sv(Shape::Bottom) == GShape::Bottom, sv(Shape::Any) == GShape::Any, sv(Shape::Null) == GShape::Null,
        sv(Shape::Bool) == GShape::Bool, sv(Shape::StringT) == GShape::StringT, sv(Shape::Integer) == GShape::Integer,
        sv(Shape::Floating) == GShape::Floating,
{ reveal(sv); }
pub proof fn lemma_sv_kind(s: Shape)
    ensures
        s is Bottom ==> sv(s) == GShape::Bottom,
        s is Any ==> sv(s) == GShape::Any,
        s is Null ==> sv(s) == GShape::Null,
        s is Bool ==> sv(s) == GShape::Bool,
        s is StringT ==> sv(s) == GShape::StringT,
        s is Integer ==> sv(s) == GShape::Integer,
        s is Floating ==> sv(s) == GShape::Floating,
        s is Optional ==> sv(s) == GShape::Optional(Box::new(sv(*s->Optional_0))),
        s is Nullable ==> sv(s) == GShape::Nullable(Box::new(sv(*s->Nullable_0))),
        s is VecT ==> sv(s) == GShape::VecT(Box::new(sv(*s->VecT_elem_type))),
        s is MapT ==> sv(s) == GShape::MapT(Box::new(sv(*s->MapT_val_type))),
        s is Struct ==> sv(s) == GShape::Struct(svf(s->Struct_fields@)),
        s is Tuple ==> sv(s) == GShape::Tuple(svs(s->Tuple_0@), s->Tuple_1 as nat),
        s is Opaque ==> sv(s) is Opaque,
{ broadcast use {lemma_sv_tuple, lemma_sv_struct}; reveal_with_fuel(sv, 2); }
pub broadcast proof fn lemma_svs_idx(s: Seq<Shape>, i: int)
    requires 0 <= i < s.len(), ensures #![trigger svs(s), s[i]] #![trigger svs(s)[i]] svs(s)[i] == sv(s[i]) { reveal(svs); }
pub broadcast proof fn lemma_svs_len(s: Seq<Shape>) ensures (#[trigger] svs(s)).len() == s.len() { reveal(svs); }
pub broadcast proof fn lemma_svf_idx(s: Seq<(Seq<char>, Shape)>, i: int)
    requires 0 <= i < s.len(), ensures #![trigger svf(s), s[i]] #![trigger svf(s)[i]] svf(s)[i] == (s[i].0, sv(s[i].1)) { reveal(svf); }
pub broadcast proof fn lemma_svf_len(s: Seq<(Seq<char>, Shape)>) ensures (#[trigger] svf(s)).len() == s.len() { reveal(svf); }
pub broadcast group group_sv { lemma_sv_tuple, lemma_sv_struct, lemma_sv_opt, lemma_sv_nul, lemma_sv_vec, lemma_sv_map, lemma_sv_opaque, lemma_svs_idx, lemma_svs_len, lemma_svf_idx, lemma_svf_len }

// derived PartialEq / Clone of Shape and of LinkedHashMap<String, Shape>: assumed to be structural
impl PartialEq for Shape {
    #[verifier::external_body]
    fn eq(&self, other: &Shape) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Shape {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Shape) -> bool { sv(*self) == sv(*other) }
}
impl PartialEq for LinkedHashMap<String, Shape> {
    #[verifier::external_body]
    fn eq(&self, other: &LinkedHashMap<String, Shape>) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for LinkedHashMap<String, Shape> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &LinkedHashMap<String, Shape>) -> bool { svf(self@) == svf(other@) }
}
impl Clone for Shape {
    #[verifier::external_body]
    fn clone(&self) -> (r: Shape) ensures sv(r) == sv(*self) { unimplemented!() }
}

// ===== JSON values and what it means for a shape to admit a value =====
/// numbers only matter up to "written as an integer" / "written with fraction or exponent"
pub enum GVal { Null, Bool, Int, Float, Str, Arr(Seq<GVal>), Obj(Map<Seq<char>, GVal>) }

pub open spec fn lookup(m: Map<Seq<char>, GVal>, k: Seq<char>) -> Option<GVal> {
    if m.dom().contains(k) { Some(m[k]) } else { None }
}
/// `None` is "the field is absent"
pub open spec fn admits(s: GShape, v: Option<GVal>) -> bool decreases s {
    match s {
        GShape::Bottom => false,
        GShape::Any => true,
        GShape::Opaque(_) => true,
        GShape::Optional(b) => v is None || admits(*b, v),
        GShape::Nullable(b) => v == Some(GVal::Null) || admits(*b, v),
        GShape::Null => v == Some(GVal::Null),
        GShape::Bool => v == Some(GVal::Bool),
        GShape::StringT => v == Some(GVal::Str),
        GShape::Integer => v == Some(GVal::Int),
        GShape::Floating => v == Some(GVal::Float) || v == Some(GVal::Int),
        GShape::VecT(e) => match v {
            Some(GVal::Arr(a)) => forall|i: int| 0 <= i < a.len() ==> admits(*e, Some(#[trigger] a[i])),
            _ => false,
        },
        GShape::Tuple(es, _) => match v {
            Some(GVal::Arr(a)) => a.len() == es.len()
                && forall|i: int| #![trigger a[i]] #![trigger es[i]] 0 <= i < es.len() ==> admits(es[i], Some(a[i])),
            _ => false,
        },
        GShape::MapT(e) => match v {
            Some(GVal::Obj(m)) => forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> admits(*e, Some(m[k])),
            _ => false,
        },
        GShape::Struct(fs) => match v {
            Some(GVal::Obj(m)) => (forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> admits(fs[i].1, lookup(m, fs[i].0)))
                && forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> has_key(fs, k),
            _ => false,
        },
    }
}
#[verifier::opaque]
pub open spec fn covers(x: GShape, y: GShape) -> bool {
    forall|v: Option<GVal>| #![trigger admits(y, v)] #![trigger admits(x, v)] admits(y, v) ==> admits(x, v)
}

// ===== size: bounds the tuple weights (u64 arithmetic) and is the termination measure of merging =====
pub open spec fn nsum(s: Seq<nat>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { nsum(s.drop_last()) + s.last() }
}
pub open spec fn gsz(g: GShape) -> nat decreases g {
    match g {
        GShape::Bottom => 0,
        GShape::Optional(b) => gsz(*b),
        GShape::Nullable(b) => gsz(*b),
        GShape::VecT(b) => 1 + gsz(*b),
        GShape::MapT(b) => 1 + gsz(*b),
        GShape::Tuple(s, n) => 1 + n + nsum(gszv(s)),
        GShape::Struct(s) => 1 + nsum(gszf(s)),
        _ => 1,
    }
}
#[verifier::opaque]
pub open spec fn gszv(s: Seq<GShape>) -> Seq<nat> decreases s {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { gsz(s[i]) } else { 0 })
}
#[verifier::opaque]
pub open spec fn gszf(s: Seq<(Seq<char>, GShape)>) -> Seq<nat> decreases s {
    Seq::new(s.len(), |i: int| if 0 <= i < s.len() { gsz(s[i].1) } else { 0 })
}
#[verifier::opaque]
pub open spec fn sizes(s: Seq<GShape>) -> Seq<nat> { Seq::new(s.len(), |i: int| gsz(s[i])) }
#[verifier::opaque]
pub open spec fn fsizes(s: Seq<(Seq<char>, GShape)>) -> Seq<nat> { Seq::new(s.len(), |i: int| gsz(s[i].1)) }
pub broadcast proof fn lemma_gsz_tuple(s: Seq<GShape>, n: nat)
    ensures #[trigger] gsz(GShape::Tuple(s, n)) == 1 + n + nsum(sizes(s)),
{ reveal(gszv); reveal(sizes); assert(gszv(s) =~= sizes(s)); }
pub broadcast proof fn lemma_gsz_struct(s: Seq<(Seq<char>, GShape)>)
    ensures #[trigger] gsz(GShape::Struct(s)) == 1 + nsum(fsizes(s)),
{ reveal(gszf); reveal(fsizes); assert(gszf(s) =~= fsizes(s)); }
pub broadcast proof fn lemma_sizes(s: Seq<GShape>, i: int)
    requires 0 <= i < s.len(), ensures #[trigger] sizes(s)[i] == gsz(s[i]) { reveal(sizes); }
pub broadcast proof fn lemma_sizes_len(s: Seq<GShape>) ensures (#[trigger] sizes(s)).len() == s.len() { reveal(sizes); }
pub broadcast proof fn lemma_fsizes(s: Seq<(Seq<char>, GShape)>, i: int)
    requires 0 <= i < s.len(), ensures #[trigger] fsizes(s)[i] == gsz(s[i].1) { reveal(fsizes); }
pub broadcast proof fn lemma_fsizes_len(s: Seq<(Seq<char>, GShape)>) ensures (#[trigger] fsizes(s)).len() == s.len() { reveal(fsizes); }
pub broadcast group group_gsz { lemma_gsz_tuple, lemma_gsz_struct, lemma_sizes, lemma_sizes_len, lemma_fsizes, lemma_fsizes_len }
pub proof fn lemma_nsum_push(s: Seq<nat>, x: nat)
    ensures nsum(s.push(x)) == nsum(s) + x,
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_nsum_mono(s: Seq<nat>, i: int)
    requires 0 <= i < s.len(),
    ensures nsum(s.take(i)) + s[i] == nsum(s.take(i + 1)), nsum(s.take(i + 1)) <= nsum(s),
    decreases s.len(),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 == s.len() { assert(s.take(i + 1) =~= s); }
    else {
        lemma_nsum_mono(s.drop_last(), i);
        assert(s.drop_last().take(i + 1) =~= s.take(i + 1));
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}
pub open spec fn wrappers(g: GShape) -> nat decreases g {
    match g { GShape::Optional(b) => 1 + wrappers(*b), GShape::Nullable(b) => 1 + wrappers(*b), _ => 0 }
}

// ===== well-formedness: `Bottom` (no information) only ever sits below a collection, `Optional` is never below `Nullable` =====
pub open spec fn gwf(g: GShape) -> bool decreases g {
    match g {
        GShape::Optional(b) => !(*b is Bottom) && gwf(*b),
        GShape::Nullable(b) => !(*b is Bottom) && !(*b is Optional) && gwf(*b),
        GShape::VecT(b) => gwf(*b),
        GShape::MapT(b) => gwf(*b),
        GShape::Tuple(s, _) => forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !(s[i] is Bottom) && gwf(s[i]),
        GShape::Struct(s) => uniq(s) && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !(s[i].1 is Bottom) && gwf(s[i].1),
        _ => true,
    }
}
//@ end
