//@ include prelude.vx
//@ include strings.vx
//@ include shape_types.vx
//@ raw
// ===== sqlparser::ast, as far as it is looked at =====
pub struct ObjectName { pub x: u8 }
#[verifier::external_body] pub struct CharacterLength { x: u8 }
#[verifier::external_body] pub struct ExactNumberInfo { x: u8 }
#[verifier::external_body] pub struct TimezoneInfo { x: u8 }
#[verifier::external_body] pub struct Expr { x: u8 }
#[verifier::external_body] pub struct Token { x: u8 }
#[verifier::external_body] pub struct ParserError { x: u8 }
#[verifier::external_body] pub struct TableConstraint { x: u8 }
pub struct Ident { pub value: String, pub quote_style: Option<char> }
pub enum DataType {
    Character(Option<CharacterLength>), Char(Option<CharacterLength>), CharacterVarying(Option<CharacterLength>), CharVarying(Option<CharacterLength>),
    Varchar(Option<CharacterLength>), Nvarchar(Option<u64>), Uuid, CharacterLargeObject(Option<u64>), CharLargeObject(Option<u64>), Clob(Option<u64>),
    Binary(Option<u64>), Varbinary(Option<u64>), Blob(Option<u64>), Numeric(ExactNumberInfo), Decimal(ExactNumberInfo), BigNumeric(ExactNumberInfo),
    BigDecimal(ExactNumberInfo), Dec(ExactNumberInfo), Float(Option<u64>), TinyInt(Option<u64>), UnsignedTinyInt(Option<u64>), SmallInt(Option<u64>),
    UnsignedSmallInt(Option<u64>), MediumInt(Option<u64>), UnsignedMediumInt(Option<u64>), Int(Option<u64>), Integer(Option<u64>), UnsignedInt(Option<u64>),
    UnsignedInteger(Option<u64>), BigInt(Option<u64>), UnsignedBigInt(Option<u64>), Real, Double, DoublePrecision, Boolean, Date, Time(Option<u64>, TimezoneInfo),
    Datetime(Option<u64>), Timestamp(Option<u64>, TimezoneInfo), Interval, JSON, Regclass, Text, String, Bytea, Custom(ObjectName, Vec<String>),
    Array(Option<Box<DataType>>), Enum(Vec<String>), Set(Vec<String>),
}
pub enum ColumnOption { Null, NotNull, Default(Expr), Unique { is_primary: bool }, ForeignKey { foreign_table: ObjectName }, Check(Expr), DialectSpecific(Vec<Token>),
    CharacterSet(ObjectName), Comment(String), OnUpdate(Expr), Generated { generation_expr: Option<Expr> } }
pub struct ColumnOptionDef { pub name: Option<Ident>, pub option: ColumnOption }
pub struct ColumnDef { pub name: Ident, pub data_type: DataType, pub collation: Option<ObjectName>, pub options: Vec<ColumnOptionDef> }
pub enum Statement { CreateTable { or_replace: bool, temporary: bool, name: ObjectName, columns: Vec<ColumnDef>, constraints: Vec<TableConstraint> }, Query(Box<Expr>), Drop { if_exists: bool }, Insert { into: bool } }
pub struct GenericDialect {}
pub struct Parser {}
pub uninterp spec fn parsed_sql(s: Seq<char>) -> Option<Seq<Statement>>;
impl Parser { #[verifier::external_body] pub fn parse_sql(d: &GenericDialect, s: &str) -> (r: Result<Vec<Statement>, ParserError>)
    ensures match r { Ok(v) => parsed_sql(s@) == Some(v@), Err(_) => parsed_sql(s@) is None } { unimplemented!() } }
impl ObjectName { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl ParserError { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl Ident { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
// collecting pairs into the map is inserting them in order
impl<V> VxCollect<(String, V)> for LinkedHashMap<String, V> {
    uninterp spec fn vcol(&self) -> Seq<(String, V)>;
    #[verifier::external_body] fn vx_collect_new() -> (r: LinkedHashMap<String, V>) { unimplemented!() }
    #[verifier::external_body] fn vx_collect_push(&mut self, x: (String, V)) { unimplemented!() }
}
pub open spec fn inserted<V>(s: Seq<(String, V)>) -> Seq<(Seq<char>, V)> decreases s.len() {
    if s.len() == 0 { seq![] } else { without(inserted(s.drop_last()), s.last().0@).push((s.last().0@, s.last().1)) }
}
pub axiom fn axiom_collected<V>(m: LinkedHashMap<String, V>) ensures m@ == inserted(m.vcol());

pub open spec fn vts(v: Vec<(String, Shape)>) -> Seq<(String, Shape)> { v@ }
pub open spec fn mts(m: LinkedHashMap<String, Shape>) -> Seq<(String, Shape)> { m.vcol() }
// ===== what a column means =====
pub open spec fn text_type(d: DataType) -> bool { d is Character || d is Char || d is CharacterVarying || d is CharVarying || d is Varchar || d is Nvarchar || d is Text || d is String }
pub open spec fn int_type(d: DataType) -> bool { d is TinyInt || d is UnsignedTinyInt || d is SmallInt || d is UnsignedSmallInt || d is MediumInt || d is UnsignedMediumInt
    || d is Int || d is Integer || d is UnsignedInt || d is UnsignedInteger || d is BigInt || d is UnsignedBigInt }
pub open spec fn date_type(d: DataType) -> bool { d is Date || d is Datetime || d is Timestamp }
pub open spec fn kind(d: DataType) -> GShape {
    if text_type(d) { GShape::StringT } else if int_type(d) { GShape::Integer } else if d is Boolean { GShape::Bool } else if date_type(d) { GShape::Opaque("Date"@) } else { GShape::Any }
}
pub open spec fn never_null(o: ColumnOption) -> bool { o is NotNull || (o is Unique && o->is_primary) }
pub open spec fn may_be_null(c: ColumnDef) -> bool { forall|i: int| 0 <= i < c.options@.len() ==> !never_null((#[trigger] c.options@[i]).option) }
// an unconstrained column is not wrapped: it admits null as it is
pub open spec fn col_shape(c: ColumnDef) -> GShape { let k = kind(c.data_type); if may_be_null(c) && !(k is Any) { GShape::Nullable(Box::new(k)) } else { k } }
pub open spec fn col_field(c: ColumnDef) -> (Seq<char>, GShape) { (c.name.value@, col_shape(c)) }
pub open spec fn cols(cs: Seq<ColumnDef>) -> Seq<(Seq<char>, GShape)> { Seq::new(cs.len(), |i: int| col_field(cs[i])) }
// (of two columns of one name, which no table has, the later one counts)
pub open spec fn last_wins(f: Seq<(Seq<char>, GShape)>) -> Seq<(Seq<char>, GShape)> decreases f.len() {
    if f.len() == 0 { seq![] } else { without(last_wins(f.drop_last()), f.last().0).push(f.last()) }
}
pub open spec fn table(cs: Seq<ColumnDef>) -> GShape { GShape::Struct(last_wins(cols(cs))) }
pub open spec fn tables(ss: Seq<Statement>) -> Seq<GShape> decreases ss.len() {
    if ss.len() == 0 { seq![] } else if ss.last() is CreateTable { tables(ss.drop_last()).push(table(ss.last()->columns@)) } else { tables(ss.drop_last()) }
}
pub proof fn lemma_tables(ss: Seq<Statement>, n: int)
    requires 0 <= n < ss.len(),
    ensures tables(ss.take(n + 1)) == (if ss[n] is CreateTable { tables(ss.take(n)).push(table(ss[n]->columns@)) } else { tables(ss.take(n)) }),
{ assert(ss.take(n + 1).drop_last() =~= ss.take(n)); }
// a table has no two columns of one name: then every column is a field, in order
pub proof fn lemma_table_fields(cs: Seq<ColumnDef>)
    requires uniq(cols(cs)),
    ensures table(cs) == GShape::Struct(cols(cs)),
    decreases cs.len(),
{
    let f = cols(cs);
    lemma_last_wins(f);
}
pub proof fn lemma_last_wins(f: Seq<(Seq<char>, GShape)>)
    requires uniq(f), ensures last_wins(f) == f, decreases f.len(),
{
    if f.len() > 0 {
        let g = f.drop_last();
        assert(uniq(g)) by { assert forall|i: int, j: int| #![trigger g[i], g[j]] 0 <= i < j < g.len() implies g[i].0 != g[j].0 by { assert(f[i].0 != f[j].0); } }
        lemma_last_wins(g);
        lemma_without_none(g, f.last().0);
        assert(g.push(f.last()) =~= f);
    } else { assert(f =~= seq![]); }
}
pub proof fn lemma_without_none<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k, ensures without(s, k) == s, decreases s.len(),
{
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != k by { assert(t[i] == s[i]); }
        lemma_without_none(t, k);
        assert(s =~= t.push(s.last()));
        assert(s.last() == s[s.len() - 1]);
    }
}
pub proof fn lemma_filter_svf(s: Seq<(Seq<char>, Shape)>, k: Seq<char>)
    ensures svf(without(s, k)) == without(svf(s), k), decreases s.len(),
{
    broadcast use group_sv;
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_filter_svf(t, k);
        assert(svf(s).drop_last() =~= svf(t));
        assert(svf(s).last() == (s.last().0, sv(s.last().1)));
        assert(svf(without(s, k)) =~= without(svf(s), k));
    } else { assert(svf(without(s, k)) =~= without(svf(s), k)); }
}
pub proof fn lemma_inserted(s: Seq<(String, Shape)>, cs: Seq<ColumnDef>)
    requires s.len() == cs.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == cs[i].name.value@ && sv(s[i].1) == col_shape(cs[i]),
    ensures svf(inserted(s)) == last_wins(cols(cs)), decreases s.len(),
{
    broadcast use group_sv;
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0@ == cs.drop_last()[i].name.value@ && sv(t[i].1) == col_shape(cs.drop_last()[i]) by { assert(t[i] == s[i]); }
        lemma_inserted(t, cs.drop_last());
        assert(cols(cs).drop_last() =~= cols(cs.drop_last()));
        lemma_filter_svf(inserted(t), s.last().0@);
        assert(cols(cs).last() == (s.last().0@, sv(s.last().1)));
        assert(svf(inserted(s)) =~= last_wins(cols(cs)));
    } else { assert(svf(inserted(s)) =~= last_wins(cols(cs))); }
}
//@ file json_typegen_shared/src/shape.rs
//@ fn Shape::into_nullable
    ensures self is StringT || self is Integer || self is Bool || self is Opaque ==> sv(r) == GShape::Nullable(Box::new(sv(self))),
        self is Any ==> r is Any
//@ at start
    broadcast use group_sv;
    proof { lemma_sv_kind(self); }
//@ file json_typegen_shared/src/sql.rs
//@ fn shape_for_column
    ensures sv(r) == col_shape(*column)
//@ at start
    broadcast use group_sv;
    proof { lemma_sv_consts(); }
//@ at tail
    proof { assert(nullable == may_be_null(*column)); }
//@ loop 0
    invariant vx_s0 == refs(column.options@), vx_res0 <==> exists|i: int| 0 <= i < vx_it0.pos() && never_null((#[trigger] column.options@[i]).option),
//@ fn sql_to_shape
    ensures match r {
        Ok(v) => parsed_sql(input@) is Some && v@.len() == tables(parsed_sql(input@)->Some_0).len()
            && forall|i: int| 0 <= i < v@.len() ==> sv((#[trigger] v@[i]).1) == tables(parsed_sql(input@)->Some_0)[i],
        Err(_) => parsed_sql(input@) is None }
//@ loop 0
    invariant vx_s0 == refs(ast@), parsed_sql(input@) == Some(ast@), vts(vx_out0).len() == tables(ast@.take(vx_it0.pos())).len(),
        forall|i: int| 0 <= i < vts(vx_out0).len() ==> sv((#[trigger] vts(vx_out0)[i]).1) == tables(ast@.take(vx_it0.pos()))[i],
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; lemma_tables(ast@, n); assert(*vx_x0 == ast@[n]); assert(n + 1 == vx_it0.pos());
        assert(!(ast@[n] is CreateTable) ==> tables(ast@.take(n + 1)) == tables(ast@.take(n))); }
    broadcast use group_sv;
//@ loop 1
    invariant vx_s1 == refs(columns@), mts(vx_out1).len() == vx_it1.pos(),
        forall|i: int| 0 <= i < vx_it1.pos() ==> (#[trigger] mts(vx_out1)[i]).0@ == columns@[i].name.value@ && sv(mts(vx_out1)[i].1) == col_shape(columns@[i]),
//@ at loop 1 after
    proof { axiom_collected(vx_out1); lemma_inserted(mts(vx_out1), columns@); }
//@ at loop 0 after
    proof { assert(ast@.take(ast@.len() as int) =~= ast@); }
//@ at start
    proof { assert(tables(Seq::<Statement>::empty()) == Seq::<GShape>::empty()); }
