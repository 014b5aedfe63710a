//@ include prelude.vx
//@ include strings.vx
//@ file json_typegen_shared/src/options.rs
//@ type OutputMode
//@ type ImportStyle
//@ type InputMode
//@ type StringTransform
//@ raw
// types that only pass through
#[verifier::external_body] pub struct Hint { x: u8 }
#[verifier::external_body] pub struct Shape { x: u8 }
impl Shape { #[verifier::external_body] pub fn clone(&self) -> (r: Shape) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct JTError { x: u8 }
//@ type Options
//@ raw
pub open spec fn only_visibility(a: Options, b: Options) -> bool {
    a == (Options { type_visibility: a.type_visibility, ..b })
}
pub open spec fn vis_close() -> Seq<char> { seq![')', ' '] }
// what a requested name says: (name, visibility if it gives one)
pub open spec fn no_vis(name: Seq<char>) -> bool {
    !is_prefix("pub "@, name) && (!is_prefix("pub("@, name) || forall|i: int| !#[trigger] occurs_at(") "@, name, i))
}
pub open spec fn name_spec(name: Seq<char>, r: Seq<char>, old_vis: Seq<char>, vis: Seq<char>) -> bool {
    if is_prefix("pub "@, name) { r == name.skip(4) && vis == "pub"@ }
    else if is_prefix("pub("@, name) {
        &&& (forall|i: int| #[trigger] first_at(") "@, name, i) ==> r == name.skip(i + 2) && vis == name.take(i) + ")"@)
        &&& ((forall|i: int| !#[trigger] occurs_at(") "@, name, i)) ==> r == name && vis == old_vis)
    } else { r == name && vis == old_vis }
}
//@ rename-method len => vx_len
//@ file json_typegen_shared/src/lib.rs
//@ fn handle_pub_in_name
    ensures name_spec(name@, r@, old(options).type_visibility@, final(options).type_visibility@),
        only_visibility(*final(options), *old(options)),
//@ at start
    proof { reveal_strlit("pub "); reveal_strlit("pub("); reveal_strlit(") "); reveal_strlit("pub"); reveal_strlit(")");
        lemma_first_or_none(") "@, name@); }
//@ loop 0
    invariant vx_out0@ == vx_s0.take(vx_it0.pos()),
//@ type SampleSource
//@ raw
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_end_of(trim_start_of(s)) }
// inline text is what starts with an object or an array; http(s) addresses are fetched; anything else is a file name
pub open spec fn source_spec(s: Seq<char>, r: SampleSource) -> bool {
    let t = trimmed(s);
    if is_prefix(seq!['{'], t) || is_prefix(seq!['['], t) { r is Text && r->Text_0@ == t }
    else if is_prefix("http://"@, t) || is_prefix("https://"@, t) { r is Url && r->Url_0@ == t }
    else { r is File && r->File_0@ == t }
}
//@ file json_typegen_shared/src/lib.rs
//@ fn infer_source_type
    ensures source_spec(s@, r)
//@ raw
pub proof fn lemma_trim_end(s: Seq<char>)
    ensures trim_end_of(s).len() <= s.len(), trim_end_of(s) == s.take(trim_end_of(s).len() as int),
        trim_end_of(s).len() > 0 ==> !ws(trim_end_of(s).last()),
    decreases s.len(),
{
    if s.len() > 0 && ws(s.last()) { lemma_trim_end(s.drop_last()); assert(s.drop_last().take(trim_end_of(s).len() as int) =~= s.take(trim_end_of(s).len() as int)); }
    else { assert(s.take(s.len() as int) =~= s); }
}
// what each generator writes (the generators are the business of C10-C18)
pub uninterp spec fn written(mode: OutputMode, name: Seq<char>, shape: Shape, o: Options) -> Seq<char>;
#[verifier::external_body]
pub fn vx_gen_rust(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(OutputMode::Rust, name@, *shape, o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gen_schema(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(OutputMode::JsonSchema, name@, *shape, o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gen_zod(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(OutputMode::ZodSchema, name@, *shape, o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gen_kotlin(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(o.output_mode, name@, *shape, o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gen_shape(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(OutputMode::Shape, name@, *shape, o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gen_ts(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(OutputMode::Typescript, name@, *shape, o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gen_alias(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(OutputMode::TypescriptTypeAlias, name@, *shape, o) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gen_python(name: &str, shape: &Shape, o: Options) -> (r: String) ensures r@ == written(OutputMode::PythonPydantic, name@, *shape, o) { unimplemented!() }
// exactly one newline at the end, and no blank before it
pub open spec fn one_newline(s: Seq<char>) -> bool {
    s.len() > 0 && s.last() == '\n' && (s.len() > 1 ==> !ws(s[s.len() - 2]))
}
//@ rename-path generation::rust::rust_types => vx_gen_rust
//@ rename-path generation::json_schema::json_schema => vx_gen_schema
//@ rename-path generation::zod_schema::zod_schema => vx_gen_zod
//@ rename-path generation::kotlin::kotlin_types => vx_gen_kotlin
//@ rename-path generation::shape::shape_string => vx_gen_shape
//@ rename-path generation::typescript::typescript_types => vx_gen_ts
//@ rename-path generation::typescript_type_alias::typescript_type_alias => vx_gen_alias
//@ rename-path generation::python::python_types => vx_gen_python
//@ fn codegen_from_shape
    ensures r is Ok, r->Ok_0@ == trim_end_of(written(options.output_mode, name@, *shape, options)) + seq!['\n'],
        one_newline(r->Ok_0@)
//@ at start
    proof { lemma_trim_end(written(options.output_mode, name@, *shape, options)); }
//@ raw
// inference (C04-C09, C19) and the parts of it that only pass through here
#[verifier::external_body] pub struct Hints { x: u8 }
impl Hints {
    #[verifier::external_body] pub fn new() -> Hints { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, p: &String, h: &Hint) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
// the tables of an SQL text (unit sql.vx); None if it cannot be read
pub uninterp spec fn sql_tables(s: Seq<char>) -> Option<Seq<Shape>>;
#[verifier::external_body] pub fn vx_sql(s: &str) -> (r: Result<Vec<(String, Shape)>, String>)
    ensures match r { Ok(v) => sql_tables(s@) == Some(v@.map_values(|t: (String, Shape)| t.1)), Err(_) => sql_tables(s@) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_sql_error(s: String) -> (r: JTError) { unimplemented!() }
pub trait VxFirst<T> { spec fn fview(&self) -> Seq<T>; fn vx_first(&self) -> (r: Option<&T>)
    ensures match r { None => self.fview().len() == 0, Some(x) => self.fview().len() > 0 && *x == self.fview()[0] }; }
impl<T> VxFirst<T> for Vec<T> { open spec fn fview(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() } }
pub uninterp spec fn inferred(source: SampleSource, o: Options, shape: Shape) -> bool;
//@ fn infer_from_sample assumed
    ensures r is Ok ==> inferred(*source, *options, r->Ok_0)
//@ raw
// all options except the visibility and the hints
pub open spec fn but_vis(a: Options, b: Options) -> bool { a == (Options { type_visibility: a.type_visibility, hints: a.hints, ..b }) }
pub open spec fn codegen_ok(name: Seq<char>, input: Seq<char>, o: Options, n: Seq<char>, src: SampleSource, o2: Options, shape: Shape) -> bool {
    &&& name_spec(name, n, o.type_visibility@, o2.type_visibility@)
    &&& but_vis(o2, o)
    &&& source_spec(input, src)
    &&& (o.input_mode is Json ==> inferred(src, o2, shape))
    &&& (o.input_mode is Sql ==> sql_tables(input) is Some && sql_tables(input)->Some_0.len() > 0 && shape == sql_tables(input)->Some_0[0])
}
//@ rename-path std::mem::swap => vx_swap
//@ rename-path sql::sql_to_shape => vx_sql
//@ rename-path JTError::SqlParsingError => vx_sql_error
//@ rename-path options::InputMode::Sql => InputMode::Sql
//@ rename-path options::InputMode::Json => InputMode::Json
//@ rename-method first => vx_first
//@ fn codegen
    ensures r matches Ok(out) ==> one_newline(out@)
        && exists|n: Seq<char>, src: SampleSource, o2: Options, shape: Shape| #[trigger] codegen_ok(name@, input@, options, n, src, o2, shape)
            && out@ == trim_end_of(written(options.output_mode, n, shape, o2)) + seq!['\n']
//@ at start
    let ghost g_name = name@;
    let ghost g_o = options;
//@ at tail
    proof { assert(codegen_ok(g_name, input@, g_o, name@, source, options, shape)); }
