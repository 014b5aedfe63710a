//@ include words.vx
//@ include text.vx
//@ include options_type.vx
//@ file json_typegen_cli/src/main.rs
//@ subst-type Box<dyn std::error::Error> => VxError
//@ rename-method read => vx_read
//@ rename-path std::io::* => io::*
//@ rename-path std::fs::* => fs::*
//@ rename-path std::error::* => error::*
//@ raw
// ===== what the tool calls: argument parsing, the library, files; contracts assumed =====
#[verifier::external_body] pub struct VxError { x: u8 }
#[verifier::external_body] pub struct IoError { x: u8 }
#[verifier::external_body] pub struct JTError { x: u8 }
impl From<IoError> for VxError { #[verifier::external_body] fn from(e: IoError) -> (r: VxError) { unimplemented!() } }
impl From<JTError> for VxError { #[verifier::external_body] fn from(e: JTError) -> (r: VxError) { unimplemented!() } }
impl<'a> From<&'a str> for VxError { #[verifier::external_body] fn from(e: &'a str) -> (r: VxError) { unimplemented!() } }
impl From<String> for VxError { #[verifier::external_body] fn from(e: String) -> (r: VxError) { unimplemented!() } }
pub trait VxIntoError { fn vx_into(self) -> VxError; }
impl VxIntoError for JTError { #[verifier::external_body] fn vx_into(self) -> VxError { unimplemented!() } }
impl VxIntoError for IoError { #[verifier::external_body] fn vx_into(self) -> VxError { unimplemented!() } }
#[verifier::external_body] pub fn vx_env(name: &str) -> (r: &'static str) { unimplemented!() }
pub struct App { pub x: u8 }
pub struct Arg { pub x: u8 }
#[verifier::external_body] pub struct ArgMatches { x: u8 }
// the value given for an argument
pub uninterp spec fn given(name: Seq<char>) -> Option<Seq<char>>;
impl App {
    #[verifier::external_body] pub fn new(n: &str) -> (r: App) { unimplemented!() }
    #[verifier::external_body] pub fn version(self, n: &str) -> (r: App) { unimplemented!() }
    #[verifier::external_body] pub fn about(self, n: &str) -> (r: App) { unimplemented!() }
    #[verifier::external_body] pub fn author(self, n: &str) -> (r: App) { unimplemented!() }
    #[verifier::external_body] pub fn arg(self, n: Arg) -> (r: App) { unimplemented!() }
    #[verifier::external_body] pub fn get_matches(self) -> (r: ArgMatches) { unimplemented!() }
}
impl Arg {
    #[verifier::external_body] pub fn with_name(n: &str) -> (r: Arg) { unimplemented!() }
    #[verifier::external_body] pub fn help(self, n: &str) -> (r: Arg) { unimplemented!() }
    #[verifier::external_body] pub fn short(self, n: &str) -> (r: Arg) { unimplemented!() }
    #[verifier::external_body] pub fn long(self, n: &str) -> (r: Arg) { unimplemented!() }
    #[verifier::external_body] pub fn takes_value(self, b: bool) -> (r: Arg) { unimplemented!() }
    #[verifier::external_body] pub fn required(self, b: bool) -> (r: Arg) { unimplemented!() }
    #[verifier::external_body] pub fn possible_values<T>(self, v: T) -> (r: Arg) { unimplemented!() }
}
impl ArgMatches {
    #[verifier::external_body] pub fn value_of(&self, n: &str) -> (r: Option<&str>) ensures match r { Some(s) => given(n@) == Some(s@), None => given(n@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn is_present(&self, n: &str) -> (r: bool) ensures r == (given(n@) is Some) { unimplemented!() }
}
// standard input, read to its end
pub uninterp spec fn stdin_text() -> Seq<char>;
pub mod io {
    use super::*;
    pub type Error = IoError;
    pub type Result<T, E = IoError> = core::result::Result<T, E>;
    #[verifier::external_body] pub struct Stdin { x: u8 }
    #[verifier::external_body] pub fn stdin() -> (r: Stdin) { unimplemented!() }
    impl Stdin { #[verifier::external_body] pub fn read_to_string(&mut self, b: &mut String) -> (r: Result<usize, IoError>) ensures r is Ok ==> final(b)@ == old(b)@ + stdin_text() { unimplemented!() } }
}
// ===== the library: what it makes of a name, a sample and options (or of a macro call); None: it fails =====
pub uninterp spec fn generation(name: Seq<char>, input: Seq<char>, o: Options) -> Option<Seq<char>>;
pub uninterp spec fn macro_generation(input: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn options_of(block: Seq<char>) -> Option<Options>;
pub uninterp spec fn mode_of(s: Seq<char>) -> Option<OutputMode>;
pub uninterp spec fn default_options() -> Options;
#[verifier::external_body] pub fn codegen(name: &str, input: &str, options: Options) -> (r: Result<String, JTError>) ensures match r { Ok(t) => generation(name@, input@, options) == Some(t@), Err(_) => generation(name@, input@, options) is None } { unimplemented!() }
#[verifier::external_body] pub fn codegen_from_macro(input: &str) -> (r: Result<String, JTError>) ensures match r { Ok(t) => macro_generation(input@) == Some(t@), Err(_) => macro_generation(input@) is None } { unimplemented!() }
pub mod parse {
    use super::*;
    #[verifier::external_body] pub fn options(block: &str) -> (r: Result<Options, JTError>) ensures match r { Ok(o) => options_of(block@) == Some(o), Err(_) => options_of(block@) is None } { unimplemented!() }
}
impl OutputMode { #[verifier::external_body] pub fn parse(s: &str) -> (r: Option<OutputMode>) ensures r == mode_of(s@) { unimplemented!() } }
impl Default for Options { #[verifier::external_body] fn default() -> (r: Options) ensures r == default_options() { unimplemented!() } }
// ===== what this run generates =====
pub open spec fn source_text() -> Seq<char> { if given("input"@) == Some("-"@) { stdin_text() } else { given("input"@)->Some_0 } }
pub open spec fn or_root(n: Option<Seq<char>>) -> Seq<char> { match n { Some(n) => n, None => "Root"@ } }
pub open spec fn run_options() -> Option<Options> {
    let o = match given("options"@) { Some(b) => options_of(b), None => Some(default_options()) };
    match (o, given("output-mode"@)) { (None, _) => None, (Some(o), None) => Some(o), (Some(o), Some(m)) => match mode_of(m) { Some(m) => Some(Options { output_mode: m, ..o }), None => None } }
}
pub open spec fn is_macro_call(s: Seq<char>) -> bool { is_prefix("json_typegen"@, trim_end_of(trim_start_of(s))) }
pub open spec fn run() -> Option<Seq<char>> {
    if given("input"@) is None { None }
    else if is_macro_call(source_text()) { macro_generation(source_text()) }
    else { match run_options() { Some(o) => generation(or_root(given("name"@)), source_text(), o), None => None } }
}
// ===== files: one is emptied only once there is something to write to it, and nothing else is written to it =====
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn wrote(path: Seq<char>, b: Seq<u8>) -> bool;
pub uninterp spec fn printed(s: Seq<char>) -> bool;
pub open spec fn may_write(path: Seq<char>) -> bool { run() is Some && given("output"@) == Some(path) }
pub trait VxBytes { spec fn bv(&self) -> Seq<u8>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
impl VxBytes for str { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxBytes for String { open spec fn bv(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
pub struct OpenOptions { pub r: bool, pub w: bool, pub a: bool, pub c: bool, pub n: bool, pub t: bool }
pub struct File { pub path: Ghost<Seq<char>>, pub clean: Ghost<bool>, pub w: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures r == (OpenOptions { r: false, w: false, a: false, c: false, n: false, t: false }) { OpenOptions { r: false, w: false, a: false, c: false, n: false, t: false } }
    pub fn vx_read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { r: b, ..self }) { OpenOptions { r: b, ..self } }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: b, ..self }) { OpenOptions { w: b, ..self } }
    pub fn append(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { a: b, ..self }) { OpenOptions { a: b, ..self } }
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { c: b, ..self }) { OpenOptions { c: b, ..self } }
    pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { n: b, ..self }) { OpenOptions { n: b, ..self } }
    pub fn vx_truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { t: b, ..self }) { OpenOptions { t: b, ..self } }
    // an existing file loses its contents
    #[verifier::external_body] pub fn open(self, path: &str) -> (r: Result<File, IoError>)
        requires self.t ==> may_write(path@),
        ensures r is Ok ==> r->Ok_0.path@ == path@ && r->Ok_0.clean@ == (self.n || self.t) && r->Ok_0.w == (self.w || self.a)
    { unimplemented!() }
}
impl File {
    #[verifier::external_body] pub fn create(path: &str) -> (r: Result<File, IoError>) requires may_write(path@), ensures r is Ok ==> r->Ok_0.path@ == path@ && r->Ok_0.clean@ && r->Ok_0.w { unimplemented!() }
    // the contents are then exactly what was written, if the file was empty before
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>)
        requires may_write(old(self).path@), utf8(run()->Some_0) == b@,
        ensures final(self).path == old(self).path, final(self).w == old(self).w, !final(self).clean@, r is Ok && old(self).clean@ ==> wrote(old(self).path@, b@)
    { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), IoError>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&self) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl VxBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
impl<'a, B: VxBytes + ?Sized> VxBytes for &'a B { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
pub mod fs {
    use super::*;
    pub use super::{File, OpenOptions};
    #[verifier::external_body] pub fn write<B: VxBytes>(path: &str, b: B) -> (r: Result<(), IoError>) requires may_write(path@), utf8(run()->Some_0) == b.bv(), ensures r is Ok ==> wrote(path@, b.bv()) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_print(s: String) requires run() == Some(s@), given("output"@) is None, ensures printed(s@) { unimplemented!() }
//@ prologue broadcast use lemma_cat_none;
//@ fn main_with_result
//@ attr eq
    ensures r is Ok ==> run() is Some && match given("output"@) { Some(p) => wrote(p, utf8(run()->Some_0)), None => printed(run()->Some_0) }
