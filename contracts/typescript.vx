//@ include util.vx assume
//@ include singular.vx assume
//@ raw
// the property names TypeScript reads without quotes
pub open spec fn ts_start(c: char) -> bool { alpha(c) || c == '_' || c == '$' }
pub open spec fn ts_part(c: char) -> bool { ts_start(c) || is_digit_char(c) }
pub open spec fn ts_ident(s: Seq<char>) -> bool { s.len() > 0 && ts_start(s[0]) && forall|i: int| 0 <= i < s.len() ==> ts_part(#[trigger] s[i]) }
use vstd::utf8::{encode_utf8, decode_utf8};
#[verifier::external_body] pub fn vx_bytes_of(s: &str) -> (r: &[u8]) ensures r@ == encode_utf8(s@) { unimplemented!() }
pub trait VxBytesOf { spec fn bs(&self) -> Seq<char>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.bs()); }
impl VxBytesOf for str { open spec fn bs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
pub trait VxSplitFirst<T> { spec fn sfv(&self) -> Seq<T>; fn vx_split_first(&self) -> (r: Option<(&T, &[T])>)
    ensures match r { None => self.sfv().len() == 0, Some(p) => self.sfv().len() > 0 && *p.0 == self.sfv()[0] && p.1@ == self.sfv().skip(1) }; }
impl<T> VxSplitFirst<T> for [T] { open spec fn sfv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() } }
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
pub proof fn lemma_ascii(s: Seq<char>)
    ensures (forall|i: int| 0 <= i < encode_utf8(s).len() ==> encode_utf8(s)[i] < 128) ==> s == chars_of(encode_utf8(s)),
{
    let b = encode_utf8(s);
    if forall|i: int| 0 <= i < b.len() ==> b[i] < 128 {
        let c = chars_of(b);
        assert(vstd::utf8::is_ascii_chars(c));
        vstd::utf8::is_ascii_chars_encode_utf8(c);
        assert(encode_utf8(c) =~= b);
        vstd::utf8::encode_utf8_decode_utf8(c);
        vstd::utf8::encode_utf8_decode_utf8(s);
    }
}
pub proof fn lemma_prefixed_word(c: char, s: Seq<char>)
    requires alpha(c), word(s),
    ensures ident(seq![c] + s),
{ let u = seq![c] + s; assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i >= 1 { assert(u[i] == s[i - 1]); } } }
//@ rename-method split_first => vx_split_first
//@ file json_typegen_shared/src/generation/typescript.rs
//@ type Ident
//@ type Code
//@ const RESERVED_WORDS
//@ fn is_ts_identifier
    ensures r ==> ts_ident(s@)
//@ at start
    proof { lemma_ascii(s@); }
    let ghost b = encode_utf8(s@);
//@ loop 0
    invariant vx_s0 == refs(b.skip(1)), s@.len() == s@.len(),
        vx_res0 ==> forall|i: int| 1 <= i <= vx_it0.pos() ==> #[trigger] b[i] < 128 && ts_part(b[i] as char),
//@ fn type_name
    ensures ident(r@), !used_names.names().contains(r@)
//@ at start
    proof {
        reveal_strlit("GeneratedType"); reveal_strlit("N"); assert("N"@ =~= seq!['N']);
        assert(ident("GeneratedType"@));
        assert forall|s: Seq<char>| s.len() == 0 implies #[trigger] (s + "GeneratedType"@) == "GeneratedType"@ by { assert(s + "GeneratedType"@ =~= "GeneratedType"@); }
        assert forall|s: Seq<char>| word(s) && s.len() > 0 implies ident(#[trigger] ("N"@ + s)) by { lemma_prefixed_word('N', s); }
    }
//@ loop 0
    invariant ident(output_name@), 2 <= vx_i0 <= used_names.names().len() + 2, tried(used_names.names(), output_name@, vx_i0 as int),
        used_names.names().len() < 0x7fff_fff8,
    decreases 0x7fff_ffff - vx_i0,
//@ at loop 0 start
    proof {
        lemma_numbered(output_name@, n as int);
        assert(Seq::<char>::empty() + output_name@ + dec(n as nat) =~= numbered(output_name@, n as int));
        if used_names.names().contains(numbered(output_name@, n as int)) { lemma_tried(used_names.names(), output_name@, n + 1); }
    }
