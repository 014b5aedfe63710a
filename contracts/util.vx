//@ include words.vx
//@ raw
// ===== string literals: what stands between the quotes, and what it means =====
pub open spec fn hexd(n: int) -> char { if n < 10 { (0x30 + n) as u32 as char } else { (0x61 + n - 10) as u32 as char } }
pub open spec fn hexv(c: char) -> Option<int> {
    if is_digit_char(c) { Some(c as int - 0x30) } else if 'a' <= c && c <= 'f' { Some(c as int - 0x61 + 10) } else if 'A' <= c && c <= 'F' { Some(c as int - 0x41 + 10) } else { None }
}
pub open spec fn hex4(v: int) -> Seq<char> { seq![hexd(v / 4096), hexd(v / 256 % 16), hexd(v / 16 % 16), hexd(v % 16)] }
pub open spec fn unhex4(t: Seq<char>) -> Option<char> {
    if t.len() < 4 { None } else { match (hexv(t[0]), hexv(t[1]), hexv(t[2]), hexv(t[3])) {
        (Some(a), Some(b), Some(c), Some(d)) => { let v = a * 4096 + b * 256 + c * 16 + d; if v < 0xd800 || v >= 0xe000 { Some(v as u32 as char) } else { None } },
        _ => None } }
}
pub trait VxFmt { spec fn f04x(&self) -> Seq<char>; fn vx_fmt_04x(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.f04x(); }
impl VxFmt for u32 { open spec fn f04x(&self) -> Seq<char> { if *self < 0x10000 { hex4(*self as int) } else { seq![] } }
    #[verifier::external_body] fn vx_fmt_04x(&self, s: &mut String) { unimplemented!() } }
pub open spec fn simple(c: char) -> Option<char> {
    if c == '"' || c == '\\' { Some(c) } else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else if c == 'b' { Some('\u{8}') } else { None }
}
// the escapes that JSON, JavaScript, Python and Kotlin have in common, and that mean the same in all of them
pub open spec fn unesc(t: Seq<char>) -> Option<Seq<char>> decreases t.len() {
    if t.len() == 0 { Some(seq![]) }
    else if t[0] == '"' || (t[0] as u32) < 0x20 { None }
    else if t[0] == '\\' {
        if t.len() < 2 { None }
        else if t[1] == 'u' { if t.len() < 6 { None } else { match (unhex4(t.subrange(2, 6)), unesc(t.skip(6))) { (Some(c), Some(r)) => Some(seq![c] + r), _ => None } } }
        else { match (simple(t[1]), unesc(t.skip(2))) { (Some(c), Some(r)) => Some(seq![c] + r), _ => None } }
    } else { match unesc(t.skip(1)) { Some(r) => Some(seq![t[0]] + r), None => None } }
}
#[verifier::rlimit(60)] pub proof fn lemma_unesc_add(a: Seq<char>, b: Seq<char>)
    requires unesc(a) is Some, unesc(b) is Some,
    ensures unesc(a + b) == Some(unesc(a)->Some_0 + unesc(b)->Some_0),
    decreases a.len(),
{
    let t = a + b;
    if a.len() == 0 { assert(t =~= b); assert(seq![] + unesc(b)->Some_0 =~= unesc(b)->Some_0); }
    else if a[0] == '\\' {
        if a[1] == 'u' {
            assert(t.skip(6) =~= a.skip(6) + b); assert(t.subrange(2, 6) =~= a.subrange(2, 6));
            lemma_unesc_add(a.skip(6), b);
            assert(unesc(t)->Some_0 =~= unesc(a)->Some_0 + unesc(b)->Some_0);
        } else {
            assert(t.skip(2) =~= a.skip(2) + b);
            lemma_unesc_add(a.skip(2), b);
            assert(unesc(t)->Some_0 =~= unesc(a)->Some_0 + unesc(b)->Some_0);
        }
    } else {
        assert(t.skip(1) =~= a.skip(1) + b);
        lemma_unesc_add(a.skip(1), b);
        assert(unesc(t)->Some_0 =~= unesc(a)->Some_0 + unesc(b)->Some_0);
    }
}
// plain characters stand for themselves between quotes
pub open spec fn plain_text(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '"' && s[i] != '\\' && s[i] as u32 >= 0x20 }
// a character that stands for itself
pub proof fn lemma_unesc_plain(c: char)
    requires c != '"', c != '\\', c as u32 >= 0x20,
    ensures unesc(seq![c]) == Some(seq![c]),
{ reveal_with_fuel(unesc, 2); assert(seq![c].skip(1) =~= seq![]); assert(seq![c] + seq![] =~= seq![c]); }
pub proof fn lemma_unesc_simple(t: Seq<char>, c: char)
    requires t.len() == 2, t[0] == '\\', t[1] != 'u', simple(t[1]) == Some(c),
    ensures unesc(t) == Some(seq![c]),
{ reveal_with_fuel(unesc, 2); assert(t.skip(2) =~= seq![]); assert(seq![c] + seq![] =~= seq![c]); }
pub proof fn lemma_unesc_hex(t: Seq<char>, c: char)
    requires t.len() == 6, t[0] == '\\', t[1] == 'u', unhex4(t.subrange(2, 6)) == Some(c),
    ensures unesc(t) == Some(seq![c]),
{ reveal_with_fuel(unesc, 2); assert(t.skip(6) =~= seq![]); assert(seq![c] + seq![] =~= seq![c]); }
pub proof fn lemma_hex4(c: char)
    requires (c as u32) < 0x20,
    ensures unhex4(hex4(c as int)) == Some(c),
{
    let v = c as int;
    assert(v / 4096 == 0 && v / 256 % 16 == 0 && (v / 16 % 16) * 16 + v % 16 == v && 0 <= v / 16 % 16 < 2 && 0 <= v % 16 < 16) by (nonlinear_arith) requires 0 <= v < 0x20;
}
//@ file json_typegen_shared/src/util.rs
//@ fn camel_case
    ensures alnums(r@), name@.len() == 1 && alpha(name@[0]) ==> r@ == seq![up(name@[0])]
//@ loop 0
    invariant alnums(s@), name@.len() == 1 && alpha(name@[0]) ==> s@ == (if vx_it0.pos() == 0 { seq![] } else { seq![up(name@[0])] }),
        name@.len() == 1 && alpha(name@[0]) && vx_it0.pos() == 0 ==> last == ' ',
//@ at loop 0 start
    proof { if name@.len() == 1 && alpha(name@[0]) { assert(s@.push(up(name@[0])) =~= seq![up(name@[0])]); } }
//@ fn sep_case
    requires separator == '_' || separator == '-',
    ensures headed(r@), forall|i: int| 0 <= i < r@.len() ==> alnum(#[trigger] r@[i]) || r@[i] == separator,
        name@.len() == 1 && alpha(name@[0]) ==> r@ == seq![low(name@[0])],
        forall|i: int| 0 <= i < r@.len() ==> !upper(#[trigger] r@[i]),
//@ loop 0
    invariant headed(s@), forall|i: int| 0 <= i < s@.len() ==> alnum(#[trigger] s@[i]) || s@[i] == separator,
        forall|i: int| 0 <= i < s@.len() ==> !upper(#[trigger] s@[i]),
        s@.len() == 0 ==> last == 'A', s@.len() == 0 ==> vx_skipping0,
        name@.len() == 1 && alpha(name@[0]) ==> s@ == (if vx_it0.pos() == 0 { seq![] } else { seq![low(name@[0])] }),
//@ at loop 0 start
    proof { if name@.len() == 1 && alpha(name@[0]) { assert(s@.push(low(name@[0])) =~= seq![low(name@[0])]); } }
//@ fn snake_case
    ensures headed(r@), word(r@), name@.len() == 1 && alpha(name@[0]) ==> r@ == seq![low(name@[0])], forall|i: int| 0 <= i < r@.len() ==> !upper(#[trigger] r@[i])
//@ fn kebab_case
    ensures headed(r@), forall|i: int| 0 <= i < r@.len() ==> alnum(#[trigger] r@[i]) || r@[i] == '-'
//@ fn uppercase_first_letter
    ensures s@.len() == 0 ==> r@ == s@, s@.len() > 0 ==> r@ == seq![up(s@[0])] + s@.skip(1)
//@ fn lowercase_first_letter
    ensures s@.len() == 0 ==> r@ == s@, s@.len() > 0 ==> r@ == seq![low(s@[0])] + s@.skip(1)
//@ fn type_case
    ensures alnums(r@), r@.len() > 0 ==> !lower(r@[0]), name@.len() == 1 && alpha(name@[0]) ==> r@ == seq![up(name@[0])]
//@ at start
    proof { if name@.len() == 1 { assert(seq![up(name@[0])] + seq![up(name@[0])].skip(1) =~= seq![up(name@[0])]); } }
//@ fn lower_camel_case
    ensures alnums(r@), r@.len() > 0 ==> !upper(r@[0])
//@ fn escape_string
//@ attr verifier::rlimit(60)
    ensures unesc(r@) == Some(s@), plain_text(s@) ==> r@ == s@
//@ loop 0
    invariant unesc(escaped@) == Some(s@.take(vx_it0.pos())), plain_text(s@) ==> escaped@ == s@.take(vx_it0.pos()),
//@ at loop 0 start
    let ghost e0 = escaped@;
    proof {
        reveal_strlit("\\\""); reveal_strlit("\\\\"); reveal_strlit("\\u");
        assert("\\\""@ =~= seq!['\\', '"']); assert("\\\\"@ =~= seq!['\\', '\\']);
        lemma_unesc_simple("\\\""@, '"'); lemma_unesc_simple("\\\\"@, '\\');
        if (c as u32) < 0x20 {
            lemma_hex4(c);
            let t = "\\u"@ + hex4(c as int);
            assert(t.subrange(2, 6) =~= hex4(c as int));
            lemma_unesc_hex(t, c);
            lemma_unesc_add(e0, t);
        } else if c != '"' && c != '\\' { lemma_unesc_plain(c); lemma_unesc_add(e0, seq![c]); }
        lemma_unesc_add(e0, "\\\""@); lemma_unesc_add(e0, "\\\\"@);
        assert(vx_s0.take(vx_it0.pos()) =~= vx_s0.take(vx_it0.pos() - 1) + seq![c]);
        assert(e0.push(c) =~= e0 + seq![c]);
    }
//@ at end
    proof { assert(s@.take(s@.len() as int) =~= s@); }
