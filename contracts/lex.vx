//@ include prelude.vx
//@ include strings.vx
//@ include lex_spec.vx
//@ raw
#[verifier::external_body] pub struct VxIoErr { x: u8 }
// std::iter::Peekable<std::io::Bytes<..>>: what is left to read
#[verifier::external_body] pub struct VxBytes { x: u8 }
pub open spec fn gb(r: Result<u8, VxIoErr>) -> GB { match r { Ok(b) => GB::B(b), Err(_) => GB::E } }
impl VxBytes {
    pub uninterp spec fn rest(&self) -> Seq<GB>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&Result<u8, VxIoErr>>)
        ensures final(self).rest() == old(self).rest(),
            r is None <==> old(self).rest().len() == 0,
            r is Some ==> gb(*r->Some_0) == old(self).rest()[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<u8, VxIoErr>>)
        ensures r is None <==> old(self).rest().len() == 0,
            r is None ==> final(self).rest() == old(self).rest(),
            r is Some ==> gb(r->Some_0) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
#[verifier::external_body] pub struct VxUtf8Err { x: u8 }
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, VxUtf8Err>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> r->Ok_0@ == decode_utf8(v@)
{ unimplemented!() }
pub open spec fn is_scalar(c: u32) -> bool { c < 0xd800 || (0xe000 <= c && c < 0x110000) }
#[verifier::external_body]
pub fn vx_from_u32(c: u32) -> (r: Option<char>) ensures r is Some <==> is_scalar(c), r is Some ==> r->Some_0 == c as char { unimplemented!() }
pub const VX_REPLACEMENT: char = '\u{fffd}';
#[verifier::external_body] pub struct VxUtf8 { x: u8 }
// char::encode_utf8 (the buffer it is given is at least four bytes long)
#[verifier::external_body] pub fn vx_encode_utf8(c: char) -> (r: VxUtf8) ensures r.enc() == encode_utf8(seq![c]) { unimplemented!() }
impl VxUtf8 {
    pub uninterp spec fn enc(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn vx_bytes(self) -> (r: VxIter<u8>) ensures r.seq() == self.enc(), r.pos() == 0 { unimplemented!() }
}
pub trait VxStrBytes { spec fn bview(&self) -> Seq<u8>; fn vx_bytes(&self) -> (r: VxIter<u8>) ensures r.seq() == self.bview(), r.pos() == 0; }
impl VxStrBytes for str { open spec fn bview(&self) -> Seq<u8> { encode_utf8(self@) } #[verifier::external_body] fn vx_bytes(&self) -> (r: VxIter<u8>) { unimplemented!() } }
//@ file json_typegen_shared/src/inference/jsoninputerr.rs
//@ type JsonInputErr
//@ file json_typegen_shared/src/inference/jsonlex.rs
//@ subst-type Peekable<Bytes<BufReader<R>>> => VxBytes
//@ rename-path String::from_utf8 => vx_from_utf8
//@ rename-path std::char::from_u32 => vx_from_u32
//@ rename-path std::char::REPLACEMENT_CHARACTER => VX_REPLACEMENT
//@ type JsonToken
//@ type JsonLexer keep nogenerics
//@ raw
pub open spec fn gt(t: JsonToken) -> GTok {
    match t {
        JsonToken::True => GTok::True, JsonToken::False => GTok::False, JsonToken::Null => GTok::Null,
        JsonToken::Number(s) => GTok::Num(s@), JsonToken::String(s) => GTok::Str(s@),
        JsonToken::ObjectStart => GTok::OStart, JsonToken::ObjectEnd => GTok::OEnd, JsonToken::ArrayStart => GTok::AStart, JsonToken::ArrayEnd => GTok::AEnd,
        JsonToken::Comma => GTok::Comma, JsonToken::Colon => GTok::Colon,
    }
}
//@ fn JsonLexer::expect_byte
//@ header impl JsonLexer
    ensures final(self).failed == old(self).failed, final(self).buffer == old(self).buffer,
        match r { Ok(b) => byte_at(old(self).bytes.rest(), 0, b) && final(self).bytes.rest() == old(self).bytes.rest().skip(1),
            Err(_) => old(self).bytes.rest().len() == 0 || old(self).bytes.rest()[0] is E },
//@ fn JsonLexer::skip_byte
//@ header impl JsonLexer
    ensures final(self).failed == old(self).failed, final(self).buffer == old(self).buffer,
        r is Ok <==> byte_at(old(self).bytes.rest(), 0, target_byte),
        r is Ok ==> final(self).bytes.rest() == old(self).bytes.rest().skip(1),
//@ fn JsonLexer::parse_codepoint
//@ header impl JsonLexer
    ensures final(self).failed == old(self).failed, final(self).buffer == old(self).buffer,
        match r { Ok(c) => hexn(old(self).bytes.rest(), 4) == Some(c as int) && final(self).bytes.rest() == old(self).bytes.rest().skip(4),
            Err(_) => hexn(old(self).bytes.rest(), 4) is None },
//@ at start
    proof { assert(self.bytes.rest().skip(0) =~= self.bytes.rest()); }
//@ loop 0
    invariant 0 <= vx_i0 <= 4, self.failed == old(self).failed, self.buffer == old(self).buffer,
        self.bytes.rest() == old(self).bytes.rest().skip(vx_i0 as int),
        hexn(old(self).bytes.rest(), vx_i0 as nat) == Some(codepoint as int),
        vx_i0 == 0 ==> codepoint == 0, vx_i0 == 1 ==> codepoint < 0x10, vx_i0 == 2 ==> codepoint < 0x100, vx_i0 == 3 ==> codepoint < 0x1000,
//@ at loop 0 start
    let ghost c0 = codepoint;
    proof { assert(c0 < 0x1000 ==> (c0 << 4u32) == c0 * 16) by (bit_vector); reveal_with_fuel(hexn, 5); }
//@ fn JsonLexer::skip_and_produce
//@ header impl JsonLexer
    requires old(self).bytes.rest().len() > 0,
    ensures final(self).failed == old(self).failed, r is Ok, gt(r->Ok_0) == gt(token), final(self).bytes.rest() == old(self).bytes.rest().skip(1),
//@ fn JsonLexer::match_token
//@ header impl JsonLexer
    ensures final(self).failed == old(self).failed,
        word_at(old(self).bytes.rest(), encode_utf8(target_str@)) ==> r is Ok && gt(r->Ok_0) == gt(token)
            && final(self).bytes.rest() == old(self).bytes.rest().skip(encode_utf8(target_str@).len() as int),
        !word_at(old(self).bytes.rest(), encode_utf8(target_str@)) ==> r is Err,
//@ at start
    proof { assert(self.bytes.rest().skip(0) =~= self.bytes.rest()); }
//@ loop 0
    invariant self.failed == old(self).failed,
        vx_it0.pos() <= old(self).bytes.rest().len(),
        self.bytes.rest() == old(self).bytes.rest().skip(vx_it0.pos()),
        forall|i: int| 0 <= i < vx_it0.pos() ==> old(self).bytes.rest()[i] == GB::B(#[trigger] vx_s0[i]),
//@ raw
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
pub proof fn lemma_ascii(b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> b[i] < 128,
    ensures valid_utf8(b), decode_utf8(b) == chars_of(b),
{
    let c = chars_of(b);
    assert(vstd::utf8::is_ascii_chars(c));
    vstd::utf8::is_ascii_chars_encode_utf8(c);
    assert(encode_utf8(c) =~= b);
    vstd::utf8::encode_utf8_valid_utf8(c);
    vstd::utf8::encode_utf8_decode_utf8(c);
    vstd::utf8::decode_utf8_encode_utf8(b);
}
pub open spec fn run_after(b: Seq<u8>, r: Option<(Seq<char>, Seq<GB>)>) -> Option<(Seq<char>, Seq<GB>)> {
    match r { None => None, Some((y, rest)) => Some((chars_of(b) + y, rest)) }
}
//@ raw
pub open spec fn vb(v: Vec<u8>) -> Seq<u8> { v@ }
//@ fn JsonLexer::match_number
//@ header impl JsonLexer
//@ attr terminates
    ensures final(self).failed == old(self).failed,
        match num_run(old(self).bytes.rest()) {
            Some((y, rest)) => r is Ok && gt(r->Ok_0) == GTok::Num(y) && final(self).bytes.rest() == rest,
            None => r is Err,
        }
//@ loop 0
    invariant_except_break
        self.failed == old(self).failed,
        forall|i: int| 0 <= i < vb(buffer).len() ==> vb(buffer)[i] < 128,
        run_after(vb(buffer), num_run(self.bytes.rest())) == num_run(old(self).bytes.rest()),
    ensures
        self.failed == old(self).failed,
        forall|i: int| 0 <= i < vb(buffer).len() ==> vb(buffer)[i] < 128,
        num_run(old(self).bytes.rest()) == Some((chars_of(vb(buffer)), self.bytes.rest())),
    decreases self.bytes.rest().len()
//@ at start
    proof { lemma_run_start(num_run(self.bytes.rest())); }
//@ at loop 0 start
    let ghost b0 = vb(buffer);
    let ghost s0 = self.bytes.rest();
    proof { lemma_run_step(b0, s0); }
//@ at tail
    proof { lemma_ascii(vb(buffer)); }
//@ raw
pub proof fn lemma_run_start(r: Option<(Seq<char>, Seq<GB>)>) ensures run_after(seq![], r) == r
{ if let Some((y, rest)) = r { assert(chars_of(seq![]) + y =~= y); } }
pub proof fn lemma_run_step(b: Seq<u8>, s: Seq<GB>)
    ensures
        s.len() == 0 || (s[0] is B && !is_num(s[0]->B_0)) ==> run_after(b, num_run(s)) == Some((chars_of(b), s)),
        s.len() > 0 && s[0] is E ==> run_after(b, num_run(s)) is None,
        s.len() > 0 && s[0] is B && is_num(s[0]->B_0) ==> run_after(b, num_run(s)) == run_after(b.push(s[0]->B_0), num_run(s.skip(1))),
{
    assert(chars_of(b) + seq![] =~= chars_of(b));
    if s.len() > 0 && s[0] is B && is_num(s[0]->B_0) {
        if let Some((y, rest)) = num_run(s.skip(1)) {
            assert(chars_of(b) + (seq![s[0]->B_0 as char] + y) =~= chars_of(b.push(s[0]->B_0)) + y);
        }
    }
}
//@ raw
pub open spec fn pre(b: Seq<u8>, r: Option<(Seq<u8>, Seq<GB>)>) -> Option<(Seq<u8>, Seq<GB>)> {
    match r { None => None, Some((y, rest)) => Some((b + y, rest)) }
}
pub broadcast proof fn lemma_pre2(a: Seq<u8>, b: Seq<u8>, r: Option<(Seq<u8>, Seq<GB>)>)
    ensures #[trigger] pre(a, pre(b, r)) == pre(a + b, r)
{ if let Some((y, rest)) = r { assert(a + b + y =~= a + (b + y)); } }
pub proof fn lemma_pre0(r: Option<(Seq<u8>, Seq<GB>)>) ensures pre(seq![], r) == r
{ if let Some((y, rest)) = r { assert(seq![] + y =~= y); } }
pub proof fn lemma_pre1(b: Seq<u8>, x: u8, r: Option<(Seq<u8>, Seq<GB>)>) ensures pre(b, pre(seq![x], r)) == pre(b.push(x), r)
{ if let Some((y, rest)) = r { assert(b.push(x) + y =~= b + (seq![x] + y)); } }
pub proof fn lemma_shl()
    ensures forall|c: u32| c < 0x10000 ==> #[trigger] (c << 10u32) == c * 1024
{
    assert forall|c: u32| c < 0x10000 implies #[trigger] (c << 10u32) == c * 1024 by { assert(c < 0x10000 ==> (c << 10u32) == c * 1024) by (bit_vector); }
}
// digits are there when they have a value, and the value is small
pub proof fn lemma_hexn(s: Seq<GB>, n: nat)
    requires hexn(s, n) is Some, n <= 4,
    ensures s.len() >= n, n == 4 ==> 0 <= hexn(s, n)->Some_0 < 0x10000
    decreases n
{ reveal_with_fuel(hexn, 5); if n > 0 { lemma_hexn(s, (n - 1) as nat); } }
// what one step of reading a string does, along the way the bytes are taken
pub open spec fn step_u(b: Seq<u8>, t: Seq<GB>) -> Option<(Seq<u8>, Seq<GB>)> {
    match hexn(t, 4) {
        None => None,
        Some(c) => if 0xdc00 <= c <= 0xdfff { None } else if 0xd800 <= c <= 0xdbff {
            let u = t.skip(4);
            if !byte_at(u, 0, 0x5c) || !byte_at(u.skip(1), 0, 0x75) { None } else {
                match hexn(u.skip(1).skip(1), 4) {
                    Some(d) => if 0xdc00 <= d <= 0xdfff { pre(b + utf8_of(0x10000 + (c - 0xd800) * 0x400 + (d - 0xdc00)), unquote(u.skip(1).skip(1).skip(4))) } else { None },
                    None => None,
                }
            }
        } else { pre(b + utf8_of(c), unquote(t.skip(4))) }
    }
}
pub open spec fn step(b: Seq<u8>, s: Seq<GB>) -> Option<(Seq<u8>, Seq<GB>)> {
    if s.len() == 0 { None } else { match s[0] {
        GB::E => None,
        GB::B(c) => if c == 0x22 { Some((b, s.skip(1))) } else if c != 0x5c { pre(b.push(c), unquote(s.skip(1))) } else {
            let t = s.skip(1);
            if t.len() == 0 { None } else { match t[0] {
                GB::E => None,
                GB::B(e) => if e == 0x75 { step_u(b, t.skip(1)) } else { match simple_escape(e) { None => None, Some(x) => pre(b.push(x), unquote(t.skip(1))) } },
            } }
        },
    } }
}
pub broadcast proof fn lemma_hexn_len(s: Seq<GB>)
    ensures #[trigger] hexn(s, 4) is Some ==> s.len() >= 4
{ if hexn(s, 4) is Some { lemma_hexn(s, 4); } }
pub proof fn lemma_step_u(b: Seq<u8>, s: Seq<GB>)
    requires s.len() >= 2, s[0] == GB::B(0x5c), s[1] == GB::B(0x75)
    ensures pre(b, unquote(s)) == step_u(b, s.skip(1).skip(1))
{
    hide(hexn); hide(utf8_of); hide(simple_escape);
    broadcast use lemma_hexn_len;
    let e = s.skip(1);
    let t = e.skip(1);
    assert(t =~= s.skip(2));
    match hexn(t, 4) {
        None => {}
        Some(c) => {
            let u = t.skip(4);
            assert(u =~= s.skip(6));
            if 0xd800 <= c <= 0xdbff {
                assert(byte_at(u, 0, 0x5c) == byte_at(e, 5, 0x5c));
                if byte_at(u, 0, 0x5c) {
                    assert(byte_at(u.skip(1), 0, 0x75) == byte_at(e, 6, 0x75));
                    if byte_at(u.skip(1), 0, 0x75) {
                        let v = u.skip(1).skip(1);
                        assert(v =~= e.skip(7));
                        if hexn(v, 4) is Some { assert(v.skip(4) =~= s.skip(12)); }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_step(b: Seq<u8>, s: Seq<GB>)
    ensures pre(b, unquote(s)) == step(b, s)
{
    hide(step_u);
    assert(b + seq![] =~= b);
    if s.len() > 0 && s[0] is B {
        let c = s[0]->B_0;
        if c == 0x5c {
            if s.len() >= 2 && s[1] is B {
                let e = s[1]->B_0;
                if e == 0x75 { lemma_step_u(b, s); } else {
                    assert(s.skip(1).skip(1) =~= s.skip(2));
                    if let Some(x) = simple_escape(e) { lemma_pre1(b, x, unquote(s.skip(2))); }
                }
            }
        } else { lemma_pre1(b, c, unquote(s.skip(1))); }
    }
}
//@ fn JsonLexer::match_string
//@ header impl JsonLexer
//@ attr terminates
    ensures final(self).failed == old(self).failed,
        match str_token(old(self).bytes.rest()) {
            Lex::Tok(t, rest) => r is Ok && gt(r->Ok_0) == t && final(self).bytes.rest() == rest,
            _ => r is Err,
        }
//@ at start
    hide(unquote); hide(hexn);
    let ghost inp = self.bytes.rest().skip(1);
    proof { lemma_pre0(unquote(inp)); lemma_shl(); assert((0xD800u32 << 10u32) == 56623104) by (bit_vector); }
//@ loop 0
    invariant
        self.failed == old(self).failed,
        byte_at(old(self).bytes.rest(), 0, 0x22), inp == old(self).bytes.rest().skip(1),
        pre(self.buffer@, unquote(self.bytes.rest())) == unquote(inp),
        forall|c: u32| c < 0x10000 ==> #[trigger] (c << 10u32) == c * 1024,
        (0xD800u32 << 10u32) == 56623104,
    decreases self.bytes.rest().len()
//@ at loop 0 start
    let ghost b0 = self.buffer@;
    let ghost s0 = self.bytes.rest();
    proof { lemma_step(b0, s0); }
    broadcast use lemma_hexn_len;
//@ loop 1
    invariant
        self.failed == old(self).failed, 
        self.buffer@ == b0 + vx_s1.take(vx_it1.pos()),
//@ raw
pub proof fn lemma_words()
    ensures encode_utf8("true"@) == w_true(), encode_utf8("false"@) == w_false(), encode_utf8("null"@) == w_null()
{
    reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null");
    vstd::utf8::is_ascii_chars_encode_utf8("true"@); vstd::utf8::is_ascii_chars_encode_utf8("false"@); vstd::utf8::is_ascii_chars_encode_utf8("null"@);
    assert(encode_utf8("true"@) =~= w_true()); assert(encode_utf8("false"@) =~= w_false()); assert(encode_utf8("null"@) =~= w_null());
}
//@ fn JsonLexer::get_next_token
//@ header impl JsonLexer
//@ attr terminates
    ensures final(self).failed == old(self).failed,
        match lex1(old(self).bytes.rest()) {
            Lex::End => r is None && final(self).bytes.rest().len() == 0,
            Lex::Bad => r is Some && r->Some_0 is Err,
            Lex::Tok(t, rest) => r is Some && r->Some_0 is Ok && gt(r->Some_0->Ok_0) == t && final(self).bytes.rest() == rest,
        }
//@ at start
    proof { lemma_words(); }
//@ loop 0
    invariant
        encode_utf8("true"@) == w_true(), encode_utf8("false"@) == w_false(), encode_utf8("null"@) == w_null(),
        self.failed == old(self).failed,
        lex1(self.bytes.rest()) == lex1(old(self).bytes.rest()),
    decreases self.bytes.rest().len()
//@ raw
// ===== the tokens of a sample =====
pub proof fn lemma_escape_len(s: Seq<GB>)
    ensures escape(s) is Some ==> 0 < escape(s)->Some_0.1 <= s.len()
{ hide(hexn); broadcast use lemma_hexn_len; }
// what is left after a token is a proper suffix
pub proof fn lemma_unquote_rest(s: Seq<GB>)
    ensures unquote(s) is Some ==> unquote(s)->Some_0.1.len() < s.len() && unquote(s)->Some_0.1 == s.skip(s.len() - unquote(s)->Some_0.1.len())
    decreases s.len()
{
    hide(escape);
    if s.len() > 0 && s[0] is B && s[0]->B_0 != 0x22 {
        if s[0]->B_0 == 0x5c {
            lemma_escape_len(s.skip(1));
            if let Some((x, n)) = escape(s.skip(1)) {
                lemma_unquote_rest(s.skip(1 + n));
                if let Some((y, r)) = unquote(s.skip(1 + n)) { assert(s.skip(1 + n).skip(s.len() - 1 - n - r.len()) =~= s.skip(s.len() - r.len())); }
            }
        } else {
            lemma_unquote_rest(s.skip(1));
            if let Some((y, r)) = unquote(s.skip(1)) { assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len())); }
        }
    }
}
pub proof fn lemma_num_rest(s: Seq<GB>)
    ensures num_run(s) is Some ==> num_run(s)->Some_0.1.len() <= s.len() && num_run(s)->Some_0.1 == s.skip(s.len() - num_run(s)->Some_0.1.len())
        && num_run(s)->Some_0.0.len() == s.len() - num_run(s)->Some_0.1.len()
    decreases s.len()
{
    assert(s.skip(0) =~= s);
    if s.len() > 0 && s[0] is B && is_num(s[0]->B_0) {
        lemma_num_rest(s.skip(1));
        if let Some((y, r)) = num_run(s.skip(1)) { assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len())); }
    }
}
pub proof fn lemma_lex_rest(s: Seq<GB>)
    ensures lex1(s) matches Lex::Tok(t, r) ==> r.len() < s.len() && r == s.skip(s.len() - r.len())
    decreases s.len()
{
    hide(unquote);
    if s.len() > 0 && s[0] is B {
        lemma_unquote_rest(s.skip(1));
        lemma_num_rest(s);
        if is_ws(s[0]->B_0) { lemma_lex_rest(s.skip(1)); }
        match lex1(s) { Lex::Tok(t, r) => { assert(s.skip(1).skip(s.len() - 1 - r.len()) =~= s.skip(s.len() - r.len())); } _ => {} }
    }
}
// all tokens; what cannot be read is one Bad at the end
pub open spec fn stream(s: Seq<GB>) -> Seq<GTok> decreases s.len() {
    match lex1(s) {
        Lex::End => seq![],
        Lex::Bad => seq![GTok::Bad],
        Lex::Tok(t, r) => if r.len() < s.len() { seq![t] + stream(r) } else { seq![t] },
    }
}
pub open spec fn gr(r: Result<JsonToken, JsonInputErr>) -> GTok { match r { Ok(t) => gt(t), Err(_) => GTok::Bad } }
pub open spec fn toks(l: JsonLexer) -> Seq<GTok> { if l.failed { seq![] } else { stream(l.bytes.rest()) } }
//@ fn JsonLexer::next
//@ header impl JsonLexer
//@ sig pub fn next(&mut self) -> (r: Option<Result<JsonToken, JsonInputErr>>)
//@ attr terminates
    ensures
        r is None <==> toks(*old(self)).len() == 0,
        r is None ==> toks(*final(self)).len() == 0,
        r is Some ==> gr(r->Some_0) == toks(*old(self))[0] && toks(*final(self)) == toks(*old(self)).skip(1),
//@ at start
    proof { lemma_lex_rest(self.bytes.rest()); lemma_stream_first(self.bytes.rest()); }
//@ raw
pub proof fn lemma_stream_first(s: Seq<GB>)
    ensures match lex1(s) { Lex::End => stream(s).len() == 0, Lex::Bad => stream(s) == seq![GTok::Bad] && stream(s).skip(1) == Seq::<GTok>::empty(),
        Lex::Tok(t, r) => stream(s).len() > 0 && stream(s)[0] == t && stream(s).skip(1) == stream(r) }
{
    lemma_lex_rest(s);
    match lex1(s) { Lex::Tok(t, r) => { assert((seq![t] + stream(r)).skip(1) =~= stream(r)); } Lex::Bad => { assert(seq![GTok::Bad].skip(1) =~= seq![]); } _ => {} }
}
// no token is an error, except for the last
pub proof fn lemma_bad_last(s: Seq<GB>)
    ensures forall|i: int| 0 <= i < stream(s).len() - 1 ==> !(#[trigger] stream(s)[i] is Bad)
    decreases s.len()
{
    lemma_lex_rest(s);
    lemma_lex_kind(s);
    match lex1(s) { Lex::Tok(t, r) => { lemma_bad_last(r); } _ => {} }
}
pub proof fn lemma_lex_kind(s: Seq<GB>) ensures lex1(s) matches Lex::Tok(t, r) ==> !(t is Bad) decreases s.len()
{ if s.len() > 0 && s[0] is B && is_ws(s[0]->B_0) { lemma_lex_kind(s.skip(1)); } }
// white space before a token does not matter
pub open spec fn all_ws(w: Seq<GB>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) is B && is_ws(w[i]->B_0) }
pub proof fn lemma_ws_before(w: Seq<GB>, s: Seq<GB>)
    requires all_ws(w)
    ensures lex1(w + s) == lex1(s), stream(w + s) == stream(s)
    decreases w.len()
{
    if w.len() == 0 { assert(w + s =~= s); } else {
        assert((w + s).skip(1) =~= w.skip(1) + s);
        assert(forall|i: int| 0 <= i < w.len() - 1 ==> w.skip(1)[i] == w[i + 1]);
        lemma_ws_before(w.skip(1), s);
        lemma_lex_rest(s);
    }
}
// a token does not depend on what follows it (except that a number goes on as long as it can)
pub open spec fn stops(x: Seq<GB>) -> bool { x.len() == 0 || (x[0] is B && !is_num(x[0]->B_0)) }
pub proof fn lemma_num_local(p: Seq<GB>, r: Seq<GB>, x: Seq<GB>)
    requires num_run(p + r) matches Some((y, rest)) && rest == r, stops(x)
    ensures num_run(p + x) == Some((num_run(p + r)->Some_0.0, x))
    decreases p.len()
{
    lemma_num_rest(p + r);
    if p.len() == 0 { assert(p + r =~= r); assert(p + x =~= x); assert(num_run(r)->Some_0.0 =~= seq![]); assert(num_run(x) == Some((Seq::<char>::empty(), x))); }
    else {
        assert((p + r).skip(1) =~= p.skip(1) + r); assert((p + x).skip(1) =~= p.skip(1) + x);
        lemma_num_local(p.skip(1), r, x);
    }
}
pub proof fn lemma_hex_local(s: Seq<GB>, t: Seq<GB>, n: nat)
    requires s.len() >= n, t.len() >= n, forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures hexn(s, n) == hexn(t, n)
    decreases n
{ if n > 0 { lemma_hex_local(s, t, (n - 1) as nat); } }
pub proof fn lemma_escape_local(s: Seq<GB>, t: Seq<GB>)
    requires escape(s) is Some, t.len() >= escape(s)->Some_0.1, forall|i: int| 0 <= i < escape(s)->Some_0.1 ==> s[i] == t[i]
    ensures escape(t) == escape(s)
{
    hide(hexn); hide(utf8_of); hide(simple_escape);
    broadcast use lemma_hexn_len;
    lemma_escape_len(s);
    assert(s[0] == t[0]);
    if s[0] == GB::B(0x75) {
        lemma_hex_local(s.skip(1), t.skip(1), 4);
        if escape(s)->Some_0.1 == 11 { assert(s[5] == t[5] && s[6] == t[6]); lemma_hex_local(s.skip(7), t.skip(7), 4); }
    }
}
pub proof fn lemma_unquote_local(p: Seq<GB>, r: Seq<GB>, x: Seq<GB>)
    requires unquote(p + r) matches Some((y, rest)) && rest == r
    ensures unquote(p + x) == Some((unquote(p + r)->Some_0.0, x))
    decreases p.len()
{
    hide(escape);
    let s = p + r; let t = p + x;
    lemma_unquote_rest(s);
    assert(p.len() > 0);
    assert(s[0] == t[0]);
    if s[0] == GB::B(0x22) { assert(s.skip(1).len() == r.len()); assert(t.skip(1) =~= x); }
    else if s[0] == GB::B(0x5c) {
        let n = escape(s.skip(1))->Some_0.1;
        lemma_escape_len(s.skip(1));
        lemma_unquote_rest(s.skip(1 + n));
        assert(1 + n < p.len());
        lemma_escape_local(s.skip(1), t.skip(1));
        assert(s.skip(1 + n) =~= p.skip(1 + n) + r); assert(t.skip(1 + n) =~= p.skip(1 + n) + x);
        lemma_unquote_local(p.skip(1 + n), r, x);
    } else {
        assert(s.skip(1) =~= p.skip(1) + r); assert(t.skip(1) =~= p.skip(1) + x);
        lemma_unquote_local(p.skip(1), r, x);
    }
}
pub proof fn lemma_token_local(p: Seq<GB>, r: Seq<GB>, x: Seq<GB>)
    requires lex1(p + r) matches Lex::Tok(t, rest) && rest == r && (t is Num ==> stops(x))
    ensures lex1(p + x) == Lex::Tok(lex1(p + r)->Tok_0, x)
    decreases p.len()
{
    hide(unquote); hide(num_run);
    let s = p + r; let t = p + x;
    lemma_lex_rest(s);
    assert(p.len() > 0 && s[0] == t[0]);
    let b = s[0]->B_0;
    assert(s.skip(1) =~= p.skip(1) + r); assert(t.skip(1) =~= p.skip(1) + x);
    if is_ws(b) { lemma_token_local(p.skip(1), r, x); }
    else if b == 0x22 { lemma_unquote_local(p.skip(1), r, x); }
    else if is_digit(b) || b == 0x2d { lemma_num_local(p, r, x); }
    else if b == 0x74 || b == 0x66 || b == 0x6e {
        let w = if b == 0x74 { w_true() } else if b == 0x66 { w_false() } else { w_null() };
        assert(word_at(s, w)); assert(s.skip(w.len() as int).len() == r.len()); assert(p.len() == w.len());
        assert(forall|i: int| 0 <= i < w.len() ==> s[i] == t[i]);
        assert(t.skip(w.len() as int) =~= x);
    } else { assert(p.len() == 1); assert(t.skip(1) =~= x); }
}
// white space between two tokens does not matter
pub proof fn lemma_ws_between(p: Seq<GB>, w: Seq<GB>, r: Seq<GB>)
    requires lex1(p + r) matches Lex::Tok(t, rest) && rest == r, all_ws(w), 
    ensures stream(p + (w + r)) == stream(p + r)
{
    let t = lex1(p + r)->Tok_0;
    if t is Num {
        lemma_num_stops(p + r);
        if w.len() > 0 { assert((w + r)[0] == w[0]); } else { assert(w + r =~= r); }
    }
    lemma_token_local(p, r, w + r);
    lemma_ws_before(w, r);
    lemma_lex_rest(p + r); lemma_lex_rest(p + (w + r));
}
pub proof fn lemma_num_stops(s: Seq<GB>)
    ensures lex1(s) matches Lex::Tok(t, r) ==> t is Num ==> stops(r)
    decreases s.len()
{
    if s.len() > 0 && s[0] is B { if is_ws(s[0]->B_0) { lemma_num_stops(s.skip(1)); } else { lemma_run_stops(s); } }
}
pub proof fn lemma_run_stops(s: Seq<GB>) ensures num_run(s) matches Some((y, r)) ==> stops(r) decreases s.len()
{ if s.len() > 0 && s[0] is B && is_num(s[0]->B_0) { lemma_run_stops(s.skip(1)); } }
// std::io: a buffered reader gives the bytes of its source
#[verifier::external_body] pub struct VxRead { x: u8 }
impl VxRead { pub uninterp spec fn content(&self) -> Seq<GB>; }
#[verifier::external_body] pub struct VxBuf { x: u8 }
#[verifier::external_body] pub struct VxByteIter { x: u8 }
impl VxBuf {
    pub uninterp spec fn content(&self) -> Seq<GB>;
    #[verifier::external_body] pub fn vx_bytes(self) -> (r: VxByteIter) ensures r.content() == self.content() { unimplemented!() }
}
impl VxByteIter {
    pub uninterp spec fn content(&self) -> Seq<GB>;
    #[verifier::external_body] pub fn peekable(self) -> (r: VxBytes) ensures r.rest() == self.content() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_bufreader(n: usize, r: VxRead) -> (b: VxBuf) requires n > 0, ensures b.content() == r.content() { unimplemented!() }
//@ subst-type R => VxRead
//@ rename-path BufReader::with_capacity => vx_bufreader
//@ fn JsonLexer::new
//@ header impl JsonLexer
    ensures toks(r) == stream(source.content())
