//@ raw
// ===== what the bytes of a sample mean (RFC 8259 strings; numbers as written) =====
use vstd::utf8::{valid_utf8, decode_utf8, encode_utf8};
// one step of reading: a byte or a read error
pub enum GB { B(u8), E }
pub enum GTok { True, False, Null, Num(Seq<char>), Str(Seq<char>), OStart, OEnd, AStart, AEnd, Comma, Colon, Bad }
pub open spec fn is_ws(b: u8) -> bool { b == 0x20 || b == 0x09 || b == 0x0a || b == 0x0d }
pub open spec fn is_digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn is_num(b: u8) -> bool { is_digit(b) || b == 0x2d || b == 0x2b || b == 0x2e || b == 0x65 || b == 0x45 }
pub open spec fn byte_at(s: Seq<GB>, i: int, b: u8) -> bool { i < s.len() && s[i] == GB::B(b) }
pub open spec fn hexval(b: u8) -> Option<int> {
    if 0x30 <= b <= 0x39 { Some(b - 0x30) } else if 0x61 <= b <= 0x66 { Some(b - 0x61 + 10) } else if 0x41 <= b <= 0x46 { Some(b - 0x41 + 10) } else { None }
}
pub open spec fn hex_at(s: Seq<GB>, i: int) -> Option<int> {
    if i < s.len() { match s[i] { GB::B(b) => hexval(b), GB::E => None } } else { None }
}
// the n hexadecimal digits at the start of s
pub open spec fn hexn(s: Seq<GB>, n: nat) -> Option<int> decreases n {
    if n == 0 { Some(0) } else {
        match (hexn(s, (n - 1) as nat), hex_at(s, n - 1)) { (Some(v), Some(d)) => Some(v * 16 + d), _ => None }
    }
}
// what follows a backslash: the bytes it stands for, and how many bytes it takes
pub open spec fn simple_escape(b: u8) -> Option<u8> {
    if b == 0x22 || b == 0x5c || b == 0x2f { Some(b) } else if b == 0x62 { Some(8u8) } else if b == 0x66 { Some(12u8) }
    else if b == 0x6e { Some(10u8) } else if b == 0x72 { Some(13u8) } else if b == 0x74 { Some(9u8) } else { None }
}
pub open spec fn utf8_of(c: int) -> Seq<u8> { encode_utf8(seq![c as u32 as char]) }
pub open spec fn escape(s: Seq<GB>) -> Option<(Seq<u8>, int)> {
    if s.len() == 0 { None } else { match s[0] {
        GB::E => None,
        GB::B(b) => if b == 0x75 {
            match hexn(s.skip(1), 4) {
                None => None,
                Some(c) => if 0xdc00 <= c <= 0xdfff { None } else if 0xd800 <= c <= 0xdbff {
                    if byte_at(s, 5, 0x5c) && byte_at(s, 6, 0x75) {
                        match hexn(s.skip(7), 4) {
                            Some(d) => if 0xdc00 <= d <= 0xdfff { Some((utf8_of(0x10000 + (c - 0xd800) * 0x400 + (d - 0xdc00)), 11)) } else { None },
                            None => None,
                        }
                    } else { None }
                } else { Some((utf8_of(c), 5)) }
            }
        } else { match simple_escape(b) { Some(x) => Some((seq![x], 1)), None => None } },
    } }
}
// the decoded bytes up to the closing quote, and what follows it
pub open spec fn unquote(s: Seq<GB>) -> Option<(Seq<u8>, Seq<GB>)> decreases s.len() {
    if s.len() == 0 { None } else { match s[0] {
        GB::E => None,
        GB::B(b) =>
            if b == 0x22 { Some((seq![], s.skip(1))) }
            else if b == 0x5c {
                match escape(s.skip(1)) {
                    None => None,
                    Some((x, n)) => if n < s.len() { match unquote(s.skip(1 + n)) { None => None, Some((y, r)) => Some((x + y, r)) } } else { None },
                }
            } else { match unquote(s.skip(1)) { None => None, Some((y, r)) => Some((seq![b] + y, r)) } },
    } }
}
// the maximal run of number characters; a read error within it spoils it
pub open spec fn num_run(s: Seq<GB>) -> Option<(Seq<char>, Seq<GB>)> decreases s.len() {
    if s.len() == 0 { Some((seq![], s)) } else { match s[0] {
        GB::E => None,
        GB::B(b) => if is_num(b) { match num_run(s.skip(1)) { None => None, Some((y, r)) => Some((seq![b as char] + y, r)) } } else { Some((seq![], s)) },
    } }
}
pub open spec fn word_at(s: Seq<GB>, w: Seq<u8>) -> bool { w.len() <= s.len() && forall|i: int| 0 <= i < w.len() ==> s[i] == GB::B(#[trigger] w[i]) }
pub open spec fn w_true() -> Seq<u8> { seq![0x74u8, 0x72, 0x75, 0x65] }
pub open spec fn w_false() -> Seq<u8> { seq![0x66u8, 0x61, 0x6c, 0x73, 0x65] }
pub open spec fn w_null() -> Seq<u8> { seq![0x6eu8, 0x75, 0x6c, 0x6c] }
pub enum Lex { End, Bad, Tok(GTok, Seq<GB>) }
pub open spec fn word(s: Seq<GB>, w: Seq<u8>, t: GTok) -> Lex { if word_at(s, w) { Lex::Tok(t, s.skip(w.len() as int)) } else { Lex::Bad } }
pub open spec fn str_token(s: Seq<GB>) -> Lex {
    if byte_at(s, 0, 0x22) {
        match unquote(s.skip(1)) { Some((y, r)) => if valid_utf8(y) { Lex::Tok(GTok::Str(decode_utf8(y)), r) } else { Lex::Bad }, None => Lex::Bad }
    } else { Lex::Bad }
}
// the first token of s
pub open spec fn lex1(s: Seq<GB>) -> Lex decreases s.len() {
    if s.len() == 0 { Lex::End } else { match s[0] {
        GB::E => Lex::Bad,
        GB::B(b) =>
            if is_ws(b) { lex1(s.skip(1)) }
            else if b == 0x7b { Lex::Tok(GTok::OStart, s.skip(1)) } else if b == 0x7d { Lex::Tok(GTok::OEnd, s.skip(1)) }
            else if b == 0x5b { Lex::Tok(GTok::AStart, s.skip(1)) } else if b == 0x5d { Lex::Tok(GTok::AEnd, s.skip(1)) }
            else if b == 0x2c { Lex::Tok(GTok::Comma, s.skip(1)) } else if b == 0x3a { Lex::Tok(GTok::Colon, s.skip(1)) }
            else if b == 0x74 { word(s, w_true(), GTok::True) } else if b == 0x66 { word(s, w_false(), GTok::False) } else if b == 0x6e { word(s, w_null(), GTok::Null) }
            else if b == 0x22 { str_token(s) }
            else if is_digit(b) || b == 0x2d { match num_run(s) { Some((y, r)) => Lex::Tok(GTok::Num(y), r), None => Lex::Bad } }
            else { Lex::Bad },
    } }
}
