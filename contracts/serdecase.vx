//@ include singular.vx assume
//@ raw
// String::replace with a single character
pub trait VxReplace { spec fn rv(&self) -> Seq<char>; fn vx_replace(&self, c: char, to: &str) -> (r: String) ensures to@.len() == 1 ==> r@ == swapped(self.rv(), c, to@[0]); }
impl VxReplace for str { open spec fn rv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace(&self, c: char, to: &str) -> (r: String) { unimplemented!() } }
impl VxReplace for String { open spec fn rv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace(&self, c: char, to: &str) -> (r: String) { unimplemented!() } }
pub open spec fn swapped(s: Seq<char>, a: char, b: char) -> Seq<char> { Seq::new(s.len(), |i: int| if s[i] == a { b } else { s[i] }) }
//@ file json_typegen_shared/src/generation/serde_case.rs
//@ type RenameRule
//@ raw
// ===== the renaming rules of serde's `rename_all`, for struct fields (serde.rs/container-attrs.html) =====
// words separated by underscores, each written with a capital: what has been written, and whether the next letter starts a word
pub open spec fn pas(s: Seq<char>) -> (Seq<char>, bool) decreases s.len() {
    if s.len() == 0 { (Seq::empty(), true) } else {
        let (t, cap) = pas(s.drop_last());
        let c = s.last();
        if c == '_' { (t, true) } else if cap { (t.push(up(c)), false) } else { (t.push(c), false) }
    }
}
pub open spec fn serde_field(r: RenameRule, s: Seq<char>) -> Seq<char> {
    match r {
        RenameRule::None | RenameRule::LowerCase | RenameRule::SnakeCase => s,
        RenameRule::UPPERCASE | RenameRule::ScreamingSnakeCase => ups(s),
        RenameRule::PascalCase => pas(s).0,
        RenameRule::CamelCase => { let p = pas(s).0; seq![low(p[0])] + p.skip(1) },
        RenameRule::KebabCase => swapped(s, '_', '-'),
        RenameRule::ScreamingKebabCase => swapped(ups(s), '_', '-'),
    }
}
pub proof fn lemma_pascal(s: Seq<char>)
    requires word(s), s.len() > 0, s[0] != '_', ensures pas(s).0.len() > 0, (pas(s).0[0] as u32) < 0x80, decreases s.len()
{
    reveal_with_fuel(pas, 2);
    if s.len() > 1 { lemma_pascal(s.drop_last()); } else { assert(s.drop_last().len() == 0); assert(word_char(s[0])); }
}
//@ fn RenameRule::apply_to_field
    requires word(field@), field@.len() > 0, field@[0] != '_',
    ensures r@ == serde_field(*self, field@)
    decreases (if *self is CamelCase || *self is ScreamingKebabCase { 1nat } else { 0nat })
//@ at start
    use RenameRule::*;
    proof {
        reveal_strlit("-");
        lemma_pascal(field@);
        let p = pas(field@).0;
        assert(p.take(1).drop_last() =~= seq![]); reveal_with_fuel(blen, 2); assert(blen(p.take(1)) == 1);
        assert(p.take(0) =~= seq![]); assert(blen(p.take(0)) == 0);
        assert(lows(p.take(1)) =~= seq![low(p[0])]);
    }
//@ loop 0
    invariant (pascal@, capitalize) == pas(field@.take(vx_it0.pos())),
//@ at loop 0 start
    proof { let n = vx_it0.pos(); assert(field@.take(n).drop_last() =~= field@.take(n - 1)); assert(field@.take(n).last() == ch); }
//@ at loop 0 after
    proof { assert(field@.take(field@.len() as int) =~= field@); }
