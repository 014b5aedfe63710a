//@ include util.vx assume
//@ include singular.vx assume
//@ raw
// hard keywords (kotlinlang.org, keyword reference)
pub open spec fn kotlin_kw(s: Seq<char>) -> bool {
    s == "as"@ || s == "break"@ || s == "class"@ || s == "continue"@ || s == "do"@ || s == "else"@
    || s == "false"@ || s == "for"@ || s == "fun"@ || s == "if"@ || s == "in"@ || s == "interface"@
    || s == "is"@ || s == "null"@ || s == "object"@ || s == "package"@ || s == "return"@ || s == "super"@
    || s == "this"@ || s == "throw"@ || s == "true"@ || s == "try"@ || s == "typealias"@ || s == "typeof"@
    || s == "val"@ || s == "var"@ || s == "when"@ || s == "while"@
}
pub proof fn lemma_kotlin_kw()
    ensures forall|s: Seq<char>| #[trigger] kotlin_kw(s) ==> letters(s) && s.len() > 0
{
    reveal_strlit("as"); assert(letters("as"@));
    reveal_strlit("break"); assert(letters("break"@));
    reveal_strlit("class"); assert(letters("class"@));
    reveal_strlit("continue"); assert(letters("continue"@));
    reveal_strlit("do"); assert(letters("do"@));
    reveal_strlit("else"); assert(letters("else"@));
    reveal_strlit("false"); assert(letters("false"@));
    reveal_strlit("for"); assert(letters("for"@));
    reveal_strlit("fun"); assert(letters("fun"@));
    reveal_strlit("if"); assert(letters("if"@));
    reveal_strlit("in"); assert(letters("in"@));
    reveal_strlit("interface"); assert(letters("interface"@));
    reveal_strlit("is"); assert(letters("is"@));
    reveal_strlit("null"); assert(letters("null"@));
    reveal_strlit("object"); assert(letters("object"@));
    reveal_strlit("package"); assert(letters("package"@));
    reveal_strlit("return"); assert(letters("return"@));
    reveal_strlit("super"); assert(letters("super"@));
    reveal_strlit("this"); assert(letters("this"@));
    reveal_strlit("throw"); assert(letters("throw"@));
    reveal_strlit("true"); assert(letters("true"@));
    reveal_strlit("try"); assert(letters("try"@));
    reveal_strlit("typealias"); assert(letters("typealias"@));
    reveal_strlit("typeof"); assert(letters("typeof"@));
    reveal_strlit("val"); assert(letters("val"@));
    reveal_strlit("var"); assert(letters("var"@));
    reveal_strlit("when"); assert(letters("when"@));
    reveal_strlit("while"); assert(letters("while"@));
}

pub open spec fn good_name(s: Seq<char>) -> bool { ident(s) && !kotlin_kw(s) }
// a word that is not a keyword once something that is not a letter is put to it
pub proof fn lemma_suffixed(s: Seq<char>, t: Seq<char>)
    requires word(s), headed(s), s.len() > 0, word(t), !letters(t),
    ensures word(s + t), headed(s + t), (s + t).len() > 0, !kotlin_kw(s + t), alpha(s[0]) ==> good_name(s + t),
{
    lemma_kotlin_kw();
    let u = s + t;
    assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i >= s.len() { assert(u[i] == t[i - s.len()]); } }
    let i = choose|i: int| 0 <= i < t.len() && !alpha(#[trigger] t[i]);
    assert(u[s.len() + i] == t[i]);
    assert(u[0] == s[0]);
}
pub proof fn lemma_prefixed(p: Seq<char>, s: Seq<char>)
    requires p.len() == 1, alpha(p[0]), word(s), s.len() > 0, is_digit_char(s[0]),
    ensures good_name(p + s),
{
    lemma_kotlin_kw();
    let u = p + s;
    assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i >= 1 { assert(u[i] == s[i - 1]); } }
    assert(!alpha(u[1]));
}
pub proof fn lemma_not_kotlin_kw_field() ensures !kotlin_kw("field"@), ident("field"@)
{ reveal_strlit("field"); reveal_strlit("as"); assert("as"@.len() != "field"@.len()); assert("as"@ != "field"@);
    reveal_strlit("break"); assert("break"@[0] != "field"@[0]); assert("break"@ != "field"@);
    reveal_strlit("class"); assert("class"@[0] != "field"@[0]); assert("class"@ != "field"@);
    reveal_strlit("continue"); assert("continue"@.len() != "field"@.len()); assert("continue"@ != "field"@);
    reveal_strlit("do"); assert("do"@.len() != "field"@.len()); assert("do"@ != "field"@);
    reveal_strlit("else"); assert("else"@.len() != "field"@.len()); assert("else"@ != "field"@);
    reveal_strlit("false"); assert("false"@[1] != "field"@[1]); assert("false"@ != "field"@);
    reveal_strlit("for"); assert("for"@.len() != "field"@.len()); assert("for"@ != "field"@);
    reveal_strlit("fun"); assert("fun"@.len() != "field"@.len()); assert("fun"@ != "field"@);
    reveal_strlit("if"); assert("if"@.len() != "field"@.len()); assert("if"@ != "field"@);
    reveal_strlit("in"); assert("in"@.len() != "field"@.len()); assert("in"@ != "field"@);
    reveal_strlit("interface"); assert("interface"@.len() != "field"@.len()); assert("interface"@ != "field"@);
    reveal_strlit("is"); assert("is"@.len() != "field"@.len()); assert("is"@ != "field"@);
    reveal_strlit("null"); assert("null"@.len() != "field"@.len()); assert("null"@ != "field"@);
    reveal_strlit("object"); assert("object"@.len() != "field"@.len()); assert("object"@ != "field"@);
    reveal_strlit("package"); assert("package"@.len() != "field"@.len()); assert("package"@ != "field"@);
    reveal_strlit("return"); assert("return"@.len() != "field"@.len()); assert("return"@ != "field"@);
    reveal_strlit("super"); assert("super"@[0] != "field"@[0]); assert("super"@ != "field"@);
    reveal_strlit("this"); assert("this"@.len() != "field"@.len()); assert("this"@ != "field"@);
    reveal_strlit("throw"); assert("throw"@[0] != "field"@[0]); assert("throw"@ != "field"@);
    reveal_strlit("true"); assert("true"@.len() != "field"@.len()); assert("true"@ != "field"@);
    reveal_strlit("try"); assert("try"@.len() != "field"@.len()); assert("try"@ != "field"@);
    reveal_strlit("typealias"); assert("typealias"@.len() != "field"@.len()); assert("typealias"@ != "field"@);
    reveal_strlit("typeof"); assert("typeof"@.len() != "field"@.len()); assert("typeof"@ != "field"@);
    reveal_strlit("val"); assert("val"@.len() != "field"@.len()); assert("val"@ != "field"@);
    reveal_strlit("var"); assert("var"@.len() != "field"@.len()); assert("var"@ != "field"@);
    reveal_strlit("when"); assert("when"@.len() != "field"@.len()); assert("when"@ != "field"@);
    reveal_strlit("while"); assert("while"@[0] != "field"@[0]); assert("while"@ != "field"@); }
pub proof fn lemma_not_kotlin_kw_type() ensures !kotlin_kw("GeneratedType"@), ident("GeneratedType"@)
{ reveal_strlit("GeneratedType"); reveal_strlit("as"); assert("as"@.len() != "GeneratedType"@.len()); assert("as"@ != "GeneratedType"@);
    reveal_strlit("break"); assert("break"@.len() != "GeneratedType"@.len()); assert("break"@ != "GeneratedType"@);
    reveal_strlit("class"); assert("class"@.len() != "GeneratedType"@.len()); assert("class"@ != "GeneratedType"@);
    reveal_strlit("continue"); assert("continue"@.len() != "GeneratedType"@.len()); assert("continue"@ != "GeneratedType"@);
    reveal_strlit("do"); assert("do"@.len() != "GeneratedType"@.len()); assert("do"@ != "GeneratedType"@);
    reveal_strlit("else"); assert("else"@.len() != "GeneratedType"@.len()); assert("else"@ != "GeneratedType"@);
    reveal_strlit("false"); assert("false"@.len() != "GeneratedType"@.len()); assert("false"@ != "GeneratedType"@);
    reveal_strlit("for"); assert("for"@.len() != "GeneratedType"@.len()); assert("for"@ != "GeneratedType"@);
    reveal_strlit("fun"); assert("fun"@.len() != "GeneratedType"@.len()); assert("fun"@ != "GeneratedType"@);
    reveal_strlit("if"); assert("if"@.len() != "GeneratedType"@.len()); assert("if"@ != "GeneratedType"@);
    reveal_strlit("in"); assert("in"@.len() != "GeneratedType"@.len()); assert("in"@ != "GeneratedType"@);
    reveal_strlit("interface"); assert("interface"@.len() != "GeneratedType"@.len()); assert("interface"@ != "GeneratedType"@);
    reveal_strlit("is"); assert("is"@.len() != "GeneratedType"@.len()); assert("is"@ != "GeneratedType"@);
    reveal_strlit("null"); assert("null"@.len() != "GeneratedType"@.len()); assert("null"@ != "GeneratedType"@);
    reveal_strlit("object"); assert("object"@.len() != "GeneratedType"@.len()); assert("object"@ != "GeneratedType"@);
    reveal_strlit("package"); assert("package"@.len() != "GeneratedType"@.len()); assert("package"@ != "GeneratedType"@);
    reveal_strlit("return"); assert("return"@.len() != "GeneratedType"@.len()); assert("return"@ != "GeneratedType"@);
    reveal_strlit("super"); assert("super"@.len() != "GeneratedType"@.len()); assert("super"@ != "GeneratedType"@);
    reveal_strlit("this"); assert("this"@.len() != "GeneratedType"@.len()); assert("this"@ != "GeneratedType"@);
    reveal_strlit("throw"); assert("throw"@.len() != "GeneratedType"@.len()); assert("throw"@ != "GeneratedType"@);
    reveal_strlit("true"); assert("true"@.len() != "GeneratedType"@.len()); assert("true"@ != "GeneratedType"@);
    reveal_strlit("try"); assert("try"@.len() != "GeneratedType"@.len()); assert("try"@ != "GeneratedType"@);
    reveal_strlit("typealias"); assert("typealias"@.len() != "GeneratedType"@.len()); assert("typealias"@ != "GeneratedType"@);
    reveal_strlit("typeof"); assert("typeof"@.len() != "GeneratedType"@.len()); assert("typeof"@ != "GeneratedType"@);
    reveal_strlit("val"); assert("val"@.len() != "GeneratedType"@.len()); assert("val"@ != "GeneratedType"@);
    reveal_strlit("var"); assert("var"@.len() != "GeneratedType"@.len()); assert("var"@ != "GeneratedType"@);
    reveal_strlit("when"); assert("when"@.len() != "GeneratedType"@.len()); assert("when"@ != "GeneratedType"@);
    reveal_strlit("while"); assert("while"@.len() != "GeneratedType"@.len()); assert("while"@ != "GeneratedType"@); }
//@ file json_typegen_shared/src/generation/kotlin.rs
//@ type Ident
//@ type Code
//@ const KOTLIN_KEYWORDS
//@ fn type_or_field_name
//@ sig pub fn type_or_field_name<F: Fn(&str) -> String>(name: &str, used_names: &VxNames, default_name: &str, case_fn: F) -> (r: String)
    requires forall|x: &str| #[trigger] case_fn.requires((x,)),
        forall|x: &str, o: String| #[trigger] case_fn.ensures((x,), o) ==> word(o@) && headed(o@),
        good_name(default_name@),
    ensures good_name(r@), !used_names.names().contains(r@),
//@ at start
    proof {
        lemma_kotlin_kw(); lemma_KOTLIN_KEYWORDS_words();
        reveal_strlit("_field"); reveal_strlit("n");
        assert(!alpha("_field"@[0]) && word("_field"@)); assert("n"@ =~= seq!['n']);
        assert forall|s: Seq<char>| word(s) && headed(s) && s.len() > 0 implies word(#[trigger] (s + "_field"@)) && headed(s + "_field"@) && (s + "_field"@).len() > 0 && !kotlin_kw(s + "_field"@)
            by { lemma_suffixed(s, "_field"@); }
        assert forall|s: Seq<char>| s.len() == 0 implies #[trigger] (s + default_name@) == default_name@ by { assert(s + default_name@ =~= default_name@); }
        assert forall|s: Seq<char>| word(s) && s.len() > 0 && is_digit_char(s[0]) implies good_name(#[trigger] ("n"@ + s)) by { lemma_prefixed("n"@, s); }
    }
//@ loop 0
    invariant ident(output_name@), 2 <= vx_i0 <= used_names.names().len() + 2, tried(used_names.names(), output_name@, vx_i0 as int),
        used_names.names().len() < 0x7fff_fff8,
    decreases 0x7fff_ffff - vx_i0,
//@ at loop 0 start
    proof {
        lemma_numbered(output_name@, n as int); lemma_kotlin_kw();
        assert(Seq::<char>::empty() + output_name@ + dec(n as nat) =~= numbered(output_name@, n as int));
        if used_names.names().contains(numbered(output_name@, n as int)) { lemma_tried(used_names.names(), output_name@, n + 1); }
    }
//@ fn field_name
    ensures good_name(r@), !used_names.names().contains(r@)
//@ at start
    proof { reveal_strlit("field"); lemma_not_kotlin_kw_field(); }
//@ fn type_name
    ensures good_name(r@), !used_names.names().contains(r@)
//@ at start
    proof { reveal_strlit("GeneratedType"); lemma_not_kotlin_kw_type(); }
