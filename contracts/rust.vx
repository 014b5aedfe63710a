//@ include util.vx assume
//@ include singular.vx assume
//@ raw
// strict and reserved words (The Rust Reference, all editions)
pub open spec fn rust_kw(s: Seq<char>) -> bool {
    s == "as"@ || s == "break"@ || s == "const"@ || s == "continue"@ || s == "crate"@ || s == "dyn"@
    || s == "else"@ || s == "enum"@ || s == "extern"@ || s == "false"@ || s == "fn"@ || s == "for"@
    || s == "if"@ || s == "impl"@ || s == "in"@ || s == "let"@ || s == "loop"@ || s == "match"@
    || s == "mod"@ || s == "move"@ || s == "mut"@ || s == "pub"@ || s == "ref"@ || s == "return"@
    || s == "self"@ || s == "Self"@ || s == "static"@ || s == "struct"@ || s == "super"@ || s == "trait"@
    || s == "true"@ || s == "type"@ || s == "unsafe"@ || s == "use"@ || s == "where"@ || s == "while"@
    || s == "async"@ || s == "await"@ || s == "abstract"@ || s == "become"@ || s == "box"@ || s == "do"@
    || s == "final"@ || s == "gen"@ || s == "macro"@ || s == "override"@ || s == "priv"@ || s == "try"@
    || s == "typeof"@ || s == "unsized"@ || s == "virtual"@ || s == "yield"@
}
pub proof fn lemma_rust_kw()
    ensures forall|s: Seq<char>| #[trigger] rust_kw(s) ==> letters(s) && s.len() > 0
{
    reveal_strlit("as"); assert(letters("as"@));
    reveal_strlit("break"); assert(letters("break"@));
    reveal_strlit("const"); assert(letters("const"@));
    reveal_strlit("continue"); assert(letters("continue"@));
    reveal_strlit("crate"); assert(letters("crate"@));
    reveal_strlit("dyn"); assert(letters("dyn"@));
    reveal_strlit("else"); assert(letters("else"@));
    reveal_strlit("enum"); assert(letters("enum"@));
    reveal_strlit("extern"); assert(letters("extern"@));
    reveal_strlit("false"); assert(letters("false"@));
    reveal_strlit("fn"); assert(letters("fn"@));
    reveal_strlit("for"); assert(letters("for"@));
    reveal_strlit("if"); assert(letters("if"@));
    reveal_strlit("impl"); assert(letters("impl"@));
    reveal_strlit("in"); assert(letters("in"@));
    reveal_strlit("let"); assert(letters("let"@));
    reveal_strlit("loop"); assert(letters("loop"@));
    reveal_strlit("match"); assert(letters("match"@));
    reveal_strlit("mod"); assert(letters("mod"@));
    reveal_strlit("move"); assert(letters("move"@));
    reveal_strlit("mut"); assert(letters("mut"@));
    reveal_strlit("pub"); assert(letters("pub"@));
    reveal_strlit("ref"); assert(letters("ref"@));
    reveal_strlit("return"); assert(letters("return"@));
    reveal_strlit("self"); assert(letters("self"@));
    reveal_strlit("Self"); assert(letters("Self"@));
    reveal_strlit("static"); assert(letters("static"@));
    reveal_strlit("struct"); assert(letters("struct"@));
    reveal_strlit("super"); assert(letters("super"@));
    reveal_strlit("trait"); assert(letters("trait"@));
    reveal_strlit("true"); assert(letters("true"@));
    reveal_strlit("type"); assert(letters("type"@));
    reveal_strlit("unsafe"); assert(letters("unsafe"@));
    reveal_strlit("use"); assert(letters("use"@));
    reveal_strlit("where"); assert(letters("where"@));
    reveal_strlit("while"); assert(letters("while"@));
    reveal_strlit("async"); assert(letters("async"@));
    reveal_strlit("await"); assert(letters("await"@));
    reveal_strlit("abstract"); assert(letters("abstract"@));
    reveal_strlit("become"); assert(letters("become"@));
    reveal_strlit("box"); assert(letters("box"@));
    reveal_strlit("do"); assert(letters("do"@));
    reveal_strlit("final"); assert(letters("final"@));
    reveal_strlit("gen"); assert(letters("gen"@));
    reveal_strlit("macro"); assert(letters("macro"@));
    reveal_strlit("override"); assert(letters("override"@));
    reveal_strlit("priv"); assert(letters("priv"@));
    reveal_strlit("try"); assert(letters("try"@));
    reveal_strlit("typeof"); assert(letters("typeof"@));
    reveal_strlit("unsized"); assert(letters("unsized"@));
    reveal_strlit("virtual"); assert(letters("virtual"@));
    reveal_strlit("yield"); assert(letters("yield"@));
}

pub open spec fn good_name(s: Seq<char>) -> bool { ident(s) && !rust_kw(s) }
// a word that is not a keyword once something that is not a letter is put to it
pub proof fn lemma_suffixed(s: Seq<char>, t: Seq<char>)
    requires word(s), headed(s), s.len() > 0, word(t), !letters(t),
    ensures word(s + t), headed(s + t), (s + t).len() > 0, !rust_kw(s + t), alpha(s[0]) ==> good_name(s + t),
{
    lemma_rust_kw();
    let u = s + t;
    assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i >= s.len() { assert(u[i] == t[i - s.len()]); } }
    let i = choose|i: int| 0 <= i < t.len() && !alpha(#[trigger] t[i]);
    assert(u[s.len() + i] == t[i]);
    assert(u[0] == s[0]);
}
pub proof fn lemma_prefixed(p: Seq<char>, s: Seq<char>)
    requires p.len() == 1, alpha(p[0]), word(s), s.len() > 0, is_digit_char(s[0]),
    ensures good_name(p + s),
{
    lemma_rust_kw();
    let u = p + s;
    assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i >= 1 { assert(u[i] == s[i - 1]); } }
    assert(!alpha(u[1]));
}
pub proof fn lemma_not_rust_kw_field() ensures !rust_kw("field"@), ident("field"@)
{ reveal_strlit("field"); reveal_strlit("as"); assert("as"@.len() != "field"@.len()); assert("as"@ != "field"@);
    reveal_strlit("break"); assert("break"@[0] != "field"@[0]); assert("break"@ != "field"@);
    reveal_strlit("const"); assert("const"@[0] != "field"@[0]); assert("const"@ != "field"@);
    reveal_strlit("continue"); assert("continue"@.len() != "field"@.len()); assert("continue"@ != "field"@);
    reveal_strlit("crate"); assert("crate"@[0] != "field"@[0]); assert("crate"@ != "field"@);
    reveal_strlit("dyn"); assert("dyn"@.len() != "field"@.len()); assert("dyn"@ != "field"@);
    reveal_strlit("else"); assert("else"@.len() != "field"@.len()); assert("else"@ != "field"@);
    reveal_strlit("enum"); assert("enum"@.len() != "field"@.len()); assert("enum"@ != "field"@);
    reveal_strlit("extern"); assert("extern"@.len() != "field"@.len()); assert("extern"@ != "field"@);
    reveal_strlit("false"); assert("false"@[1] != "field"@[1]); assert("false"@ != "field"@);
    reveal_strlit("fn"); assert("fn"@.len() != "field"@.len()); assert("fn"@ != "field"@);
    reveal_strlit("for"); assert("for"@.len() != "field"@.len()); assert("for"@ != "field"@);
    reveal_strlit("if"); assert("if"@.len() != "field"@.len()); assert("if"@ != "field"@);
    reveal_strlit("impl"); assert("impl"@.len() != "field"@.len()); assert("impl"@ != "field"@);
    reveal_strlit("in"); assert("in"@.len() != "field"@.len()); assert("in"@ != "field"@);
    reveal_strlit("let"); assert("let"@.len() != "field"@.len()); assert("let"@ != "field"@);
    reveal_strlit("loop"); assert("loop"@.len() != "field"@.len()); assert("loop"@ != "field"@);
    reveal_strlit("match"); assert("match"@[0] != "field"@[0]); assert("match"@ != "field"@);
    reveal_strlit("mod"); assert("mod"@.len() != "field"@.len()); assert("mod"@ != "field"@);
    reveal_strlit("move"); assert("move"@.len() != "field"@.len()); assert("move"@ != "field"@);
    reveal_strlit("mut"); assert("mut"@.len() != "field"@.len()); assert("mut"@ != "field"@);
    reveal_strlit("pub"); assert("pub"@.len() != "field"@.len()); assert("pub"@ != "field"@);
    reveal_strlit("ref"); assert("ref"@.len() != "field"@.len()); assert("ref"@ != "field"@);
    reveal_strlit("return"); assert("return"@.len() != "field"@.len()); assert("return"@ != "field"@);
    reveal_strlit("self"); assert("self"@.len() != "field"@.len()); assert("self"@ != "field"@);
    reveal_strlit("Self"); assert("Self"@.len() != "field"@.len()); assert("Self"@ != "field"@);
    reveal_strlit("static"); assert("static"@.len() != "field"@.len()); assert("static"@ != "field"@);
    reveal_strlit("struct"); assert("struct"@.len() != "field"@.len()); assert("struct"@ != "field"@);
    reveal_strlit("super"); assert("super"@[0] != "field"@[0]); assert("super"@ != "field"@);
    reveal_strlit("trait"); assert("trait"@[0] != "field"@[0]); assert("trait"@ != "field"@);
    reveal_strlit("true"); assert("true"@.len() != "field"@.len()); assert("true"@ != "field"@);
    reveal_strlit("type"); assert("type"@.len() != "field"@.len()); assert("type"@ != "field"@);
    reveal_strlit("unsafe"); assert("unsafe"@.len() != "field"@.len()); assert("unsafe"@ != "field"@);
    reveal_strlit("use"); assert("use"@.len() != "field"@.len()); assert("use"@ != "field"@);
    reveal_strlit("where"); assert("where"@[0] != "field"@[0]); assert("where"@ != "field"@);
    reveal_strlit("while"); assert("while"@[0] != "field"@[0]); assert("while"@ != "field"@);
    reveal_strlit("async"); assert("async"@[0] != "field"@[0]); assert("async"@ != "field"@);
    reveal_strlit("await"); assert("await"@[0] != "field"@[0]); assert("await"@ != "field"@);
    reveal_strlit("abstract"); assert("abstract"@.len() != "field"@.len()); assert("abstract"@ != "field"@);
    reveal_strlit("become"); assert("become"@.len() != "field"@.len()); assert("become"@ != "field"@);
    reveal_strlit("box"); assert("box"@.len() != "field"@.len()); assert("box"@ != "field"@);
    reveal_strlit("do"); assert("do"@.len() != "field"@.len()); assert("do"@ != "field"@);
    reveal_strlit("final"); assert("final"@[2] != "field"@[2]); assert("final"@ != "field"@);
    reveal_strlit("gen"); assert("gen"@.len() != "field"@.len()); assert("gen"@ != "field"@);
    reveal_strlit("macro"); assert("macro"@[0] != "field"@[0]); assert("macro"@ != "field"@);
    reveal_strlit("override"); assert("override"@.len() != "field"@.len()); assert("override"@ != "field"@);
    reveal_strlit("priv"); assert("priv"@.len() != "field"@.len()); assert("priv"@ != "field"@);
    reveal_strlit("try"); assert("try"@.len() != "field"@.len()); assert("try"@ != "field"@);
    reveal_strlit("typeof"); assert("typeof"@.len() != "field"@.len()); assert("typeof"@ != "field"@);
    reveal_strlit("unsized"); assert("unsized"@.len() != "field"@.len()); assert("unsized"@ != "field"@);
    reveal_strlit("virtual"); assert("virtual"@.len() != "field"@.len()); assert("virtual"@ != "field"@);
    reveal_strlit("yield"); assert("yield"@[0] != "field"@[0]); assert("yield"@ != "field"@); }
pub proof fn lemma_not_rust_kw_type() ensures !rust_kw("GeneratedType"@), ident("GeneratedType"@)
{ reveal_strlit("GeneratedType"); reveal_strlit("as"); assert("as"@.len() != "GeneratedType"@.len()); assert("as"@ != "GeneratedType"@);
    reveal_strlit("break"); assert("break"@.len() != "GeneratedType"@.len()); assert("break"@ != "GeneratedType"@);
    reveal_strlit("const"); assert("const"@.len() != "GeneratedType"@.len()); assert("const"@ != "GeneratedType"@);
    reveal_strlit("continue"); assert("continue"@.len() != "GeneratedType"@.len()); assert("continue"@ != "GeneratedType"@);
    reveal_strlit("crate"); assert("crate"@.len() != "GeneratedType"@.len()); assert("crate"@ != "GeneratedType"@);
    reveal_strlit("dyn"); assert("dyn"@.len() != "GeneratedType"@.len()); assert("dyn"@ != "GeneratedType"@);
    reveal_strlit("else"); assert("else"@.len() != "GeneratedType"@.len()); assert("else"@ != "GeneratedType"@);
    reveal_strlit("enum"); assert("enum"@.len() != "GeneratedType"@.len()); assert("enum"@ != "GeneratedType"@);
    reveal_strlit("extern"); assert("extern"@.len() != "GeneratedType"@.len()); assert("extern"@ != "GeneratedType"@);
    reveal_strlit("false"); assert("false"@.len() != "GeneratedType"@.len()); assert("false"@ != "GeneratedType"@);
    reveal_strlit("fn"); assert("fn"@.len() != "GeneratedType"@.len()); assert("fn"@ != "GeneratedType"@);
    reveal_strlit("for"); assert("for"@.len() != "GeneratedType"@.len()); assert("for"@ != "GeneratedType"@);
    reveal_strlit("if"); assert("if"@.len() != "GeneratedType"@.len()); assert("if"@ != "GeneratedType"@);
    reveal_strlit("impl"); assert("impl"@.len() != "GeneratedType"@.len()); assert("impl"@ != "GeneratedType"@);
    reveal_strlit("in"); assert("in"@.len() != "GeneratedType"@.len()); assert("in"@ != "GeneratedType"@);
    reveal_strlit("let"); assert("let"@.len() != "GeneratedType"@.len()); assert("let"@ != "GeneratedType"@);
    reveal_strlit("loop"); assert("loop"@.len() != "GeneratedType"@.len()); assert("loop"@ != "GeneratedType"@);
    reveal_strlit("match"); assert("match"@.len() != "GeneratedType"@.len()); assert("match"@ != "GeneratedType"@);
    reveal_strlit("mod"); assert("mod"@.len() != "GeneratedType"@.len()); assert("mod"@ != "GeneratedType"@);
    reveal_strlit("move"); assert("move"@.len() != "GeneratedType"@.len()); assert("move"@ != "GeneratedType"@);
    reveal_strlit("mut"); assert("mut"@.len() != "GeneratedType"@.len()); assert("mut"@ != "GeneratedType"@);
    reveal_strlit("pub"); assert("pub"@.len() != "GeneratedType"@.len()); assert("pub"@ != "GeneratedType"@);
    reveal_strlit("ref"); assert("ref"@.len() != "GeneratedType"@.len()); assert("ref"@ != "GeneratedType"@);
    reveal_strlit("return"); assert("return"@.len() != "GeneratedType"@.len()); assert("return"@ != "GeneratedType"@);
    reveal_strlit("self"); assert("self"@.len() != "GeneratedType"@.len()); assert("self"@ != "GeneratedType"@);
    reveal_strlit("Self"); assert("Self"@.len() != "GeneratedType"@.len()); assert("Self"@ != "GeneratedType"@);
    reveal_strlit("static"); assert("static"@.len() != "GeneratedType"@.len()); assert("static"@ != "GeneratedType"@);
    reveal_strlit("struct"); assert("struct"@.len() != "GeneratedType"@.len()); assert("struct"@ != "GeneratedType"@);
    reveal_strlit("super"); assert("super"@.len() != "GeneratedType"@.len()); assert("super"@ != "GeneratedType"@);
    reveal_strlit("trait"); assert("trait"@.len() != "GeneratedType"@.len()); assert("trait"@ != "GeneratedType"@);
    reveal_strlit("true"); assert("true"@.len() != "GeneratedType"@.len()); assert("true"@ != "GeneratedType"@);
    reveal_strlit("type"); assert("type"@.len() != "GeneratedType"@.len()); assert("type"@ != "GeneratedType"@);
    reveal_strlit("unsafe"); assert("unsafe"@.len() != "GeneratedType"@.len()); assert("unsafe"@ != "GeneratedType"@);
    reveal_strlit("use"); assert("use"@.len() != "GeneratedType"@.len()); assert("use"@ != "GeneratedType"@);
    reveal_strlit("where"); assert("where"@.len() != "GeneratedType"@.len()); assert("where"@ != "GeneratedType"@);
    reveal_strlit("while"); assert("while"@.len() != "GeneratedType"@.len()); assert("while"@ != "GeneratedType"@);
    reveal_strlit("async"); assert("async"@.len() != "GeneratedType"@.len()); assert("async"@ != "GeneratedType"@);
    reveal_strlit("await"); assert("await"@.len() != "GeneratedType"@.len()); assert("await"@ != "GeneratedType"@);
    reveal_strlit("abstract"); assert("abstract"@.len() != "GeneratedType"@.len()); assert("abstract"@ != "GeneratedType"@);
    reveal_strlit("become"); assert("become"@.len() != "GeneratedType"@.len()); assert("become"@ != "GeneratedType"@);
    reveal_strlit("box"); assert("box"@.len() != "GeneratedType"@.len()); assert("box"@ != "GeneratedType"@);
    reveal_strlit("do"); assert("do"@.len() != "GeneratedType"@.len()); assert("do"@ != "GeneratedType"@);
    reveal_strlit("final"); assert("final"@.len() != "GeneratedType"@.len()); assert("final"@ != "GeneratedType"@);
    reveal_strlit("gen"); assert("gen"@.len() != "GeneratedType"@.len()); assert("gen"@ != "GeneratedType"@);
    reveal_strlit("macro"); assert("macro"@.len() != "GeneratedType"@.len()); assert("macro"@ != "GeneratedType"@);
    reveal_strlit("override"); assert("override"@.len() != "GeneratedType"@.len()); assert("override"@ != "GeneratedType"@);
    reveal_strlit("priv"); assert("priv"@.len() != "GeneratedType"@.len()); assert("priv"@ != "GeneratedType"@);
    reveal_strlit("try"); assert("try"@.len() != "GeneratedType"@.len()); assert("try"@ != "GeneratedType"@);
    reveal_strlit("typeof"); assert("typeof"@.len() != "GeneratedType"@.len()); assert("typeof"@ != "GeneratedType"@);
    reveal_strlit("unsized"); assert("unsized"@.len() != "GeneratedType"@.len()); assert("unsized"@ != "GeneratedType"@);
    reveal_strlit("virtual"); assert("virtual"@.len() != "GeneratedType"@.len()); assert("virtual"@ != "GeneratedType"@);
    reveal_strlit("yield"); assert("yield"@.len() != "GeneratedType"@.len()); assert("yield"@ != "GeneratedType"@); }
//@ file json_typegen_shared/src/generation/rust.rs
//@ type Ident
//@ type Code
//@ const RUST_KEYWORDS
//@ fn type_or_field_name
//@ sig pub fn type_or_field_name<F: Fn(&str) -> String>(name: &str, used_names: &VxNames, default_name: &str, case_fn: F) -> (r: String)
    requires forall|x: &str| #[trigger] case_fn.requires((x,)),
        forall|x: &str, o: String| #[trigger] case_fn.ensures((x,), o) ==> word(o@) && headed(o@),
        good_name(default_name@),
    ensures good_name(r@), !used_names.names().contains(r@),
//@ at start
    proof {
        lemma_rust_kw(); lemma_RUST_KEYWORDS_words();
        reveal_strlit("_field"); reveal_strlit("n");
        assert(!alpha("_field"@[0]) && word("_field"@)); assert("n"@ =~= seq!['n']);
        assert forall|s: Seq<char>| word(s) && headed(s) && s.len() > 0 implies word(#[trigger] (s + "_field"@)) && headed(s + "_field"@) && (s + "_field"@).len() > 0 && !rust_kw(s + "_field"@)
            by { lemma_suffixed(s, "_field"@); }
        assert forall|s: Seq<char>| s.len() == 0 implies #[trigger] (s + default_name@) == default_name@ by { assert(s + default_name@ =~= default_name@); }
        assert forall|s: Seq<char>| word(s) && s.len() > 0 && is_digit_char(s[0]) implies good_name(#[trigger] ("n"@ + s)) by { lemma_prefixed("n"@, s); }
    }
//@ loop 0
    invariant ident(output_name@), 2 <= vx_i0 <= used_names.names().len() + 2, tried(used_names.names(), output_name@, vx_i0 as int),
        used_names.names().len() < 0x7fff_fff8,
    decreases 0x7fff_ffff - vx_i0,
//@ at loop 0 start
    proof {
        lemma_numbered(output_name@, n as int); lemma_rust_kw();
        assert(Seq::<char>::empty() + output_name@ + dec(n as nat) =~= numbered(output_name@, n as int));
        if used_names.names().contains(numbered(output_name@, n as int)) { lemma_tried(used_names.names(), output_name@, n + 1); }
    }
//@ fn field_name
    ensures good_name(r@), !used_names.names().contains(r@)
//@ at start
    proof { reveal_strlit("field"); lemma_not_rust_kw_field(); }
//@ fn type_name
    ensures good_name(r@), !used_names.names().contains(r@)
//@ at start
    proof { reveal_strlit("GeneratedType"); lemma_not_rust_kw_type(); }
