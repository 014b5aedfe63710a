//@ include util.vx assume
//@ include singular.vx assume
//@ raw
// keywords (The Python Language Reference)
pub open spec fn python_kw(s: Seq<char>) -> bool {
    s == "False"@ || s == "None"@ || s == "True"@ || s == "and"@ || s == "as"@ || s == "assert"@
    || s == "async"@ || s == "await"@ || s == "break"@ || s == "class"@ || s == "continue"@ || s == "def"@
    || s == "del"@ || s == "elif"@ || s == "else"@ || s == "except"@ || s == "finally"@ || s == "for"@
    || s == "from"@ || s == "global"@ || s == "if"@ || s == "import"@ || s == "in"@ || s == "is"@
    || s == "lambda"@ || s == "nonlocal"@ || s == "not"@ || s == "or"@ || s == "pass"@ || s == "raise"@
    || s == "return"@ || s == "try"@ || s == "while"@ || s == "with"@ || s == "yield"@
}
pub proof fn lemma_python_kw()
    ensures forall|s: Seq<char>| #[trigger] python_kw(s) ==> letters(s) && s.len() > 0
{
    reveal_strlit("False"); assert(letters("False"@));
    reveal_strlit("None"); assert(letters("None"@));
    reveal_strlit("True"); assert(letters("True"@));
    reveal_strlit("and"); assert(letters("and"@));
    reveal_strlit("as"); assert(letters("as"@));
    reveal_strlit("assert"); assert(letters("assert"@));
    reveal_strlit("async"); assert(letters("async"@));
    reveal_strlit("await"); assert(letters("await"@));
    reveal_strlit("break"); assert(letters("break"@));
    reveal_strlit("class"); assert(letters("class"@));
    reveal_strlit("continue"); assert(letters("continue"@));
    reveal_strlit("def"); assert(letters("def"@));
    reveal_strlit("del"); assert(letters("del"@));
    reveal_strlit("elif"); assert(letters("elif"@));
    reveal_strlit("else"); assert(letters("else"@));
    reveal_strlit("except"); assert(letters("except"@));
    reveal_strlit("finally"); assert(letters("finally"@));
    reveal_strlit("for"); assert(letters("for"@));
    reveal_strlit("from"); assert(letters("from"@));
    reveal_strlit("global"); assert(letters("global"@));
    reveal_strlit("if"); assert(letters("if"@));
    reveal_strlit("import"); assert(letters("import"@));
    reveal_strlit("in"); assert(letters("in"@));
    reveal_strlit("is"); assert(letters("is"@));
    reveal_strlit("lambda"); assert(letters("lambda"@));
    reveal_strlit("nonlocal"); assert(letters("nonlocal"@));
    reveal_strlit("not"); assert(letters("not"@));
    reveal_strlit("or"); assert(letters("or"@));
    reveal_strlit("pass"); assert(letters("pass"@));
    reveal_strlit("raise"); assert(letters("raise"@));
    reveal_strlit("return"); assert(letters("return"@));
    reveal_strlit("try"); assert(letters("try"@));
    reveal_strlit("while"); assert(letters("while"@));
    reveal_strlit("with"); assert(letters("with"@));
    reveal_strlit("yield"); assert(letters("yield"@));
}

// attributes of pydantic's BaseModel: a field of that name is an error
pub open spec fn base_attr(s: Seq<char>) -> bool { s == "construct"@ || s == "copy"@ || s == "dict"@ || s == "from_orm"@ || s == "json"@ || s == "parse_file"@ || s == "parse_obj"@ || s == "parse_raw"@ || s == "schema"@ || s == "schema_json"@ || s == "update_forward_refs"@ || s == "validate"@ }
pub open spec fn lc(c: char) -> bool { 'a' <= c && c <= 'z' }
pub proof fn lemma_base_attr()
    ensures forall|s: Seq<char>| #[trigger] base_attr(s) ==> s.len() > 1 && lc(s[0]) && lc(s[1]) && lc(s.last()) && s.last() != 'd'
{
    reveal_strlit("construct");
    reveal_strlit("copy");
    reveal_strlit("dict");
    reveal_strlit("from_orm");
    reveal_strlit("json");
    reveal_strlit("parse_file");
    reveal_strlit("parse_obj");
    reveal_strlit("parse_raw");
    reveal_strlit("schema");
    reveal_strlit("schema_json");
    reveal_strlit("update_forward_refs");
    reveal_strlit("validate");
}
pub open spec fn good_name(s: Seq<char>) -> bool { ident(s) && !python_kw(s) && !base_attr(s) }
// a word that is not a keyword once something that is not a letter is put to it
pub proof fn lemma_suffixed(s: Seq<char>, t: Seq<char>)
    requires word(s), headed(s), s.len() > 0, word(t), !letters(t), t.len() > 0, t.last() == 'd',
    ensures word(s + t), headed(s + t), (s + t).len() > 0, !python_kw(s + t), !base_attr(s + t), alpha(s[0]) ==> good_name(s + t),
{
    lemma_python_kw(); lemma_base_attr();
    let u = s + t;
    assert(u.last() == t.last());
    assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i >= s.len() { assert(u[i] == t[i - s.len()]); } }
    let i = choose|i: int| 0 <= i < t.len() && !alpha(#[trigger] t[i]);
    assert(u[s.len() + i] == t[i]);
    assert(u[0] == s[0]);
}
pub proof fn lemma_prefixed(p: Seq<char>, s: Seq<char>)
    requires p.len() == 1, alpha(p[0]), word(s), s.len() > 0, is_digit_char(s[0]),
    ensures good_name(p + s),
{
    lemma_python_kw(); lemma_base_attr();
    let u = p + s;
    assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i >= 1 { assert(u[i] == s[i - 1]); } }
    assert(!alpha(u[1]));
}
pub proof fn lemma_not_python_kw_field() ensures !python_kw("field"@), ident("field"@), !base_attr("field"@)
{ lemma_base_attr(); reveal_strlit("field"); reveal_strlit("False"); assert("False"@[0] != "field"@[0]); assert("False"@ != "field"@);
    reveal_strlit("None"); assert("None"@.len() != "field"@.len()); assert("None"@ != "field"@);
    reveal_strlit("True"); assert("True"@.len() != "field"@.len()); assert("True"@ != "field"@);
    reveal_strlit("and"); assert("and"@.len() != "field"@.len()); assert("and"@ != "field"@);
    reveal_strlit("as"); assert("as"@.len() != "field"@.len()); assert("as"@ != "field"@);
    reveal_strlit("assert"); assert("assert"@.len() != "field"@.len()); assert("assert"@ != "field"@);
    reveal_strlit("async"); assert("async"@[0] != "field"@[0]); assert("async"@ != "field"@);
    reveal_strlit("await"); assert("await"@[0] != "field"@[0]); assert("await"@ != "field"@);
    reveal_strlit("break"); assert("break"@[0] != "field"@[0]); assert("break"@ != "field"@);
    reveal_strlit("class"); assert("class"@[0] != "field"@[0]); assert("class"@ != "field"@);
    reveal_strlit("continue"); assert("continue"@.len() != "field"@.len()); assert("continue"@ != "field"@);
    reveal_strlit("def"); assert("def"@.len() != "field"@.len()); assert("def"@ != "field"@);
    reveal_strlit("del"); assert("del"@.len() != "field"@.len()); assert("del"@ != "field"@);
    reveal_strlit("elif"); assert("elif"@.len() != "field"@.len()); assert("elif"@ != "field"@);
    reveal_strlit("else"); assert("else"@.len() != "field"@.len()); assert("else"@ != "field"@);
    reveal_strlit("except"); assert("except"@.len() != "field"@.len()); assert("except"@ != "field"@);
    reveal_strlit("finally"); assert("finally"@.len() != "field"@.len()); assert("finally"@ != "field"@);
    reveal_strlit("for"); assert("for"@.len() != "field"@.len()); assert("for"@ != "field"@);
    reveal_strlit("from"); assert("from"@.len() != "field"@.len()); assert("from"@ != "field"@);
    reveal_strlit("global"); assert("global"@.len() != "field"@.len()); assert("global"@ != "field"@);
    reveal_strlit("if"); assert("if"@.len() != "field"@.len()); assert("if"@ != "field"@);
    reveal_strlit("import"); assert("import"@.len() != "field"@.len()); assert("import"@ != "field"@);
    reveal_strlit("in"); assert("in"@.len() != "field"@.len()); assert("in"@ != "field"@);
    reveal_strlit("is"); assert("is"@.len() != "field"@.len()); assert("is"@ != "field"@);
    reveal_strlit("lambda"); assert("lambda"@.len() != "field"@.len()); assert("lambda"@ != "field"@);
    reveal_strlit("nonlocal"); assert("nonlocal"@.len() != "field"@.len()); assert("nonlocal"@ != "field"@);
    reveal_strlit("not"); assert("not"@.len() != "field"@.len()); assert("not"@ != "field"@);
    reveal_strlit("or"); assert("or"@.len() != "field"@.len()); assert("or"@ != "field"@);
    reveal_strlit("pass"); assert("pass"@.len() != "field"@.len()); assert("pass"@ != "field"@);
    reveal_strlit("raise"); assert("raise"@[0] != "field"@[0]); assert("raise"@ != "field"@);
    reveal_strlit("return"); assert("return"@.len() != "field"@.len()); assert("return"@ != "field"@);
    reveal_strlit("try"); assert("try"@.len() != "field"@.len()); assert("try"@ != "field"@);
    reveal_strlit("while"); assert("while"@[0] != "field"@[0]); assert("while"@ != "field"@);
    reveal_strlit("with"); assert("with"@.len() != "field"@.len()); assert("with"@ != "field"@);
    reveal_strlit("yield"); assert("yield"@[0] != "field"@[0]); assert("yield"@ != "field"@); }
pub proof fn lemma_not_python_kw_type() ensures !python_kw("GeneratedType"@), ident("GeneratedType"@), !base_attr("GeneratedType"@)
{ lemma_base_attr(); reveal_strlit("GeneratedType"); reveal_strlit("False"); assert("False"@.len() != "GeneratedType"@.len()); assert("False"@ != "GeneratedType"@);
    reveal_strlit("None"); assert("None"@.len() != "GeneratedType"@.len()); assert("None"@ != "GeneratedType"@);
    reveal_strlit("True"); assert("True"@.len() != "GeneratedType"@.len()); assert("True"@ != "GeneratedType"@);
    reveal_strlit("and"); assert("and"@.len() != "GeneratedType"@.len()); assert("and"@ != "GeneratedType"@);
    reveal_strlit("as"); assert("as"@.len() != "GeneratedType"@.len()); assert("as"@ != "GeneratedType"@);
    reveal_strlit("assert"); assert("assert"@.len() != "GeneratedType"@.len()); assert("assert"@ != "GeneratedType"@);
    reveal_strlit("async"); assert("async"@.len() != "GeneratedType"@.len()); assert("async"@ != "GeneratedType"@);
    reveal_strlit("await"); assert("await"@.len() != "GeneratedType"@.len()); assert("await"@ != "GeneratedType"@);
    reveal_strlit("break"); assert("break"@.len() != "GeneratedType"@.len()); assert("break"@ != "GeneratedType"@);
    reveal_strlit("class"); assert("class"@.len() != "GeneratedType"@.len()); assert("class"@ != "GeneratedType"@);
    reveal_strlit("continue"); assert("continue"@.len() != "GeneratedType"@.len()); assert("continue"@ != "GeneratedType"@);
    reveal_strlit("def"); assert("def"@.len() != "GeneratedType"@.len()); assert("def"@ != "GeneratedType"@);
    reveal_strlit("del"); assert("del"@.len() != "GeneratedType"@.len()); assert("del"@ != "GeneratedType"@);
    reveal_strlit("elif"); assert("elif"@.len() != "GeneratedType"@.len()); assert("elif"@ != "GeneratedType"@);
    reveal_strlit("else"); assert("else"@.len() != "GeneratedType"@.len()); assert("else"@ != "GeneratedType"@);
    reveal_strlit("except"); assert("except"@.len() != "GeneratedType"@.len()); assert("except"@ != "GeneratedType"@);
    reveal_strlit("finally"); assert("finally"@.len() != "GeneratedType"@.len()); assert("finally"@ != "GeneratedType"@);
    reveal_strlit("for"); assert("for"@.len() != "GeneratedType"@.len()); assert("for"@ != "GeneratedType"@);
    reveal_strlit("from"); assert("from"@.len() != "GeneratedType"@.len()); assert("from"@ != "GeneratedType"@);
    reveal_strlit("global"); assert("global"@.len() != "GeneratedType"@.len()); assert("global"@ != "GeneratedType"@);
    reveal_strlit("if"); assert("if"@.len() != "GeneratedType"@.len()); assert("if"@ != "GeneratedType"@);
    reveal_strlit("import"); assert("import"@.len() != "GeneratedType"@.len()); assert("import"@ != "GeneratedType"@);
    reveal_strlit("in"); assert("in"@.len() != "GeneratedType"@.len()); assert("in"@ != "GeneratedType"@);
    reveal_strlit("is"); assert("is"@.len() != "GeneratedType"@.len()); assert("is"@ != "GeneratedType"@);
    reveal_strlit("lambda"); assert("lambda"@.len() != "GeneratedType"@.len()); assert("lambda"@ != "GeneratedType"@);
    reveal_strlit("nonlocal"); assert("nonlocal"@.len() != "GeneratedType"@.len()); assert("nonlocal"@ != "GeneratedType"@);
    reveal_strlit("not"); assert("not"@.len() != "GeneratedType"@.len()); assert("not"@ != "GeneratedType"@);
    reveal_strlit("or"); assert("or"@.len() != "GeneratedType"@.len()); assert("or"@ != "GeneratedType"@);
    reveal_strlit("pass"); assert("pass"@.len() != "GeneratedType"@.len()); assert("pass"@ != "GeneratedType"@);
    reveal_strlit("raise"); assert("raise"@.len() != "GeneratedType"@.len()); assert("raise"@ != "GeneratedType"@);
    reveal_strlit("return"); assert("return"@.len() != "GeneratedType"@.len()); assert("return"@ != "GeneratedType"@);
    reveal_strlit("try"); assert("try"@.len() != "GeneratedType"@.len()); assert("try"@ != "GeneratedType"@);
    reveal_strlit("while"); assert("while"@.len() != "GeneratedType"@.len()); assert("while"@ != "GeneratedType"@);
    reveal_strlit("with"); assert("with"@.len() != "GeneratedType"@.len()); assert("with"@ != "GeneratedType"@);
    reveal_strlit("yield"); assert("yield"@.len() != "GeneratedType"@.len()); assert("yield"@ != "GeneratedType"@); }
//@ file json_typegen_shared/src/generation/python.rs
//@ type Ident
//@ type Code
//@ const PYTHON_KEYWORDS
//@ const BASE_MODEL_ATTRIBUTES
//@ fn type_or_field_name
//@ sig pub fn type_or_field_name<F: Fn(&str) -> String>(name: &str, used_names: &VxNames, default_name: &str, case_fn: F) -> (r: String)
    requires forall|x: &str| #[trigger] case_fn.requires((x,)),
        forall|x: &str, o: String| #[trigger] case_fn.ensures((x,), o) ==> word(o@) && headed(o@),
        forall|x: &str, o: String| #[trigger] case_fn.ensures((x,), o) && x@ == "n"@ ==> o@.len() == 1 && alpha(o@[0]),
        good_name(default_name@),
    ensures good_name(r@), !used_names.names().contains(r@),
//@ at start
    proof {
        lemma_python_kw(); lemma_PYTHON_KEYWORDS_words(); lemma_base_attr(); lemma_BASE_MODEL_ATTRIBUTES_words();
        reveal_strlit("_field"); reveal_strlit("n");
        assert(!alpha("_field"@[0]) && word("_field"@)); assert("n"@ =~= seq!['n']);
        assert forall|s: Seq<char>| word(s) && headed(s) && s.len() > 0 implies word(#[trigger] (s + "_field"@)) && headed(s + "_field"@) && (s + "_field"@).len() > 0 && !python_kw(s + "_field"@) && !base_attr(s + "_field"@)
            by { lemma_suffixed(s, "_field"@); }
        assert forall|s: Seq<char>| s.len() == 0 implies #[trigger] (s + default_name@) == default_name@ by { assert(s + default_name@ =~= default_name@); }
        assert forall|p: Seq<char>, s: Seq<char>| p.len() == 1 && alpha(p[0]) && word(s) && s.len() > 0 && is_digit_char(s[0]) implies good_name(#[trigger] (p + s)) by { lemma_prefixed(p, s); }
    }
//@ loop 0
    invariant ident(output_name@), 2 <= vx_i0 <= used_names.names().len() + 2, tried(used_names.names(), output_name@, vx_i0 as int),
        used_names.names().len() < 0x7fff_fff8,
    decreases 0x7fff_ffff - vx_i0,
//@ at loop 0 start
    proof {
        lemma_numbered(output_name@, n as int); lemma_python_kw(); lemma_base_attr();
        assert(Seq::<char>::empty() + output_name@ + dec(n as nat) =~= numbered(output_name@, n as int));
        if used_names.names().contains(numbered(output_name@, n as int)) { lemma_tried(used_names.names(), output_name@, n + 1); }
    }
//@ fn field_name
    ensures good_name(r@), !used_names.names().contains(r@)
//@ at start
    proof { reveal_strlit("field"); reveal_strlit("n"); lemma_not_python_kw_field(); }
//@ fn type_name
    ensures good_name(r@), !used_names.names().contains(r@)
//@ at start
    proof { reveal_strlit("GeneratedType"); reveal_strlit("n"); lemma_not_python_kw_type(); }
