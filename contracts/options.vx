//@ include prelude.vx
//@ include strings.vx
//@ file json_typegen_shared/src/options.rs
//@ type OutputMode
//@ type ImportStyle
//@ type InputMode
//@ type StringTransform
//@ raw
// the documented spellings (CLI help, README and macro documentation)
pub open spec fn output_mode_named(s: Seq<char>) -> Option<OutputMode> {
    if s == "rust"@ { Some(OutputMode::Rust) }
    else if s == "typescript"@ { Some(OutputMode::Typescript) }
    else if s == "typescript/typealias"@ { Some(OutputMode::TypescriptTypeAlias) }
    else if s == "kotlin"@ || s == "kotlin/jackson"@ { Some(OutputMode::KotlinJackson) }
    else if s == "kotlin/kotlinx"@ { Some(OutputMode::KotlinKotlinx) }
    else if s == "python"@ { Some(OutputMode::PythonPydantic) }
    else if s == "json_schema"@ { Some(OutputMode::JsonSchema) }
    else if s == "zod"@ { Some(OutputMode::ZodSchema) }
    else if s == "shape"@ { Some(OutputMode::Shape) }
    else { None }
}
pub open spec fn import_style_named(s: Seq<char>) -> Option<ImportStyle> {
    if s == "add_imports"@ { Some(ImportStyle::AddImports) }
    else if s == "assume_existing"@ { Some(ImportStyle::AssumeExisting) }
    else if s == "qualified_paths"@ { Some(ImportStyle::QualifiedPaths) }
    else { None }
}
pub open spec fn input_mode_named(s: Seq<char>) -> Option<InputMode> {
    if s == "json"@ { Some(InputMode::Json) }
    else if s == "sql"@ { Some(InputMode::Sql) }
    else { None }
}
pub open spec fn transform_named(s: Seq<char>) -> Option<StringTransform> {
    if s == "lowercase"@ { Some(StringTransform::LowerCase) }
    else if s == "uppercase"@ || s == "UPPERCASE"@ { Some(StringTransform::UpperCase) }
    else if s == "pascalcase"@ || s == "uppercamelcase"@ || s == "PascalCase"@ { Some(StringTransform::PascalCase) }
    else if s == "camelcase"@ || s == "camelCase"@ { Some(StringTransform::CamelCase) }
    else if s == "snakecase"@ || s == "snake_case"@ { Some(StringTransform::SnakeCase) }
    else if s == "screamingsnakecase"@ || s == "SCREAMING_SNAKE_CASE"@ { Some(StringTransform::ScreamingSnakeCase) }
    else if s == "kebabcase"@ || s == "kebab-case"@ { Some(StringTransform::KebabCase) }
    else if s == "screamingkebabcase"@ || s == "SCREAMING-KEBAB-CASE"@ { Some(StringTransform::ScreamingKebabCase) }
    else { None }
}
//@ fn OutputMode::parse
    ensures r == output_mode_named(s@)
//@ at start
    proof { // the spellings are different strings, so the order of the cases does not matter
        reveal_strlit("rust");
        reveal_strlit("typescript");
        reveal_strlit("typescript/typealias");
        reveal_strlit("kotlin");
        reveal_strlit("kotlin/jackson");
        reveal_strlit("kotlin/kotlinx");
        reveal_strlit("python");
        reveal_strlit("json_schema");
        reveal_strlit("zod");
        reveal_strlit("shape");
    }
//@ fn ImportStyle::parse
    ensures r == import_style_named(s@)
//@ at start
    proof { // the spellings are different strings, so the order of the cases does not matter
        reveal_strlit("add_imports");
        reveal_strlit("assume_existing");
        reveal_strlit("qualified_paths");
    }
//@ fn InputMode::parse
    ensures r == input_mode_named(s@)
//@ at start
    proof { // the spellings are different strings, so the order of the cases does not matter
        reveal_strlit("json");
        reveal_strlit("sql");
    }
//@ fn StringTransform::parse
    ensures r == transform_named(s@)
//@ at start
    proof { // the spellings are different strings, so the order of the cases does not matter
        reveal_strlit("lowercase");
        reveal_strlit("uppercase");
        reveal_strlit("UPPERCASE");
        reveal_strlit("pascalcase");
        reveal_strlit("uppercamelcase");
        reveal_strlit("PascalCase");
        reveal_strlit("camelcase");
        reveal_strlit("camelCase");
        reveal_strlit("snakecase");
        reveal_strlit("snake_case");
        reveal_strlit("screamingsnakecase");
        reveal_strlit("SCREAMING_SNAKE_CASE");
        reveal_strlit("kebabcase");
        reveal_strlit("kebab-case");
        reveal_strlit("screamingkebabcase");
        reveal_strlit("SCREAMING-KEBAB-CASE");
    }
