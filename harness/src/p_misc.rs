//! options, root names, SQL
use crate::*;
use json_typegen_shared::{parse, ImportStyle, StringTransform};

const OUTPUT: &[(&str, OutputMode)] = &[
    ("rust", OutputMode::Rust),
    ("typescript", OutputMode::Typescript),
    ("typescript/typealias", OutputMode::TypescriptTypeAlias),
    ("kotlin", OutputMode::KotlinJackson),
    ("kotlin/jackson", OutputMode::KotlinJackson),
    ("kotlin/kotlinx", OutputMode::KotlinKotlinx),
    ("python", OutputMode::PythonPydantic),
    ("json_schema", OutputMode::JsonSchema),
    ("zod", OutputMode::ZodSchema),
    ("shape", OutputMode::Shape),
];
const IMPORT: &[(&str, ImportStyle)] = &[
    ("add_imports", ImportStyle::AddImports),
    ("assume_existing", ImportStyle::AssumeExisting),
    ("qualified_paths", ImportStyle::QualifiedPaths),
];
const TRANSFORM: &[(&str, StringTransform)] = &[
    ("lowercase", StringTransform::LowerCase),
    ("uppercase", StringTransform::UpperCase),
    ("UPPERCASE", StringTransform::UpperCase),
    ("pascalcase", StringTransform::PascalCase),
    ("uppercamelcase", StringTransform::PascalCase),
    ("PascalCase", StringTransform::PascalCase),
    ("camelcase", StringTransform::CamelCase),
    ("camelCase", StringTransform::CamelCase),
    ("snakecase", StringTransform::SnakeCase),
    ("snake_case", StringTransform::SnakeCase),
    ("screamingsnakecase", StringTransform::ScreamingSnakeCase),
    ("SCREAMING_SNAKE_CASE", StringTransform::ScreamingSnakeCase),
    ("kebabcase", StringTransform::KebabCase),
    ("kebab-case", StringTransform::KebabCase),
    ("screamingkebabcase", StringTransform::ScreamingKebabCase),
    ("SCREAMING-KEBAB-CASE", StringTransform::ScreamingKebabCase),
];
const INPUT: &[(&str, &str)] = &[("json", "Json"), ("sql", "Sql")];

fn lookup<'a, T>(t: &'a [(&str, T)], s: &str) -> Option<&'a T> {
    t.iter().find(|e| e.0 == s).map(|e| &e.1)
}
fn quiet<T>(what: &str, s: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).or_else(|_| fail(format!("{} {:?}", what, s), "panicked"))
}
fn spelling(r: &mut Run, s: &str) -> Res {
    let o = quiet("output mode", s, || OutputMode::parse(s))?;
    if o.as_ref() != lookup(OUTPUT, s) {
        return fail(format!("output mode {:?}", s), format!("parsed to {:?}", o));
    }
    let o = quiet("import style", s, || ImportStyle::parse(s))?;
    if o.as_ref() != lookup(IMPORT, s) {
        return fail(format!("import style {:?}", s), format!("parsed to {:?}", o));
    }
    let o = quiet("string transform", s, || StringTransform::parse(s))?;
    if o.as_ref() != lookup(TRANSFORM, s) {
        return fail(format!("string transform {:?}", s), format!("parsed to {:?}", o));
    }
    r.note(|| format!("{:?}", s), !s.is_empty());
    Ok(())
}
fn block(r: &mut Run, b: &str, expect: impl FnOnce(&mut Options)) -> Res {
    let mut want = Options::default();
    expect(&mut want);
    let got = quiet("options block", b, || parse::options(b))?;
    match got {
        Ok(o) if o == want => {
            r.note(|| b.to_string(), true);
            Ok(())
        }
        Ok(o) => fail(b, format!("options block parsed to {:?}\ninstead of {:?}", o, want)),
        Err(e) => fail(b, format!("options block rejected: {}", e)),
    }
}
/// C20
pub fn option_names(r: &mut Run) -> Res {
    let mut all: Vec<String> = vec!["".into(), " ".into(), "go".into()];
    all.extend(OUTPUT.iter().map(|e| e.0.to_string()));
    all.extend(IMPORT.iter().map(|e| e.0.to_string()));
    all.extend(TRANSFORM.iter().map(|e| e.0.to_string()));
    all.extend(INPUT.iter().map(|e| e.0.to_string()));
    for (n, v) in INPUT {
        let b = format!("{{ input_mode: \"{}\" }}", n);
        match quiet("options block", &b, || parse::options(&b))? {
            Ok(o) if format!("{:?}", o.input_mode) == *v => {}
            o => return fail(b, format!("{:?}", o.map(|o| format!("{:?}", o.input_mode)))),
        }
    }
    for (n, v) in OUTPUT {
        block(r, &format!("{{ output_mode: \"{}\" }}", n), |o| o.output_mode = v.clone())?;
    }
    for (n, v) in IMPORT {
        block(r, &format!("{{ import_style: \"{}\" }}", n), |o| o.import_style = v.clone())?;
    }
    for (n, v) in TRANSFORM {
        block(r, &format!("{{ property_name_format: \"{}\", }}", n), |o| o.property_name_format = Some(v.clone()))?;
    }
    block(r, "{ derives: \"A, B\" }", |o| o.derives = "A, B".into())?;
    block(r, "{ field_visibility: \"pub(crate)\" }", |o| o.field_visibility = Some("pub(crate)".into()))?;
    for b in [true, false] {
        block(r, &format!("{{ deny_unknown_fields: {} }}", b), |o| o.deny_unknown_fields = b)?;
        block(r, &format!("{{ use_default_for_missing_fields: {} }}", b), |o| o.use_default_for_missing_fields = b)?;
        block(r, &format!("{{ collect_additional: {} }}", b), |o| o.collect_additional = b)?;
    }
    block(r, "{ deny_unknown_fields, use_default_for_missing_fields }", |o| {
        o.deny_unknown_fields = true;
        o.use_default_for_missing_fields = true
    })?;
    block(r, "{ unwrap: \"/a/-/b\" }", |o| o.unwrap = "/a/-/b".into())?;
    for n in [0usize, 1, 30, 4000000] {
        block(r, &format!("{{ infer_map_threshold: \"{}\", unwrap: \"\" }}", n), |o| o.infer_map_threshold = Some(n))?;
    }
    for s in all.clone() {
        spelling(r, &s)?;
    }
    let mut g = Gen::new(r.seed);
    while r.more() {
        for _ in 0..200 {
            let mut s: Vec<char> = g.rng.pick(&all).chars().collect();
            for _ in 0..1 + g.rng.below(2) {
                let i = g.rng.below(s.len() + 1);
                match g.rng.below(7) {
                    0 if i < s.len() => {
                        s.remove(i);
                    }
                    1 => s.insert(i, *g.rng.pick(&['_', '-', ' ', '/', 'a', 's', '\n', 'é', '\u{0}'])),
                    2 if i < s.len() => s[i] = s[i].to_ascii_uppercase(),
                    3 => s = s.iter().map(|c| c.to_ascii_lowercase()).collect(),
                    4 => s = s.iter().map(|c| c.to_ascii_uppercase()).collect(),
                    5 => s = s.iter().map(|c| if *c == '_' { '-' } else if *c == '-' { '_' } else { *c }).collect(),
                    6 => s.retain(|c| *c != '_' && *c != '-'),
                    _ => {}
                }
            }
            let s: String = s.into_iter().collect();
            spelling(r, &s)?;
        }
    }
    Ok(())
}

fn ends_well(input: &str, name: &str, o: Options) -> Res {
    let d = format!("name {:?}, mode {:?}, sample {}", name, o.output_mode, input);
    match run_codegen(name, input, o) {
        Ok(Ok(s)) => {
            let b = s.strip_suffix('\n');
            match b {
                Some(b) if !b.ends_with(char::is_whitespace) && !b.is_empty() => Ok(()),
                _ => fail(d, format!("output does not end in exactly one newline: {:?}", s.chars().rev().take(20).collect::<String>().chars().rev().collect::<String>())),
            }
        }
        Ok(Err(e)) => fail(d, format!("rejected: {}", e)),
        Err(e) => fail(d, format!("panicked: {}", e)),
    }
}
/// C21
pub fn names_and_newlines(r: &mut Run) -> Res {
    use crate::p_lang::{mode, ALL};
    let plain = ["Foo", "Foo Bar", "foo", "x) y", "(x", "publish", "pub", "Pub x", "x pub y", "日本 x"];
    let vis = ["pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate::a::b)", "pub()", "pub(x"];
    let samples = ["{\"a\":1}", "[1]", "[{\"a\":{\"b\":null}},{}]"];
    let compare = |r: &mut Run, name: &str, want_name: &str, want_vis: Option<&str>| -> Res {
        for s in samples {
            for m in [OutputMode::Rust, OutputMode::Typescript, OutputMode::KotlinJackson, OutputMode::PythonPydantic, OutputMode::ZodSchema, OutputMode::JsonSchema] {
                for tv in ["pub", "", "pub(crate)"] {
                    let mut o = opts(m.clone());
                    o.type_visibility = tv.into();
                    let mut w = o.clone();
                    if let Some(v) = want_vis {
                        w.type_visibility = v.into();
                    }
                    // the same shape and name without any prefix
                    let want = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let sh = json_typegen_shape(s);
                        json_typegen_shared::codegen_from_shape(want_name, &sh, w)
                    })) {
                        Ok(Ok(x)) => x,
                        _ => continue,
                    };
                    let d = format!("name {:?}, mode {:?}, visibility {:?}, sample {}", name, m, tv, s);
                    match run_codegen(name, s, o) {
                        Ok(Ok(x)) if x == want => {}
                        Ok(x) => return fail(d, format!("expected name {:?}, visibility {:?}\ngot {:?}\nwant {:?}", want_name, want_vis, x, want)),
                        Err(e) => return fail(d, format!("panicked: {}", e)),
                    }
                }
            }
        }
        r.note(|| format!("{:?}", name), true);
        Ok(())
    };
    for n in plain {
        compare(r, n, n, None)?;
        for v in &vis[..6] {
            compare(r, &format!("{} {}", v, n), n, Some(v))?;
            if *v != "pub" {
                let t = format!("{}{}", v, n);
                if !t.contains(") ") {
                    compare(r, &t, &t, None)?;
                }
            }
        }
        let t = format!("{} {}", vis[6], n);
        if !t.contains(") ") {
            compare(r, &t, &t, None)?;
        }
    }
    // visibility is written in front of the type
    for (n, v) in [("pub(crate) Foo", "pub(crate)"), ("pub Foo", "pub"), ("pub(in a::b) Foo", "pub(in a::b)")] {
        let c = must(n, "{\"a\":1}", opts(OutputMode::Rust))?;
        if !c.contains(&format!("{} struct Foo {{", v)) {
            return fail(format!("name {:?}", n), format!("visibility {:?} is missing\n{}", v, c));
        }
    }
    // what is inline text
    for ws in ["", " ", "\n", "\t \r\n", "\u{a0}", "\u{2028}", "\u{3000} "] {
        for s in samples {
            for t in [format!("{}{}", ws, s), format!("{}{}{}", ws, s, ws)] {
                match run_codegen("Root", &t, Options::default()) {
                    Ok(Ok(x)) if x == must("Root", s, Options::default())? => {}
                    x => return fail(format!("{:?}", t), format!("white space around the sample changes the result: {:?}", x)),
                }
            }
        }
    }
    let dir = scratch();
    for (i, c) in ["1", "{\"a\":1}", "[[]]"].iter().enumerate() {
        let p = format!("{}/[{}].json", dir, i);
        std::fs::write(&p, c).unwrap();
        for q in [p.clone(), format!(" {}\n", p)] {
            match run_codegen("Root", &q, Options::default()) {
                Ok(Ok(x)) if !c.starts_with(['{', '[']) || x == must("Root", c, Options::default())? => {}
                x => return fail(format!("file {:?}", q), format!("a path is not read as a file: {:?}", x)),
            }
        }
    }
    for q in ["null", "1", "\"{\"", "x{", "/no/such/[file]", "a", ""] {
        if let Ok(Ok(x)) = run_codegen("Root", q, Options::default()) {
            return fail(format!("{:?}", q), format!("neither inline nor an existing file, but accepted: {:?}", x));
        }
    }
    let mut g = Gen::new(r.seed);
    g.strings = ["", " ", "a\n", "\n\n", "\t"].iter().map(|s| s.to_string()).collect();
    g.keys = ["a", "b", " ", "\n", "c\n", "type"].iter().map(|s| s.to_string()).collect();
    while r.more() {
        let v = match g.value(0) {
            v @ (J::Arr(_) | J::Obj(_)) => v,
            v => J::Arr(vec![v]),
        };
        let s = v.show();
        for m in ALL {
            let mut o = opts(mode(*m));
            if g.rng.chance(1, 2) {
                o.import_style = ImportStyle::AssumeExisting;
            }
            ends_well(&s, "Root", o)?;
        }
        ends_well(&s, "Root", opts(OutputMode::Shape))?;
        let n = *g.rng.pick(&plain);
        let w = *g.rng.pick(&vis[..6]);
        if g.rng.chance(1, 30) {
            compare(r, &format!("{} {}", w, n), n, Some(w))?;
        }
        r.note(|| s.clone(), true);
    }
    Ok(())
}
/// the shape of one of the fixed samples of C21
fn json_typegen_shape(s: &str) -> json_typegen_shared::Shape {
    use json_typegen_shared::Shape;
    let st = |f: Vec<(&str, Shape)>| {
        let mut m = linked_hash_map::LinkedHashMap::new();
        for (k, v) in f {
            m.insert(k.to_string(), v);
        }
        Shape::Struct { fields: m }
    };
    match s {
        "[1]" => Shape::VecT { elem_type: Box::new(Shape::Integer) },
        "{\"a\":1}" => st(vec![("a", Shape::Integer)]),
        _ => Shape::VecT { elem_type: Box::new(st(vec![("a", Shape::Optional(Box::new(st(vec![("b", Shape::Null)]))))])) },
    }
}

const COLS: &[(&str, &str)] = &[
    ("CHARACTER(3)", "string"), ("CHAR", "string"), ("CHAR(10)", "string"), ("CHARACTER VARYING(5)", "string"), ("CHAR VARYING(5)", "string"),
    ("VARCHAR", "string"), ("VARCHAR(255)", "string"), ("NVARCHAR(9)", "string"), ("TEXT", "string"), ("STRING", "string"), ("text", "string"),
    ("TINYINT", "integer"), ("TINYINT UNSIGNED", "integer"), ("TINYINT(1)", "integer"), ("SMALLINT", "integer"), ("SMALLINT UNSIGNED", "integer"),
    ("MEDIUMINT", "integer"), ("MEDIUMINT UNSIGNED", "integer"), ("INT", "integer"), ("INT(11)", "integer"), ("INT UNSIGNED", "integer"),
    ("INTEGER", "integer"), ("INTEGER UNSIGNED", "integer"), ("BIGINT", "integer"), ("BIGINT UNSIGNED", "integer"), ("bigint(20)", "integer"),
    ("BOOLEAN", "bool"), ("DATE", "Date"), ("DATETIME", "Date"), ("DATETIME(6)", "Date"), ("TIMESTAMP", "Date"), ("TIMESTAMP(3)", "Date"),
    ("TIMESTAMP WITH TIME ZONE", "Date"), ("TIMESTAMP WITHOUT TIME ZONE", "Date"), ("TIMESTAMPTZ", "Date"),
    ("UUID", "any"), ("BLOB", "any"), ("CLOB", "any"), ("BYTEA", "any"), ("NUMERIC(10,2)", "any"), ("DECIMAL", "any"), ("FLOAT", "any"), ("REAL", "any"),
    ("DOUBLE PRECISION", "any"), ("DOUBLE", "any"), ("TIME", "any"), ("INTERVAL", "any"), ("JSON", "any"), ("SERIAL", "any"), ("my_type", "any"),
    ("INT[]", "any"), ("ENUM('a','b')", "any"), ("SET('a')", "any"), ("VARBINARY(3)", "any"), ("REGCLASS", "any"),
];
/// (text, whether null is ruled out)
const COLOPTS: &[(&str, bool)] = &[
    ("NOT NULL", true), ("NULL", false), ("PRIMARY KEY", true), ("UNIQUE", false), ("DEFAULT 1", false), ("DEFAULT NULL", false), ("DEFAULT 'NOT NULL'", false),
    ("CHECK (1 > 0)", false), ("REFERENCES other (id)", false), ("REFERENCES other (id) ON DELETE SET NULL", false), ("COMMENT 'x'", false),
    ("CONSTRAINT nn NOT NULL", true), ("CONSTRAINT pk PRIMARY KEY", true), ("CONSTRAINT u UNIQUE", false), ("CHARACTER SET utf8", false),
];
fn sql_opts(m: OutputMode) -> Options {
    let mut o = parse::options("{input_mode: \"sql\"}").expect("options");
    o.output_mode = m;
    o
}
/// C19
pub fn sql(r: &mut Run) -> Res {
    use crate::p_lang::{mode, ALL};
    for (i, t) in ["", " ", ";", "-- nothing", "SELECT 1", "INSERT INTO t (a) VALUES (1)", "CREATE VIEW v AS SELECT 1", "CREATE TABLE", "CREATE TABLE (", "CREATE TABLE t (a", "{\"a\":1}",
        "[1]", "CREATE TABLE t (a INT NOT)", "\u{0}", "é", "'", "DROP TABLE t; SELECT 2;", "ALTER TABLE t ADD COLUMN a INT"].iter().enumerate() {
        for m in ALL {
            match run_codegen("Root", t, sql_opts(mode(*m))) {
                Ok(Err(_)) => {}
                Ok(Ok(x)) => return fail(*t, format!("no table, but accepted: {}", x)),
                Err(e) => return fail(*t, format!("panicked: {}", e)),
            }
        }
        r.note(|| format!("{} {}", i, t), true);
    }
    let one = |r: &mut Run, g: &mut Gen, cols: &[(String, String, usize, Vec<usize>)]| -> Res {
        // (name, name as written, type, options)
        let mut want: Vec<(String, serde_json::Value)> = vec![];
        let mut t = String::new();
        if g.rng.chance(1, 4) {
            t += *g.rng.pick(&["SELECT 1; ", "DROP TABLE t; ", "INSERT INTO t (a) VALUES (1);\n"]);
        }
        t += *g.rng.pick(&["CREATE TABLE ", "create table ", "CREATE TEMPORARY TABLE ", "CREATE TABLE IF NOT EXISTS "]);
        t += *g.rng.pick(&["t", "s.t", "\"a b\"", "users"]);
        t += " (";
        for (i, (n, w, ty, os)) in cols.iter().enumerate() {
            let mut notnull = false;
            t += if i == 0 { "" } else { ", " };
            t += w;
            t += " ";
            t += COLS[*ty].0;
            for o in os {
                t += " ";
                t += COLOPTS[*o].0;
                notnull |= COLOPTS[*o].1;
            }
            let base = serde_json::json!(COLS[*ty].1);
            let v = if notnull || base == "any" { base } else { serde_json::json!({"__type__": "nullable", "item": base}) };
            want.push((n.clone(), v));
        }
        if g.rng.chance(1, 6) {
            t += ", CHECK (1 > 0)";
        }
        t += ")";
        t += *g.rng.pick(&["", ";", ";\n", "; SELECT 2;", "; CREATE TABLE later (zz INT);"]);
        let c = match run_codegen("Root", &t, sql_opts(OutputMode::Shape)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => return fail(&t, format!("rejected: {}", e)),
            Err(e) => return fail(&t, format!("panicked: {}", e)),
        };
        let v: serde_json::Value = serde_json::from_str(&c).map_err(|e| Fail { input: t.clone(), why: format!("{}: {}", e, c) })?;
        let o = v.as_object().cloned().unwrap_or_default();
        if o.len() != want.len() {
            return fail(&t, format!("{} columns, {} fields\n{}", want.len(), o.len(), c));
        }
        for (n, w) in &want {
            if o.get(n) != Some(w) {
                return fail(&t, format!("column {:?} should be {} but is {:?}", n, w, o.get(n)));
            }
        }
        if g.rng.chance(1, 8) {
            for m in ALL {
                if let Err(e) = run_codegen("Root", &t, sql_opts(mode(*m))) {
                    return fail(&t, format!("panicked: {}", e));
                }
            }
        }
        r.note(|| t.clone(), true);
        Ok(())
    };
    let mut g = Gen::new(r.seed);
    for ty in 0..COLS.len() {
        for o in 0..=COLOPTS.len() {
            let os = if o == COLOPTS.len() { vec![] } else { vec![o] };
            one(r, &mut g, &[("c".into(), "c".into(), ty, os)])?;
        }
    }
    let names = ["id", "name", "c1", "Upper", "_x", "a_b", "type_", "created_at"];
    let quoted = ["a b", "sélect", "order", "x-y", "1st", "A.B", "'", "`", "{", "tab\tbed", "日本"];
    while r.more() {
        let mut cols: Vec<(String, String, usize, Vec<usize>)> = vec![];
        for i in 0..1 + g.rng.below(6) {
            let (n, w) = match g.rng.below(3) {
                0 => { let n = g.rng.pick(&names).to_string(); (n.clone(), n) }
                1 => { let n = g.rng.pick(&quoted).to_string(); (n.clone(), format!("\"{}\"", n)) }
                _ => { let n = format!("c{}", i * 7 + 100); (n.clone(), format!("\"{}\"", n)) }
            };
            if cols.iter().any(|c| c.0 == n) {
                continue;
            }
            let mut os: Vec<usize> = vec![];
            for _ in 0..g.rng.below(4) {
                let o = g.rng.below(COLOPTS.len());
                if !os.contains(&o) {
                    os.push(o);
                }
            }
            cols.push((n, w, g.rng.below(COLS.len()), os));
        }
        if cols.is_empty() {
            continue;
        }
        one(r, &mut g, &cols)?;
    }
    Ok(())
}
