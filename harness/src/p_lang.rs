//! Generated code read back: it parses, its names are legal and distinct, it keeps the keys and it accepts the sample.
use crate::langs::*;
use crate::*;
use json_typegen_shared::{ImportStyle, StringTransform};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum M {
    Rust,
    Ts,
    Alias,
    Zod,
    Jackson,
    Kotlinx,
    Python,
    Schema,
}
pub const ALL: &[M] = &[M::Rust, M::Ts, M::Alias, M::Zod, M::Jackson, M::Kotlinx, M::Python, M::Schema];
pub fn mode(m: M) -> OutputMode {
    match m {
        M::Rust => OutputMode::Rust,
        M::Ts => OutputMode::Typescript,
        M::Alias => OutputMode::TypescriptTypeAlias,
        M::Zod => OutputMode::ZodSchema,
        M::Jackson => OutputMode::KotlinJackson,
        M::Kotlinx => OutputMode::KotlinKotlinx,
        M::Python => OutputMode::PythonPydantic,
        M::Schema => OutputMode::JsonSchema,
    }
}
fn parse(m: M, code: &str, name: &str) -> P<Code> {
    match m {
        M::Rust => rust(code, name),
        M::Ts | M::Alias => typescript(code, name),
        M::Zod => zod(code),
        M::Jackson => kotlin(code, name, true),
        M::Kotlinx => kotlin(code, name, false),
        M::Python => python(code, name),
        M::Schema => {
            let v: serde_json::Value = serde_json::from_str(code).map_err(|e| e.to_string())?;
            let mut c = Code::default();
            c.root = Some(schema(&v)?);
            Ok(c)
        }
    }
}
/// a field of conflicting kinds that is absent from some record is emitted as required (known finding D3): such
/// positions are left out
fn relax(t: &mut Ty) {
    match t {
        Ty::Obj(d) => {
            for f in &mut d.fields {
                if f.ty == Ty::Any {
                    f.optional = true;
                }
                relax(&mut f.ty);
            }
            if let Some(r) = &mut d.rest {
                relax(r);
            }
        }
        Ty::Arr(t) | Ty::Map(t) | Ty::Opt(t) | Ty::Nullable(t) => relax(t),
        Ty::Tup(ts) | Ty::Union(ts) => ts.iter_mut().for_each(relax),
        _ => {}
    }
}
pub struct Case {
    pub name: String,
    pub sample: J,
    pub m: M,
    pub o: Options,
}
impl Case {
    fn show(&self) -> String {
        let d = Options::default();
        let mut s = format!("name {:?}, mode {:?}", self.name, self.m);
        let o = &self.o;
        if o.use_default_for_missing_fields {
            s += ", use_default_for_missing_fields";
        }
        if o.deny_unknown_fields {
            s += ", deny_unknown_fields";
        }
        if o.collect_additional {
            s += ", collect_additional";
        }
        if o.import_style != d.import_style {
            s += &format!(", {:?}", o.import_style);
        }
        if o.property_name_format.is_some() {
            s += &format!(", property_name_format {:?}", o.property_name_format);
        }
        if o.infer_map_threshold.is_some() {
            s += &format!(", infer_map_threshold {:?}", o.infer_map_threshold);
        }
        if o.derives != d.derives {
            s += &format!(", derives {:?}", o.derives);
        }
        if o.type_visibility != d.type_visibility || o.field_visibility != d.field_visibility {
            s += &format!(", visibility {:?} {:?}", o.type_visibility, o.field_visibility);
        }
        s + "\nsample " + &self.sample.show()
    }
    pub fn gen(&self) -> Result<(String, Code), Fail> {
        let input = self.show();
        let text = self.sample.show();
        let code = match run_codegen(&self.name, &text, self.o.clone()) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => return fail(input, format!("valid sample rejected: {}", e)),
            Err(e) => return fail(input, format!("panicked: {}", e)),
        };
        match parse(self.m, &code, &self.name) {
            Ok(c) => Ok((code, c)),
            Err(e) => fail(input, format!("generated code is not well-formed: {}\n{}", e, code)),
        }
    }
    pub fn accepts(&self) -> Result<(String, Code), Fail> {
        let (code, mut c) = self.gen()?;
        for t in c.env.values_mut() {
            relax(t);
        }
        let mut root = c.root.clone().unwrap();
        relax(&mut root);
        if let Err(w) = accepts(&c.env, &root, Some(&self.sample), "", 60) {
            return fail(self.show(), format!("the generated types reject the sample: {}\n{}", w, code));
        }
        Ok((code, c))
    }
}
fn case(name: &str, m: M, sample: &J) -> Case {
    Case { name: name.into(), sample: sample.clone(), m, o: opts(mode(m)) }
}
/// structured samples: records in lists, nested, nulls, absences, repeated field names
fn samples(r: &mut Run, mut f: impl FnMut(&mut Run, &J, bool) -> Res) -> Res {
    let b = base_values();
    for x in &b {
        f(r, &J::Arr(vec![x.clone()]), true)?;
        for y in &b {
            let rec = |v: &J| J::Obj(vec![("a".into(), v.clone()), ("k".into(), int(1))]);
            f(r, &J::Arr(vec![x.clone(), y.clone()]), true)?;
            f(r, &J::Arr(vec![rec(x), rec(y)]), true)?;
            f(r, &obj(&[("p", rec(x)), ("q", rec(y)), ("r", J::Arr(vec![rec(x), obj(&[("k", J::Null)])]))]), true)?;
        }
    }
    let mut g = Gen::new(r.seed);
    g.max_depth = 4;
    while r.more() {
        let v = if g.rng.chance(1, 3) {
            J::Arr(g.batch())
        } else if g.rng.chance(1, 2) {
            J::Arr(vec![J::Arr(g.batch()), J::Null])
        } else {
            let b = g.batch();
            J::Obj(b.into_iter().enumerate().map(|(i, v)| (["p", "q", "r", "s", "t"][i].to_string(), v)).collect())
        };
        f(r, &v, true)?;
    }
    Ok(())
}
fn max_i64(v: &J) -> bool {
    match v {
        J::Num(n) => is_float(n) || n.parse::<i64>().is_ok(),
        J::Arr(a) => a.iter().all(max_i64),
        J::Obj(m) => m.iter().all(|e| max_i64(&e.1)),
        _ => true,
    }
}

/// C14
pub fn rust_accepts(r: &mut Run) -> Res {
    let mut i = 0u32;
    samples(r, |r, v, nt| {
        if !max_i64(v) {
            return Ok(());
        }
        i += 1;
        let mut c = case("Root", M::Rust, v);
        c.o.use_default_for_missing_fields = i % 2 == 1;
        c.o.deny_unknown_fields = i % 3 == 1;
        c.o.collect_additional = i % 3 == 2;
        c.o.infer_map_threshold = match i % 5 {
            0 => Some(1),
            1 => Some(3),
            _ => None,
        };
        c.o.import_style = match i % 7 {
            0 | 1 => ImportStyle::AssumeExisting,
            2 | 3 => ImportStyle::QualifiedPaths,
            _ => ImportStyle::AddImports,
        };
        let (_, code) = c.accepts()?;
        for e in &code.externs {
            if !code.imports.iter().any(|i| i.ends_with(&format!("::{}", e))) && !e.contains("::") && c.o.import_style != ImportStyle::AssumeExisting {
                if !["Default", "Debug", "Clone", "PartialEq"].contains(&e.as_str()) {
                    return fail(c.show(), format!("{} is neither defined nor imported", e));
                }
            }
        }
        r.note(|| c.show(), nt);
        Ok(())
    })
}
/// C15
pub fn others_accept(r: &mut Run) -> Res {
    let mut i = 0usize;
    samples(r, |r, v, nt| {
        i += 1;
        for m in [M::Jackson, M::Kotlinx, M::Python] {
            let w = J::Obj(vec![("Strange Key".into(), v.clone())]);
            let mut c = case("Root", m, if i % 8 < 4 { v } else { &w });
            c.o.import_style = if i % 2 == 0 { ImportStyle::AddImports } else { ImportStyle::QualifiedPaths };
            c.o.collect_additional = m == M::Jackson && i % 3 == 0;
            c.o.property_name_format = [None, None, Some(StringTransform::SnakeCase), Some(StringTransform::PascalCase)][i / 2 % 4].clone();
            imported(&c)?;
        }
        for m in [M::Ts, M::Alias, M::Zod, M::Jackson, M::Kotlinx, M::Python] {
            if m == M::Jackson || m == M::Kotlinx {
                // Kotlin's Int and Long
                if !max_i64(v) {
                    continue;
                }
            }
            case("Root", m, v).accepts()?;
            let mut c = case("Root", m, v);
            c.o.infer_map_threshold = Some(1);
            c.accepts()?;
        }
        r.note(|| v.show(), nt);
        Ok(())
    })
}
/// Kotlin and Python files import what they take from elsewhere
fn imported(c: &Case) -> Res {
    let (text, code) = c.gen()?;
    // identifiers, each with what stands before and after it; strings and import lines left out
    let mut toks: Vec<(char, String, char)> = vec![];
    for line in text.lines().filter(|l| !l.starts_with("import ") && !l.starts_with("from ")) {
        let ch: Vec<char> = line.chars().chain(['\n']).collect();
        let (mut i, mut q, mut w, mut b) = (0, false, String::new(), ' ');
        while i < ch.len() {
            let x = ch[i];
            if q {
                if x == '\\' {
                    i += 1;
                } else if x == '"' {
                    q = false;
                }
            } else if x.is_alphanumeric() || x == '_' {
                w.push(x);
            } else {
                if !w.is_empty() {
                    toks.push((b, std::mem::take(&mut w), x));
                }
                b = x;
                q = x == '"';
            }
            i += 1;
        }
    }
    let uses: &[&str] = if c.m == M::Python {
        &["Any", "Optional", "BaseModel", "Field"]
    } else {
        &["JsonProperty", "JsonNaming", "PropertyNamingStrategies", "JsonAnySetter", "JsonAnyGetter", "SerialName", "Serializable"]
    };
    for (b, w, a) in &toks {
        let lack = if c.m == M::Python && (w == "typing" || w == "pydantic") && *a == '.' && *b != '.' {
            !code.imports.contains(w)
        } else if uses.contains(&w.as_str()) && *b != '.' {
            // a class named like that does not happen below the root
            !code.imports.iter().any(|i| i.ends_with(&format!(".{}", w)))
        } else {
            false
        };
        if lack {
            return fail(c.show(), format!("{} is used but not imported\n{}", w, text));
        }
    }
    Ok(())
}
/// C17
pub fn schema_accepts(r: &mut Run) -> Res {
    samples(r, |r, v, nt| {
        case("Root", M::Schema, v).accepts()?;
        let mut c = case("Root", M::Schema, v);
        c.o.infer_map_threshold = Some(2);
        c.accepts()?;
        r.note(|| v.show(), nt);
        Ok(())
    })
}
/// C03: several objects with the same field names
pub fn reuse(r: &mut Run) -> Res {
    let modes = [M::Rust, M::Python, M::Jackson, M::Kotlinx, M::Ts];
    let b = base_values();
    let mut n = 0usize;
    let mut one = |r: &mut Run, v: &[J]| -> Res {
        let fld: Vec<(String, J)> = v.iter().enumerate().map(|(i, x)| (format!("h{}", i), J::Obj(vec![("item".into(), obj(&[("v", x.clone()), ("w", int(1))]))]))).collect();
        let s = J::Obj(fld);
        // record lists: absent, null or another value in the second record, fillers on the side
        let wide = |x: &J, i: usize| -> J {
            let mut f: Vec<(String, J)> = vec![("v".into(), x.clone())];
            for k in 0..(i % 7) {
                f.push((format!("w{}", k), int(k as i64)));
            }
            J::Obj(f)
        };
        n += 1;
        let lst: Vec<(String, J)> = v
            .iter()
            .enumerate()
            .map(|(i, x)| {
                let second = match (i + n) % 4 {
                    0 => obj(&[("item", obj(&[]))]),
                    1 => obj(&[("item", wide(&J::Null, n))]),
                    2 => obj(&[("item", wide(&v[0], n))]),
                    _ => obj(&[]),
                };
                (format!("h{}", i), J::Arr(vec![obj(&[("item", wide(x, n))]), second]))
            })
            .collect();
        let s2 = J::Obj(lst);
        for m in modes {
            case("Root", m, &s).accepts()?;
            case("Root", m, &s2).accepts()?;
        }
        r.note(|| s.show(), v.iter().any(|x| x != &v[0]));
        Ok(())
    };
    for x in &b {
        for y in &b {
            one(r, &[x.clone(), y.clone()])?;
        }
    }
    let mut g = Gen::new(r.seed);
    while r.more() {
        let v = g.batch();
        let v: Vec<J> = v.into_iter().filter(max_i64).collect();
        if v.is_empty() {
            continue;
        }
        one(r, &v)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ names and keys

pub const WEIRD: &[&str] = &[
    "json", "Copy", "copy", "Dict", "list", "List", "Str", "Int", "int", "Typing", "Pydantic", "fromOrm", "schema_json", "rename", "renameIt", "rename_it", "alias", "serde", "default", "serde(default)", "SerialName", "JsonProperty", "Vec", "Option", "HashMap", "Value", "z.object",
    "", " ", "a", "A", "aa", "a_a", "a-a", "a a", "aA", "AA", "1", "1a", "12 monkeys", "_", "__", "_1", "_a", "a_", "-", "+1", "-1", "ä", "é", "Ünïcode", "日本", "日本語", "a日本", "ß",
    "ı", "İ", "ǅ", "type", "Type", "TYPE", "self", "Self", "super", "crate", "fn", "struct", "dyn", "gen", "async", "await", "abstract", "try", "union", "true", "True", "None", "null", "nil",
    "class", "object", "val", "var", "fun", "in", "is", "interface", "typealias", "when", "def", "lambda", "nonlocal", "pass", "raise", "from", "import", "string", "number", "boolean", "any",
    "undefined", "a\"b", "a\\b", "a\\", "\"", "\\", "'", "a'b", "$", "$a", "a$b", "${x}", "`", "\n", "a\nb", "\t", "\r", "\u{0}", "\u{1}", "\u{7f}", "\u{80}", "\u{2028}", "\u{feff}", "😀",
    "a😀", "*/", "//", "#", "\"\"\"", "{", "}", "[", "]", "<a>", "a?", "a:", "a,b", "a.b", "a/b", "a~b", "@a", "&", "%", "String", "Option", "Vec", "Value", "HashMap", "Serialize", "List", "Map",
    "Int", "Any", "Optional", "BaseModel", "Field", "Pair", "Long", "additional_fields", "additionalFields", "a2", "a 2", "A2", "A_2", "root", "Root", "Root2", "constructor", "__proto__", "fooBar",
    "FooBar", "foo_bar", "foo-bar", "FOO_BAR", "FOO-BAR", "foobar", "FOOBAR", "Foo", "foo", "foo1", "foo_1", "ID", "userID", "XMLHttp", "x1y2", "٣", "a٣", "²", "ª", "ⅷ", "\u{301}", "a\u{301}",
    "as", "break", "const", "continue", "else", "enum", "extern", "false", "for", "if", "impl", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "trait", "unsafe", "use", "where", "while", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "package", "this", "throw", "False", "and", "assert", "del", "elif", "except", "finally", "global", "not", "or", "with", "case", "catch", "debugger", "default", "delete", "export", "extends", "function", "instanceof", "new", "void", "implements", "private", "protected", "public", "arguments", "eval",
];
fn rnd_key(g: &mut Gen) -> String {
    if g.rng.chance(1, 2) {
        return g.rng.pick(WEIRD).to_string();
    }
    let n = g.rng.below(5);
    let pool: Vec<char> = "aAbB12_- \"\\$'éß日😀.?*\n\u{1}ıǅ٣".chars().collect();
    (0..n).map(|_| *g.rng.pick(&pool)).collect()
}
fn uniq(ks: Vec<String>) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for k in ks {
        if !o.contains(&k) {
            o.push(k);
        }
    }
    o
}
/// samples whose keys are unusual, at several places
fn key_samples(r: &mut Run, mut f: impl FnMut(&mut Run, &J, u32) -> Res) -> Res {
    let mk = |ks: &[String]| {
        let leaf = J::Obj(ks.iter().map(|k| (k.clone(), int(1))).collect());
        let nested = J::Obj(ks.iter().map(|k| (k.clone(), J::Obj(vec![(k.clone(), st("x")), ("z".into(), J::Arr(vec![obj(&[("y", int(1))])]))]))).collect());
        vec![leaf, nested]
    };
    let mut i = 0;
    for k in WEIRD {
        for s in mk(&[k.to_string()]) {
            i += 1;
            f(r, &s, i)?;
        }
    }
    for w in WEIRD.windows(4) {
        for s in mk(&uniq(w.iter().map(|s| s.to_string()).collect())) {
            i += 1;
            f(r, &s, i)?;
        }
    }
    // keys that clean up alike, among keys spelled like the numbered names
    for num in ["a_b", "aB", "AB", "a b"] {
        for n in 2..6 {
            for m in [n, n + 1, 22] {
                for at in 0..4 {
                    let mut ks: Vec<String> = ["a b", "a_b", "a-b"].iter().map(|s| s.to_string()).collect();
                    ks.insert(at, format!("{}{}", num, n));
                    if m != n {
                        ks.insert(at, format!("{}{}", num, m));
                    }
                    for s in mk(&uniq(ks)) {
                        i += 1;
                        f(r, &s, i)?;
                    }
                }
            }
        }
    }
    let mut g = Gen::new(r.seed);
    while r.more() {
        let n = 1 + g.rng.below(5);
        let alike = g.rng.chance(1, 3);
        let ks = uniq((0..n).map(|_| if alike { format!("{}{}", g.rng.pick(&["a_b", "aB", "A b", "a-b", " a b", "a.b?"]), g.rng.pick(&["", "", "", "2", "3", " 2", "_4"])) } else { rnd_key(&mut g) }).collect());
        for s in mk(&ks) {
            i += 1;
            f(r, &s, i)?;
        }
        g.keys = ks;
        let v = J::Arr(vec![g.value(0)]);
        i += 1;
        f(r, &v, i)?;
    }
    Ok(())
}
fn legal(n: &str) -> bool {
    let mut c = n.chars();
    matches!(c.next(), Some(x) if x.is_ascii_alphabetic() || x == '_') && c.all(|x| x.is_ascii_alphanumeric() || x == '_')
}
fn fmts(i: u32) -> Option<StringTransform> {
    use StringTransform::*;
    match i % 11 {
        1 => Some(LowerCase),
        2 => Some(UpperCase),
        3 => Some(PascalCase),
        4 => Some(CamelCase),
        5 => Some(SnakeCase),
        6 => Some(ScreamingSnakeCase),
        7 => Some(KebabCase),
        8 => Some(ScreamingKebabCase),
        _ => None,
    }
}
const NAMES: &[&str] = &["Root", "foo", "Foo Bar", "type", "", "1", "日本", "a\"b", "Self", "FooBar2", "_", "class", "object", "é"];

fn defs<'a>(c: &'a Code) -> Vec<(&'a str, &'a Def)> {
    c.env
        .iter()
        .filter_map(|(n, t)| match t {
            Ty::Obj(d) => Some((n.as_str(), &**d)),
            _ => None,
        })
        .collect()
}
/// all keys that the types reachable from `t` give to the objects of `v`
fn keys_kept(env: &Env, t: &Ty, v: &J, path: &str, fuel: usize) -> Result<(), String> {
    if fuel == 0 {
        return Err("recursive".into());
    }
    match (t, v) {
        (Ty::Ref(n), _) => keys_kept(env, env.get(n).ok_or(format!("undefined type {}", n))?, v, path, fuel - 1),
        (Ty::Opt(t), _) | (Ty::Nullable(t), _) => keys_kept(env, t, v, path, fuel),
        (Ty::Union(ts), _) => {
            let mut e = String::new();
            for t in ts {
                match keys_kept(env, t, v, path, fuel - 1) {
                    Ok(()) => return Ok(()),
                    Err(x) => e = x,
                }
            }
            Err(e)
        }
        (Ty::Arr(t), J::Arr(a)) => a.iter().try_for_each(|x| keys_kept(env, t, x, path, 50)),
        (Ty::Map(t), J::Obj(a)) => a.iter().try_for_each(|x| keys_kept(env, t, &x.1, path, 50)),
        (Ty::Tup(ts), J::Arr(a)) => ts.iter().zip(a).try_for_each(|(t, x)| keys_kept(env, t, x, path, 50)),
        (Ty::Obj(d), J::Obj(m)) => {
            for (k, x) in m {
                match d.fields.iter().find(|f| &f.key == k) {
                    Some(f) => keys_kept(env, &f.ty, x, &format!("{}/{}", path, k), 50)?,
                    None => return Err(format!("{}: key {:?} has no field ({:?})", path, k, d.fields.iter().map(|f| &f.key).collect::<Vec<_>>())),
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
/// C13
pub fn keys(r: &mut Run) -> Res {
    key_samples(r, |r, v, i| {
        for m in ALL {
            let mut c = case(if i % 3 == 0 { "Thing" } else { "Root" }, *m, v);
            if i % 2 == 0 {
                c.o.property_name_format = fmts(i / 2);
            }
            if *m == M::Rust {
                c.o.import_style = if i % 5 == 0 { ImportStyle::QualifiedPaths } else { ImportStyle::AddImports };
            }
            let (code, p) = c.gen()?;
            if let Err(w) = keys_kept(&p.env, p.root.as_ref().unwrap(), v, "", 60) {
                return fail(c.show(), format!("{}\n{}", w, code));
            }
        }
        r.note(|| v.show(), true);
        Ok(())
    })
}
fn names_in(ms: &'static [M], distinct: bool) -> impl Fn(&mut Run) -> Res {
    move |r: &mut Run| {
        key_samples(r, |r, v, i| {
            for m in ms {
                let nm = NAMES[(i as usize / 3) % NAMES.len()];
                let mut c = case(if i % 3 == 0 { nm } else { "Root" }, *m, v);
                if *m == M::Rust && i % 4 == 1 {
                    c.o.collect_additional = true;
                }
                c.o.property_name_format = if i % 5 == 0 { fmts(i / 5) } else { None };
                let input = c.show();
                let code = match run_codegen(&c.name, &v.show(), c.o.clone()) {
                    Ok(Ok(s)) => s,
                    Ok(Err(e)) => return fail(input, format!("rejected: {}", e)),
                    Err(e) => return fail(input, format!("panicked: {}", e)),
                };
                // the alias that carries the requested name itself is as requested
                let plain = legal(&c.name) && !["type", "Self", "class", "object", "_"].contains(&c.name.as_str());
                let code = if plain { code } else { code.lines().filter(|l| !["pub type ", "typealias ", "export type ", "export const ", ""].iter().any(|p| l.starts_with(&format!("{}{} =", p, c.name)))).map(|l| format!("{}\n", l)).collect() };
                if !plain && (*m == M::Alias || matches!(v, J::Arr(_)) && *m == M::Zod) {
                    continue;
                }
                let p = match parse(*m, &code, &c.name) {
                    Ok(p) => p,
                    Err(e) => return fail(input, format!("generated code is not well-formed: {}\n{}", e, code)),
                };
                if !distinct {
                    for n in &p.names {
                        if !legal(n) {
                            return fail(input, format!("type name {:?} is not legal\n{}", n, code));
                        }
                    }
                    for (_, d) in defs(&p) {
                        for f in &d.fields {
                            let ok = match m {
                                M::Ts | M::Alias | M::Zod | M::Schema => true, // checked by the parser
                                _ => legal(&f.ident),
                            };
                            if !ok {
                                return fail(input, format!("field name {:?} is not legal\n{}", f.ident, code));
                            }
                        }
                    }
                } else {
                    let mut s = p.names.clone();
                    s.sort();
                    s.dedup();
                    if s.len() != p.names.len() {
                        return fail(input, format!("duplicate type names {:?}\n{}", p.names, code));
                    }
                    for (_, d) in defs(&p) {
                        let mut s: Vec<&String> = d.fields.iter().map(|f| &f.ident).collect();
                        let n = s.len();
                        s.sort();
                        s.dedup();
                        if s.len() != n {
                            return fail(input, format!("duplicate field names {:?}\n{}", d.fields, code));
                        }
                    }
                    if let Some(J::Obj(_)) = Some(v) {
                        // types are found by structure: the first declared one belongs to the root
                        let objs = |v: &J| count_objs(v);
                        let _ = objs;
                        let root = match m {
                            M::Zod => p.root.clone().unwrap(),
                            _ => Ty::Ref(p.names.last().cloned().unwrap_or_default()),
                        };
                        let root = match m {
                            M::Ts | M::Alias | M::Kotlinx | M::Jackson | M::Rust => Ty::Ref(p.names.first().cloned().unwrap_or_default()),
                            _ => root,
                        };
                        if let Err(w) = keys_kept(&p.env, &root, v, "", 60) {
                            return fail(input, format!("{}\n{}", w, code));
                        }
                    }
                }
                r.note(|| input, true);
            }
            Ok(())
        })
    }
}
fn count_objs(v: &J) -> usize {
    match v {
        J::Obj(m) => 1 + m.iter().map(|e| count_objs(&e.1)).sum::<usize>(),
        J::Arr(a) => a.iter().map(count_objs).sum(),
        _ => 0,
    }
}
/// C10
pub fn rust_names(r: &mut Run) -> Res {
    names_in(&[M::Rust], false)(r)
}
/// C11
pub fn other_names(r: &mut Run) -> Res {
    names_in(&[M::Jackson, M::Kotlinx, M::Python, M::Ts, M::Alias, M::Zod], false)(r)
}
/// C12
pub fn distinct_names(r: &mut Run) -> Res {
    // a requested name that is only an alias, and a nested type that would like to be called the same
    for (name, key) in [("n1a", "1a"), ("True_field", "true"), ("Class_field", "class"), ("Self_field", "self"), ("GeneratedType", ""), ("n1a", "1A"), ("a2", "a"), ("fooBar", "foo_bar"), ("None_field", "none")] {
        for m in [M::Rust, M::Jackson, M::Kotlinx, M::Python] {
            let inner = J::Obj(vec![("z".to_string(), int(1))]);
            for v in [J::Obj(vec![(key.to_string(), inner.clone())]), J::Arr(vec![J::Obj(vec![(key.to_string(), inner.clone())])]), J::Arr(vec![inner.clone(), J::Obj(vec![(key.to_string(), inner)])])] {
                let c = case(name, m, &v);
                let code = match run_codegen(&c.name, &v.show(), c.o.clone()) {
                    Ok(Ok(s)) => s,
                    e => return fail(c.show(), format!("{:?}", e)),
                };
                let at = |l: &str| -> Option<String> {
                    ["pub struct ", "pub type ", "data class ", "typealias ", "class "].iter().find_map(|p| l.strip_prefix(p)).map(|r| r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())
                };
                let mut ns: Vec<String> = code.lines().filter_map(at).collect();
                let n = ns.len();
                ns.sort();
                ns.dedup();
                if n == 0 || ns.len() != n {
                    return fail(c.show(), format!("{} declarations with the names {:?}\n{}", n, ns, code));
                }
                r.note(|| c.show(), true);
            }
        }
    }
    names_in(&[M::Rust, M::Jackson, M::Kotlinx, M::Python, M::Ts], true)(r)
}
/// C16
pub fn well_formed(r: &mut Run) -> Res {
    key_samples(r, |r, v, i| {
        let nm = if i % 2 == 0 { "Root" } else { WEIRD[i as usize % WEIRD.len()] };
        // every key also as one that another record lacks
        let lists = J::Arr(vec![v.clone(), J::Obj(vec![])]);
        for (m, v) in [(OutputMode::JsonSchema, v), (OutputMode::Shape, v), (OutputMode::JsonSchema, &lists), (OutputMode::Shape, &lists)] {
            let o = opts(m.clone());
            let input = format!("name {:?} mode {:?}\nsample {}", nm, m, v.show());
            let code = match run_codegen(nm, &v.show(), o) {
                Ok(Ok(s)) => s,
                Ok(Err(e)) => return fail(input, format!("rejected: {}", e)),
                Err(e) => return fail(input, format!("panicked: {}", e)),
            };
            let j: serde_json::Value = match serde_json::from_str(&code) {
                Ok(j) => j,
                Err(e) => return fail(input, format!("the output is not one JSON document: {}\n{}", e, code)),
            };
            if m == OutputMode::JsonSchema {
                let t = schema(&j).map_err(|w| Fail { input: input.clone(), why: w })?;
                if let Err(w) = keys_kept(&Env::new(), &t, v, "", 60) {
                    return fail(input, format!("{}\n{}", w, code));
                }
                if j.get("title").and_then(|t| t.as_str()) != Some(&format!("Generated schema for {}", nm)) {
                    return fail(input, format!("title {:?}", j["title"]));
                }
            } else {
                shape_keys(&j, &[v]).map_err(|w| Fail { input: input.clone(), why: format!("{}\n{}", w, code) })?;
            }
            r.note(|| input, true);
        }
        Ok(())
    })
}
/// every key of the values is shown, marked exactly if some record lacks it (a field of conflicting kinds is not marked:
/// finding D3; where another key is spelled like the marked one, finding C16 applies and the marks are not looked at)
fn shape_keys(s: &serde_json::Value, vs: &[&J]) -> Result<(), String> {
    use serde_json::Value as V;
    match s {
        V::Array(a) if a.len() == 1 => {
            let es: Vec<&J> = vs.iter().flat_map(|v| if let J::Arr(b) = v { b.iter().collect() } else { vec![] }).collect();
            shape_keys(&a[0], &es)
        }
        V::Object(m) if m.contains_key("__type__") && !vs.iter().any(|v| matches!(v, J::Obj(o) if o.iter().any(|(k, _)| k == "__type__"))) => match m["__type__"].as_str() {
            Some("optional") | Some("nullable") => shape_keys(&m["item"], vs),
            Some("tuple") => {
                let ts = m["items"].as_array().ok_or("items")?;
                for (i, t) in ts.iter().enumerate() {
                    let es: Vec<&J> = vs.iter().filter_map(|v| if let J::Arr(b) = v { b.get(i) } else { None }).collect();
                    shape_keys(t, &es)?;
                }
                Ok(())
            }
            _ => Ok(()),
        },
        V::Object(m) => {
            let os: Vec<&Vec<(String, J)>> = vs.iter().filter_map(|v| if let J::Obj(o) = v { Some(o) } else { None }).collect();
            let mut seen: Vec<&String> = vec![];
            for (k, _) in os.iter().flat_map(|o| o.iter()) {
                if seen.contains(&k) {
                    continue;
                }
                seen.push(k);
                let at: Vec<&J> = os.iter().filter_map(|o| o.iter().find(|e| &e.0 == k).map(|e| &e.1)).collect();
                let marked = format!("{}?", k);
                let clash = os.iter().any(|o| o.iter().any(|e| e.0 == marked || (k.ends_with('?') && k[..k.len() - 1] == e.0)));
                if clash {
                    if m.get(k).or_else(|| m.get(&marked)).is_none() {
                        return Err(format!("key {:?} is missing", k));
                    }
                    continue;
                }
                let absent = at.len() < os.len();
                let t = match (m.get(k), m.get(&marked)) {
                    (Some(t), None) if !absent || t == "any" => t,
                    (None, Some(t)) if absent => t,
                    _ => return Err(format!("key {:?} is missing or marked wrongly", k)),
                };
                shape_keys(t, &at)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
/// C18
pub fn imports(r: &mut Run) -> Res {
    const DERIVES: &[&str] = &[
        "Default, Debug, Clone, PartialEq, serde_derive::Serialize, serde_derive::Deserialize",
        "serde::Serialize, serde::Deserialize",
        "Debug",
        "",
        "serde_derive::Deserialize, other_crate::a::Thing, Debug",
    ];
    let mut i = 0usize;
    samples(r, |r, v, nt| {
        i += 1;
        let mut c = case("Root", M::Rust, v);
        c.o.derives = DERIVES[i % DERIVES.len()].into();
        c.o.import_style = [ImportStyle::AddImports, ImportStyle::AssumeExisting, ImportStyle::QualifiedPaths][i / 5 % 3].clone();
        c.o.collect_additional = i % 2 == 0;
        c.o.infer_map_threshold = if i % 3 == 0 { Some(1) } else { None };
        if i % 4 == 0 {
            c.o.type_visibility = "pub(crate)".into();
            c.o.field_visibility = Some("".into());
        }
        let (code, p) = c.gen()?;
        let ps = ["Default", "Debug", "Clone", "PartialEq"];
        let mut s = p.imports.clone();
        s.sort();
        s.dedup();
        if s.len() != p.imports.len() {
            return fail(c.show(), format!("duplicate imports {:?}\n{}", p.imports, code));
        }
        match c.o.import_style {
            ImportStyle::AddImports => {
                for e in &p.externs {
                    if ps.contains(&e.as_str()) || p.names.contains(e) {
                        continue;
                    }
                    let n = p.imports.iter().filter(|i| i.ends_with(&format!("::{}", e))).count();
                    if e.contains("::") || n != 1 {
                        return fail(c.show(), format!("{} has {} imports\n{}", e, n, code));
                    }
                }
                for i in &p.imports {
                    let last = i.rsplit("::").next().unwrap();
                    if !p.externs.iter().any(|e| e == last) {
                        return fail(c.show(), format!("{} is imported but not used\n{}", i, code));
                    }
                }
            }
            _ => {
                if !p.imports.is_empty() {
                    return fail(c.show(), format!("imports {:?} with {:?}\n{}", p.imports, c.o.import_style, code));
                }
                if c.o.import_style == ImportStyle::QualifiedPaths {
                    for e in &p.externs {
                        if !e.contains("::") && !ps.contains(&e.as_str()) {
                            return fail(c.show(), format!("{} is neither imported nor a path\n{}", e, code));
                        }
                    }
                }
            }
        }
        r.note(|| c.show(), nt);
        Ok(())
    })
}
