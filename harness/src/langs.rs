//! Parsers for the generated code: each turns the output of one mode into types that can be checked.
use crate::types::*;

/// the generated code, read back
#[derive(Debug, Default)]
pub struct Code {
    pub env: Env,
    pub root: Option<Ty>,
    /// declared type names in textual order (duplicates kept)
    pub names: Vec<String>,
    /// imports, as written (without "use"/"import")
    pub imports: Vec<String>,
    /// names used in types that the language does not define itself and the file does not declare
    pub externs: Vec<String>,
    /// for each declared type, its position among the declarations
    pub order: Vec<(String, Vec<String>)>,
}
pub type P<T> = Result<T, String>;

// ---------------------------------------------------------------- Rust

fn rust_path(p: &syn::Path) -> String {
    let mut s = String::new();
    for (i, x) in p.segments.iter().enumerate() {
        if i > 0 {
            s.push_str("::");
        }
        s.push_str(&x.ident.to_string());
    }
    s
}
fn unraw(s: &str) -> String {
    s.strip_prefix("r#").unwrap_or(s).to_string()
}
fn rust_type(t: &syn::Type, c: &mut Code, locals: &[String]) -> P<Ty> {
    match t {
        syn::Type::Tuple(t) => {
            let mut v = vec![];
            for e in &t.elems {
                v.push(rust_type(e, c, locals)?);
            }
            Ok(Ty::Tup(v))
        }
        syn::Type::Paren(p) => {
            let _ = p;
            // `(T)` is not a one-element tuple
            rust_type(&p.elem, c, locals)
        }
        syn::Type::Path(p) => {
            let path = rust_path(&p.path);
            let args: Vec<syn::Type> = match &p.path.segments.last().unwrap().arguments {
                syn::PathArguments::AngleBracketed(a) => a
                    .args
                    .iter()
                    .filter_map(|x| match x {
                        syn::GenericArgument::Type(t) => Some(t.clone()),
                        _ => None,
                    })
                    .collect(),
                _ => vec![],
            };
            if !path.contains("::") && locals.contains(&path) {
                if !args.is_empty() {
                    return Err(format!("generated type {} used with type arguments", path));
                }
                return Ok(Ty::Ref(path));
            }
            let n = |k: usize| if args.len() == k { Ok(()) } else { Err(format!("{} with {} arguments", path, args.len())) };
            match path.as_str() {
                "bool" => Ok(Ty::Bool),
                "String" => Ok(Ty::Str),
                "i64" => Ok(Ty::I64),
                "f64" => Ok(Ty::Float),
                "Vec" => {
                    n(1)?;
                    Ok(Ty::Arr(Box::new(rust_type(&args[0], c, locals)?)))
                }
                "Option" => {
                    n(1)?;
                    Ok(Ty::Opt(Box::new(Ty::Nullable(Box::new(rust_type(&args[0], c, locals)?)))))
                }
                "serde_json::Value" | "Value" => {
                    c.externs.push(path);
                    Ok(Ty::Any)
                }
                "std::collections::HashMap" | "HashMap" => {
                    n(2)?;
                    c.externs.push(path);
                    Ok(Ty::Map(Box::new(rust_type(&args[1], c, locals)?)))
                }
                _ => {
                    c.externs.push(path.clone());
                    Ok(Ty::Ref(path))
                }
            }
        }
        _ => Err("unexpected type syntax".into()),
    }
}
fn serde_rename_all(rule: &str, f: &str) -> P<String> {
    let pascal = || {
        let mut o = String::new();
        let mut cap = true;
        for ch in f.chars() {
            if ch == '_' {
                cap = true;
            } else if cap {
                o.push(ch.to_ascii_uppercase());
                cap = false;
            } else {
                o.push(ch);
            }
        }
        o
    };
    Ok(match rule {
        "lowercase" | "snake_case" => f.to_string(),
        "UPPERCASE" | "SCREAMING_SNAKE_CASE" => f.to_ascii_uppercase(),
        "PascalCase" => pascal(),
        "camelCase" => {
            let p = pascal();
            let mut c = p.chars();
            match c.next() {
                Some(x) => format!("{}{}", x.to_ascii_lowercase(), c.as_str()),
                None => p,
            }
        }
        "kebab-case" => f.replace('_', "-"),
        "SCREAMING-KEBAB-CASE" => f.to_ascii_uppercase().replace('_', "-"),
        _ => return Err(format!("serde has no rename rule {}", rule)),
    })
}
pub fn rust(code: &str, root: &str) -> P<Code> {
    let f = syn::parse_file(code).map_err(|e| format!("generated Rust does not parse: {}", e))?;
    let mut c = Code::default();
    for it in &f.items {
        match it {
            syn::Item::Struct(s) => c.names.push(s.ident.to_string()),
            syn::Item::Type(s) => c.names.push(s.ident.to_string()),
            syn::Item::Use(u) => {
                fn tree(t: &syn::UseTree) -> P<String> {
                    match t {
                        syn::UseTree::Path(p) => Ok(format!("{}::{}", p.ident, tree(&p.tree)?)),
                        syn::UseTree::Name(n) => Ok(n.ident.to_string()),
                        _ => Err("unexpected use".into()),
                    }
                }
                let i = tree(&u.tree)?;
                c.imports.push(i);
            }
            _ => return Err("unexpected item in generated Rust".into()),
        }
    }
    let locals = c.names.clone();
    for it in &f.items {
        match it {
            syn::Item::Type(a) => {
                let t = rust_type(&a.ty, &mut c, &locals)?;
                c.env.insert(a.ident.to_string(), t);
            }
            syn::Item::Struct(s) => {
                let mut def = Def::default();
                let mut all = None;
                let mut dflt = false;
                let mut derives = vec![];
                for a in &s.attrs {
                    if a.path().is_ident("derive") {
                        a.parse_nested_meta(|m| {
                            derives.push(rust_path(&m.path));
                            Ok(())
                        })
                        .map_err(|e| e.to_string())?;
                    } else if a.path().is_ident("serde") {
                        a.parse_nested_meta(|m| {
                            let w = rust_path(&m.path);
                            match w.as_str() {
                                "deny_unknown_fields" => def.closed = true,
                                "default" => dflt = true,
                                "rename_all" => all = Some(m.value()?.parse::<syn::LitStr>()?.value()),
                                _ => return Err(m.error("unexpected serde attribute")),
                            }
                            Ok(())
                        })
                        .map_err(|e| e.to_string())?;
                    } else {
                        return Err("unexpected attribute".into());
                    }
                }
                c.externs.extend(derives.clone());
                for fd in &s.fields {
                    let id = fd.ident.as_ref().ok_or("unnamed field")?.to_string();
                    let mut key = match &all {
                        Some(r) => serde_rename_all(r, &unraw(&id))?,
                        None => unraw(&id),
                    };
                    let mut opt = dflt;
                    let mut flat = false;
                    for a in &fd.attrs {
                        if !a.path().is_ident("serde") {
                            return Err("unexpected field attribute".into());
                        }
                        a.parse_nested_meta(|m| {
                            let w = rust_path(&m.path);
                            match w.as_str() {
                                "rename" => key = m.value()?.parse::<syn::LitStr>()?.value(),
                                "default" => opt = true,
                                "flatten" => flat = true,
                                _ => return Err(m.error("unexpected serde attribute")),
                            }
                            Ok(())
                        })
                        .map_err(|e| format!("attribute of field {}: {}", id, e))?;
                    }
                    let ty = rust_type(&fd.ty, &mut c, &locals)?;
                    if flat {
                        match ty {
                            Ty::Map(v) => def.rest = Some(*v),
                            _ => return Err("flattened field is not a map".into()),
                        }
                        def.fields.push(Field { key: "\u{0}rest".into(), ident: id, ty: Ty::Any, optional: true });
                    } else {
                        def.fields.push(Field { key, ident: id, ty, optional: opt });
                    }
                }
                c.order.push((s.ident.to_string(), vec![]));
                c.env.insert(s.ident.to_string(), Ty::Obj(Box::new(def)));
            }
            _ => {}
        }
    }
    for (n, t) in &c.env {
        if let Some(w) = infinite(&c.env, n, t) {
            return Err(format!("type {} has infinite size (through {})", n, w));
        }
    }
    c.root = Some(Ty::Ref(root.into()));
    Ok(c)
}
/// does a value of the named type contain one of the same type without indirection?
fn infinite(env: &Env, n: &str, t: &Ty) -> Option<String> {
    fn go(env: &Env, n: &str, t: &Ty, fuel: usize) -> bool {
        if fuel == 0 {
            return false;
        }
        match t {
            Ty::Ref(m) => m == n || env.get(m).map(|t| go(env, n, t, fuel - 1)).unwrap_or(false),
            Ty::Opt(t) | Ty::Nullable(t) => go(env, n, t, fuel),
            Ty::Tup(ts) => ts.iter().any(|t| go(env, n, t, fuel - 1)),
            Ty::Obj(d) => d.fields.iter().any(|f| go(env, n, &f.ty, fuel - 1)),
            _ => false,
        }
    }
    if go(env, n, t, 12) {
        Some(n.to_string())
    } else {
        None
    }
}

// ---------------------------------------------------------------- a scanner for the other languages

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    S(String),
    C(char),
    Nl,
}
#[derive(Clone, Copy, PartialEq)]
pub enum L {
    Ts,
    Kotlin,
    Python,
}
/// tokens; string literals are decoded by the rules of the language
pub fn scan(s: &str, l: L, newlines: bool) -> P<Vec<T>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut o = vec![];
    while i < c.len() {
        let x = c[i];
        if x == '\n' {
            if newlines {
                o.push(T::Nl);
            }
            i += 1;
        } else if x == ' ' {
            i += 1;
        } else if x.is_ascii_alphanumeric() || x == '_' || (x == '$' && l == L::Ts) {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || (c[i] == '$' && l == L::Ts)) {
                i += 1;
            }
            o.push(T::Id(c[st..i].iter().collect()));
        } else if x == '"' {
            i += 1;
            let mut t = String::new();
            let mut high: Option<u32> = None;
            loop {
                if i >= c.len() {
                    return Err("unterminated string literal".into());
                }
                let y = c[i];
                i += 1;
                if high.is_some() && y != '\\' {
                    return Err("lone surrogate in string literal".into());
                }
                match y {
                    '"' => break,
                    '\n' | '\r' => return Err("line break in string literal".into()),
                    '$' if l == L::Kotlin && i < c.len() && (c[i] == '{' || c[i] == '_' || c[i].is_alphabetic() || c[i] == '`') => {
                        return Err("string template in Kotlin literal".into())
                    }
                    '\\' => {
                        let e = *c.get(i).ok_or("unterminated escape")?;
                        i += 1;
                        if high.is_some() && e != 'u' {
                            return Err("lone surrogate in string literal".into());
                        }
                        match e {
                            '"' | '\\' | '\'' => t.push(e),
                            '$' if l == L::Kotlin => t.push('$'),
                            '/' if l == L::Ts => t.push('/'),
                            'n' => t.push('\n'),
                            'r' => t.push('\r'),
                            't' => t.push('\t'),
                            'b' => t.push('\u{8}'),
                            'f' if l != L::Kotlin => t.push('\u{c}'),
                            'v' if l != L::Kotlin => t.push('\u{b}'),
                            '0' if l == L::Ts && !c.get(i).map_or(false, |d| d.is_ascii_digit()) => t.push('\0'),
                            'u' if l == L::Ts && c.get(i) == Some(&'{') => {
                                let end = c[i..].iter().position(|x| *x == '}').ok_or("bad escape")? + i;
                                let h: String = c[i + 1..end].iter().collect();
                                t.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                                i = end + 1;
                            }
                            'u' | 'x' | 'U' if !(l == L::Kotlin && e != 'u') && !(l == L::Ts && e == 'U') => {
                                let n = match e {
                                    'u' => 4,
                                    'x' => 2,
                                    _ => 8,
                                };
                                if i + n > c.len() {
                                    return Err("bad escape".into());
                                }
                                let h: String = c[i..i + n].iter().collect();
                                if !h.chars().all(|x| x.is_ascii_hexdigit()) {
                                    return Err("bad escape".into());
                                }
                                let v = u32::from_str_radix(&h, 16).map_err(|_| "bad escape")?;
                                i += n;
                                match high.take() {
                                    Some(hi) => {
                                        if !(0xDC00..0xE000).contains(&v) {
                                            return Err("lone surrogate in string literal".into());
                                        }
                                        t.push(char::from_u32(0x10000 + ((hi - 0xD800) << 10) + (v - 0xDC00)).unwrap());
                                    }
                                    None => {
                                        if (0xD800..0xDC00).contains(&v) && l != L::Python {
                                            high = Some(v);
                                        } else {
                                            t.push(char::from_u32(v).ok_or("lone surrogate in string literal")?);
                                        }
                                    }
                                }
                            }
                            _ => return Err(format!("unknown escape \\{}", e)),
                        }
                    }
                    y => t.push(y),
                }
            }
            if high.is_some() {
                return Err("lone surrogate in string literal".into());
            }
            o.push(T::S(t));
        } else if x == '\t' || x == '\r' {
            i += 1;
        } else if !x.is_ascii() || x.is_ascii_control() {
            return Err(format!("unexpected character {:?} in generated code", x));
        } else {
            o.push(T::C(x));
            i += 1;
        }
    }
    Ok(o)
}
pub struct S {
    pub t: Vec<T>,
    pub i: usize,
}
impl S {
    pub fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    pub fn at(&self, c: char) -> bool {
        self.peek() == Some(&T::C(c))
    }
    pub fn word(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == w)
    }
    pub fn eat(&mut self, c: char) -> bool {
        let r = self.at(c);
        if r {
            self.i += 1;
        }
        r
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        let r = self.word(w);
        if r {
            self.i += 1;
        }
        r
    }
    pub fn need(&mut self, c: char) -> P<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, found {:?} (token {})", c, self.peek(), self.i))
        }
    }
    pub fn needw(&mut self, w: &str) -> P<()> {
        if self.eatw(w) {
            Ok(())
        } else {
            Err(format!("expected {:?}, found {:?} (token {})", w, self.peek(), self.i))
        }
    }
    pub fn id(&mut self) -> P<String> {
        match self.peek().cloned() {
            Some(T::Id(x)) => {
                self.i += 1;
                if x.chars().next().unwrap().is_ascii_digit() {
                    return Err(format!("name starts with a digit: {}", x));
                }
                Ok(x)
            }
            t => Err(format!("expected a name, found {:?} (token {})", t, self.i)),
        }
    }
    pub fn str(&mut self) -> P<String> {
        match self.peek().cloned() {
            Some(T::S(x)) => {
                self.i += 1;
                Ok(x)
            }
            t => Err(format!("expected a string, found {:?} (token {})", t, self.i)),
        }
    }
    pub fn done(&self) -> bool {
        self.i >= self.t.len()
    }
    pub fn nls(&mut self) {
        while self.peek() == Some(&T::Nl) {
            self.i += 1;
        }
    }
}

// ---------------------------------------------------------------- TypeScript

pub const TS_RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false",
    "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try",
    "typeof", "var", "void", "while", "with", "any", "unknown", "never", "number", "string", "boolean", "object", "symbol", "bigint", "undefined",
];
fn ts_type(s: &mut S, c: &mut Code) -> P<Ty> {
    let mut alts = vec![ts_postfix(s, c)?];
    while s.eat('|') {
        alts.push(ts_postfix(s, c)?);
    }
    Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Ty::Union(alts) })
}
fn ts_postfix(s: &mut S, c: &mut Code) -> P<Ty> {
    let mut t = ts_primary(s, c)?;
    while s.at('[') && s.t.get(s.i + 1) == Some(&T::C(']')) {
        s.i += 2;
        t = Ty::Arr(Box::new(t));
    }
    Ok(t)
}
fn ts_primary(s: &mut S, c: &mut Code) -> P<Ty> {
    if s.eat('(') {
        let t = ts_type(s, c)?;
        s.need(')')?;
        return Ok(t);
    }
    if s.eat('[') {
        let mut v = vec![];
        while !s.eat(']') {
            v.push(ts_type(s, c)?);
            if !s.eat(',') {
                s.need(']')?;
                break;
            }
        }
        return Ok(Ty::Tup(v));
    }
    if s.at('{') {
        return ts_object(s, c);
    }
    let n = s.id()?;
    Ok(match n.as_str() {
        "any" => Ty::Any,
        "boolean" => Ty::Bool,
        "string" => Ty::Str,
        "number" => Ty::Float,
        "null" => Ty::Null,
        "undefined" => Ty::Undef,
        "Array" if s.at('<') => {
            s.need('<')?;
            let t = ts_type(s, c)?;
            s.need('>')?;
            Ty::Arr(Box::new(t))
        }
        "Record" if s.at('<') => {
            s.need('<')?;
            s.needw("string")?;
            s.need(',')?;
            let t = ts_type(s, c)?;
            s.need('>')?;
            Ty::Map(Box::new(t))
        }
        _ => Ty::Ref(n),
    })
}
fn ts_object(s: &mut S, c: &mut Code) -> P<Ty> {
    s.need('{')?;
    let mut d = Def { closed: true, ..Default::default() };
    while !s.eat('}') {
        if s.eat('[') {
            s.id()?;
            s.need(':')?;
            s.needw("string")?;
            s.need(']')?;
            s.need(':')?;
            let t = ts_type(s, c)?;
            s.need('}')?;
            return Ok(Ty::Map(Box::new(t)));
        }
        let key = match s.peek() {
            Some(T::S(_)) => s.str()?,
            _ => s.id()?,
        };
        let optional = s.eat('?');
        s.need(':')?;
        let ty = ts_type(s, c)?;
        if !s.eat(';') && !s.at('}') {
            return Err(format!("expected ';' after property {}", key));
        }
        if d.fields.iter().any(|f| f.key == key) {
            return Err(format!("duplicate property {}", key));
        }
        d.fields.push(Field { key: key.clone(), ident: key, ty, optional });
    }
    Ok(Ty::Obj(Box::new(d)))
}
pub fn typescript(code: &str, root: &str) -> P<Code> {
    let mut s = S { t: scan(code, L::Ts, false)?, i: 0 };
    let mut c = Code::default();
    while !s.done() {
        s.needw("export")?;
        if s.eatw("interface") {
            let n = s.id()?;
            let t = ts_object(&mut s, &mut c)?;
            c.names.push(n.clone());
            c.env.insert(n, t);
        } else {
            s.needw("type")?;
            let n = s.id()?;
            s.need('=')?;
            let t = ts_type(&mut s, &mut c)?;
            s.need(';')?;
            c.names.push(n.clone());
            c.env.insert(n, t);
        }
    }
    for n in &c.names {
        if TS_RESERVED.contains(&n.as_str()) {
            return Err(format!("reserved word {} used as a type name", n));
        }
    }
    c.root = Some(Ty::Ref(root.into()));
    Ok(c)
}

// ---------------------------------------------------------------- Zod

fn zod_expr(s: &mut S) -> P<Ty> {
    s.needw("z")?;
    s.need('.')?;
    let f = s.id()?;
    s.need('(')?;
    let mut t = match f.as_str() {
        "unknown" | "any" => Ty::Opt(Box::new(Ty::Any)),
        "boolean" => Ty::Bool,
        "string" => Ty::Str,
        "number" => Ty::Float,
        "null" => Ty::Null,
        "record" => {
            if !matches!(zod_expr(s)?, Ty::Str) {
                return Err("record key is not z.string()".into());
            }
            s.need(',')?;
            Ty::Map(Box::new(zod_expr(s)?))
        }
        "tuple" => {
            s.need('[')?;
            let mut v = vec![];
            while !s.eat(']') {
                v.push(zod_expr(s)?);
                if !s.eat(',') {
                    s.need(']')?;
                    break;
                }
            }
            Ty::Tup(v)
        }
        "array" => Ty::Arr(Box::new(zod_expr(s)?)),
        "object" => {
            s.need('{')?;
            let mut d = Def { closed: true, ..Default::default() };
            while !s.eat('}') {
                let key = match s.peek() {
                    Some(T::S(_)) => s.str()?,
                    _ => s.id()?,
                };
                s.need(':')?;
                let ty = zod_expr(s)?;
                if !s.eat(',') && !s.at('}') {
                    return Err(format!("expected ',' after property {}", key));
                }
                if d.fields.iter().any(|f| f.key == key) {
                    return Err(format!("duplicate property {}", key));
                }
                d.fields.push(Field { key: key.clone(), ident: key, ty, optional: false });
            }
            Ty::Obj(Box::new(d))
        }
        _ => return Err(format!("unknown zod schema z.{}", f)),
    };
    s.need(')')?;
    while s.eat('.') {
        let m = s.id()?;
        s.need('(')?;
        s.need(')')?;
        t = match m.as_str() {
            "optional" => Ty::Opt(Box::new(t)),
            "nullable" => Ty::Nullable(Box::new(t)),
            "nullish" => Ty::Opt(Box::new(Ty::Nullable(Box::new(t)))),
            "array" => Ty::Arr(Box::new(t)),
            _ => return Err(format!("unknown zod method {}", m)),
        };
    }
    Ok(t)
}
pub fn zod(code: &str) -> P<Code> {
    let mut s = S { t: scan(code, L::Ts, false)?, i: 0 };
    s.needw("export")?;
    s.needw("const")?;
    let n = s.id()?;
    s.need('=')?;
    let t = zod_expr(&mut s)?;
    s.need(';')?;
    if !s.done() {
        return Err("text after the schema".into());
    }
    let mut c = Code::default();
    c.names.push(n);
    c.root = Some(t);
    Ok(c)
}

// ---------------------------------------------------------------- Kotlin

pub const KOTLIN_HARD: &[&str] = &[
    "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null", "object", "package", "return",
    "super", "this", "throw", "true", "try", "typealias", "typeof", "val", "var", "when", "while",
];
fn dotted(s: &mut S) -> P<String> {
    let mut n = s.id()?;
    while s.at('.') {
        s.i += 1;
        n.push('.');
        n.push_str(&s.id()?);
    }
    Ok(n)
}
fn kt_type(s: &mut S, c: &mut Code) -> P<Ty> {
    let n = dotted(s)?;
    let mut args = vec![];
    if s.eat('<') {
        loop {
            args.push(kt_type(s, c)?);
            if !s.eat(',') {
                break;
            }
        }
        s.need('>')?;
    }
    let declared = c.names.contains(&n);
    let mut t = match (n.as_str(), args.len()) {
        _ if declared => Ty::Ref(n),
        ("Any", 0) => Ty::Any,
        ("Boolean", 0) => Ty::Bool,
        ("String", 0) => Ty::Str,
        ("Long", 0) => Ty::I64,
        ("Double", 0) => Ty::Float,
        ("List", 1) => Ty::Arr(Box::new(args.pop().unwrap())),
        ("Map", 2) => Ty::Map(Box::new(args.pop().unwrap())),
        ("Pair", 2) | ("Triple", 3) => Ty::Tup(args),
        ("Pair", _) | ("Triple", _) | ("List", _) | ("Map", _) => return Err(format!("{} with {} arguments", n, args.len())),
        _ => Ty::Ref(n),
    };
    let mut q = false;
    while s.eat('?') {
        q = true;
    }
    if q {
        t = Ty::Opt(Box::new(Ty::Nullable(Box::new(t))));
    }
    Ok(t)
}
/// (name, string argument, class argument) of an annotation
fn kt_annotation(s: &mut S, c: &mut Code) -> P<(String, Option<String>, Option<String>)> {
    s.need('@')?;
    if s.word("get") && s.t.get(s.i + 1) == Some(&T::C(':')) {
        s.i += 2;
    }
    let n = dotted(s)?;
    c.externs.push(n.clone());
    let (mut a, mut k) = (None, None);
    if s.eat('(') {
        if let Some(T::S(_)) = s.peek() {
            a = Some(s.str()?);
        } else {
            k = Some(dotted(s)?);
            s.need(':')?;
            s.need(':')?;
            s.needw("class")?;
        }
        s.need(')')?;
    }
    Ok((n, a, k))
}
fn is_simple(n: &str, simple: &str) -> bool {
    n == simple || n.ends_with(&format!(".{}", simple))
}
pub fn kotlin(code: &str, root: &str, jackson: bool) -> P<Code> {
    let toks = scan(code, L::Kotlin, false)?;
    let mut c = Code::default();
    for w in toks.windows(3) {
        if let (T::Id(a), T::Id(b), T::Id(n)) = (&w[0], &w[1], &w[2]) {
            if a == "data" && b == "class" {
                c.names.push(n.clone());
            }
        }
        if let (T::Id(a), T::Id(n), T::C('=')) = (&w[0], &w[1], &w[2]) {
            if a == "typealias" {
                c.names.push(n.clone());
            }
        }
    }
    let mut s = S { t: toks, i: 0 };
    while s.eatw("import") {
        let i = dotted(&mut s)?;
        c.imports.push(i);
    }
    while !s.done() {
        if s.eatw("typealias") {
            let n = s.id()?;
            s.need('=')?;
            let t = kt_type(&mut s, &mut c)?;
            s.need(';')?;
            c.env.insert(n, t);
            continue;
        }
        let mut strategy = None;
        let mut serializable = false;
        while s.at('@') {
            let (n, a, k) = kt_annotation(&mut s, &mut c)?;
            if is_simple(&n, "JsonNaming") && a.is_none() {
                let k = k.ok_or("JsonNaming without a class")?;
                let (o, st) = k.rsplit_once('.').ok_or("JsonNaming")?;
                if !is_simple(o, "PropertyNamingStrategies") {
                    return Err(format!("unknown naming strategy {}", k));
                }
                c.externs.push(o.to_string());
                strategy = Some(st.to_string());
            } else if is_simple(&n, "Serializable") {
                serializable = true;
            } else {
                return Err(format!("unexpected annotation {}", n));
            }
        }
        if !jackson && !serializable {
            return Err("class without @Serializable".into());
        }
        s.needw("data")?;
        s.needw("class")?;
        let n = s.id()?;
        s.need('(')?;
        let mut d = Def { closed: true, ..Default::default() };
        while !s.eat(')') {
            let mut key = None;
            let mut any = false;
            while s.at('@') {
                let (n, a, _) = kt_annotation(&mut s, &mut c)?;
                if is_simple(&n, if jackson { "JsonProperty" } else { "SerialName" }) {
                    key = Some(a.ok_or("annotation without a key")?);
                } else if is_simple(&n, "JsonAnySetter") || is_simple(&n, "JsonAnyGetter") {
                    any = true;
                } else {
                    return Err(format!("unexpected annotation {}", n));
                }
            }
            s.needw("val")?;
            let id = s.id()?;
            if KOTLIN_HARD.contains(&id.as_str()) {
                return Err(format!("keyword {} used as a property name", id));
            }
            s.need(':')?;
            let ty = kt_type(&mut s, &mut c)?;
            if s.eat('=') {
                s.needw("mutableMapOf")?;
                s.need('(')?;
                s.need(')')?;
            }
            if any {
                d.rest = Some(Ty::Any);
                d.fields.push(Field { key: "\u{0}rest".into(), ident: id, ty: Ty::Any, optional: true });
            } else {
                let key = match (key, &strategy) {
                    (Some(k), _) => k,
                    (None, None) => id.clone(),
                    (None, Some(st)) => jackson_name(st, &id)?,
                };
                if d.fields.iter().any(|f| f.ident == id) {
                    return Err(format!("duplicate property {}", id));
                }
                d.fields.push(Field { key, ident: id, ty, optional: false });
            }
            if !s.eat(',') {
                s.need(')')?;
                break;
            }
        }
        if KOTLIN_HARD.contains(&n.as_str()) {
            return Err(format!("keyword {} used as a class name", n));
        }
        c.env.insert(n, Ty::Obj(Box::new(d)));
    }
    c.root = Some(Ty::Ref(root.into()));
    Ok(c)
}
/// com.fasterxml.jackson.databind.PropertyNamingStrategies
pub fn jackson_name(st: &str, n: &str) -> P<String> {
    let snake = |sep: char| {
        // SnakeCaseStrategy.translate
        let mut o = String::new();
        let mut prev = false;
        for (i, ch) in n.chars().enumerate() {
            let mut ch = ch;
            if i > 0 || ch != '_' {
                if ch.is_uppercase() {
                    if !prev && !o.is_empty() && !o.ends_with('_') {
                        o.push('_');
                    }
                    ch = ch.to_ascii_lowercase();
                    prev = true;
                } else {
                    prev = false;
                }
                o.push(ch);
            }
        }
        o.replace('_', &sep.to_string())
    };
    Ok(match st {
        "LowerCaseStrategy" => n.to_lowercase(),
        "UpperCamelCaseStrategy" => {
            let mut c = n.chars();
            match c.next() {
                Some(x) => format!("{}{}", x.to_uppercase(), c.as_str()),
                None => String::new(),
            }
        }
        "SnakeCaseStrategy" => snake('_'),
        "KebabCaseStrategy" => snake('-'),
        _ => return Err(format!("unknown naming strategy {}", st)),
    })
}

// ---------------------------------------------------------------- Python

/// what pydantic's BaseModel has; a field may not have one of these names
pub const PYDANTIC: &[&str] = &["construct", "copy", "dict", "from_orm", "json", "parse_file", "parse_obj", "parse_raw", "schema", "schema_json", "update_forward_refs", "validate"];
pub const PY_KEYWORDS: &[&str] = &[
    "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally",
    "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield",
];
fn py_type(s: &mut S, c: &mut Code, defined: &[String]) -> P<Ty> {
    let n = dotted(s)?;
    let mut args = vec![];
    if s.eat('[') {
        loop {
            args.push(py_type(s, c, defined)?);
            if !s.eat(',') {
                break;
            }
        }
        s.need(']')?;
    }
    if c.names.contains(&n) {
        if !defined.contains(&n) {
            return Err(format!("class {} is used before it is defined", n));
        }
        return Ok(Ty::Ref(n));
    }
    Ok(match (n.as_str(), args.len()) {
        ("Any", 0) | ("typing.Any", 0) => {
            c.externs.push(n);
            Ty::Opt(Box::new(Ty::Any))
        }
        ("bool", 0) => Ty::Bool,
        ("str", 0) => Ty::Str,
        ("int", 0) => Ty::Int,
        ("float", 0) => Ty::Float,
        ("list", 1) => Ty::Arr(Box::new(args.pop().unwrap())),
        ("dict", 2) => Ty::Map(Box::new(args.pop().unwrap())),
        ("tuple", _) => Ty::Tup(args),
        ("Optional", 1) | ("typing.Optional", 1) => {
            c.externs.push(n);
            Ty::Opt(Box::new(Ty::Nullable(Box::new(args.pop().unwrap()))))
        }
        ("list", _) | ("dict", _) => return Err(format!("{} with {} arguments", n, args.len())),
        _ => {
            c.externs.push(n.clone());
            Ty::Ref(n)
        }
    })
}
pub fn python(code: &str, root: &str) -> P<Code> {
    let toks = scan(code, L::Python, true)?;
    let mut c = Code::default();
    let mut s = S { t: toks.clone(), i: 0 };
    for (i, w) in toks.windows(2).enumerate() {
        let bol = i == 0 || toks[i - 1] == T::Nl;
        match (&w[0], &w[1]) {
            (T::Id(a), T::Id(n)) if bol && a == "class" => c.names.push(n.clone()),
            (T::Id(n), T::C('=')) if bol => c.names.push(n.clone()),
            _ => {}
        }
    }
    let mut defined: Vec<String> = vec![];
    s.nls();
    while !s.done() {
        if s.eatw("from") {
            let m = dotted(&mut s)?;
            s.needw("import")?;
            let n = s.id()?;
            c.imports.push(format!("{}.{}", m, n));
        } else if s.eatw("import") {
            let m = dotted(&mut s)?;
            c.imports.push(m);
        } else if s.eatw("class") {
            let n = s.id()?;
            s.need('(')?;
            let b = dotted(&mut s)?;
            if !is_simple(&b, "BaseModel") {
                return Err(format!("base class {}", b));
            }
            c.externs.push(b);
            s.need(')')?;
            s.need(':')?;
            s.nls();
            let mut d = Def { closed: true, ..Default::default() };
            // names the class body has given a value, and names its annotations use
            let mut given: Vec<String> = vec![];
            if s.eatw("pass") {
            } else {
                loop {
                    let id = s.id()?;
                    if PY_KEYWORDS.contains(&id.as_str()) {
                        return Err(format!("keyword {} used as a field name", id));
                    }
                    if PYDANTIC.contains(&id.as_str()) {
                        return Err(format!("{} is an attribute of BaseModel", id));
                    }
                    s.need(':')?;
                    let from = s.i;
                    let ty = py_type(&mut s, &mut c, &defined)?;
                    let words: Vec<String> = s.t[from..s.i].iter().filter_map(|t| if let T::Id(x) = t { Some(x.clone()) } else { None }).collect();
                    let mut key = id.clone();
                    if s.eat('=') {
                        let f = dotted(&mut s)?;
                        if !is_simple(&f, "Field") {
                            return Err(format!("unexpected {}", f));
                        }
                        if given.iter().any(|g| Some(g.as_str()) == f.split('.').next()) {
                            return Err(format!("{} is hidden by a field", f));
                        }
                        c.externs.push(f);
                        s.need('(')?;
                        s.needw("alias")?;
                        s.need('=')?;
                        key = s.str()?;
                        s.need(')')?;
                        // the value is there before the annotation is looked at
                        given.push(id.clone());
                    }
                    if let Some(w) = words.iter().find(|w| given.contains(w)) {
                        return Err(format!("{} is hidden by a field of that name", w));
                    }
                    if d.fields.iter().any(|f| f.ident == id) {
                        return Err(format!("duplicate field {}", id));
                    }
                    d.fields.push(Field { key, ident: id, ty, optional: false });
                    if s.peek() != Some(&T::Nl) && !s.done() {
                        return Err(format!("unexpected {:?} after a field", s.peek()));
                    }
                    // a blank line ends the class
                    s.i += 1;
                    if s.done() || s.peek() == Some(&T::Nl) {
                        break;
                    }
                }
            }
            if PY_KEYWORDS.contains(&n.as_str()) {
                return Err(format!("keyword {} used as a class name", n));
            }
            c.env.insert(n.clone(), Ty::Obj(Box::new(d)));
            defined.push(n);
        } else {
            let n = s.id()?;
            if PY_KEYWORDS.contains(&n.as_str()) {
                return Err(format!("keyword {} assigned to", n));
            }
            s.need('=')?;
            let t = py_type(&mut s, &mut c, &defined)?;
            c.env.insert(n.clone(), t);
            defined.push(n);
        }
        if s.peek() != Some(&T::Nl) && !s.done() {
            return Err(format!("unexpected {:?} after a statement", s.peek()));
        }
        s.nls();
    }
    c.root = Some(Ty::Ref(root.into()));
    Ok(c)
}

// ---------------------------------------------------------------- JSON Schema

pub fn schema(v: &serde_json::Value) -> P<Ty> {
    let m = v.as_object().ok_or("schema is not an object")?;
    for k in m.keys() {
        if !["$schema", "title", "type", "properties", "required", "items", "additionalItems", "additionalProperties", "anyOf", "const", "enum"].contains(&k.as_str()) {
            return Err(format!("unknown schema keyword {}", k));
        }
    }
    if let Some(a) = m.get("anyOf") {
        let mut v = vec![];
        for x in a.as_array().ok_or("anyOf")? {
            v.push(schema(x)?);
        }
        return Ok(Ty::Union(v));
    }
    let types: Vec<String> = match m.get("type") {
        None => return if m.keys().all(|k| k == "$schema" || k == "title") { Ok(Ty::Any) } else { Err("schema without type".into()) },
        Some(serde_json::Value::String(s)) => vec![s.clone()],
        Some(serde_json::Value::Array(a)) => a.iter().map(|x| x.as_str().map(|s| s.to_string()).ok_or("type")).collect::<Result<_, _>>()?,
        _ => return Err("type".into()),
    };
    let mut alts = vec![];
    for t in types {
        alts.push(match t.as_str() {
            "null" => Ty::Null,
            "boolean" => Ty::Bool,
            "string" => Ty::Str,
            "number" => Ty::Float,
            "integer" => Ty::Int,
            "array" => match m.get("items") {
                None => Ty::Arr(Box::new(Ty::Any)),
                Some(serde_json::Value::Array(a)) => {
                    // draft-07: positional; additionalItems false forbids more, fewer are allowed
                    Ty::Tup(a.iter().map(schema).collect::<P<Vec<_>>>()?)
                }
                Some(x) => Ty::Arr(Box::new(schema(x)?)),
            },
            "object" => {
                if let Some(p) = m.get("properties") {
                    let req: Vec<String> = m
                        .get("required")
                        .and_then(|r| r.as_array())
                        .map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect())
                        .unwrap_or_default();
                    let mut d = Def::default();
                    for (k, x) in p.as_object().ok_or("properties")? {
                        d.fields.push(Field { key: k.clone(), ident: k.clone(), ty: schema(x)?, optional: !req.contains(k) });
                    }
                    for r in &req {
                        if !d.fields.iter().any(|f| &f.key == r) {
                            return Err(format!("required key {:?} is not among the properties", r));
                        }
                    }
                    Ty::Obj(Box::new(d))
                } else if let Some(a) = m.get("additionalProperties") {
                    Ty::Map(Box::new(schema(a)?))
                } else {
                    Ty::Map(Box::new(Ty::Any))
                }
            }
            _ => return Err(format!("unknown type {}", t)),
        });
    }
    Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Ty::Union(alts) })
}
