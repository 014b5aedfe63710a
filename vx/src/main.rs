//! vx: extract functions from /repo, desugar them to Verus' subset, merge the contracts, print one Verus file.
mod cfg;
mod print;
mod unit;
mod xform;

use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;
use unit::{FnSpec, Item as UItem, Unit};
use xform::*;

#[derive(Default)]
struct FileIx {
    free: HashMap<String, (Signature, Block, usize, usize)>,
    methods: HashMap<String, (Signature, Block, usize, usize, String)>, // "Type::name"
    types: HashMap<String, Item>,
    consts: HashMap<String, Expr>,
    /// constants with a literal value, by name or `Type::name`
    scalars: HashMap<String, Expr>,
}

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]" || s.contains("cfg(json_typegen_verif)")
    })
}

fn index(file: &File) -> FileIx {
    let mut ix = FileIx::default();
    fn walk(items: &[Item], ix: &mut FileIx) {
        for it in items {
            match it {
                Item::Fn(f) if !cfg_test(&f.attrs) => {
                    let sp = f.sig.ident.span().start().line;
                    let ep = f.block.brace_token.span.close().end().line;
                    ix.free.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone(), sp, ep));
                }
                Item::Impl(i) if !cfg_test(&i.attrs) => {
                    let ty = match &*i.self_ty {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => continue,
                    };
                    let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                    for m in &i.items {
                        if let ImplItem::Const(c) = m {
                            if let Some(v) = xform::scalar_const(&c.ty, &c.expr) {
                                ix.scalars.insert(format!("{}::{}", ty, c.ident), v);
                            }
                        }
                        if let ImplItem::Fn(f) = m {
                            if cfg_test(&f.attrs) {
                                continue;
                            }
                            let sp = f.sig.ident.span().start().line;
                            let ep = f.block.brace_token.span.close().end().line;
                            let v = (f.sig.clone(), f.block.clone(), sp, ep, tr.clone());
                            ix.methods.insert(format!("{}::{}", ty, f.sig.ident), v.clone());
                        }
                    }
                }
                Item::Enum(e) if !cfg_test(&e.attrs) => {
                    ix.types.insert(e.ident.to_string(), it.clone());
                }
                Item::Struct(e) if !cfg_test(&e.attrs) => {
                    ix.types.insert(e.ident.to_string(), it.clone());
                }
                Item::Type(e) => {
                    ix.types.insert(e.ident.to_string(), it.clone());
                }
                Item::Const(c) => {
                    ix.consts.insert(c.ident.to_string(), (*c.expr).clone());
                    if let Some(v) = xform::scalar_const(&c.ty, &c.expr) {
                        ix.scalars.insert(c.ident.to_string(), v);
                    }
                }
                Item::Static(c) => {
                    ix.consts.insert(c.ident.to_string(), (*c.expr).clone());
                }
                _ => {}
            }
        }
    }
    walk(&file.items, &mut ix);
    ix
}

fn const_elems(e: &Expr) -> Option<Vec<Expr>> {
    match e {
        Expr::Reference(r) => const_elems(&r.expr),
        Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
        _ => None,
    }
}

fn print_plain(ts: proc_macro2::TokenStream) -> String {
    let lf = |_: usize| String::new();
    let af = |_: &str| String::new();
    let mut p = print::Printer::new(&lf, &af);
    p.stream(ts, true);
    p.out
}

/// split a loop annotation into (invariant, invariant_except_break, ensures, decreases)
fn split_loop(t: &str) -> (String, String, String, String) {
    let (mut i, mut eb, mut e, mut d) = (String::new(), String::new(), String::new(), String::new());
    let mut cur = 0;
    for line in t.lines() {
        let l = line.trim();
        let (k, rest) = if let Some(r) = l.strip_prefix("invariant_except_break") {
            (1, r)
        } else if let Some(r) = l.strip_prefix("invariant") {
            (0, r)
        } else if let Some(r) = l.strip_prefix("ensures") {
            (2, r)
        } else if let Some(r) = l.strip_prefix("decreases") {
            (3, r)
        } else {
            (cur, line)
        };
        cur = k;
        let t = match k {
            0 => &mut i,
            1 => &mut eb,
            2 => &mut e,
            _ => &mut d,
        };
        t.push_str(rest);
        t.push('\n');
    }
    (i, eb, e, d)
}

struct Out {
    text: String,
    fns: Vec<Value>,
    errors: Vec<String>,
    mismatches: Vec<String>,
    trusted: Vec<String>,
    baseline: BTreeMap<String, Value>,
    inlined: Vec<String>,
}

impl Out {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
}

static CANARY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn canary(n: &str) -> String {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if !CANARY.load(std::sync::atomic::Ordering::Relaxed) {
        return String::new();
    }
    let k = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    format!("\nproof {{ if vx_nd({}) {{ assert(false); }} }} // canary {}\n", k, n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vx REPO CONTRACTS UNIT OUT.rs OUT.json [--record FILE | --baseline FILE]");
        std::process::exit(2);
    }
    let mut record = None;
    // vacuity mode: an unprovable assertion at the start of every function and loop body; each must be reported
    let canary = a.iter().any(|x| x == "--canary");
    CANARY.store(canary, std::sync::atomic::Ordering::Relaxed);
    let a: Vec<String> = a.iter().filter(|x| *x != "--canary").cloned().collect();
    let (repo, dir, uname, out_rs, out_js) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let mut baseline: BTreeMap<String, Value> = BTreeMap::new();
    let mut i = 6;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--record" => record = Some(a[i + 1].clone()),
            "--baseline" => {
                if let Ok(t) = std::fs::read_to_string(&a[i + 1]) {
                    baseline = serde_json::from_str(&t).unwrap_or_default();
                }
            }
            _ => {}
        }
        i += 2;
    }
    let mut u = Unit::default();
    if let Err(e) = unit::load(dir, uname, false, &mut u) {
        eprintln!("contract file error: {}", e);
        std::process::exit(2);
    }
    let mut files: HashMap<String, FileIx> = HashMap::new();
    let mut out = Out {
        text: String::new(),
        fns: vec![],
        errors: vec![],
        mismatches: vec![],
        trusted: vec![],
        baseline: BTreeMap::new(),
        inlined: vec![],
    };
    // load files
    for it in &u.items {
        let f = match it {
            UItem::Fn(f) => f.file.clone(),
            UItem::Type { file, .. } => file.clone(),
            UItem::Const { file, .. } => file.clone(),
            _ => continue,
        };
        if f.is_empty() || files.contains_key(&f) {
            continue;
        }
        match std::fs::read_to_string(format!("{}/{}", repo, f)) {
            Ok(t) => match syn::parse_file(&t) {
                Ok(mut p) => {
                    cfg::Cfg.visit_file_mut(&mut p);
                    files.insert(f.clone(), index(&p));
                }
                Err(e) => out.errors.push(format!("{}: parse error {}", f, e)),
            },
            Err(e) => out.errors.push(format!("{}: {}", f, e)),
        }
    }
    // consts
    let mut consts: HashMap<String, ConstVal> = HashMap::new();
    let mut const_items: Vec<(String, Vec<Expr>)> = vec![];
    for it in &u.items {
        if let UItem::Const { file, name, kind } = it {
            match files.get(file).and_then(|f| f.consts.get(name)).and_then(const_elems) {
                Some(el) => {
                    if kind == "unroll" {
                        consts.insert(name.clone(), ConstVal::Unroll(el));
                    } else {
                        consts.insert(name.clone(), if kind == "table" { ConstVal::Table } else { ConstVal::StrSet(el.clone()) });
                        const_items.push((name.clone(), el));
                    }
                }
                None => out.errors.push(format!("{}: const {} not found as a literal table", file, name)),
            }
        }
    }
    // known functions per file (with contract) - anything else called by name in the same file is a helper
    let mut known: HashMap<String, HashSet<String>> = HashMap::new();
    for it in &u.items {
        if let UItem::Fn(f) = it {
            known.entry(f.file.clone()).or_default().insert(f.path.clone());
        }
    }
    out.text.push_str("#![allow(unused, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, non_camel_case_types, unreachable_patterns, unreachable_code)]\n#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]\n#![cfg_attr(any(), feature(x))]\nuse vstd::prelude::*;\nuse std::collections::HashSet;\nverus! {\n");
    if canary {
        out.text.push_str("pub uninterp spec fn vx_nd(i: int) -> bool;\n");
    }
    let mut ai = 0;
    while ai < u.items.len() {
        let it = u.items[ai].clone();
        ai += 1;
        match it {
            UItem::Raw(t) => {
                out.text.push_str(&t);
            }
            UItem::Type { file, name, derives, extra } => emit_type(&file, &name, &derives, &extra, &files, &u, &mut out),
            UItem::Const { name, kind, .. } => {
                if kind != "unroll" {
                    if let Some((_, el)) = const_items.iter().find(|(n, _)| *n == name) {
                        let lits: Vec<String> = el.iter().map(|e| e.to_token_stream().to_string()).collect();
                        let spec = lits.iter().map(|l| format!("s == {}@", l)).collect::<Vec<_>>().join(" || ");
                        let exec = lits.iter().map(|l| format!("s == {}", l)).collect::<Vec<_>>().join(" || ");
                        let rev = lits.iter().map(|l| format!("reveal_strlit({}); ", l)).collect::<String>();
                        let min = el.iter().filter_map(xform::lit_str).map(|s| s.chars().count()).min().unwrap_or(0);
                        out.text.push_str(&format!(
                            "// what the table itself says: the shortest entry has {m} characters\npub proof fn lemma_{n}_words() ensures forall|s: Seq<char>| #[trigger] {n}_has(s) ==> s.len() >= {m} {{ {r} }}\n",
                            n = name, r = rev, m = min
                        ));
                        if kind == "table" {
                            // iterating over the table gives its entries in order
                            let at = lits.iter().enumerate().map(|(i, l)| format!("(*r@[{}])@ == {}@", i, l)).collect::<Vec<_>>().join(", ");
                            let push = lits.iter().map(|l| format!("v.push(&{}); ", l)).collect::<String>();
                            let check = lits.iter().enumerate().map(|(i, l)| format!("assert((*v@[{}])@ == {}@); ", i, l)).collect::<String>();
                            out.text.push_str(&format!(
                                "pub fn vx_table_{n}() -> (r: Vec<&'static &'static str>) ensures r@.len() == {c}, {a}, forall|s: Seq<char>| #[trigger] {n}_has(s) ==> exists|i: int| 0 <= i < r@.len() && (*#[trigger] r@[i])@ == s {{ let mut v = Vec::new(); {push}proof {{ {check}}} v }}\n",
                                n = name, c = lits.len(), a = if at.is_empty() { "true".into() } else { at }
                            ));
                        }
                        out.text.push_str(&format!(
                            "pub open spec fn {n}_has(s: Seq<char>) -> bool {{ {s} }}\npub fn vx_const_{n}_contains(s: &str) -> (r: bool) ensures r == {n}_has(s@) {{ {e} }}\n",
                            n = name, s = if spec.is_empty() { "false".into() } else { spec }, e = if exec.is_empty() { "false".into() } else { exec }
                        ));
                    }
                }
            }
            UItem::Fn(f) => emit_fn(&f, &files, &u, &consts, &known, &baseline, &mut out),
        }
    }
    out.text.push_str("\n} // verus!\nfn main() {}\n");
    // trusted scan
    for (n, l) in out.text.lines().enumerate() {
        for k in ["external_body", "assume_specification", "assume(", "admit(", "uninterp", "axiom"] {
            if l.contains(k) && !l.trim_start().starts_with("//") {
                // name of the next item
                let rest: Vec<&str> = out.text.lines().skip(n).take(6).collect();
                let joined = rest.join(" ");
                let nm = joined
                    .find("fn ")
                    .map(|p| joined[p + 3..].split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string());
                let nm = if k == "assume_specification" {
                    l.trim().chars().take(90).collect()
                } else {
                    nm.unwrap_or_else(|| l.trim().to_string())
                };
                out.trusted.push(format!("{} {}", k.trim_end_matches('('), nm));
            }
        }
    }
    let canaries: Vec<Value> = out.text.lines().enumerate().filter(|(_, l)| l.contains("if vx_nd(")).map(|(n, l)| json!([n + 1, l.split("// canary ").nth(1)])).collect();
    out.trusted.sort();
    out.trusted.dedup();
    std::fs::write(out_rs, &out.text).unwrap();
    let js = json!({
        "unit": uname, "errors": out.errors, "mismatches": out.mismatches, "functions": out.fns,
        "trusted": out.trusted, "inlined": out.inlined, "canaries": canaries,
    });
    std::fs::write(out_js, serde_json::to_string_pretty(&js).unwrap()).unwrap();
    if let Some(r) = record {
        let mut all: BTreeMap<String, Value> = std::fs::read_to_string(&r).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
        for (k, v) in &out.baseline {
            all.insert(k.clone(), v.clone());
        }
        std::fs::write(r, serde_json::to_string_pretty(&all).unwrap() + "\n").unwrap();
    }
    if !out.errors.is_empty() {
        for e in &out.errors {
            eprintln!("vx: {}", e);
        }
        std::process::exit(3);
    }
}

fn emit_type(file: &str, name: &str, derives: &[String], extra: &str, files: &HashMap<String, FileIx>, u: &Unit, out: &mut Out) {
    let Some(ix) = files.get(file) else { return };
    let Some(it) = ix.types.get(name) else {
        out.errors.push(format!("{}: type {} not found", file, name));
        return;
    };
    let mut it = it.clone();
    let attrs = match &it {
        Item::Enum(e) => e.attrs.clone(),
        Item::Struct(e) => e.attrs.clone(),
        _ => vec![],
    };
    let have: HashSet<String> = attrs
        .iter()
        .filter(|a| a.path().is_ident("derive"))
        .flat_map(|a| {
            a.to_token_stream().to_string().replace("# [derive (", "").split(|c: char| !c.is_alphanumeric()).map(|s| s.to_string()).collect::<Vec<_>>()
        })
        .collect();
    for d in derives {
        if !have.contains(d) {
            out.errors.push(format!("{}: type {} no longer derives {}", file, name, d));
        }
    }
    struct Strip;
    impl VisitMut for Strip {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
        fn visit_visibility_mut(&mut self, v: &mut Visibility) {
            *v = Visibility::Inherited;
        }
    }
    Strip.visit_item_mut(&mut it);
    struct Vis;
    impl VisitMut for Vis {
        fn visit_field_mut(&mut self, f: &mut Field) {
            f.vis = parse_quote!(pub);
        }
    }
    match &mut it {
        Item::Struct(s) => {
            Vis.visit_fields_mut(&mut s.fields);
            s.vis = parse_quote!(pub);
            if extra == "nogenerics" {
                s.generics = Default::default();
            }
        }
        Item::Enum(e) => e.vis = parse_quote!(pub),
        Item::Type(t) => t.vis = parse_quote!(pub),
        _ => {}
    }
    let c = HashMap::new();
    let mut x = X {
        loops: vec![],
        errors: vec![],
        consts: &c,
        substs: &u.substs,
        renames: &u.renames,
        bound: HashSet::new(),
        methods: &u.methods,
        used_consts: HashSet::new(),
        string_vars: HashSet::new(),
        eq_by_trait: false,
        any_sum: false,
        tmp: 0,
    };
    x.visit_item_mut(&mut it);
    let t = print_plain(it.to_token_stream());
    if extra != "" && extra != "nogenerics" {
        out.text.push_str(&format!("#[{}]\n", extra));
    }
    out.text.push_str(&t);
    out.text.push('\n');
}

fn calls(st: &Stmt, name: &str) -> bool {
    struct C<'a>(&'a str, bool);
    impl<'a, 'b> visit::Visit<'b> for C<'a> {
        fn visit_expr_call(&mut self, c: &'b ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().map(|s| s.ident == self.0).unwrap_or(false) {
                    self.1 = true;
                }
            }
            visit::visit_expr_call(self, c);
        }
    }
    let mut c = C(name, false);
    visit::Visit::visit_stmt(&mut c, st);
    c.1
}

fn emit_fn(
    f: &FnSpec,
    files: &HashMap<String, FileIx>,
    u: &Unit,
    consts: &HashMap<String, ConstVal>,
    known: &HashMap<String, HashSet<String>>,
    baseline: &BTreeMap<String, Value>,
    out: &mut Out,
) {
    let Some(ix) = files.get(&f.file) else { return };
    let key = format!("{}#{}", f.file, f.path);
    let (sig, body, l0, l1) = if f.path.contains("::") {
        match ix.methods.get(&f.path) {
            Some((s, b, l0, l1, _)) => (s.clone(), b.clone(), *l0, *l1),
            None => {
                out.errors.push(format!("{}: function {} not found", f.file, f.path));
                return;
            }
        }
    } else {
        match ix.free.get(&f.path) {
            Some((s, b, l0, l1)) => (s.clone(), b.clone(), *l0, *l1),
            None => {
                out.errors.push(format!("{}: function {} not found", f.file, f.path));
                return;
            }
        }
    };
    let mut sig = sig;
    let mut body: Block = body;
    let base = baseline.get(&key);
    // inline helpers without contract
    let kn = known.get(&f.file).cloned().unwrap_or_default();
    let ty = f.path.split("::").next().unwrap_or("").to_string();
    let base_calls: HashSet<String> = base
        .and_then(|b| b.get("helpers"))
        .and_then(|v| v.as_array())
        .map(|v| v.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect())
        .unwrap_or_default();
    let free: HashMap<String, (Signature, Block)> = ix
        .free
        .iter()
        .filter(|(n, _)| !kn.contains(*n) && !base_calls.contains(*n))
        .map(|(n, (s, b, _, _))| (n.clone(), (s.clone(), b.clone())))
        .collect();
    let methods: HashMap<String, (Signature, Block)> = ix
        .methods
        .iter()
        .filter(|(n, _)| f.path.contains("::") && n.starts_with(&format!("{}::", ty)) && !kn.contains(*n))
        .map(|(n, (s, b, _, _, _))| (n.split("::").nth(1).unwrap().to_string(), (s.clone(), b.clone())))
        .collect();
    let muts = sig.inputs.iter().filter_map(|a| match a {
        FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
            (Pat::Ident(i), Type::Reference(r)) if r.mutability.is_some() => Some(i.ident.to_string()),
            _ => None,
        },
        _ => None,
    }).collect();
    let mut inl = Inliner { free: &free, methods: &methods, inlined: vec![], errors: vec![], depth: 0, muts };
    if !f.assume {
        inl.tail_block(&mut body);
        let local = xform::local_consts(&mut body);
        let mut scalars = ix.scalars.clone();
        scalars.extend(local);
        let mut skip = xform::bound_names(&sig, &body);
        skip.retain(|n| !scalars.contains_key(n));
        xform::ConstSubst { consts: &scalars, ty: ty.clone(), skip }.visit_block_mut(&mut body);
        xform::Continues.visit_block_mut(&mut body);
    }
    for n in &inl.inlined {
        out.inlined.push(format!("{} into {}", n, f.path));
        let known_helper = base.map(|b| b["inlined"].as_array().map(|v| v.iter().any(|x| x.as_str() == Some(n))).unwrap_or(false)).unwrap_or(true);
        if !known_helper {
            out.mismatches.push(format!("{}: new helper {}", f.path, n));
        }
    }
    for e in &inl.errors {
        out.mismatches.push(format!("{}: {}", f.path, e));
    }
    // alpha renaming
    let binds = bindings(&sig, &body);
    if let Some(b) = base {
        let bb: Vec<String> = b["bindings"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        let map = align(&binds, &bb);
        if !map.is_empty() {
            let mut r = Renamer(&map);
            for i in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = i {
                    r.visit_pat_mut(&mut t.pat);
                }
            }
            r.visit_block_mut(&mut body);
        }
    }
    let mut x = X {
        loops: vec![],
        errors: vec![],
        consts,
        substs: &u.substs,
        renames: &u.renames,
        bound: bound_names(&sig, &body),
        methods: &u.methods,
        used_consts: HashSet::new(),
        string_vars: collect_string_vars(&body),
        eq_by_trait: f.attrs.iter().any(|a| a == "eq"),
        any_sum: f.attrs.iter().any(|a| a == "any-sum"),
        tmp: 0,
    };
    x.visit_signature_mut(&mut sig);
    if !f.assume {
        x.visit_block_mut(&mut body);
    }
    for e in &x.errors {
        out.errors.push(format!("{} ({}): {}", f.path, f.file, e));
    }
    let loops = x.loops.clone();
    for k in f.at.keys() {
        let w: Vec<&str> = k.split(' ').collect();
        if w.len() == 3 && w[0] == "loop" && (w[2] == "break" || w[2] == "return") {
            ExitMarker { n: w[1].parse().unwrap_or(usize::MAX), ret: w[2] == "return", key: k.clone(), depth: None }.visit_block_mut(&mut body);
        }
    }
    for (n, l) in loops.iter().enumerate() {
        let k = format!("loop {} after", n);
        if l.kind == "loop" && f.at.contains_key(&k) {
            AfterMarker { n, key: k }.visit_block_mut(&mut body);
        }
    }
    // structure check
    if let Some(b) = base {
        let bl: Vec<String> = b["loops"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        if bl.len() != loops.len() && !f.assume {
            out.mismatches.push(format!("{}: {} loops, annotations were written for {}", f.path, loops.len(), bl.len()));
        }
    }
    if !f.assume {
        for n in f.loops.keys() {
            if *n >= loops.len() {
                out.mismatches.push(format!("{}: annotation for loop {} has no loop", f.path, n));
            }
        }
        out.baseline.insert(
            key.clone(),
            if inl.inlined.is_empty() {
                json!({"bindings": binds, "loops": loops.iter().map(|l| l.kind.clone()).collect::<Vec<_>>()})
            } else {
                json!({"bindings": binds, "inlined": inl.inlined, "loops": loops.iter().map(|l| l.kind.clone()).collect::<Vec<_>>()})
            },
        );
    }
    // print
    let name = f.rename.clone().unwrap_or_else(|| sig.ident.to_string());
    let mut head = String::new();
    let is_method = f.path.contains("::");
    if is_method {
        head.push_str(&format!("{} {{\n", f.header.clone().unwrap_or_else(|| format!("impl {}", ty))));
    }
    for at in f.attrs.iter().filter(|a| *a != "terminates" && *a != "eq" && *a != "any-sum") {
        head.push_str(&format!("#[{}]\n", at));
    }
    if !f.assume && !f.contract.contains("decreases") && !f.attrs.iter().any(|a| a == "terminates") {
        head.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    if f.assume {
        head.push_str("#[verifier::external_body]\n");
    }
    let sigtext = if let Some(s) = &f.sig {
        s.clone()
    } else {
        let g = if let Some(g) = &f.generics {
            g.clone()
        } else {
            sig.generics.params.to_token_stream().to_string()
        };
        let g = if g.is_empty() { String::new() } else { format!("<{}>", g) };
        let wc = sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
        let ins = print_plain_inline(sig.inputs.to_token_stream());
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> ({}: {})", f.result, print_plain_inline(t.to_token_stream())),
        };
        format!("pub fn {}{}({}){} {}", name, g, ins, ret, wc)
    };
    head.push_str(&sigtext);
    head.push('\n');
    let start_line = out.line();
    out.text.push_str(&format!("// @fn {} from {}:{}-{}\n", f.path, f.file, l0, l1));
    out.text.push_str(&head);
    out.text.push_str(&f.contract);
    if f.assume {
        out.text.push_str("{ unimplemented!() }\n");
    } else {
        let lt = |n: usize| -> String {
            let l = loops.get(n).cloned().unwrap_or_default();
            let user = f.loops.get(&n).cloned().unwrap_or_default();
            let (ui, ueb, ue, ud) = split_loop(&user);
            let mut s = String::new();
            let inv = format!("{}{}", l.inv, ui);
            let eb = format!("{}{}", l.inv_eb, ueb);
            let en = format!("{}{}", l.ens, ue);
            let de = if ud.trim().is_empty() { l.dec.clone() } else { ud };
            if !eb.trim().is_empty() && l.kind != "while" {
                s += &format!("invariant_except_break\n{}\n", eb);
            }
            if !inv.trim().is_empty() {
                s += &format!("invariant\n{}\n", inv);
            }
            if !en.trim().is_empty() && l.kind != "while" {
                s += &format!("ensures\n{}\n", en);
            }
            if !de.trim().is_empty() {
                s += &format!("decreases {}\n", de);
            }
            s
        };
        let at = |k: &str| -> String {
            let mut s = String::new();
            if let Some(r) = k.strip_prefix("loop ") {
                let mut p = r.split(' ');
                let n: usize = p.next().unwrap().parse().unwrap();
                if p.next() == Some("before") {
                    if let Some(l) = loops.get(n) {
                        s.push_str(&l.before);
                    }
                }
            }
            if let Some(t) = f.at.get(k) {
                s.push_str(t);
            }
            if k.starts_with("loop ") && k.ends_with(" start") {
                s.push_str(&canary(&format!("{} {}", f.path, k)));
            }
            s
        };
        out.text.push_str("{\n");
        out.text.push_str(&f.prologue);
        for k in f.at.keys() {
            let w: Vec<&str> = k.split(' ').collect();
            if w.len() == 3 && w[0] == "call" {
                // before or after the first statement of the body that calls the function
                let Some(i) = body.stmts.iter().position(|st| calls(st, w[1])) else {
                    out.mismatches.push(format!("{}: nothing calls {}", f.path, w[1]));
                    continue;
                };
                body.stmts.insert(if w[2] == "before" { i } else { i + 1 }, parse_quote!(vx_at!{#k};));
            }
        }
        if f.at.contains_key("tail") {
            let n = body.stmts.len();
            body.stmts.insert(n.saturating_sub(1), parse_quote!(vx_at!{"tail"};));
        }
        if f.at.contains_key("end") {
            let st = body.stmts.clone();
            let has_tail = matches!(st.last(), Some(Stmt::Expr(_, None)));
            body.stmts = if has_tail {
                parse_quote!(let vx_ret = { #(#st)* }; vx_at!{"end"}; vx_ret)
            } else {
                parse_quote!(#(#st)* vx_at!{"end"};)
            };
        }
        if let Some(t) = f.at.get("start") {
            out.text.push_str(t);
            out.text.push('\n');
        }
        out.text.push_str(&canary(&f.path));
        let mut p = print::Printer::new(&lt, &at);
        p.stream(body.stmts.iter().map(|s| s.to_token_stream()).collect(), true);
        let b = p.out;
        out.text.push_str(&b);
        out.text.push_str("\n}\n");
    }
    if is_method {
        out.text.push_str("}\n");
    }
    let end_line = out.line();
    out.fns.push(json!({
        "name": f.path, "file": f.file, "src_lines": [l0, l1], "gen_lines": [start_line, end_line],
        "assumed": f.assume, "contract_file": f.src, "loops": loops.len(),
    }));
    out.text.push('\n');
}

fn print_plain_inline(ts: proc_macro2::TokenStream) -> String {
    let lf = |_: usize| String::new();
    let af = |_: &str| String::new();
    let mut p = print::Printer::new(&lf, &af);
    p.stream(ts, false);
    p.out.trim().to_string()
}

/// puts proof text before every way out of loop `n` (`break`, or `return` anywhere inside it)
struct ExitMarker {
    n: usize,
    ret: bool,
    key: String,
    /// how many loops we are inside of, counted from loop `n`; None: not inside it
    depth: Option<usize>,
}
fn is_loop_body(b: &Block, n: usize) -> bool {
    matches!(b.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("vx_loop") && m.mac.tokens.to_string().trim_matches('"') == n.to_string())
}
/// proof text after a plain `loop` (one that is left by `break` without a value)
struct AfterMarker {
    n: usize,
    key: String,
}
impl VisitMut for AfterMarker {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Loop(l) = e {
            if is_loop_body(&l.body, self.n) {
                let k = &self.key;
                *e = parse_quote!({ #l vx_at!{#k}; });
            }
        }
    }
}
impl ExitMarker {
    fn body(&mut self, b: &mut Block) {
        let mine = is_loop_body(b, self.n);
        let saved = self.depth;
        self.depth = if mine { Some(0) } else { self.depth.map(|d| d + 1) };
        syn::visit_mut::visit_block_mut(self, b);
        self.depth = saved;
    }
}
impl VisitMut for ExitMarker {
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        self.body(&mut l.body);
    }
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        self.body(&mut l.body);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let hit = match e {
            Expr::Break(_) => !self.ret && self.depth == Some(0),
            Expr::Return(_) => self.ret && self.depth.is_some(),
            _ => false,
        };
        if hit {
            let k = &self.key;
            let x = e.clone();
            *e = parse_quote!({ vx_at!{#k}; #x });
        }
    }
}
