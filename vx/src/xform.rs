//! Purely syntactic rewrites from the Rust the repository is written in to the subset Verus accepts.
//! Every rewrite is a semantics-preserving desugaring (what `for`, `format!`, iterator adapters, `matches!`
//! mean) or a rename of a std/third-party method to a stand-in with a contract.  See DESIGN.md, "Extraction".
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug, Default)]
pub struct LoopInfo {
    pub kind: String,
    pub inv: String,
    pub ens: String,
    pub inv_eb: String,
    pub dec: String,
    pub before: String,
}

#[derive(Clone)]
pub enum ConstVal {
    Table,
    StrSet(Vec<Expr>),
    Unroll(Vec<Expr>),
}

pub struct X<'a> {
    pub loops: Vec<LoopInfo>,
    pub errors: Vec<String>,
    pub consts: &'a HashMap<String, ConstVal>,
    pub substs: &'a [(String, String)],
    pub renames: &'a [(String, String)],
    /// names bound by patterns in the body: a one-segment rename-path leaves them alone, except where they are called
    pub bound: HashSet<String>,
    pub methods: &'a [(String, String)],
    pub used_consts: HashSet<String>,
    pub string_vars: HashSet<String>,
    /// `attr eq`: `==` and `!=` go through the contract of VxEq
    pub eq_by_trait: bool,
    /// `+` gives some number (its range is the subject of another unit)
    pub any_sum: bool,
    pub tmp: usize,
}

const ITER_SOURCES: &[&str] = &[
    "iter", "into_iter", "chars", "bytes", "split", "rsplit", "splitn", "split_once", "char_indices", "keys", "values", "drain", "lines",
    "split_whitespace", "take", "rev", "vx_take", "vx_rev", "vx_iter", "vx_into_iter", "vx_chars", "vx_bytes", "vx_split",
];
const ADAPTERS: &[&str] = &[
    "map", "filter", "filter_map", "skip_while", "enumerate", "skip", "zip", "cloned", "copied", "take_while",
];
const TERMINALS: &[&str] = &["collect", "fold", "all", "any", "count", "for_each", "find", "position"];
pub const RENAME_METHODS: &[&str] = &[
    "iter", "into_iter", "chars", "bytes", "trim", "trim_start", "trim_end", "split", "splitn", "rsplit", "join", "starts_with",
    "ends_with", "strip_prefix", "strip_suffix", "to_ascii_lowercase", "to_ascii_uppercase", "repeat", "replace",
    "unwrap_or_default", "char_indices", "keys", "values", "drain", "sort", "truncate", "to_string", "into", "encode_utf8",
    "map_or", "as_bytes", "to_owned", "as_ref", "as_str", "set", "pop",
];

/// names bound by patterns anywhere in a body (lets, arms, closures) and by its parameters
pub fn bound_names(sig: &Signature, b: &Block) -> HashSet<String> {
    struct B(HashSet<String>);
    impl<'a> visit::Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = B(HashSet::new());
    visit::Visit::visit_signature(&mut v, sig);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

pub fn lit_str(e: &Expr) -> Option<String> {
    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e {
        return Some(s.value());
    }
    None
}

fn strip_refs(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => strip_refs(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => strip_refs(expr),
        Expr::Paren(p) => strip_refs(&p.expr),
        _ => e.clone(),
    }
}

pub fn is_str_expr(e: &Expr, vars: &HashSet<String>) -> bool {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Expr::Paren(p) => is_str_expr(&p.expr, vars),
        Expr::Macro(m) => m.mac.path.is_ident("format"),
        Expr::MethodCall(m) => matches!(
            m.method.to_string().as_str(),
            "to_string" | "to_owned" | "to_ascii_lowercase" | "to_ascii_uppercase" | "repeat" | "join" | "as_str" | "vx_to_string"
                | "vx_to_owned" | "vx_to_ascii_lowercase" | "vx_to_ascii_uppercase" | "vx_repeat" | "vx_join" | "trim" | "vx_trim"
        ),
        Expr::Call(c) => {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            s == "String::from" || s == "String::new" || s == "vx_add"
        }
        Expr::Path(p) => p.path.get_ident().map(|i| vars.contains(&i.to_string())).unwrap_or(false),
        Expr::Reference(r) => is_str_expr(&r.expr, vars),
        Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => is_str_expr(&b.left, vars) || is_refish(&b.right),
        _ => false,
    }
}

fn is_str_var(e: &Expr, vars: &HashSet<String>) -> bool {
    match strip_refs(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| vars.contains(&i.to_string())).unwrap_or(false),
        _ => false,
    }
}
fn is_refish(e: &Expr) -> bool {
    match e {
        Expr::Reference(_) => true,
        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Expr::Paren(p) => is_refish(&p.expr),
        _ => false,
    }
}

struct RetFinder {
    ret: bool,
    brk: bool,
    depth: usize,
}
impl<'ast> Visit<'ast> for RetFinder {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.ret = true,
            Expr::Break(b) if self.depth == 0 || b.label.is_some() => self.brk = true,
            _ => {}
        }
        match e {
            Expr::Closure(_) => {}
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.depth += 1;
                syn::visit::visit_expr(self, e);
                self.depth -= 1;
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
}
fn has_return(e: &Expr) -> bool {
    let mut f = RetFinder { ret: false, brk: false, depth: 0 };
    f.visit_expr(e);
    f.ret
}
fn has_break(b: &Block) -> bool {
    let mut f = RetFinder { ret: false, brk: false, depth: 0 };
    f.visit_block(b);
    f.brk
}

fn mark_at(k: &str) -> Stmt {
    let l = LitStr::new(k, Span::call_site());
    parse_quote!(vx_at! { #l };)
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

/// pattern normalisation: drop `&`, collect by-value bindings that were under a `&`
fn strip_pat(p: &mut Pat, under: bool, derefs: &mut Vec<Ident>) {
    loop {
        match p {
            Pat::Reference(r) => {
                let inner = (*r.pat).clone();
                *p = inner;
                strip_pat(p, true, derefs);
                return;
            }
            Pat::Paren(r) => {
                let inner = (*r.pat).clone();
                *p = inner;
            }
            Pat::Type(t) => {
                let inner = (*t.pat).clone();
                *p = inner;
            }
            _ => break,
        }
    }
    match p {
        Pat::Ident(i) => {
            if under {
                if i.by_ref.is_some() {
                    i.by_ref = None;
                } else {
                    derefs.push(i.ident.clone());
                }
            }
            if let Some((_, s)) = &mut i.subpat {
                strip_pat(s, under, derefs);
            }
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| strip_pat(e, under, derefs)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| strip_pat(e, under, derefs)),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|f| strip_pat(&mut f.pat, under, derefs)),
        Pat::Or(o) => o.cases.iter_mut().for_each(|e| strip_pat(e, under, derefs)),
        Pat::Slice(o) => o.elems.iter_mut().for_each(|e| strip_pat(e, under, derefs)),
        _ => {}
    }
}

impl<'a> X<'a> {
    fn err(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.errors.contains(&s) {
            self.errors.push(s);
        }
    }
    fn new_loop(&mut self, kind: &str) -> usize {
        self.loops.push(LoopInfo { kind: kind.into(), ..Default::default() });
        self.loops.len() - 1
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        id(&format!("vx_{}_{}", p, self.tmp))
    }

    /// split a method chain into (base, adapters)
    fn split_chain(&self, e: &Expr) -> (Expr, Vec<ExprMethodCall>) {
        let mut ads = vec![];
        let mut cur = e.clone();
        loop {
            match &cur {
                Expr::MethodCall(m) if ADAPTERS.contains(&m.method.to_string().as_str()) => {
                    // Option::map etc. are excluded by the caller: an adapter chain must end in an iterator source
                    ads.push(m.clone());
                    cur = (*m.receiver).clone();
                }
                Expr::Paren(p) => cur = (*p.expr).clone(),
                _ => break,
            }
        }
        ads.reverse();
        (cur, ads)
    }

    fn is_iter_base(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => ITER_SOURCES.contains(&m.method.to_string().as_str()),
            _ => false,
        }
    }

    fn base_expr(&mut self, e: &Expr) -> Expr {
        let mut b = e.clone();
        let was_iter = self.is_iter_base(&b);
        if let Expr::Range(_) = strip_paren(&b) {
            self.err("range as iterator base in chain");
        }
        self.visit_expr_mut(&mut b);
        if was_iter {
            b
        } else {
            parse_quote!(VxIntoIter::vx_into_iter(#b))
        }
    }

    fn closure1(&mut self, e: &Expr) -> Option<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) => {
                let mut ps = vec![];
                for i in &c.inputs {
                    ps.push(i.clone());
                }
                if has_return(&c.body) {
                    self.err("return/? inside an iterator closure");
                }
                Some((ps, (*c.body).clone()))
            }
            Expr::Paren(p) => self.closure1(&p.expr),
            Expr::Path(_) => Some((vec![parse_quote!(vx_p)], parse_quote!(#e(vx_p)))),
            _ => None,
        }
    }

    /// generic iterator loop
    /// `consume` gets the identifier of the item and returns the statements for the body
    #[allow(clippy::too_many_arguments)]
    fn build_loop(
        &mut self,
        kind: &str,
        src: &Expr,
        pre: Vec<Stmt>,
        post: Vec<Stmt>,
        body: &mut dyn FnMut(&mut Self, usize, Ident) -> (Vec<Stmt>, bool),
        direct_pat: Option<Pat>,
    ) -> Expr {
        let n = self.new_loop(kind);
        let (base, ads) = self.split_chain(src);
        let it = id(&format!("vx_it{}", n));
        let base = self.base_expr(&base);
        let item0 = id(&format!("vx_x{}", n));
        let mut setup: Vec<Stmt> = vec![];
        let mut stages: Vec<Stmt> = vec![];
        let mut item = item0.clone();
        let mut early_break = false;
        let mut pos_extra = String::new();
        for (k, m) in ads.iter().enumerate() {
            let name = m.method.to_string();
            match name.as_str() {
                "cloned" | "copied" => {
                    let nx = self.fresh("x");
                    stages.push(parse_quote!(let #nx = (*#item).clone();));
                    item = nx;
                }
                "map" => {
                    let nx = self.fresh("x");
                    if let Some((mut ps, mut b)) = self.closure1(&m.args[0]) {
                        if ps.len() != 1 {
                            self.err("map closure arity");
                            continue;
                        }
                        let mut p = ps.remove(0);
                        let mut d = vec![];
                        strip_pat(&mut p, false, &mut d);
                        let ds = deref_lets(&d);
                        self.visit_expr_mut(&mut b);
                        match b {
                            // nothing but the push of the result follows: the body's names stay in scope
                            Expr::Block(bl) if k + 1 == ads.len() && kind.starts_with("collect") && matches!(bl.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                                stages.push(parse_quote!(let #p = #item;));
                                stages.extend(ds);
                                let mut st = bl.block.stmts;
                                if let Some(Stmt::Expr(last, None)) = st.pop() {
                                    stages.extend(st);
                                    stages.push(parse_quote!(let #nx = #last;));
                                }
                            }
                            b => stages.push(parse_quote!(let #nx = { let #p = #item; #(#ds)* #b };)),
                        }
                    } else {
                        let mut f = m.args[0].clone();
                        self.visit_expr_mut(&mut f);
                        stages.push(parse_quote!(let #nx = #f(#item);));
                    }
                    item = nx;
                }
                "filter" => {
                    if let Some((mut ps, mut b)) = self.closure1(&m.args[0]) {
                        let mut p = ps.remove(0);
                        let mut d = vec![];
                        strip_pat(&mut p, false, &mut d);
                        let ds = deref_lets(&d);
                        self.visit_expr_mut(&mut b);
                        stages.push(parse_quote!(if !({ let #p = &#item; #(#ds)* #b }) { continue; }));
                    } else {
                        self.err("filter without closure");
                    }
                }
                "filter_map" => {
                    let nx = self.fresh("x");
                    if let Some((mut ps, mut b)) = self.closure1(&m.args[0]) {
                        let mut p = ps.remove(0);
                        let mut d = vec![];
                        strip_pat(&mut p, false, &mut d);
                        let ds = deref_lets(&d);
                        self.visit_expr_mut(&mut b);
                        stages.push(parse_quote!(let #nx = match ({ let #p = #item; #(#ds)* #b }) { ::core::option::Option::None => { continue; } Some(vx_v) => vx_v };));
                    } else {
                        self.err("filter_map without closure");
                    }
                    item = nx;
                }
                "skip_while" => {
                    let flag = id(&format!("vx_skipping{}", n));
                    setup.push(parse_quote!(let mut #flag = true;));
                    if let Some((mut ps, mut b)) = self.closure1(&m.args[0]) {
                        let mut p = ps.remove(0);
                        let mut d = vec![];
                        strip_pat(&mut p, false, &mut d);
                        let ds = deref_lets(&d);
                        self.visit_expr_mut(&mut b);
                        stages.push(parse_quote!(if #flag { if ({ let #p = &#item; #(#ds)* #b }) { continue; } #flag = false; }));
                    } else {
                        self.err("skip_while without closure");
                    }
                }
                "skip" => {
                    let mut a = m.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    let c = id(&format!("vx_skip{}", n));
                    setup.push(parse_quote!(let mut #c: usize = #a;));
                    stages.push(parse_quote!(if #c > 0 { #c = #c - 1; continue; }));
                }
                "enumerate" => {
                    let c = id(&format!("vx_i{}", n));
                    let nx = self.fresh("x");
                    setup.push(parse_quote!(let mut #c: usize = 0;));
                    stages.push(parse_quote!(let #nx = (#c, #item);));
                    stages.push(parse_quote!(#c = #c + 1;));
                    if k == 0 {
                        pos_extra += &format!("vx_i{n} as int == vx_it{n}.pos(),\n", n = n);
                    }
                    item = nx;
                }
                "zip" => {
                    let o = id(&format!("vx_zip{}", n));
                    let mut a = self.base_expr(&m.args[0]);
                    // zip evaluates its argument when the adapter is built
                    let nx = self.fresh("x");
                    let vz = self.fresh("z");
                    setup.push(parse_quote!(let mut #o = #a;));
                    stages.push(parse_quote!(let #nx = match #o.next() { ::core::option::Option::None => { break; } Some(#vz) => (#item, #vz) };));
                    item = nx;
                    early_break = true;
                    let _ = &mut a;
                    if k == 0 {
                        self.loops[n].before += &format!("let ghost vx_zs{n} = vx_zip{n}.seq();\n", n = n);
                        pos_extra += &format!(
                            "vx_zip{n}.seq() == vx_zs{n}, 0 <= vx_zip{n}.pos() <= vx_zs{n}.len(), vx_zip{n}.pos() == vx_it{n}.pos(),\n",
                            n = n
                        );
                    }
                }
                _ => self.err(format!("adapter {}", name)),
            }
        }
        let (bstmts, body_breaks) = body(self, n, item.clone());
        let li = &mut self.loops[n];
        let b0 = format!("let ghost vx_s{n} = vx_it{n}.seq();\n", n = n);
        li.before = b0 + &li.before;
        li.inv = format!("vx_it{n}.seq() == vx_s{n}, 0 <= vx_it{n}.pos() <= vx_s{n}.len(),\n{e}", n = n, e = if early_break { "" } else { &pos_extra });
        if early_break {
            li.kind = "zip".into();
            li.inv_eb = pos_extra.clone();
            if !body_breaks {
                li.ens = format!("vx_zip{n}.pos() == vx_s{n}.len() || vx_zip{n}.pos() == vx_zs{n}.len(),\n", n = n);
            }
        } else if !body_breaks {
            li.ens = format!("vx_it{n}.pos() == vx_s{n}.len(),\n", n = n);
        }
        li.dec = format!("vx_s{n}.len() - vx_it{n}.pos(),\n", n = n);
        let before = mark_at(&format!("loop {} before", n));
        let next = mark_at(&format!("loop {} next", n));
        let start = mark_at(&format!("loop {} start", n));
        let end = mark_at(&format!("loop {} end", n));
        let after = mark_at(&format!("loop {} after", n));
        let nl = LitInt::new(&n.to_string(), Span::call_site());
        let arm_pat: Pat = match (&direct_pat, stages.is_empty()) {
            (Some(p), true) => p.clone(),
            _ => parse_quote!(#item0),
        };
        let unpack: Vec<Stmt> = match (&direct_pat, stages.is_empty()) {
            (Some(p), false) => vec![parse_quote!(let #p = #item;)],
            _ => vec![],
        };
        // a copy that the iterator borrows from has to outlive it
        let mut base = base;
        let mut held: Vec<Stmt> = vec![];
        if let Expr::MethodCall(m) = &mut base {
            if matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "clone" || r.method == "vx_to_string" || r.method == "vx_to_owned") {
                let b = Ident::new(&format!("vx_b{}", n), Span::call_site());
                let recv = m.receiver.clone();
                held.push(parse_quote!(let #b = #recv;));
                m.receiver = parse_quote!(#b);
            }
        }
        let e: Expr = parse_quote!({
            #(#held)*
            let mut #it = #base;
            #(#setup)*
            #(#pre)*
            #before
            loop {
                vx_loop!{#nl};
                match #it.next() {
                    ::core::option::Option::None => { break; }
                    Some(#arm_pat) => { #next #(#stages)* #(#unpack)* #start #(#bstmts)* #end }
                }
            }
            #after
            #(#post)*
        });
        e
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        if f.label.is_some() {
            self.err("labelled loop");
        }
        // const-table unrolling
        if let Expr::Path(p) = strip_refs(&f.expr) {
            if let Some(i) = p.path.get_ident() {
                if let Some(ConstVal::Unroll(rows)) = self.consts.get(&i.to_string()).cloned() {
                    return self.unroll(&f.pat, &f.body, &rows);
                }
            }
        }
        if let Expr::MethodCall(m) = strip_paren(&f.expr) {
            if m.method == "iter" {
                if let Expr::Path(p) = strip_refs(&m.receiver) {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(ConstVal::Unroll(rows)) = self.consts.get(&i.to_string()).cloned() {
                            return self.unroll(&f.pat, &f.body, &rows);
                        }
                    }
                }
            }
        }
        // iterating over a const table
        let table = match strip_paren(&f.expr) {
            Expr::MethodCall(m) if m.method == "iter" => Some(strip_refs(&m.receiver)),
            e => Some(strip_refs(e)),
        };
        if let Some(Expr::Path(p)) = table {
            if let Some(i) = p.path.get_ident() {
                if let Some(ConstVal::Table) = self.consts.get(&i.to_string()) {
                    let t = id(&format!("vx_table_{}", i));
                    let mut g = f.clone();
                    g.expr = parse_quote!(#t());
                    return self.for_loop(&g);
                }
            }
        }
        // ranges
        if let Expr::Range(r) = strip_paren(&f.expr) {
            return self.range_loop(f, r);
        }
        // iter_mut
        if let Expr::MethodCall(m) = strip_paren(&f.expr) {
            if m.method == "iter_mut" {
                return self.iter_mut_loop(f, &m.receiver);
            }
        }
        if let Expr::Reference(r) = strip_paren(&f.expr) {
            if r.mutability.is_some() {
                return self.iter_mut_loop(f, &r.expr);
            }
        }
        let mut pat = (*f.pat).clone();
        let mut d = vec![];
        strip_pat(&mut pat, false, &mut d);
        let ds = deref_lets(&d);
        let fbody = f.body.clone();
        let brk = has_break(&fbody);
        let mut b = move |x: &mut Self, _n: usize, _item: Ident| {
            let mut blk = fbody.clone();
            x.visit_block_mut(&mut blk);
            let mut st: Vec<Stmt> = ds.clone();
            st.extend(blk.stmts);
            (semi_tail(st), brk)
        };
        self.build_loop("for", &f.expr, vec![], vec![], &mut b, Some(pat))
    }

    fn unroll(&mut self, pat: &Pat, body: &Block, rows: &[Expr]) -> Expr {
        let mut out: Vec<Stmt> = vec![];
        let mut pat = pat.clone();
        let mut d = vec![];
        strip_pat(&mut pat, false, &mut d);
        if has_break(body) {
            self.err("break in unrolled const loop");
        }
        for (k, r) in rows.iter().enumerate() {
            let mut b = body.clone();
            self.visit_block_mut(&mut b);
            let st = semi_tail(b.stmts);
            let m = mark_at(&format!("unroll {} start", k));
            // iterating over a table yields references to its rows
            let r: Expr = if matches!(pat, Pat::Ident(_)) && d.is_empty() { parse_quote!(&#r) } else { r.clone() };
            let (ms, me) = (mark_at("unroll start"), mark_at("unroll end"));
            out.push(parse_quote!({ let #pat = #r; #m #ms #(#st)* #me }));
        }
        parse_quote!({ #(#out)* })
    }

    fn range_loop(&mut self, f: &ExprForLoop, r: &ExprRange) -> Expr {
        let n = self.new_loop("range");
        let mut pat = (*f.pat).clone();
        let mut d = vec![];
        strip_pat(&mut pat, false, &mut d);
        let mut lo: Expr = match &r.start {
            Some(s) => (**s).clone(),
            None => {
                self.err("range without start");
                parse_quote!(0)
            }
        };
        self.visit_expr_mut(&mut lo);
        let i = id(&format!("vx_i{}", n));
        let e = id(&format!("vx_end{}", n));
        let mut body = f.body.clone();
        let brk = has_break(&body);
        self.visit_block_mut(&mut body);
        let st = semi_tail(body.stmts);
        let before = mark_at(&format!("loop {} before", n));
        let start = mark_at(&format!("loop {} start", n));
        let end = mark_at(&format!("loop {} end", n));
        let after = mark_at(&format!("loop {} after", n));
        let nl = LitInt::new(&n.to_string(), Span::call_site());
        match &r.end {
            Some(h) => {
                let mut hi = (**h).clone();
                self.visit_expr_mut(&mut hi);
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                if incl {
                    self.err("inclusive range loop");
                }
                self.loops[n].before = format!("let ghost vx_lo{n} = vx_i{n};\n", n = n);
                self.loops[n].inv = format!("vx_lo{n} <= vx_i{n}, vx_lo{n} <= vx_end{n} ==> vx_i{n} <= vx_end{n},\n", n = n);
                if !brk {
                    self.loops[n].ens = format!("vx_i{n} >= vx_end{n},\n", n = n);
                }
                self.loops[n].dec = format!("vx_end{n} - vx_i{n},\n", n = n);
                parse_quote!({
                    let mut #i = #lo; let #e = #hi;
                    #before
                    loop {
                        vx_loop!{#nl};
                        if #i >= #e { break; }
                        let #pat = #i;
                        #i = #i + 1;
                        #start
                        #(#st)*
                        #end
                    }
                    #after
                })
            }
            None => {
                self.loops[n].kind = "range_from".into();
                // the counter's type is whatever inference gives it; contracts may pin it with `at loop N counter`
                parse_quote!({
                    let mut #i = vx_range_start(#lo);
                    #before
                    loop {
                        vx_loop!{#nl};
                        let #pat = #i;
                        #i = #i + 1;
                        #start
                        #(#st)*
                        #end
                    }
                    #after
                })
            }
        }
    }

    fn iter_mut_loop(&mut self, f: &ExprForLoop, recv: &Expr) -> Expr {
        let n = self.new_loop("iter_mut");
        let mut pat = (*f.pat).clone();
        let mut d = vec![];
        strip_pat(&mut pat, false, &mut d);
        let mut rv = recv.clone();
        self.visit_expr_mut(&mut rv);
        let i = id(&format!("vx_i{}", n));
        let e = id(&format!("vx_end{}", n));
        let mut body = f.body.clone();
        let brk = has_break(&body);
        self.visit_block_mut(&mut body);
        let st = semi_tail(body.stmts);
        let next = mark_at(&format!("loop {} next", n));
        let before = mark_at(&format!("loop {} before", n));
        let start = mark_at(&format!("loop {} start", n));
        let end = mark_at(&format!("loop {} end", n));
        let after = mark_at(&format!("loop {} after", n));
        let nl = LitInt::new(&n.to_string(), Span::call_site());
        self.loops[n].inv = format!("0 <= vx_i{n} <= vx_end{n},\n", n = n);
        if !brk {
            self.loops[n].ens = format!("vx_i{n} == vx_end{n},\n", n = n);
        }
        self.loops[n].dec = format!("vx_end{n} - vx_i{n},\n", n = n);
        let sc = rv.to_token_stream().to_string();
        self.loops[n].inv += &format!("{}@.len() == vx_end{},\n", sc, n);
        parse_quote!({
            let mut #i: usize = 0; let #e: usize = #rv.len();
            #before
            loop {
                vx_loop!{#nl};
                if #i >= #e { break; }
                #next
                let #pat = #rv.vx_entry_mut(#i);
                #i = #i + 1;
                #start
                #(#st)*
                #end
            }
            #after
        })
    }

    fn pipeline(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let (base, ads) = self.split_chain(&m.receiver);
        if name == "collect" || !ads.is_empty() || self.is_iter_base(&base) {
        } else {
            return None;
        }
        let src = (*m.receiver).clone();
        match name.as_str() {
            "collect" => {
                let n = self.loops.len();
                let out = id(&format!("vx_out{}", n));
                let o2 = out.clone();
                let mut b = move |_x: &mut Self, _n: usize, item: Ident| (vec![parse_quote!(VxCollect::vx_collect_push(&mut #o2, #item);)], false);
                // target type: turbofish
                let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| {
                    t.args.first().and_then(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None })
                });
                let pre: Vec<Stmt> = match ty {
                    Some(mut t) => {
                        self.visit_type_mut(&mut t);
                        vec![parse_quote!(let mut #out: #t = VxCollect::vx_collect_new();)]
                    }
                    None => vec![parse_quote!(let mut #out = VxCollect::vx_collect_new();)],
                };
                let post: Vec<Stmt> = vec![Stmt::Expr(parse_quote!(#out), None)];
                Some(self.build_loop("collect", &src, pre, post, &mut b, None))
            }
            "fold" => {
                let n = self.loops.len();
                let out = id(&format!("vx_acc{}", n));
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                let farg = m.args[1].clone();
                let o2 = out.clone();
                let mut b = move |x: &mut Self, _n: usize, item: Ident| {
                    let is_path = matches!(strip_paren(&farg), Expr::Path(_));
                    if let Some((ps, mut bd)) = if is_path { None } else { x.closure1(&farg) } {
                        if ps.len() != 2 {
                            x.err("fold closure arity");
                            return (vec![], false);
                        }
                        let (mut p0, mut p1) = (ps[0].clone(), ps[1].clone());
                        let mut d = vec![];
                        strip_pat(&mut p0, false, &mut d);
                        strip_pat(&mut p1, false, &mut d);
                        let ds = deref_lets(&d);
                        x.visit_expr_mut(&mut bd);
                        (vec![parse_quote!(#o2 = { let (#p0, #p1) = (#o2, #item); #(#ds)* #bd };)], false)
                    } else {
                        let mut f = farg.clone();
                        x.visit_expr_mut(&mut f);
                        (vec![parse_quote!(#o2 = #f(#o2, #item);)], false)
                    }
                };
                let pre: Vec<Stmt> = vec![parse_quote!(let mut #out = #init;)];
                let post: Vec<Stmt> = vec![Stmt::Expr(parse_quote!(#out), None)];
                Some(self.build_loop("fold", &src, pre, post, &mut b, None))
            }
            "all" | "any" => {
                let n = self.loops.len();
                let out = id(&format!("vx_res{}", n));
                let is_all = name == "all";
                let o2 = out.clone();
                let farg = m.args[0].clone();
                let mut b = move |x: &mut Self, _n: usize, item: Ident| {
                    let cond: Expr = if let Some((mut ps, mut bd)) = x.closure1(&farg) {
                        let mut p = ps.remove(0);
                        let mut d = vec![];
                        strip_pat(&mut p, false, &mut d);
                        let ds = deref_lets(&d);
                        x.visit_expr_mut(&mut bd);
                        parse_quote!({ let #p = #item; #(#ds)* #bd })
                    } else {
                        let mut f = farg.clone();
                        x.visit_expr_mut(&mut f);
                        parse_quote!(#f(#item))
                    };
                    let s: Stmt = if is_all {
                        parse_quote!(if !(#cond) { #o2 = false; break; })
                    } else {
                        parse_quote!(if (#cond) { #o2 = true; break; })
                    };
                    (vec![s], true)
                };
                let init: Expr = if is_all { parse_quote!(true) } else { parse_quote!(false) };
                let pre: Vec<Stmt> = vec![parse_quote!(let mut #out: bool = #init;)];
                let post: Vec<Stmt> = vec![Stmt::Expr(parse_quote!(#out), None)];
                let e = self.build_loop(&name, &src, pre, post, &mut b, None);
                let li = &mut self.loops[n];
                let cont = format!("{}vx_res{}", if is_all { "" } else { "!" }, n);
                li.inv_eb += &format!("{},\n", cont);
                li.ens += &if li.kind == "zip" {
                    format!("{c} ==> vx_zip{n}.pos() == vx_s{n}.len() || vx_zip{n}.pos() == vx_zs{n}.len(),\n", c = cont, n = n)
                } else {
                    format!("{c} ==> vx_it{n}.pos() == vx_s{n}.len(),\n", c = cont, n = n)
                };
                Some(e)
            }
            _ => {
                self.err(format!("iterator terminal {}", name));
                None
            }
        }
    }

    fn format_expr(&mut self, mac: &Macro) -> Expr {
        let args = match mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            Ok(a) => a,
            Err(e) => {
                self.err(format!("format! args: {}", e));
                return parse_quote!(String::new());
            }
        };
        let args: Vec<Expr> = args.into_iter().collect();
        let f = match args.first().and_then(lit_str) {
            Some(s) => s,
            None => {
                self.err("format! without literal");
                return parse_quote!(String::new());
            }
        };
        let s = self.fresh("f");
        let mut st: Vec<Stmt> = vec![];
        let mut lit = String::new();
        let mut k = 1;
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let mut flush = |lit: &mut String, st: &mut Vec<Stmt>| {
            if !lit.is_empty() {
                let l = LitStr::new(lit, Span::call_site());
                st.push(parse_quote!(#s.push_str(#l);));
                lit.clear();
            }
        };
        while i < cs.len() {
            if cs[i] == '{' {
                if cs.get(i + 1) == Some(&'{') {
                    lit.push('{');
                    i += 2;
                    continue;
                }
                let mut j = i + 1;
                let mut name = String::new();
                while j < cs.len() && cs[j] != '}' {
                    name.push(cs[j]);
                    j += 1;
                }
                let mut method = "vx_fmt".to_string();
                if let Some((a, b)) = name.clone().split_once(':') {
                    match b {
                        "?" => method = "vx_fmt_debug".into(),
                        "04x" => method = "vx_fmt_04x".into(),
                        _ => self.err(format!("format spec {{{}}}", name)),
                    }
                    name = a.to_string();
                }
                let e: Expr = if name.is_empty() {
                    let e = args.get(k).cloned();
                    k += 1;
                    match e {
                        Some(e) => e,
                        None => {
                            self.err("format! arity");
                            parse_quote!("")
                        }
                    }
                } else if name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !name.chars().next().unwrap().is_ascii_digit() {
                    let idn = id(&name);
                    parse_quote!(#idn)
                } else if let Ok(ix) = name.parse::<usize>() {
                    args.get(ix + 1).cloned().unwrap_or(parse_quote!(""))
                } else {
                    self.err(format!("format spec {{{}}}", name));
                    parse_quote!("")
                };
                flush(&mut lit, &mut st);
                let mut e = e;
                self.visit_expr_mut(&mut e);
                let method = id(&method);
                st.push(match method.to_string().as_str() {
                    "vx_fmt" => parse_quote!(VxDisplay::vx_fmt(&(#e), &mut #s);),
                    "vx_fmt_debug" => parse_quote!(VxDebug::vx_fmt_debug(&(#e), &mut #s);),
                    _ => parse_quote!(VxFmt::#method(&(#e), &mut #s);),
                });
                i = j + 1;
            } else if cs[i] == '}' && cs.get(i + 1) == Some(&'}') {
                lit.push('}');
                i += 2;
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        flush(&mut lit, &mut st);
        parse_quote!({ let mut #s = String::new(); #(#st)* #s })
    }

    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        match name.as_str() {
            "format" => Some(self.format_expr(mac)),
            "matches" => {
                struct M {
                    e: Expr,
                    p: Pat,
                    g: Option<Expr>,
                }
                impl parse::Parse for M {
                    fn parse(input: parse::ParseStream) -> Result<Self> {
                        let e: Expr = input.parse()?;
                        let _: Token![,] = input.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(input)?;
                        let g = if input.peek(Token![if]) {
                            let _: Token![if] = input.parse()?;
                            Some(input.parse()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = input.parse()?;
                        Ok(M { e, p, g })
                    }
                }
                match mac.parse_body::<M>() {
                    Ok(m) => {
                        let (mut e, p) = (m.e, m.p);
                        self.visit_expr_mut(&mut e);
                        let g = m.g.map(|mut g| {
                            self.visit_expr_mut(&mut g);
                            quote!(if #g)
                        });
                        Some(parse_quote!(match #e { #p #g => true, _ => false }))
                    }
                    Err(e) => {
                        self.err(format!("matches!: {}", e));
                        None
                    }
                }
            }
            "vec" => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                match args {
                    Ok(a) => {
                        let v = self.fresh("v");
                        let mut st: Vec<Stmt> = vec![];
                        for mut e in a {
                            self.visit_expr_mut(&mut e);
                            st.push(parse_quote!(#v.push(#e);));
                        }
                        if st.is_empty() {
                            Some(parse_quote!(Vec::new()))
                        } else {
                            Some(parse_quote!({ let mut #v = Vec::new(); #(#st)* #v }))
                        }
                    }
                    Err(_) => {
                        self.err("vec! form");
                        None
                    }
                }
            }
            "print" | "println" | "eprint" | "eprintln" => {
                let f = self.format_expr(mac);
                let out = Ident::new(&format!("vx_{}", name), Span::call_site());
                Some(parse_quote!(#out(#f)))
            }
            "concat" => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Lit, Token![,]>::parse_terminated);
                let mut text = String::new();
                for l in args.into_iter().flatten() {
                    match l {
                        Lit::Str(s) => text.push_str(&s.value()),
                        _ => self.err("concat! form"),
                    }
                }
                Some(parse_quote!(#text))
            }
            "env" => {
                let t = &mac.tokens;
                Some(parse_quote!(vx_env(#t)))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_panic())),
            "string_hashmap" => {
                struct KV(Vec<(Expr, Expr)>);
                impl parse::Parse for KV {
                    fn parse(input: parse::ParseStream) -> Result<Self> {
                        let mut v = vec![];
                        while !input.is_empty() {
                            let k: Expr = input.parse()?;
                            let _: Token![=>] = input.parse()?;
                            let e: Expr = input.parse()?;
                            v.push((k, e));
                            let _: Option<Token![,]> = input.parse()?;
                        }
                        Ok(KV(v))
                    }
                }
                match mac.parse_body::<KV>() {
                    Ok(kv) => {
                        let m = self.fresh("m");
                        let mut st: Vec<Stmt> = vec![];
                        for (mut k, mut e) in kv.0 {
                            self.visit_expr_mut(&mut k);
                            self.visit_expr_mut(&mut e);
                            st.push(parse_quote!(#m.insert(#k.vx_to_string(), #e);));
                        }
                        Some(parse_quote!({ let mut #m = LinkedHashMap::new(); #(#st)* #m }))
                    }
                    Err(e) => {
                        self.err(format!("string_hashmap!: {}", e));
                        None
                    }
                }
            }
            "vx_at" | "vx_loop" => None,
            "debug_assert" | "assert" => {
                let args = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                if let Ok(a) = args {
                    if let Some(c) = a.first() {
                        let mut c = c.clone();
                        self.visit_expr_mut(&mut c);
                        return Some(parse_quote!(if !(#c) { vx_panic() }));
                    }
                }
                self.err("assert! form");
                None
            }
            _ => {
                self.err(format!("macro {}!", name));
                None
            }
        }
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn deref_lets(d: &[Ident]) -> Vec<Stmt> {
    d.iter().map(|i| parse_quote!(let #i = *#i;)).collect()
}

fn semi_tail(mut st: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, semi)) = st.last_mut() {
        if semi.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Loop(_) | Expr::While(_)) {
            *semi = Some(Default::default());
        }
    }
    st
}

pub fn collect_string_vars(b: &Block) -> HashSet<String> {
    struct V(HashSet<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_local(&mut self, l: &'ast Local) {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if is_str_expr(&init.expr, &self.0) && !matches!(*init.expr, Expr::Lit(_)) {
                    self.0.insert(i.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(HashSet::new());
    v.visit_block(b);
    v.0
}

fn is_noop_stmt(s: &Stmt) -> bool {
    fn triv(e: &Expr) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(triv),
            Expr::Paren(p) => triv(&p.expr),
            Expr::Block(b) => b.block.stmts.iter().all(is_noop_stmt_inner),
            Expr::If(i) => triv(&i.cond) && i.then_branch.stmts.iter().all(is_noop_stmt_inner) && i.else_branch.is_none(),
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                matches!(f.as_str(), "drop" | "std::mem::drop" | "core::mem::drop" | "std::hint::black_box" | "core::hint::black_box" | "std::convert::identity")
                    && c.args.iter().all(triv)
            }
            Expr::Binary(b) => triv(&b.left) && triv(&b.right),
            Expr::Path(_) => false,
            _ => false,
        }
    }
    fn is_noop_stmt_inner(s: &Stmt) -> bool {
        is_noop_stmt(s)
    }
    match s {
        Stmt::Expr(e, semi) => (semi.is_some() || matches!(e, Expr::If(_) | Expr::Block(_))) && triv(e) ,
        Stmt::Local(l) => match (&l.pat, &l.init) {
            (Pat::Wild(_), Some(i)) => triv(&i.expr),
            (Pat::Ident(p), Some(i)) => p.ident.to_string().starts_with('_') && triv(&i.expr),
            (Pat::Type(t), Some(i)) => match &*t.pat {
                Pat::Wild(_) => triv(&i.expr),
                Pat::Ident(p) => p.ident.to_string().starts_with('_') && triv(&i.expr),
                _ => false,
            },
            _ => false,
        },
        Stmt::Macro(m) => {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            (n == "debug_assert" || n == "assert") && m.mac.tokens.to_string() == "true"
        }
        _ => false,
    }
}

impl<'a> VisitMut for X<'a> {
    fn visit_attribute_mut(&mut self, _a: &mut Attribute) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        let mut i = 0;
        b.stmts.retain(|s| {
            i += 1;
            !(is_noop_stmt(s) && !(i == n && matches!(s, Stmt::Expr(_, None))))
        });
        // local `use` items: keep glob/imports of enum variants only
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(_)) if false));
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if !m.mac.path.is_ident("vx_at") && !m.mac.path.is_ident("vx_loop") {
                if let Some(e) = self.macro_expr(&m.mac.clone()) {
                    *s = Stmt::Expr(e, m.semi_token);
                }
                return;
            }
            return;
        }
        if let Stmt::Item(it) = s {
            match it {
                Item::Use(u) => {
                    let t = u.tree.to_token_stream().to_string().replace(' ', "");
                    let t = t.replace("self::", "").replace("crate::shape::", "").replace("crate::options::", "");
                    match parse_str::<ItemUse>(&format!("use {};", t)) {
                        Ok(u2) => *u = u2,
                        Err(_) => self.err("use form"),
                    }
                }
                _ => self.err("nested item"),
            }
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        let mut d = vec![];
        if let Pat::Type(pt) = &l.pat {
            // keep the annotation; a collect() takes its type from it
            if let (Some(init), Type::Path(_)) = (&mut l.init, &*pt.ty) {
                if let Expr::MethodCall(m) = &mut *init.expr {
                    if m.method == "collect" && m.turbofish.is_none() && init.diverge.is_none() && !pt.ty.to_token_stream().to_string().contains('_') {
                        let t = &pt.ty;
                        m.turbofish = Some(parse_quote!(::<#t>));
                    }
                }
            }
            visit_mut::visit_local_mut(self, l);
            return;
        }
        strip_pat(&mut l.pat, false, &mut d);
        if !d.is_empty() {
            self.err("& pattern in let");
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(_) = p {
            let mut d = vec![];
            strip_pat(p, false, &mut d);
            if !d.is_empty() {
                self.err("by-value binding under & in a match pattern");
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = crate::unit::norm(&t.to_token_stream().to_string());
        for (a, b) in self.substs {
            if *a == s {
                if let Ok(nt) = parse_str::<Type>(b) {
                    *t = nt;
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        let mut s = crate::unit::norm(&p.to_token_stream().to_string());
        for (a, b) in self.renames {
            // `std::io::* => io::*`
            if let (Some(a), Some(b)) = (a.strip_suffix('*'), b.strip_suffix('*')) {
                if let Some(rest) = s.strip_prefix(a) {
                    if let Ok(np) = parse_str::<Path>(&format!("{}{}", b, rest)) {
                        *p = np;
                        s = crate::unit::norm(&p.to_token_stream().to_string());
                    }
                }
            }
        }
        for (a, b) in self.renames {
            if *a == s && !self.bound.contains(&s) {
                if let Ok(np) = parse_str::<Path>(b) {
                    *p = np;
                    return;
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                let s = crate::unit::norm(&p.path.to_token_stream().to_string());
                if self.bound.contains(&s) {
                    if let Some((_, b)) = self.renames.iter().find(|(a, _)| *a == s) {
                        if let Ok(np) = parse_str::<Path>(b) {
                            p.path = np;
                        }
                    }
                }
            }
        }
        match e {
            Expr::Paren(_) | Expr::Group(_) => {
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(&f);
                return;
            }
            Expr::While(w) => {
                // while let PAT = EXPR { B }  ==>  loop { match EXPR { PAT => B, _ => break } }
                if let Expr::Let(l) = &*w.cond {
                    let n = self.new_loop("whilelet");
                    let mut sc = (*l.expr).clone();
                    let mut pat = (*l.pat).clone();
                    let mut body = w.body.clone();
                    self.visit_expr_mut(&mut sc);
                    self.visit_pat_mut(&mut pat);
                    self.visit_block_mut(&mut body);
                    let st = semi_tail(body.stmts);
                    let nl = LitInt::new(&n.to_string(), Span::call_site());
                    let before = mark_at(&format!("loop {} before", n));
                    let start = mark_at(&format!("loop {} start", n));
                    let end = mark_at(&format!("loop {} end", n));
                    let after = mark_at(&format!("loop {} after", n));
                    *e = parse_quote!({ #before loop { vx_loop!{#nl}; match #sc { #pat => { #start #(#st)* #end } _ => { break; } } } #after });
                    return;
                }
                let n = self.new_loop("while");
                let mut c = (*w.cond).clone();
                let mut body = w.body.clone();
                self.visit_expr_mut(&mut c);
                self.visit_block_mut(&mut body);
                let st = semi_tail(body.stmts);
                let nl = LitInt::new(&n.to_string(), Span::call_site());
                let before = mark_at(&format!("loop {} before", n));
                let start = mark_at(&format!("loop {} start", n));
                let end = mark_at(&format!("loop {} end", n));
                let after = mark_at(&format!("loop {} after", n));
                *e = parse_quote!({ #before while #c { vx_loop!{#nl}; #start #(#st)* #end } #after });
                return;
            }
            Expr::Loop(l) => {
                if l.label.is_some() {
                    self.err("labelled loop");
                }
                let n = self.new_loop("loop");
                let mut body = l.body.clone();
                self.visit_block_mut(&mut body);
                let st = semi_tail(body.stmts);
                let nl = LitInt::new(&n.to_string(), Span::call_site());
                let before = mark_at(&format!("loop {} before", n));
                let start = mark_at(&format!("loop {} start", n));
                let end = mark_at(&format!("loop {} end", n));
                *e = parse_quote!({ #before loop { vx_loop!{#nl}; #start #(#st)* #end } });
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(ne) = self.macro_expr(&mac) {
                    *e = ne;
                }
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if TERMINALS.contains(&name.as_str()) {
                    let mc = m.clone();
                    if let Some(ne) = self.pipeline(&mc) {
                        *e = ne;
                        return;
                    }
                }
                if name == "is_some_and" {
                    let arg = m.args[0].clone();
                    if let Some((ps, mut b)) = self.closure1(&arg) {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut b);
                        let p = &ps[0];
                        *e = parse_quote!(match #r { Some(#p) => #b, None => false });
                        return;
                    }
                }
                // `x.unwrap_or_else(|| e)`, `x.ok_or_else(|| e)`, `x.map_or_else(|| d, |v| e)`
                if name == "unwrap_or_else" || name == "ok_or_else" || name == "map_or_else" {
                    let none = match m.args.first() {
                        Some(Expr::Closure(c)) if c.inputs.is_empty() && !has_return(&c.body) => Some((*c.body).clone()),
                        _ => None,
                    };
                    let some = if name == "map_or_else" && m.args.len() == 2 { let a = m.args[1].clone(); self.closure1(&a) } else { None };
                    if let Some(mut d) = none {
                        if (name == "map_or_else") == some.is_some() {
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.visit_expr_mut(&mut d);
                            *e = match some {
                                Some((ps, mut b)) => {
                                    self.visit_expr_mut(&mut b);
                                    let p = &ps[0];
                                    parse_quote!(match #r { Some(#p) => #b, None => #d })
                                }
                                None if name == "ok_or_else" => parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#d) }),
                                None => parse_quote!(match #r { Some(vx_v) => vx_v, None => #d }),
                            };
                            return;
                        }
                    }
                }
                if name == "map_err" {
                    let arg = m.args[0].clone();
                    if let Some((ps, mut b)) = self.closure1(&arg) {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut b);
                        let p = &ps[0];
                        *e = parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) });
                        return;
                    }
                }
                if name == "contains" && m.args.len() == 1 {
                    if let Expr::Range(r) = strip_paren(&m.receiver) {
                        if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                            let (mut lo, mut hi) = ((**lo).clone(), (**hi).clone());
                            let mut a = match &m.args[0] {
                                Expr::Reference(x) => (*x.expr).clone(),
                                x => parse_quote!(*#x),
                            };
                            self.visit_expr_mut(&mut lo);
                            self.visit_expr_mut(&mut hi);
                            self.visit_expr_mut(&mut a);
                            *e = if matches!(r.limits, RangeLimits::Closed(_)) {
                                parse_quote!({ let vx_v = #a; #lo <= vx_v && vx_v <= #hi })
                            } else {
                                parse_quote!({ let vx_v = #a; #lo <= vx_v && vx_v < #hi })
                            };
                            return;
                        }
                    }
                    if let Expr::Path(p) = strip_refs(&m.receiver) {
                        if let Some(i) = p.path.get_ident() {
                            let n = i.to_string();
                            if let Some(ConstVal::StrSet(_) | ConstVal::Table) = self.consts.get(&n) {
                                self.used_consts.insert(n.clone());
                                let mut a = strip_refs(&m.args[0]);
                                self.visit_expr_mut(&mut a);
                                let f = id(&format!("vx_const_{}_contains", n));
                                *e = parse_quote!(#f(VxAsStr::vx_as_str(&#a)));
                                return;
                            }
                        }
                    }
                    if let Expr::Lit(ExprLit { lit: Lit::Char(_) | Lit::Str(_), .. }) = &m.args[0] {
                        m.method = id("vx_contains_char");
                        if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &m.args[0] {
                            m.method = id("vx_contains_str");
                        }
                    }
                }
                if name == "encode_utf8" {
                    self.visit_expr_mut(&mut m.receiver);
                    let r = &m.receiver;
                    *e = parse_quote!(vx_encode_utf8(#r));
                    return;
                }
                if name == "pop" || name == "set" || name == "as_ref" || name == "as_str" || name == "as_bytes" || name == "into" || name == "to_owned" || name == "to_string" || name == "drain" {
                    // renamed below (stand-ins with contracts)
                }
                if (name == "take" && m.args.len() == 1) || (name == "rev" && m.args.is_empty()) {
                    m.method = id(&format!("vx_{}", name));
                }
                if RENAME_METHODS.contains(&name.as_str()) && name != "pop" {
                    m.method = id(&format!("vx_{}", name));
                }
                if let Some((_, b)) = self.methods.iter().find(|x| x.0 == name) {
                    m.method = id(b);
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Reference(r) => {
                // &x[a..b]
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let mut b = (*ix.expr).clone();
                        self.visit_expr_mut(&mut b);
                        let mut lo: Expr = rg.start.as_ref().map(|s| (**s).clone()).unwrap_or(parse_quote!(0));
                        self.visit_expr_mut(&mut lo);
                        *e = match &rg.end {
                            None => parse_quote!(VxSlice::vx_slice_from(&#b, #lo)),
                            Some(h) => {
                                let mut h = (**h).clone();
                                self.visit_expr_mut(&mut h);
                                parse_quote!(VxSlice::vx_slice(&#b, #lo, #h))
                            }
                        };
                        return;
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(rg) = &*ix.index {
                    let mut b = (*ix.expr).clone();
                    self.visit_expr_mut(&mut b);
                    let mut lo: Expr = rg.start.as_ref().map(|s| (**s).clone()).unwrap_or(parse_quote!(0));
                    self.visit_expr_mut(&mut lo);
                    *e = match &rg.end {
                        None => parse_quote!(VxSlice::vx_slice_from(&#b, #lo)),
                        Some(h) => {
                            let mut h = (**h).clone();
                            self.visit_expr_mut(&mut h);
                            parse_quote!(VxSlice::vx_slice(&#b, #lo, #h))
                        }
                    };
                    return;
                }
            }
            Expr::Binary(b) => {
                match b.op {
                    BinOp::Add(_) if self.any_sum => {
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(vx_any_sum(#l, #r));
                        return;
                    }
                    BinOp::Eq(_) | BinOp::Ne(_) if self.eq_by_trait => {
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        let ne = matches!(b.op, BinOp::Ne(_));
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = if ne { parse_quote!((!VxEq::vx_eq(&#l, &#r))) } else { parse_quote!(VxEq::vx_eq(&#l, &#r)) };
                        return;
                    }
                    BinOp::Eq(_) | BinOp::Ne(_) if is_str_var(&b.left, &self.string_vars) || is_str_var(&b.right, &self.string_vars) => {
                        let (mut l, mut r) = (strip_refs(&b.left), strip_refs(&b.right));
                        let op = b.op;
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(VxAsStr::vx_as_str(&#l) #op VxAsStr::vx_as_str(&#r));
                        return;
                    }
                    BinOp::AddAssign(_) if is_refish(&b.right) || is_str_expr(&b.left, &self.string_vars) => {
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(vx_push_str(&mut #l, VxAsStr::vx_as_str(&#r)));
                        return;
                    }
                    BinOp::Add(_) if is_refish(&b.right) || is_str_expr(&b.left, &self.string_vars) => {
                        let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                        self.visit_expr_mut(&mut l);
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!(vx_add(#l, VxAsStr::vx_as_str(&#r)));
                        return;
                    }
                    _ => {}
                }
            }
            Expr::Match(m) => {
                if let Some(ne) = self.str_match(m) {
                    *e = ne;
                    return;
                }
            }
            Expr::Unsafe(_) | Expr::Async(_) | Expr::Await(_) => self.err("unsafe/async"),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn str_alts(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_alts(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => str_alts(&p.pat),
        _ => None,
    }
}

impl<'a> X<'a> {
    /// a match on string literals is a chain of comparisons
    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| str_alts(&a.pat).is_some()) {
            return None;
        }
        let mut sc = (*m.expr).clone();
        self.visit_expr_mut(&mut sc);
        let v = self.fresh("m");
        let mut chain: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let mut b = (*a.body).clone();
            self.visit_expr_mut(&mut b);
            let mut g = a.guard.as_ref().map(|(_, g)| (**g).clone());
            if let Some(g) = &mut g {
                self.visit_expr_mut(g);
            }
            match (&a.pat, str_alts(&a.pat)) {
                (_, Some(ls)) => {
                    let mut c: Option<Expr> = None;
                    for l in ls {
                        let t: Expr = parse_quote!(vx_str_is(#v, #l));
                        c = Some(match c {
                            None => t,
                            Some(c) => parse_quote!(#c || #t),
                        });
                    }
                    let c = c?;
                    let c: Expr = match g {
                        Some(g) => parse_quote!((#c) && (#g)),
                        None => c,
                    };
                    let rest = chain.take().unwrap_or(parse_quote!(vx_panic()));
                    chain = Some(parse_quote!(if #c { #b } else { #rest }));
                }
                (Pat::Wild(_), _) if g.is_none() => chain = Some(b),
                (Pat::Wild(_), _) => {
                    let g = g.unwrap();
                    let rest = chain.take().unwrap_or(parse_quote!(vx_panic()));
                    chain = Some(parse_quote!(if #g { #b } else { #rest }));
                }
                (Pat::Ident(i), _) if i.subpat.is_none() => {
                    let i = &i.ident;
                    chain = Some(match g {
                        None => parse_quote!({ let #i = #v; #b }),
                        Some(g) => {
                            let rest = chain.take().unwrap_or(parse_quote!(vx_panic()));
                            parse_quote!({ let #i = #v; if #g { #b } else { #rest } })
                        }
                    });
                }
                _ => {
                    self.err("match on string literals with other patterns");
                    return None;
                }
            }
        }
        let chain = chain?;
        Some(parse_quote!({ let #v = #sc; #chain }))
    }
}

// ---------------------------------------------------------------------------------------------
// alpha renaming

/// binding identifiers in source order (parameters first)
pub fn bindings(sig: &Signature, b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            let s = p.ident.to_string();
            if !s.chars().next().unwrap().is_uppercase() {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_item(&mut self, _: &'ast Item) {}
    }
    let mut v = V(vec![]);
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            v.visit_pat(&t.pat);
        }
    }
    v.visit_block(b);
    v.0
}

/// align the current binding list with the baseline and produce current -> baseline names
pub fn align(cur: &[String], base: &[String]) -> BTreeMap<String, String> {
    // LCS on names; between matched names, equal-length gaps are paired up
    let (n, m) = (cur.len(), base.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if cur[i] == base[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut bad: HashSet<String> = HashSet::new();
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj) = (0, 0);
    let mut gaps = vec![];
    while i < n && j < m {
        if cur[i] == base[j] && t[i][j] == t[i + 1][j + 1] + 1 {
            gaps.push((gi, i, gj, j));
            i += 1;
            j += 1;
            gi = i;
            gj = j;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    gaps.push((gi, n, gj, m));
    for (a, b, c, d) in gaps {
        if b - a == d - c {
            for k in 0..(b - a) {
                let (x, y) = (cur[a + k].clone(), base[c + k].clone());
                if cur.contains(&y) {
                    bad.insert(x.clone());
                    continue;
                }
                if let Some(o) = map.get(&x) {
                    if *o != y {
                        bad.insert(x.clone());
                    }
                } else {
                    map.insert(x, y);
                }
            }
        }
    }
    for b in bad {
        map.remove(&b);
    }
    // injectivity
    let mut seen = HashSet::new();
    let dup: HashSet<String> = map.values().filter(|v| !seen.insert((*v).clone())).cloned().collect();
    map.retain(|_, v| !dup.contains(v));
    map
}

pub struct Renamer<'a>(pub &'a BTreeMap<String, String>);
impl<'a> VisitMut for Renamer<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = id(n);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if let Some(n) = self.0.get(&i.to_string()) {
                p.path = Path::from(id(n));
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // rename identifiers in expression macros token-wise (format!, matches!, vec!)
        m.tokens = rename_tokens(m.tokens.clone(), self.0);
    }
}
fn rename_tokens(ts: TokenStream, map: &BTreeMap<String, String>) -> TokenStream {
    use proc_macro2::TokenTree;
    let mut prev_dot = false;
    ts.into_iter()
        .map(|t| {
            let r = match t {
                TokenTree::Ident(i) if !prev_dot => {
                    if let Some(n) = map.get(&i.to_string()) {
                        TokenTree::Ident(id(n))
                    } else {
                        TokenTree::Ident(i)
                    }
                }
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), map))),
                t => t,
            };
            prev_dot = matches!(&r, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
            r
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// inlining of helpers that have no contract (a refactoring that extracts a helper)

struct FnSubst {
    name: String,
    arg: Expr,
    other: bool,
}
impl VisitMut for FnSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = strip_paren(&c.func) {
                if p.path.is_ident(&self.name) {
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                    match strip_paren(&self.arg) {
                        Expr::Closure(cl) if cl.inputs.len() == args.len() => {
                            let ps: Vec<&Pat> = cl.inputs.iter().collect();
                            let b = &cl.body;
                            *e = parse_quote!({ #(let #ps = #args;)* #b });
                        }
                        f @ Expr::Path(_) => *e = parse_quote!(#f(#(#args),*)),
                        _ => self.other = true,
                    }
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                self.other = true;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Inliner<'a> {
    pub free: &'a HashMap<String, (Signature, Block)>,
    pub methods: &'a HashMap<String, (Signature, Block)>,
    pub inlined: Vec<String>,
    pub errors: Vec<String>,
    pub depth: usize,
    /// the caller's `&mut` parameters
    pub muts: HashSet<String>,
}

struct RetKinds {
    other: bool,
    any: bool,
}
impl<'ast> Visit<'ast> for RetKinds {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(r) => {
                self.any = true;
                let ok = match &r.expr {
                    Some(x) => x.to_token_stream().to_string().starts_with("Err"),
                    None => false,
                };
                if !ok {
                    self.other = true;
                }
            }
            Expr::Try(_) => self.any = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

/// `if c { …; return x; } rest` as `if c { …; x } else { rest }`, so that a helper with guard
/// clauses can stand where it is called
fn guards_to_else(b: &mut Block) {
    // the last statement's own value, if it is a plain return
    fn returned(b: &Block) -> Option<Block> {
        let mut b = b.clone();
        match b.stmts.pop()? {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    b.stmts.push(Stmt::Expr(*e, None));
                }
                Some(b)
            }
            _ => None,
        }
    }
    if let Some(r) = returned(b) {
        *b = r;
    }
    let mut k = 0;
    while k < b.stmts.len() {
        if let Stmt::Expr(Expr::If(i), _) = &b.stmts[k] {
            if i.else_branch.is_none() && k + 1 < b.stmts.len() {
                if let Some(then) = returned(&i.then_branch) {
                    let mut i = i.clone();
                    let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
                    let mut rest = Block { brace_token: Default::default(), stmts: rest };
                    guards_to_else(&mut rest);
                    i.then_branch = then;
                    i.else_branch = Some((Default::default(), Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: rest }))));
                    b.stmts[k] = Stmt::Expr(Expr::If(i), None);
                    return;
                }
            }
        }
        k += 1;
    }
}

impl<'a> Inliner<'a> {
    fn expand(&mut self, sig: &Signature, body: &Block, args: Vec<Expr>, tail: bool, tried: bool) -> Option<Expr> {
        let mut guarded = body.clone();
        if !tail {
            guards_to_else(&mut guarded);
        }
        let body = &guarded;
        let mut rk = RetKinds { other: false, any: false };
        rk.visit_block(body);
        if rk.any && !tail && (rk.other || !tried) {
            self.errors.push(format!("helper {} has early returns and cannot be inlined here", sig.ident));
            return None;
        }
        let mut pats: Vec<Pat> = vec![];
        let mut tys: Vec<Type> = vec![];
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                pats.push((*t.pat).clone());
                tys.push((*t.ty).clone());
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        self.inlined.push(sig.ident.to_string());
        // closures and function names passed as arguments are substituted at their calls
        let mut body = body.clone();
        let mut args = args;
        let mut k = 0;
        while k < args.len() {
            let is_fn_param = match &tys[k] {
                Type::Path(p) => p.path.get_ident().map(|i| {
                    let n = i.to_string();
                    sig.generics.params.iter().any(|g| matches!(g, GenericParam::Type(t) if t.ident == n && t.bounds.to_token_stream().to_string().contains("Fn")))
                        || sig.generics.where_clause.as_ref().map(|w| { let s = w.to_token_stream().to_string(); s.contains(&format!("{} :", n)) && s.contains("Fn") }).unwrap_or(false)
                }).unwrap_or(false),
                Type::ImplTrait(t) => t.to_token_stream().to_string().contains("Fn"),
                _ => false,
            };
            if is_fn_param {
                if let Pat::Ident(pi) = &pats[k] {
                    let mut sub = FnSubst { name: pi.ident.to_string(), arg: args[k].clone(), other: false };
                    sub.visit_block_mut(&mut body);
                    if sub.other {
                        self.errors.push(format!("helper {} passes its closure on", sig.ident));
                        return None;
                    }
                    pats.remove(k);
                    tys.remove(k);
                    args.remove(k);
                    continue;
                }
            }
            k += 1;
        }
        // an argument for a `&mut` parameter is borrowed again, as at a call
        let mut k = 0;
        while k < args.len() {
            if let (Type::Reference(r), Expr::Path(a)) = (&tys[k], &args[k]) {
                if r.mutability.is_some() {
                    if let (Pat::Ident(pi), Some(ai)) = (&pats[k], a.path.get_ident()) {
                        if pi.ident == *ai {
                            pats.remove(k);
                            tys.remove(k);
                            args.remove(k);
                            continue;
                        }
                    }
                    args[k] = parse_quote!(&mut *#a);
                } else if a.path.get_ident().is_some_and(|i| self.muts.contains(&i.to_string())) {
                    args[k] = parse_quote!(&*#a);
                }
            }
            k += 1;
        }
        // the type of a tried result is not known from what follows
        if tried && sig.generics.params.is_empty() {
            if let ReturnType::Type(_, t) = &sig.output {
                let st = std::mem::take(&mut body.stmts);
                body.stmts.push(parse_quote!(let vx_tried: #t = { #(#st)* };));
                body.stmts.push(Stmt::Expr(parse_quote!(vx_tried), None));
            }
        }
        let body = &body;
        let st = &body.stmts;
        if pats.is_empty() {
            Some(parse_quote!({ #(#st)* }))
        } else if pats.len() == 1 {
            let (p, a) = (&pats[0], &args[0]);
            Some(parse_quote!({ let #p = #a; #(#st)* }))
        } else {
            Some(parse_quote!({ let (#(#pats),*) = (#(#args),*); #(#st)* }))
        }
    }
    fn try_call(&mut self, e: &Expr, tail: bool, tried: bool) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = if let Some(i) = p.path.get_ident() {
                        i.to_string()
                    } else if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        let n = p.path.segments[1].ident.to_string();
                        let (sig, body) = self.methods.get(&n)?.clone();
                        if sig.receiver().is_some() {
                            return None;
                        }
                        return self.expand(&sig, &body, c.args.iter().cloned().collect(), tail, tried);
                    } else {
                        return None;
                    };
                    let (sig, body) = self.free.get(&name)?.clone();
                    return self.expand(&sig, &body, c.args.iter().cloned().collect(), tail, tried);
                }
                None
            }
            Expr::MethodCall(m) => {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") {
                        let (sig, body) = self.methods.get(&m.method.to_string())?.clone();
                        sig.receiver()?;
                        return self.expand(&sig, &body, m.args.iter().cloned().collect(), tail, tried);
                    }
                }
                None
            }
            _ => None,
        }
    }
    pub fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    self.tail_expr(e);
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, el)) = &mut i.else_branch {
                    self.tail_expr(el);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail_expr(x);
                }
            }
            _ => {
                if let Some(ne) = self.try_call(e, true, false) {
                    *e = ne;
                    self.depth += 1;
                    self.tail_expr(e);
                    self.depth -= 1;
                } else {
                    self.visit_expr_mut(e);
                }
            }
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                self.tail_expr(x);
            }
            return;
        }
        if let Expr::Try(t) = e {
            if let Some(ne) = self.try_call(&t.expr, false, true) {
                t.expr = Box::new(ne);
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
        }
        if let Some(ne) = self.try_call(e, false, false) {
            *e = ne;
            self.depth += 1;
            visit_mut::visit_expr_mut(self, e);
            self.depth -= 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // expressions inside format!/vec! arguments
        if m.path.is_ident("format") || m.path.is_ident("vec") {
            if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                let mut a2 = args.clone();
                let before = self.inlined.len();
                for e in a2.iter_mut() {
                    self.visit_expr_mut(e);
                }
                if self.inlined.len() != before {
                    m.tokens = a2.to_token_stream();
                }
            }
        }
    }
}

/// scalar constants of the module are replaced by their value; constants local to the body likewise
pub struct ConstSubst<'a> {
    pub consts: &'a HashMap<String, Expr>,
    pub ty: String,
    pub skip: HashSet<String>,
}
pub fn scalar_const(ty: &Type, e: &Expr) -> Option<Expr> {
    let t = ty.to_token_stream().to_string();
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) if i.suffix().is_empty() && ["usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "i8", "i16"].contains(&t.as_str()) => {
                let n = LitInt::new(&format!("{}{}", i.base10_digits(), t), Span::call_site());
                Some(parse_quote!(#n))
            }
            Lit::Float(_) | Lit::Verbatim(_) => None,
            _ => Some(e.clone()),
        },
        Expr::Paren(p) => scalar_const(ty, &p.expr),
        _ => None,
    }
}
impl<'a> ConstSubst<'a> {
    fn get(&self, p: &Path) -> Option<Expr> {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let k = match s.len() {
            1 => s[0].clone(),
            2 if s[0] == "Self" => format!("{}::{}", self.ty, s[1]),
            2 => format!("{}::{}", s[0], s[1]),
            _ => return None,
        };
        if self.skip.contains(&k) {
            return None;
        }
        self.consts.get(&k).cloned()
    }
}
impl<'a> VisitMut for ConstSubst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(v) = self.get(&p.path) {
                *e = v;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let path = match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => Some(Path::from(i.ident.clone())),
            Pat::Path(q) => Some(q.path.clone()),
            _ => None,
        };
        if let Some(Expr::Lit(l)) = path.and_then(|q| self.get(&q)) {
            *p = Pat::Lit(l);
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
/// constants declared inside the body: taken out, their values returned
pub fn local_consts(b: &mut Block) -> HashMap<String, Expr> {
    struct L(HashMap<String, Expr>);
    impl VisitMut for L {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| {
                if let Stmt::Item(Item::Const(c)) = s {
                    if let Some(v) = scalar_const(&c.ty, &c.expr) {
                        self.0.insert(c.ident.to_string(), v);
                        return false;
                    }
                }
                true
            });
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut l = L(HashMap::new());
    l.visit_block_mut(b);
    l.0
}

/// `if c { continue } rest` at the level of a loop's body becomes `if c { } else { rest }`
pub struct Continues;
fn structured(st: Vec<Stmt>) -> Vec<Stmt> {
    let mut out = vec![];
    let mut it = st.into_iter();
    while let Some(s) = it.next() {
        if let Stmt::Expr(Expr::If(i), _) = &s {
            if i.else_branch.is_none() {
                if let Some(Stmt::Expr(Expr::Continue(c), _)) = i.then_branch.stmts.last() {
                    if c.label.is_none() {
                        let rest: Vec<Stmt> = it.collect();
                        if rest.is_empty() {
                            out.push(s);
                            return out;
                        }
                        let mut i = i.clone();
                        i.then_branch.stmts.pop();
                        let rest = structured(rest);
                        let els: Block = parse_quote!({ #(#rest)* });
                        i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: els }))));
                        out.push(Stmt::Expr(Expr::If(i), None));
                        return out;
                    }
                }
            }
        }
        out.push(s);
    }
    out
}
impl VisitMut for Continues {
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
        l.body.stmts = structured(std::mem::take(&mut l.body.stmts));
        visit_mut::visit_expr_for_loop_mut(self, l);
    }
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        l.body.stmts = structured(std::mem::take(&mut l.body.stmts));
        visit_mut::visit_expr_while_mut(self, l);
    }
}
