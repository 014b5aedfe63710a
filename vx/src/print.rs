//! Token printer.  Loop annotations and proof text are inserted where the transformer left
//! `vx_loop!{N};` (first statement of a loop body) and `vx_at!{KEY};` markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    pub loop_text: &'a dyn Fn(usize) -> String,
    pub at_text: &'a dyn Fn(&str) -> String,
    need_space: bool,
}

impl<'a> Printer<'a> {
    pub fn new(loop_text: &'a dyn Fn(usize) -> String, at_text: &'a dyn Fn(&str) -> String) -> Self {
        Printer { out: String::new(), loop_text, at_text, need_space: false }
    }
    fn tok(&mut self, s: &str) {
        if self.need_space && !self.out.ends_with('\n') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.need_space = true;
    }
    fn nl(&mut self) {
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        self.need_space = false;
    }
    pub fn stream(&mut self, ts: TokenStream, in_brace: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // marker?
            if let TokenTree::Ident(id) = &v[i] {
                if (id == "vx_loop" || id == "vx_at") && i + 2 < v.len() {
                    if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i + 1], &v[i + 2]) {
                        if p.as_char() == '!' {
                            if id == "vx_at" {
                                let key = lit(&g.stream());
                                let t = (self.at_text)(&key);
                                if !t.trim().is_empty() {
                                    self.nl();
                                    self.out.push_str(&t);
                                    self.nl();
                                }
                            }
                            i += 3;
                            if i < v.len() {
                                if let TokenTree::Punct(p) = &v[i] {
                                    if p.as_char() == ';' {
                                        i += 1;
                                    }
                                }
                            }
                            continue;
                        }
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let brace = g.delimiter() == Delimiter::Brace;
                    if brace {
                        if let Some(n) = loop_marker(&g.stream()) {
                            let t = (self.loop_text)(n);
                            if !t.trim().is_empty() {
                                self.nl();
                                self.out.push_str(&t);
                                self.nl();
                            }
                        }
                    }
                    self.tok(o);
                    if brace {
                        self.nl();
                    } else {
                        self.need_space = false;
                    }
                    self.stream(g.stream(), brace);
                    if brace {
                        self.nl();
                    } else {
                        self.need_space = false;
                    }
                    self.tok(c);
                    if brace {
                        // newline unless followed by something that continues the expression
                        let cont = match v.get(i + 1) {
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Ident(id)) => id == "else",
                            Some(TokenTree::Group(_)) => false,
                            _ => false,
                        };
                        if !cont {
                            self.nl();
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    if matches!(ch, ',' | ';' | '.') {
                        self.need_space = false;
                    }
                    if ch == '?' {
                        self.need_space = false;
                    }
                    self.tok(&ch.to_string());
                    if p.spacing() == Spacing::Joint || ch == '.' && !matches!(v.get(i + 1), Some(TokenTree::Literal(_))) {
                        self.need_space = false;
                    }
                    if ch == '&' && p.spacing() == Spacing::Alone {
                        self.need_space = true;
                    }
                    if ch == ';' || (ch == ',' && in_brace) {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => self.tok(&id.to_string()),
                TokenTree::Literal(l) => self.tok(&l.to_string()),
            }
            i += 1;
        }
    }
}

fn lit(ts: &TokenStream) -> String {
    let s = ts.to_string();
    s.trim().trim_matches('"').to_string()
}

fn loop_marker(ts: &TokenStream) -> Option<usize> {
    let v: Vec<TokenTree> = ts.clone().into_iter().take(3).collect();
    if v.len() == 3 {
        if let (TokenTree::Ident(id), TokenTree::Group(g)) = (&v[0], &v[2]) {
            if id == "vx_loop" {
                return lit(&g.stream()).parse().ok();
            }
        }
    }
    None
}
