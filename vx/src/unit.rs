//! Contract files ("units").  Line oriented; directives start with `//@ `.
//!
//!   //@ include FILE [assume]      pull in another contract file; with `assume`, its functions are
//!                                  emitted with their contract only (they are proved in their own unit)
//!   //@ raw                        verbatim Verus text follows (ghost types, spec fns, lemmas, stand-ins)
//!   //@ file PATH                  source file (relative to /repo) for the items that follow
//!   //@ type NAME [derives A,B]    extract an enum/struct; the listed derives must be present in the source
//!   //@ const NAME kind            extract a const table (kind: strset | unroll | table; table is for loops over it)
//!   //@ fn PATH                    extract a function; contract text follows
//!   //@   result NAME              name of the result in the contract (default r)
//!   //@   header TEXT              text for the enclosing `impl ... {` (methods)
//!   //@   at ANCHOR                proof text follows; ANCHOR: start | end | loop N before|start|end|after
//!   //@   loop N                   loop invariant text follows
//!   //@   attr TEXT                verifier attribute on the function; `attr terminates`: every loop must have a measure
//!   //@ subst-type A => B          type substitution used on signatures and bodies
//!   //@ prologue TEXT             proof text put first in the bodies of the functions that follow
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub contract: String,
    pub result: String,
    pub header: Option<String>,
    pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub at: BTreeMap<String, String>,
    pub assume: bool,
    pub rename: Option<String>,
    pub src: String, // contract file
    pub sig: Option<String>,
    pub generics: Option<String>,
    pub prologue: String,
}

#[derive(Clone, Debug)]
pub enum Item {
    Raw(String),
    Type { file: String, name: String, derives: Vec<String>, extra: String },
    Const { file: String, name: String, kind: String },
    Fn(FnSpec),
}

#[derive(Default)]
pub struct Unit {
    pub items: Vec<Item>,
    pub substs: Vec<(String, String)>,
    pub renames: Vec<(String, String)>, // path renames a::b => c
    pub methods: Vec<(String, String)>,
    pub included: Vec<String>,
    pub prologue: String,
}

pub fn load(dir: &str, name: &str, assume: bool, u: &mut Unit) -> Result<(), String> {
    if u.included.iter().any(|x| x == name) {
        return Ok(());
    }
    u.included.push(name.to_string());
    let text = std::fs::read_to_string(format!("{}/{}", dir, name)).map_err(|e| format!("{}: {}", name, e))?;
    enum Cur {
        None,
        Raw(String),
        Ty,
        Fn(FnSpec, Sec),
    }
    #[derive(Clone)]
    enum Sec {
        Contract,
        Loop(usize),
        At(String),
    }
    let mut cur = Cur::None;
    let mut file = String::new();
    fn flush(cur: &mut Cur, u: &mut Unit) {
        let c = std::mem::replace(cur, Cur::None);
        match c {
            Cur::None | Cur::Ty => {}
            Cur::Raw(t) => u.items.push(Item::Raw(t)),
            Cur::Fn(f, _) => u.items.push(Item::Fn(f)),
        }
    }
    for (ln, line) in text.lines().enumerate() {
        let l = line.trim();
        if let Some(d) = l.strip_prefix("//@") {
            let d = d.trim();
            let (kw, rest) = match d.find(char::is_whitespace) {
                Some(i) => (&d[..i], d[i..].trim()),
                None => (d, ""),
            };
            match kw {
                "include" => {
                    flush(&mut cur, u);
                    let mut p = rest.split_whitespace();
                    let f = p.next().unwrap().to_string();
                    let a = p.next() == Some("assume");
                    load(dir, &f, a || assume, u)?;
                }
                "raw" => {
                    flush(&mut cur, u);
                    cur = Cur::Raw(String::new());
                }
                "raw-unless-assumed" => {
                    flush(&mut cur, u);
                    cur = if assume { Cur::None } else { Cur::Raw(String::new()) };
                }
                "file" => {
                    flush(&mut cur, u);
                    file = rest.to_string();
                }
                "subst-type" => {
                    flush(&mut cur, u);
                    let (a, b) = rest.split_once("=>").ok_or("subst-type")?;
                    u.substs.push((norm(a), b.trim().to_string()));
                }
                "rename-method" => {
                    flush(&mut cur, u);
                    let (a, b) = rest.split_once("=>").ok_or("rename-method")?;
                    u.methods.push((a.trim().to_string(), b.trim().to_string()));
                }
                "rename-path" => {
                    flush(&mut cur, u);
                    let (a, b) = rest.split_once("=>").ok_or("rename-path")?;
                    u.renames.push((norm(a), b.trim().to_string()));
                }
                "type" => {
                    flush(&mut cur, u);
                    let mut p = rest.split_whitespace();
                    let n = p.next().unwrap().to_string();
                    let mut derives = vec![];
                    let mut extra = String::new();
                    while let Some(w) = p.next() {
                        if w == "derives" {
                            derives = p.next().unwrap().split(',').map(|s| s.to_string()).collect();
                        } else if w == "keep" {
                            extra = p.next().unwrap().to_string();
                        }
                    }
                    u.items.push(Item::Type { file: file.clone(), name: n, derives, extra });
                    cur = Cur::Ty;
                }
                "const" => {
                    flush(&mut cur, u);
                    let mut p = rest.split_whitespace();
                    let n = p.next().unwrap().to_string();
                    let k = p.next().unwrap_or("strset").to_string();
                    u.items.push(Item::Const { file: file.clone(), name: n, kind: k });
                }
                "fn" => {
                    flush(&mut cur, u);
                    let mut p = rest.split_whitespace();
                    let path = p.next().unwrap().to_string();
                    let mut f = FnSpec { file: file.clone(), path, result: "r".into(), assume, src: name.to_string(), prologue: u.prologue.clone(), ..Default::default() };
                    match p.next() {
                        Some("as") => f.rename = p.next().map(|s| s.to_string()),
                        Some("assumed") => f.assume = true,
                        _ => {}
                    }
                    cur = Cur::Fn(f, Sec::Contract);
                }
                "result" | "header" | "attr" | "at" | "loop" | "sig" | "generics" => {
                    if let Cur::Fn(f, sec) = &mut cur {
                        match kw {
                            "result" => f.result = rest.to_string(),
                            "header" => f.header = Some(rest.to_string()),
                            "sig" => f.sig = Some(rest.to_string()),
                            "generics" => f.generics = Some(rest.to_string()),
                            "attr" => f.attrs.push(rest.to_string()),
                            "at" => {
                                *sec = Sec::At(rest.split_whitespace().collect::<Vec<_>>().join(" "));
                            }
                            "loop" => *sec = Sec::Loop(rest.parse().map_err(|_| format!("{}:{} bad loop", name, ln + 1))?),
                            _ => unreachable!(),
                        }
                    } else {
                        return Err(format!("{}:{}: {} outside fn", name, ln + 1, kw));
                    }
                }
                "prologue" => {
                    flush(&mut cur, u);
                    if !assume {
                        u.prologue = format!("{}\n", rest);
                    }
                }
                "end" => flush(&mut cur, u),
                "note" => {}
                _ => return Err(format!("{}:{}: unknown directive {}", name, ln + 1, kw)),
            }
            continue;
        }
        match &mut cur {
            Cur::None | Cur::Ty => {
                if !l.is_empty() && !l.starts_with("//") && !assume {
                    return Err(format!("{}:{}: stray text", name, ln + 1));
                }
            }
            Cur::Raw(t) => {
                t.push_str(line);
                t.push('\n');
            }
            Cur::Fn(f, sec) => {
                let tgt = match sec {
                    Sec::Contract => &mut f.contract,
                    Sec::Loop(n) => f.loops.entry(*n).or_default(),
                    Sec::At(a) => f.at.entry(a.clone()).or_default(),
                };
                tgt.push_str(line);
                tgt.push('\n');
            }
        }
    }
    flush(&mut cur, u);
    Ok(())
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
