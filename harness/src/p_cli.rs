//! C22: the command-line tool and its output file, on the real binary (VX_CLI), in a scratch directory.
use crate::gen::*;
use crate::*;
use std::io::Write;
use std::process::{Command, Stdio};

struct Call {
    args: Vec<String>,
    stdin: Vec<u8>,
}
fn call(cli: &str, dir: &str, c: &Call, out: Option<&str>) -> (bool, Vec<u8>) {
    let mut p = Command::new(cli);
    p.current_dir(dir).args(&c.args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if let Some(o) = out {
        p.arg("-o").arg(o);
    }
    let mut p = p.spawn().expect("cli starts");
    let mut i = p.stdin.take().unwrap();
    let b = c.stdin.clone();
    let t = std::thread::spawn(move || {
        let _ = i.write_all(&b);
    });
    let o = p.wait_with_output().expect("cli ends");
    let _ = t.join();
    (o.status.success(), o.stdout)
}
/// what the library makes of the same input; None: it fails
fn expected(name: Option<&str>, block: Option<&str>, mode: Option<&str>, input: &str) -> Option<String> {
    use json_typegen_shared::{codegen_from_macro, parse};
    if input.trim().starts_with("json_typegen") {
        return std::panic::catch_unwind(|| codegen_from_macro(input)).ok()?.ok();
    }
    let mut o = match block {
        Some(b) => parse::options(b).ok()?,
        None => Options::default(),
    };
    if let Some(m) = mode {
        o.output_mode = OutputMode::parse(m)?;
    }
    run_codegen(name.unwrap_or("Root"), input, o).ok()?.ok()
}

pub fn output_file(r: &mut Run) -> Res {
    let cli = std::env::var("VX_CLI").expect("VX_CLI");
    let dir = scratch();
    let mut g = Gen::new(r.seed);
    let bad = ["[", "{\"a\" 1}", "{\"a\":}", "[1,]", "", "nonsense", "/no/such/file.json", "{\"a\":\"\\q\"}", "[\"\\ud800\"]", "json_typegen!(", "json_typegen!(\"Foo\", \"[\")", "{\"a\":[1,2}"];
    let mut n = 0u64;
    while r.more() || n < 60 {
        n += 1;
        let sample = if g.rng.chance(1, 2) {
            (*g.rng.pick(&bad)).to_string()
        } else {
            let v = match g.value(0) {
                v @ (J::Arr(_) | J::Obj(_)) => v,
                v => J::Arr(vec![v]),
            };
            if g.rng.chance(1, 8) {
                format!("json_typegen!(\"Foo\", r###\"{}\"###)", v.show())
            } else {
                v.show()
            }
        };
        let name = if g.rng.chance(1, 3) { Some(*g.rng.pick(&["Foo", "pub Bar", "pub(crate) Baz", "é"])) } else { None };
        let block = if g.rng.chance(1, 2) {
            Some(*g.rng.pick(&["{}", "{ output_mode: \"zod\" }", "{ unwrap: \"/nowhere\" }", "{ unwrap: \"/-\" }", "{", "nope", "{ output_mode: \"nope\" }", "{ import_style: \"add_imports\" }", "{ input_mode: \"sql\" }"]))
        } else {
            None
        };
        let mode = if g.rng.chance(1, 2) { Some(*g.rng.pick(&["rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "shape", "nonsense"])) } else { None };
        let mut c = Call { args: vec![], stdin: vec![] };
        let mut text = Some(sample.clone());
        match g.rng.below(4) {
            0 if !sample.is_empty() && !sample.starts_with('-') => c.args.push(sample.clone()),
            1 => {
                std::fs::write(format!("{}/in.json", dir), &sample).unwrap();
                c.args.push("in.json".into());
                text = Some(format!("{}/in.json", dir));
            }
            2 if g.rng.chance(1, 4) => {
                c.stdin = vec![b'[', b'"', 0xff, b'"', b']'];
                c.args.push("-".into());
                text = None;
            }
            _ => {
                c.stdin = sample.clone().into_bytes();
                c.args.push("-".into());
            }
        }
        for (k, v) in [("--name", name), ("--options", block), ("-O", mode)] {
            if let Some(v) = v {
                c.args.push(k.into());
                c.args.push(v.into());
            }
        }
        // the document is not read back from the file the output goes to, unless it is meant to be
        let out = if c.args[0] == "in.json" && g.rng.chance(1, 4) { "in.json" } else { "out file.txt" };
        let path = format!("{}/{}", dir, out);
        let old: Option<String> = if out == "in.json" { Some(sample.clone()) } else if g.rng.chance(1, 5) { None } else { Some(g.rng.pick(&["", "precious\n", "x".repeat(9000).as_str()]).to_string()) };
        match &old {
            Some(o) => std::fs::write(&path, o).unwrap(),
            None => {
                let _ = std::fs::remove_file(&path);
            }
        }
        let want = text.as_deref().and_then(|t| if mode == Some("nonsense") { None } else { expected(name, block, mode, t) });
        let d = format!("json_typegen {:?} -o {:?}\nstandard input: {:?}\nsample: {}\nold contents of the output file: {:?}", c.args, out, String::from_utf8_lossy(&c.stdin), sample, old.as_ref().map(|o| o.chars().take(40).collect::<String>()));
        let (plain_ok, plain) = if out == "in.json" { (want.is_some(), vec![]) } else { call(&cli, &dir, &c, None) };
        let (ok, _) = call(&cli, &dir, &c, Some(out));
        let now = std::fs::read(&path).ok();
        if ok != want.is_some() || plain_ok != want.is_some() {
            return fail(d, format!("the tool {} (without -o: {}), the library {}", ok, plain_ok, want.is_some()));
        }
        match (&want, &old) {
            (Some(w), _) => {
                if now.as_deref() != Some(w.as_bytes()) {
                    return fail(d, format!("the output file does not hold exactly the generated code\nwant {:?}\ngot {:?}", w, now.map(|b| String::from_utf8_lossy(&b).into_owned())));
                }
                if out != "in.json" && plain != w.as_bytes() {
                    return fail(d, format!("what is printed is not the generated code: {:?}", String::from_utf8_lossy(&plain)));
                }
            }
            (None, Some(o)) => {
                if now.as_deref() != Some(o.as_bytes()) {
                    return fail(d, format!("generation failed, and the output file lost its contents: {:?}", now.map(|b| String::from_utf8_lossy(&b).into_owned())));
                }
            }
            (None, None) => {}
        }
        r.note(|| d.clone(), true);
    }
    Ok(())
}
