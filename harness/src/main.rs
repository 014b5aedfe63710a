mod gen;
mod langs;
mod types;
use gen::*;
use json_typegen_shared::{codegen, Options, OutputMode};
use std::time::{Duration, Instant};
use types::*;

pub struct Fail {
    pub input: String,
    pub why: String,
}
pub struct Run {
    pub deadline: Instant,
    pub seed: u64,
    pub cases: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub seen: std::collections::HashSet<u64>,
}
impl Run {
    pub fn more(&self) -> bool {
        Instant::now() < self.deadline
    }
    pub fn note(&mut self, s: impl FnOnce() -> String, nontrivial: bool) {
        self.cases += 1;
        if nontrivial {
            use std::hash::{Hash, Hasher};
            let t = s();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            if self.seen.insert(h.finish()) {
                self.nontrivial += 1;
                let n = self.nontrivial;
                if n <= 3 || (n.is_power_of_two() && self.samples.len() < 10) {
                    self.samples.push(t.chars().take(300).collect());
                }
            }
        }
    }
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(input: impl Into<String>, why: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { input: input.into(), why: why.into() })
}

pub fn opts(m: OutputMode) -> Options {
    let mut o = Options::default();
    o.output_mode = m;
    o
}

/// codegen, with a panic reported as such
pub fn run_codegen(name: &str, input: &str, o: Options) -> Result<Result<String, String>, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| codegen(name, input, o)));
    match r {
        Ok(Ok(s)) => Ok(Ok(s)),
        Ok(Err(e)) => Ok(Err(json_typegen_shared::internal_util::display_error_with_causes(&e))),
        Err(p) => Err(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
    }
}
pub fn must(name: &str, input: &str, o: Options) -> Result<String, Fail> {
    match run_codegen(name, input, o) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => fail(input, format!("valid input rejected: {}", e)),
        Err(e) => fail(input, format!("panicked: {}", e)),
    }
}
pub fn shape_ty(input: &str, o: Options) -> Result<Ty, Fail> {
    let s = must("Root", input, o)?;
    let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| Fail { input: input.into(), why: format!("shape output is not JSON: {}\n{}", e, s) })?;
    from_shape_json(&v).map_err(|e| Fail { input: input.into(), why: e })
}

mod p_lang;
mod p_json;
mod p_merge;
mod p_misc;
mod p_cli;

/// a scratch directory of this run
pub fn scratch() -> String {
    let d = format!("{}/vx-harness-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Run {
        deadline: Instant::now() + Duration::from_secs_f64(secs),
        seed,
        cases: 0,
        nontrivial: 0,
        samples: vec![],
        seen: Default::default(),
    };
    let res = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn({
            let prop = prop.to_string();
            move || {
                let x = match prop.as_str() {
                    "C01" => p_merge::merge_sound(&mut r),
                    "C02" => p_json::tightness(&mut r),
                    "C04" => p_json::strings(&mut r),
                    "C05" => p_json::lexing(&mut r),
                    "C06" => p_json::inference(&mut r),
                    "C07" => p_json::grammar(&mut r),
                    "C08" => p_json::hints(&mut r),
                    "C09" => p_json::unwrapping(&mut r),
                    "C03" => p_lang::reuse(&mut r),
                    "C10" => p_lang::rust_names(&mut r),
                    "C11" => p_lang::other_names(&mut r),
                    "C12" => p_lang::distinct_names(&mut r),
                    "C13" => p_lang::keys(&mut r),
                    "C14" => p_lang::rust_accepts(&mut r),
                    "C15" => p_lang::others_accept(&mut r),
                    "C16" => p_lang::well_formed(&mut r),
                    "C17" => p_lang::schema_accepts(&mut r),
                    "C18" => p_lang::imports(&mut r),
                    "C19" => p_misc::sql(&mut r),
                    "C20" => p_misc::option_names(&mut r),
                    "C22" => p_cli::output_file(&mut r),
                    "C21" => p_misc::names_and_newlines(&mut r),
                    _ => {
                        eprintln!("no harness for {}", prop);
                        std::process::exit(2)
                    }
                };
                (x, r)
            }
        })
        .unwrap()
        .join();
    let _ = std::fs::remove_dir_all(scratch());
    let (res, r) = match res {
        Ok(x) => x,
        Err(_) => {
            eprintln!("harness panicked");
            std::process::exit(2)
        }
    };
    let mut out = serde_json::json!({
        "evaluations": r.cases, "distinct_nontrivial": r.nontrivial, "samples": r.samples
    });
    let mut code = 0;
    if let Err(f) = res {
        out["failing_input"] = f.input.into();
        out["why"] = f.why.into();
        code = 1;
    }
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
    std::process::exit(code);
}
