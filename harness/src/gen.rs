//! Inputs: JSON values (with a renderer that varies white space and escapes) and a deterministic generator.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>), // keys are distinct
}
use J::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

pub fn is_float(s: &str) -> bool {
    s.contains(['.', 'e', 'E'])
}

pub fn json_string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl J {
    pub fn show(&self) -> String {
        match self {
            Null => "null".into(),
            Bool(b) => b.to_string(),
            Num(n) => n.clone(),
            Str(s) => json_string(s),
            Arr(a) => format!("[{}]", a.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
            Obj(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", json_string(k), v.show())).collect::<Vec<_>>().join(",")),
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            Obj(m) => m.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Arr(a) => 1 + a.iter().map(|x| x.size()).sum::<usize>(),
            Obj(m) => 1 + m.iter().map(|x| x.1.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

pub fn int(i: i64) -> J {
    Num(i.to_string())
}
pub fn num(s: &str) -> J {
    Num(s.to_string())
}
pub fn st(s: &str) -> J {
    Str(s.to_string())
}
pub fn obj(f: &[(&str, J)]) -> J {
    Obj(f.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

/// a spread of small values covering every constructor and the interesting nestings
pub fn base_values() -> Vec<J> {
    let n = || int(1);
    vec![
        Null,
        Bool(true),
        n(),
        num("1.5"),
        num("2e3"),
        num("-7E-2"),
        st("s"),
        Arr(vec![]),
        Arr(vec![n()]),
        Arr(vec![Null]),
        Arr(vec![n(), st("x")]),
        Arr(vec![n(), n()]),
        Arr(vec![n(), num("2.5")]),
        Arr(vec![st("x"), n(), Bool(true)]),
        Arr(vec![Arr(vec![n()])]),
        Arr(vec![Arr(vec![]), Arr(vec![st("q")])]),
        Arr(vec![Null, n()]),
        Arr((0..13).map(int).collect()),
        Arr((0..14).map(|i| if i == 13 { st("z") } else { int(i) }).collect()),
        Arr((0..13).map(|i| if i == 12 { Null } else { int(i) }).collect()),
        obj(&[]),
        obj(&[("a", n())]),
        obj(&[("a", Null)]),
        obj(&[("a", st("s"))]),
        obj(&[("a", num("1.5"))]),
        obj(&[("b", n())]),
        obj(&[("b", n()), ("a", Bool(false))]),
        obj(&[("a", n()), ("b", Null), ("c", st("x"))]),
        obj(&[("a", obj(&[("a", n())]))]),
        obj(&[("a", obj(&[("a", Null)]))]),
        obj(&[("a", obj(&[]))]),
        obj(&[("a", Arr(vec![]))]),
        obj(&[("a", Arr(vec![n(), st("s")]))]),
        obj(&[("a", Arr(vec![obj(&[("b", n())]), obj(&[("c", n())])]))]),
        obj(&[("a", Arr(vec![Null, obj(&[("b", n())])]))]),
    ]
}

pub const KEYS: &[&str] = &["a", "b", "c", "d", "type", "id"];

pub struct Gen {
    pub rng: Rng,
    pub keys: Vec<String>,
    pub strings: Vec<String>,
    pub max_depth: usize,
    /// numbers beyond what the usual integer and floating point types hold
    pub wide: bool,
}
pub const WIDE: &[&str] = &[
    "-0", "0.0", "1.0", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616",
    "123456789012345678901234567890", "1e400", "100000000000000000000.5", "0e0", "10E1",
];
impl Gen {
    pub fn new(seed: u64) -> Self {
        Gen {
            rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234_5678),
            keys: KEYS.iter().map(|s| s.to_string()).collect(),
            strings: ["", "s", "hello world", "é", "日本"].iter().map(|s| s.to_string()).collect(),
            max_depth: 3,
            wide: false,
        }
    }
    pub fn number(&mut self) -> J {
        if self.wide && self.rng.chance(1, 4) {
            return num(self.rng.pick(WIDE));
        }
        let c = ["0", "1", "-1", "42", "1.5", "-0.25", "1e5", "1E+2", "3.0e-7", "9007199254740993", "12345678901"];
        num(self.rng.pick(&c))
    }
    pub fn value(&mut self, depth: usize) -> J {
        let top = if depth >= self.max_depth { 6 } else { 12 };
        match self.rng.below(top) {
            0 => Null,
            1 => Bool(self.rng.chance(1, 2)),
            2 | 3 => self.number(),
            4 | 5 => {
                let s = self.strings.clone();
                Str(self.rng.pick(&s).clone())
            }
            6..=8 => {
                let n = if self.rng.chance(1, 12) { 11 + self.rng.below(5) } else { self.rng.below(4) };
                if self.rng.chance(1, 2) {
                    let b = self.value(depth + 1);
                    Arr((0..n).map(|_| self.mutate(&b, depth + 1)).collect())
                } else {
                    Arr((0..n).map(|_| self.value(depth + 1)).collect())
                }
            }
            _ => {
                let n = self.rng.below(4);
                let mut m: Vec<(String, J)> = vec![];
                for _ in 0..n {
                    let ks = self.keys.clone();
                    let k = self.rng.pick(&ks).clone();
                    if m.iter().all(|e| e.0 != k) {
                        let v = self.value(depth + 1);
                        m.push((k, v));
                    }
                }
                Obj(m)
            }
        }
    }
    /// a value of a similar structure: drops, adds, nulls or replaces parts
    pub fn mutate(&mut self, v: &J, depth: usize) -> J {
        if self.rng.chance(1, 8) {
            return Null;
        }
        if self.rng.chance(1, 10) {
            return self.value(depth);
        }
        match v {
            Obj(m) => {
                let mut o: Vec<(String, J)> = vec![];
                for (k, x) in m {
                    if self.rng.chance(1, 5) {
                        continue;
                    }
                    let nx = self.mutate(x, depth + 1);
                    o.push((k.clone(), nx));
                }
                if self.rng.chance(1, 5) {
                    let ks = self.keys.clone();
                    let k = self.rng.pick(&ks).clone();
                    if o.iter().all(|e| e.0 != k) {
                        let nv = self.value(depth + 1);
                        o.push((k, nv));
                    }
                }
                if o.len() > 1 && self.rng.chance(1, 4) {
                    o.reverse();
                }
                Obj(o)
            }
            Arr(a) => {
                let mut o: Vec<J> = a.iter().map(|x| self.mutate(x, depth + 1)).collect();
                if self.rng.chance(1, 6) {
                    o.pop();
                }
                Arr(o)
            }
            Num(_) if self.rng.chance(1, 3) => self.number(),
            x => x.clone(),
        }
    }
    pub fn batch(&mut self) -> Vec<J> {
        let n = 2 + self.rng.below(3);
        let b = self.value(1);
        let mut v = vec![b.clone()];
        for _ in 1..n {
            v.push(if self.rng.chance(3, 4) { self.mutate(&b, 1) } else { self.value(1) });
        }
        v
    }
}
