//! reading samples: lexer, grammar, inference, hints, unwrapping
use crate::*;
use json_typegen_shared::parse;

/// code generation on raw bytes (through a file)
pub fn run_bytes(b: &[u8], o: Options) -> Result<Result<String, String>, String> {
    let p = format!("{}/in.json", scratch());
    std::fs::write(&p, b).expect("scratch file");
    run_codegen("Root", &p, o)
}
fn lossy(b: &[u8]) -> String {
    if b.len() > 2000 {
        return format!("{} ... ({} bytes) ... {}", lossy(&b[..200]), b.len(), lossy(&b[b.len() - 200..]));
    }
    format!("{:?} (bytes {:?})", String::from_utf8_lossy(b), if b.len() < 80 { b.to_vec() } else { vec![] })
}
/// the keys of a shape output whose root is an object
fn keys_of(out: &str) -> Option<Vec<String>> {
    let v: serde_json::Value = serde_json::from_str(out).ok()?;
    Some(v.as_object()?.keys().cloned().collect())
}

// ------------------------------------------------------------------------------------------ C04
/// RFC 8259 decoding of what stands between the quotes (None: not a string literal); raw control characters are
/// passed through here, as the property leaves them open
fn decode(b: &[u8]) -> Option<String> {
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    let hex = |i: usize| -> Option<u32> {
        let mut v = 0;
        for k in 0..4 {
            v = v * 16 + (*b.get(i + k)? as char).to_digit(16)?;
        }
        Some(v)
    };
    while i < b.len() {
        match b[i] {
            b'"' => return None,
            b'\\' => {
                let c = *b.get(i + 1)?;
                i += 2;
                match c {
                    b'"' | b'\\' | b'/' => o.push(c),
                    b'b' => o.push(8),
                    b'f' => o.push(12),
                    b'n' => o.push(10),
                    b'r' => o.push(13),
                    b't' => o.push(9),
                    b'u' => {
                        let h = hex(i)?;
                        i += 4;
                        let c = if (0xd800..0xdc00).contains(&h) {
                            if b.get(i) != Some(&b'\\') || b.get(i + 1) != Some(&b'u') {
                                return None;
                            }
                            let l = hex(i + 2)?;
                            i += 6;
                            if !(0xdc00..0xe000).contains(&l) {
                                return None;
                            }
                            0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)
                        } else {
                            h
                        };
                        let mut buf = [0; 4];
                        o.extend(char::from_u32(c)?.encode_utf8(&mut buf).bytes());
                    }
                    _ => return None,
                }
            }
            c => {
                o.push(c);
                i += 1;
            }
        }
    }
    String::from_utf8(o).ok()
}
/// literal bodies that must all decode; distinct after decoding
fn literals(r: &mut Run, lits: &[Vec<u8>]) -> Res {
    let mut doc = b"{".to_vec();
    let mut want = vec![];
    for (i, l) in lits.iter().enumerate() {
        if i > 0 {
            doc.push(b',');
        }
        doc.push(b'"');
        doc.extend(l);
        doc.extend(format!("{}\":1", i).bytes());
        let mut w = decode(l).unwrap();
        w += &i.to_string();
        want.push(w);
    }
    doc.push(b'}');
    let desc = || if lits.len() == 1 { lossy(&doc) } else { format!("{} ...", lossy(&doc[..doc.len().min(200)])) };
    match run_bytes(&doc, opts(OutputMode::Shape)) {
        Ok(Ok(s)) => match keys_of(&s) {
            Some(mut k) => {
                let mut w = want.clone();
                k.sort();
                w.sort();
                if k != w {
                    if lits.len() > 1 {
                        for l in lits {
                            literals(r, &[l.clone()])?;
                        }
                    }
                    let bad: Vec<_> = k.iter().filter(|x| !w.contains(x)).take(3).collect();
                    return fail(desc(), format!("decoded to {:?} instead of {:?}", bad, w.iter().filter(|x| !k.contains(x)).take(3).collect::<Vec<_>>()));
                }
            }
            None => return fail(desc(), format!("unexpected output {}", s)),
        },
        Ok(Err(e)) => {
            if lits.len() > 1 {
                for l in lits {
                    literals(r, &[l.clone()])?;
                }
            }
            return fail(desc(), format!("valid string literal rejected: {}", e));
        }
        Err(e) => return fail(desc(), format!("panicked: {}", e)),
    }
    r.note(|| desc(), true);
    Ok(())
}
fn literal_bad(r: &mut Run, l: &[u8]) -> Res {
    for doc in [[b"{\"".as_ref(), l, b"\":1}"].concat(), [b"[1,\"".as_ref(), l, b"\"]"].concat()] {
        match run_bytes(&doc, opts(OutputMode::Shape)) {
            Ok(Ok(s)) => return fail(lossy(&doc), format!("invalid string literal accepted: {}", s)),
            Ok(Err(_)) => {}
            Err(e) => return fail(lossy(&doc), format!("panicked: {}", e)),
        }
        r.note(|| lossy(&doc), true);
    }
    Ok(())
}
pub fn strings(r: &mut Run) -> Res {
    let esc = |c: u32, k: usize| -> Vec<u8> {
        match k {
            0 => format!("\\u{:04x}", c),
            1 => format!("\\u{:04X}", c),
            _ => format!("\\u{:04x}", c).chars().enumerate().map(|(i, x)| if i % 2 == 0 && i > 1 { x.to_ascii_uppercase() } else { x }).collect(),
        }
        .into_bytes()
    };
    let mut g = Rng(r.seed);
    for blk in 0..256u32 {
        let v: Vec<Vec<u8>> = (blk * 256..blk * 256 + 256).filter(|c| !(0xd800..0xe000).contains(c)).map(|c| esc(c, (c as usize / 7 + r.seed as usize) % 3)).collect();
        if !v.is_empty() {
            literals(r, &v)?;
        }
    }
    for s in ["\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "", "a", "é", "日", "😀", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\\u0000", "\\\\u0041", "\\uFFFF"] {
        literals(r, &[s.as_bytes().to_vec()])?;
    }
    // long strings next to short ones, also around buffer sizes
    for n in [15usize, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 131000, 131065, 131072, 140000] {
        let l = |c: &str, n: usize| c.repeat(n / c.len()).into_bytes();
        for c in ["x", "é", "\\n", "\\uD83D\\uDE00", "😀"] {
            let sh = (r.seed as usize + n) % 3;
            literals(r, &[b"p"[..sh.min(1)].to_vec(), l(c, n), b"s".to_vec(), l(c, n / 2), vec![]])?;
            if n > 5000 {
                break;
            }
        }
    }
    for h in [0xd800u32, 0xd801, 0xd83d, 0xdaff, 0xdbfe, 0xdbff] {
        let v: Vec<Vec<u8>> = (0xdc00..0xe000u32).map(|l| [esc(h, l as usize % 3), esc(l, h as usize % 3)].concat()).collect();
        literals(r, &v)?;
    }
    let bmp = esc(0x41, 0);
    for h in (0xd800..0xe000u32).step_by(61).chain([0xd800, 0xdbff, 0xdc00, 0xdfff]) {
        let e = esc(h, h as usize % 3);
        for tail in [vec![], b"x".to_vec(), b"\\n".to_vec(), bmp.clone(), b"\\".to_vec(), b"u0041".to_vec()] {
            literal_bad(r, &[e.clone(), tail].concat())?;
        }
        if h < 0xdc00 {
            for l in [0x0, 0xd7ff, 0xd800, 0xdbff, 0xe000, 0xffff] {
                literal_bad(r, &[e.clone(), esc(l, 0)].concat())?;
            }
            literal_bad(r, &[e.clone(), b"\\x".to_vec(), esc(0xdc00, 0)[2..].to_vec()].concat())?;
            literal_bad(r, &[e.clone(), b"xu".to_vec(), esc(0xdc00, 0)[2..].to_vec()].concat())?;
            literal_bad(r, &[e.clone(), b"x".to_vec(), esc(0xdc00, 0)].concat())?;
        }
    }
    for b in 0..=255u8 {
        if !b"\"\\/bfnrtu".contains(&b) {
            literal_bad(r, &[b'\\', b, b'x'])?;
        }
        if !b.is_ascii_hexdigit() && b != b'"' && b != b'\\' {
            for p in 0..4 {
                let mut e = b"\\u0a1F".to_vec();
                e[2 + p] = b;
                literal_bad(r, &e)?;
            }
        }
        if b >= 0x80 {
            literal_bad(r, &[b])?;
            literal_bad(r, &[b'a', b, b'b'])?;
        }
    }
    for bad in [&[0xc0u8, 0x80][..], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98]] {
        literal_bad(r, bad)?;
    }
    for l in ["\\u", "\\u1", "\\u12", "\\u123", "\\ud83d\\u", "\\ud83d\\ude0"] {
        literal_bad(r, l.as_bytes())?;
    }
    for doc in ["{\"a", "{\"a\\", "{\"a\\u12", "[\"", "{\"a\":\"b", "[\"\\ud83d"] {
        match run_bytes(doc.as_bytes(), opts(OutputMode::Shape)) {
            Ok(Err(_)) => {}
            x => return fail(doc, format!("unterminated string: {:?}", x)),
        }
    }
    // mixtures
    let atoms: Vec<Vec<u8>> = vec![
        b"\\n".to_vec(), b"\\\\".to_vec(), b"\\\"".to_vec(), b"\\/".to_vec(), b"\\u00e9".to_vec(), b"\\uD83D\\uDE00".to_vec(), b"\\ud83d".to_vec(), b"\\udE00".to_vec(), b"a".to_vec(), "é".into(), "日".into(), "😀".into(),
        b"\\u".to_vec(), b"\\".to_vec(), b"u".to_vec(), b"0".to_vec(), b"D83D".to_vec(), vec![0xc3], vec![0xa9], vec![0x80], b"\\u0000".to_vec(), b"\\uDBFF\\uDFFF".to_vec(), b"F".to_vec(), b" ".to_vec(), b"/".to_vec(),
    ];
    while r.more() {
        let h = 0xd800 + g.below(0x400) as u32;
        let v: Vec<Vec<u8>> = (0xdc00..0xe000u32).map(|l| [esc(h, l as usize % 3), esc(l, h as usize % 3)].concat()).collect();
        literals(r, &v)?;
        let mut good = vec![];
        for _ in 0..200 {
            let n = 1 + g.below(6);
            let l: Vec<u8> = (0..n).flat_map(|_| g.pick(&atoms).clone()).collect();
            if l.contains(&b'"') && decode(&l).is_none() && !l.windows(2).all(|w| w[1] != b'"' || w[0] == b'\\') {
                continue;
            }
            // an escaped closing quote changes where the literal ends
            let mut bs = 0;
            for c in l.iter().rev() {
                if *c == b'\\' {
                    bs += 1
                } else {
                    break;
                }
            }
            match decode(&l) {
                Some(_) => good.push(l),
                None if bs % 2 == 0 && !l.contains(&b'"') => literal_bad(r, &l)?,
                None => {}
            }
        }
        if !good.is_empty() {
            literals(r, &good)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ tokens and grammar
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    P(u8),
    Lit(&'static str),
    Num(String),
    Str(Vec<u8>), // body as written
    Bad,
}
/// what the property says about tokens: maximal runs for numbers, exact literals, white space between tokens
fn lex(b: &[u8]) -> Vec<Tok> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'{' | b'}' | b'[' | b']' | b',' | b':' => {
                o.push(Tok::P(c));
                i += 1
            }
            b't' | b'f' | b'n' => {
                let l = match c {
                    b't' => "true",
                    b'f' => "false",
                    _ => "null",
                };
                if b[i..].starts_with(l.as_bytes()) {
                    o.push(Tok::Lit(l));
                    i += l.len();
                } else {
                    o.push(Tok::Bad);
                    return o;
                }
            }
            b'0'..=b'9' | b'-' => {
                let s = i;
                while i < b.len() && matches!(b[i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    i += 1
                }
                o.push(Tok::Num(String::from_utf8(b[s..i].to_vec()).unwrap()));
            }
            b'"' => {
                let s = i + 1;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                if i >= b.len() || decode(&b[s..i]).is_none() {
                    o.push(Tok::Bad);
                    return o;
                }
                o.push(Tok::Str(b[s..i].to_vec()));
                i += 1;
            }
            _ => {
                o.push(Tok::Bad);
                return o;
            }
        }
    }
    o
}
fn value(t: &[Tok]) -> Option<&[Tok]> {
    match t.first()? {
        Tok::Lit(_) | Tok::Num(_) | Tok::Str(_) => Some(&t[1..]),
        Tok::P(b'{') => {
            let mut r = &t[1..];
            if r.first()? == &Tok::P(b'}') {
                return Some(&r[1..]);
            }
            loop {
                match r {
                    [Tok::Str(_), Tok::P(b':'), rest @ ..] => r = value(rest)?,
                    _ => return None,
                }
                match r.first()? {
                    Tok::P(b'}') => return Some(&r[1..]),
                    Tok::P(b',') => r = &r[1..],
                    _ => return None,
                }
            }
        }
        Tok::P(b'[') => {
            let mut r = &t[1..];
            if r.first()? == &Tok::P(b']') {
                return Some(&r[1..]);
            }
            loop {
                r = value(r)?;
                match r.first()? {
                    Tok::P(b']') => return Some(&r[1..]),
                    Tok::P(b',') => r = &r[1..],
                    _ => return None,
                }
            }
        }
        _ => None,
    }
}
fn render(t: &[Tok], g: &mut Rng, ws: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut prev_num = false;
    for x in t {
        if ws > 0 || (prev_num && matches!(x, Tok::Num(_))) {
            for _ in 0..(g.below(3) * ws).max((prev_num && matches!(x, Tok::Num(_))) as usize) {
                o.push(*g.pick(b" \t\r\n"));
            }
        }
        match x {
            Tok::P(c) => o.push(*c),
            Tok::Lit(l) => o.extend(l.bytes()),
            Tok::Num(n) => o.extend(n.bytes()),
            Tok::Str(s) => {
                o.push(b'"');
                o.extend(s);
                o.push(b'"')
            }
            Tok::Bad => o.push(b'?'),
        }
        prev_num = matches!(x, Tok::Num(_));
    }
    o
}
fn agree(r: &mut Run, doc: &[u8], o: Options, nontrivial: bool) -> Result<Option<String>, Fail> {
    let want = value(&lex(doc)).is_some();
    let x = match run_bytes(doc, o) {
        Ok(Ok(s)) if want => Some(s),
        Ok(Err(_)) if !want => None,
        Ok(Ok(s)) => return fail(lossy(doc), format!("not JSON, but accepted: {}", s)),
        Ok(Err(e)) => return fail(lossy(doc), format!("rejected: {}", e)),
        Err(e) => return fail(lossy(doc), format!("panicked: {}", e)),
    };
    r.note(|| lossy(doc), nontrivial);
    Ok(x)
}
fn doc_gen(seed: u64) -> Gen {
    let mut g = Gen::new(seed);
    g.wide = true;
    g.max_depth = 4;
    g
}
/// C05
pub fn lexing(r: &mut Run) -> Res {
    let fixed: &[&str] = &[
        "", " ", "{", "}", "[", "]", ",", ":", "t", "tr", "tru", "true", "truex", "tRue", "f", "fals", "falsee", "n", "nul", "nulll", "-", "+", "+1", ".", ".5", "-.5", "1.", "1e", "1-1", "1+1", "01", "1e5E", "--", "NaN",
        "Infinity", "\"", "\"\"", "'a'", "/", "//", "# x", "\u{feff}1", "\u{a0}1", "\u{b}1", "\u{c}1", "\u{0}", "1\u{0}", "true false", "[true,false ,null]", "[truefalse]", "[1 2]", "[1,2", "{\"a\" 1}", "nullnull", "[1]2", "1.5.5",
        "{\"a\":1}}", "[\"a\"\"b\"]", "[-]", "[1e+5]", "[e5]", "[E]", "[0x10]", "[1_000]", "[1,,2]",
    ];
    for s in fixed {
        agree(r, s.as_bytes(), opts(OutputMode::Shape), true)?;
    }
    for b in 0..=255u8 {
        for pre in [&b""[..], b"[", b"[1", b"[1 ", b"{", b"[\"", b"[tru", b"[-", b"[1,"] {
            for post in [&b""[..], b"]", b"1]", b"\"]", b",1]"] {
                agree(r, &[pre, &[b], post].concat(), opts(OutputMode::Shape), true)?;
            }
        }
    }
    // floats are what contains a fraction or exponent character
    for n in ["1", "-1", "0", "1.0", "1e5", "1E5", "-1.5e-3", "10", "1E+2"] {
        let s = run_bytes(n.as_bytes(), opts(OutputMode::Shape));
        let w = if is_float(n) { "\"floating\"\n" } else { "\"integer\"\n" };
        if s != Ok(Ok(w.to_string())) {
            return fail(n, format!("{:?}", s));
        }
    }
    // long runs of everything
    for n in [9usize, 10, 11, 12, 13, 16, 31, 64, 100, 255, 256, 257, 1000, 1024, 4096, 8192, 131071, 131072, 131073] {
        for c in ["1", "-", " ", "\n", "[", "[]", "1,", "{\"a\":1},", "true,", "\"\",", "1e5 "] {
            if c == "[" && n > 200 {
                continue;
            }
            let m = c.repeat(n / c.len());
            let nt = true;
            agree(r, m.as_bytes(), opts(OutputMode::Shape), nt)?;
            agree(r, format!("[{}1]", m).as_bytes(), opts(OutputMode::Shape), nt)?;
            agree(r, format!("{{\"k\":\"v\"{}}}", m).as_bytes(), opts(OutputMode::Shape), nt)?;
        }
    }
    let mut g = doc_gen(r.seed);
    let alphabet: Vec<u8> = b"{}[],:\"\\ \t\n\rtruefalsn0123456789-+.eEub/\x00\x80\xff\xc3\xa9a".to_vec();
    while r.more() {
        let v = g.value(0).show().into_bytes();
        // white space does not matter
        let t = lex(&v);
        if t.contains(&Tok::Bad) {
            continue;
        }
        let a = agree(r, &render(&t, &mut g.rng, 0), opts(OutputMode::Shape), true)?;
        let b = agree(r, &render(&t, &mut g.rng, 1), opts(OutputMode::Shape), true)?;
        if a != b {
            return fail(lossy(&v), format!("white space changed the result\n{:?}\n{:?}", a, b));
        }
        // damaged documents
        for _ in 0..4 {
            let mut d = v.clone();
            for _ in 0..1 + g.rng.below(3) {
                let i = g.rng.below(d.len() + 1);
                match g.rng.below(4) {
                    0 if i < d.len() => d[i] = *g.rng.pick(&alphabet),
                    1 => d.insert(i, *g.rng.pick(&alphabet)),
                    2 if i < d.len() => {
                        d.remove(i);
                    }
                    3 => d.truncate(i),
                    _ => {}
                }
            }
            agree(r, &d, opts(OutputMode::Shape), true)?;
        }
        let n = g.rng.below(12);
        let d: Vec<u8> = (0..n).map(|_| *g.rng.pick(&alphabet)).collect();
        agree(r, &d, opts(OutputMode::Shape), n > 0)?;
    }
    Ok(())
}

fn scalar_free(v: &J) -> usize {
    v.size()
}
fn admits_doc(r: &mut Run, v: &J, th: Option<usize>) -> Res {
    let mut o = opts(OutputMode::Shape);
    o.infer_map_threshold = th;
    let text = v.show();
    let s = match run_bytes(text.as_bytes(), o) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return fail(text, format!("valid sample rejected: {}", e)),
        Err(e) => return fail(text, format!("panicked: {}", e)),
    };
    let d = || format!("threshold {:?}, sample {}", th, text);
    let j: serde_json::Value = serde_json::from_str(&s).map_err(|e| Fail { input: d(), why: format!("shape output is not JSON: {}", e) })?;
    let t = from_shape_json(&j).map_err(|e| Fail { input: d(), why: e })?;
    if let Err(w) = accepts(&Env::new(), &t, Some(v), "", 50) {
        return fail(d(), format!("the inferred shape {:?} does not admit the sample: {}", t, w));
    }
    // with a threshold exactly the larger objects are maps; without one there is none
    fn maps(t: &Ty, v: &J, th: Option<usize>) -> Result<(), String> {
        match (t, v) {
            (Ty::Map(e), J::Obj(m)) => {
                if th.is_none() {
                    return Err("map without a threshold".into());
                }
                m.iter().try_for_each(|x| maps(e, &x.1, th))
            }
            (Ty::Obj(d), J::Obj(m)) => {
                if let Some(n) = th {
                    if m.len() > n {
                        return Err(format!("an object with {} keys is not a map", m.len()));
                    }
                }
                m.iter().try_for_each(|(k, x)| match d.fields.iter().find(|f| &f.key == k) {
                    Some(f) => maps(&f.ty, x, th),
                    None => Ok(()),
                })
            }
            (Ty::Nullable(t), v) | (Ty::Opt(t), v) => maps(t, v, th),
            (Ty::Arr(t), J::Arr(a)) => a.iter().try_for_each(|x| maps(t, x, th)),
            (Ty::Tup(ts), J::Arr(a)) => ts.iter().zip(a).try_for_each(|(t, x)| maps(t, x, th)),
            _ => Ok(()),
        }
    }
    if let Err(w) = maps(&t, v, th) {
        return fail(d(), w);
    }
    r.note(d, scalar_free(v) > 1);
    Ok(())
}
/// C06
pub fn inference(r: &mut Run) -> Res {
    let b = base_values();
    for v in &b {
        for th in [None, Some(0), Some(1), Some(2)] {
            admits_doc(r, v, th)?;
        }
    }
    // lengths around the tuple limit, with one element that differs
    for n in [1usize, 2, 3, 10, 11, 12, 13, 14, 15, 25, 40] {
        for at in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
            for odd in [J::Null, st("s"), num("1.5"), obj(&[("z", int(1))]), J::Arr(vec![int(1)])] {
                let a: Vec<J> = (0..n).map(|i| if i == at { odd.clone() } else { int(i as i64) }).collect();
                admits_doc(r, &J::Arr(a.clone()), None)?;
                admits_doc(r, &obj(&[("a", J::Arr(a.iter().map(|x| obj(&[("f", x.clone())])).collect()))]), Some(1))?;
            }
        }
        // thresholds
        let m = J::Obj((0..n).map(|i| (format!("k{}", i), if i == n - 1 { st("x") } else { int(1) })).collect());
        for th in [n - 1, n, n + 1] {
            admits_doc(r, &m, Some(th))?;
            admits_doc(r, &J::Arr(vec![m.clone(), obj(&[])]), Some(th))?;
        }
    }
    // large ones
    for n in [64usize, 65, 100, 128, 129, 256, 300, 1025, 5000] {
        for at in [0, 1, n / 2, n - 1] {
            for odd in [J::Null, st("s"), num("1.5")] {
                let a: Vec<J> = (0..n).map(|i| if i == at { odd.clone() } else { int(i as i64) }).collect();
                admits_doc(r, &J::Arr(a.clone()), None)?;
                let m = J::Obj(a.into_iter().enumerate().map(|(i, x)| (format!("k{}", i), x)).collect());
                admits_doc(r, &m, None)?;
                admits_doc(r, &m, Some(30))?;
            }
        }
    }
    let mut deep = int(1);
    for i in 0..200 {
        deep = if i % 2 == 0 { J::Arr(vec![deep]) } else { obj(&[("a", deep)]) };
    }
    if let Ok(Err(e)) | Err(e) = run_bytes(deep.show().as_bytes(), opts(OutputMode::Shape)) {
        return fail(deep.show(), e);
    }
    let mut g = doc_gen(r.seed);
    while r.more() {
        let v = if g.rng.chance(1, 2) { g.value(0) } else { J::Arr(g.batch()) };
        let th = match g.rng.below(6) {
            0 => Some(0),
            1 => Some(1),
            2 => Some(2),
            _ => None,
        };
        admits_doc(r, &v, th)?;
        // the document ends where its value ends, white space is irrelevant
        let t = lex(v.show().as_bytes());
        let x = render(&t, &mut g.rng, 1);
        let a = run_bytes(v.show().as_bytes(), opts(OutputMode::Shape));
        let b = run_bytes(&x, opts(OutputMode::Shape));
        if a != b {
            return fail(lossy(&x), format!("{:?}\ninstead of {:?}", b, a));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ positions
fn paths(v: &J, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(cur.clone());
    match v {
        J::Arr(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                paths(x, cur, out);
                cur.pop();
            }
        }
        J::Obj(m) => {
            for (k, x) in m {
                cur.push(k.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}
fn hits(p: &[String], path: &[String]) -> bool {
    p.len() == path.len() && p.iter().zip(path).all(|(a, b)| a == "-" || a == b)
}
fn pointer(p: &[String]) -> String {
    p.iter().map(|s| format!("/{}", s)).collect()
}
fn rnd_pointer(g: &mut Gen, v: &J) -> Vec<String> {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    let mut p = g.rng.pick(&ps).clone();
    for s in p.iter_mut() {
        if g.rng.chance(1, 3) {
            *s = "-".into();
        } else if g.rng.chance(1, 12) {
            *s = g.rng.pick(&["a", "0", "1", "12", "00", "zz", "type", "01", "+1"]).to_string();
        }
    }
    if g.rng.chance(1, 8) {
        p.push(g.rng.pick(&["a", "-", "0"]).to_string());
    }
    p
}
fn hint_block(hs: &[(Vec<String>, String)]) -> Options {
    // a hint that only names a type changes nothing here, whatever its place in the list
    let names: Vec<String> = hs.iter().map(|(p, _)| format!("{:?}: {{ type_name: \"Nn\" }}", pointer(&p.iter().map(|_| "-".to_string()).collect::<Vec<_>>()))).collect();
    let mut b: Vec<String> = hs.iter().map(|(p, t)| format!("{:?}: {{ use_type: {:?} }}", pointer(p), t)).collect();
    for (i, n) in names.into_iter().enumerate() {
        b.insert((i * 7 + hs.len()) % (b.len() + 1), n);
    }
    let mut o = parse::options(&format!("{{ {} }}", b.join(", "))).expect("hint block");
    o.output_mode = OutputMode::Shape;
    o
}
fn no_strings(v: &J) -> J {
    match v {
        J::Str(_) => J::Bool(true),
        J::Arr(a) => J::Arr(a.iter().map(no_strings).collect()),
        J::Obj(m) => J::Obj(m.iter().map(|(k, x)| (k.clone(), no_strings(x))).collect()),
        x => x.clone(),
    }
}
fn replace(v: &J, path: &mut Vec<String>, f: &dyn Fn(&[String]) -> bool) -> J {
    if f(path) {
        return st("x");
    }
    match v {
        J::Arr(a) => J::Arr(
            a.iter()
                .enumerate()
                .map(|(i, x)| {
                    path.push(i.to_string());
                    let y = replace(x, path, f);
                    path.pop();
                    y
                })
                .collect(),
        ),
        J::Obj(m) => J::Obj(
            m.iter()
                .map(|(k, x)| {
                    path.push(k.clone());
                    let y = replace(x, path, f);
                    path.pop();
                    (k.clone(), y)
                })
                .collect(),
        ),
        x => x.clone(),
    }
}
/// objects at positions with a map hint get at least five keys, all others at most three
fn resize(v: &J, path: &mut Vec<String>, f: &dyn Fn(&[String]) -> bool) -> J {
    let here = f(path);
    let v = match v {
        J::Obj(_) => v.clone(),
        _ if here => J::Obj(vec![("a".into(), v.clone())]),
        x => x.clone(),
    };
    match v {
        J::Arr(a) => J::Arr(
            a.iter()
                .enumerate()
                .map(|(i, x)| {
                    path.push(i.to_string());
                    let y = resize(x, path, f);
                    path.pop();
                    y
                })
                .collect(),
        ),
        J::Obj(mut m) => {
            if here {
                let mut i = 0;
                while m.len() < 5 {
                    let k = format!("k{}", i);
                    i += 1;
                    m.push((k, int(i)));
                }
            } else {
                m.truncate(3);
            }
            J::Obj(
                m.iter()
                    .map(|(k, x)| {
                        path.push(k.clone());
                        let y = resize(x, path, f);
                        path.pop();
                        (k.clone(), y)
                    })
                    .collect(),
            )
        }
        x => x,
    }
}
struct At<'a> {
    v: &'a J,
    path: Vec<String>,
}
fn below<'a>(a: &At<'a>, k: String, v: &'a J) -> At<'a> {
    let mut path = a.path.clone();
    path.push(k);
    At { v, path }
}
/// `t`: shape output for a position where the values `obs` of the sample were merged
fn hint_shape(t: &serde_json::Value, obs: &[At], opaque: &dyn Fn(&[String]) -> bool, map: &dyn Fn(&[String]) -> bool) -> Result<(), String> {
    use serde_json::Value as V;
    let err = |s: &str| Err(format!("{}: {} (got {})", obs.first().map_or(String::new(), |a| pointer(&a.path)), s, t));
    let any_opaque = obs.iter().any(|a| opaque(&a.path));
    let mut t = t;
    while let Some(k @ ("optional" | "nullable")) = t.get("__type__").and_then(|x| x.as_str()) {
        if k == "nullable" && !obs.iter().any(|a| matches!(a.v, J::Null) && !opaque(&a.path)) {
            return err("nullable, but there was no null");
        }
        t = &t["item"];
    }
    if any_opaque {
        return if t == "X" { Ok(()) } else { err("the hint is not applied") };
    }
    if t == "X" {
        return err("a hint is applied that does not point here");
    }
    let kind = |a: &At| match a.v {
        J::Null => 0,
        J::Bool(_) => 1,
        J::Num(_) => 2,
        J::Str(_) => 3,
        J::Arr(_) => 4,
        J::Obj(_) if map(&a.path) => 5,
        J::Obj(_) => 6,
    };
    let mut k: Vec<_> = obs.iter().map(kind).filter(|k| *k > 0).collect();
    k.sort();
    k.dedup();
    if k.len() > 1 {
        return if t == "any" { Ok(()) } else { err("values of several kinds") };
    }
    let kids = |f: &dyn Fn(&str) -> bool| -> Vec<At> {
        obs.iter()
            .flat_map(|a| match a.v {
                J::Arr(v) => v.iter().enumerate().map(|(i, x)| below(a, i.to_string(), x)).filter(|x| f(x.path.last().unwrap())).collect::<Vec<_>>(),
                J::Obj(m) => m.iter().map(|(k, x)| below(a, k.clone(), x)).filter(|x| f(x.path.last().unwrap())).collect(),
                _ => vec![],
            })
            .collect()
    };
    match (k.first(), t) {
        (None, V::Null) => Ok(()),
        (None, x) if x == "bottom" => Ok(()),
        (Some(1), x) if x == "bool" => Ok(()),
        (Some(2), x) if x == if obs.iter().any(|a| matches!(a.v, J::Num(n) if is_float(n))) { "floating" } else { "integer" } => Ok(()),
        (Some(3), x) if x == "string" => Ok(()),
        (Some(4), V::Array(a)) if a.len() == 1 => hint_shape(&a[0], &kids(&|_| true), opaque, map),
        (Some(4), x) if x.get("__type__") == Some(&V::from("tuple")) => {
            let items = x["items"].as_array().unwrap();
            if obs.iter().any(|a| matches!(a.v, J::Arr(v) if v.len() != items.len())) {
                return err("tuple of another length");
            }
            items.iter().enumerate().try_for_each(|(i, t)| hint_shape(t, &kids(&|k| k == i.to_string()), opaque, map))
        }
        (Some(5), x) if x.get("__type__") == Some(&V::from("map")) => hint_shape(&x["values"], &kids(&|_| true), opaque, map),
        (Some(6), V::Object(m)) if !m.contains_key("__type__") => {
            let fields: Vec<(&str, &V)> = m.iter().map(|(k, x)| (k.strip_suffix('?').unwrap_or(k), x)).collect();
            for c in kids(&|_| true) {
                if !fields.iter().any(|f| f.0 == c.path.last().unwrap()) {
                    return err(&format!("no field {:?}", c.path.last().unwrap()));
                }
            }
            fields.iter().try_for_each(|(f, t)| hint_shape(t, &kids(&|k| k == *f), opaque, map))
        }
        _ => err("unexpected shape"),
    }
}
fn hint_case(r: &mut Run, v: &J, opaque: &[Vec<String>], maps: &[Vec<String>]) -> Res {
    let v = no_strings(v);
    let is_map = |p: &[String]| maps.iter().any(|q| hits(q, p));
    let is_opaque = |p: &[String]| opaque.iter().any(|q| hits(q, p));
    // below an opaque value there are no hints any more
    let hidden = |p: &[String]| (0..p.len()).any(|i| is_opaque(&p[..i]));
    let is_map_only = |p: &[String]| is_map(p) && !is_opaque(p) && !hidden(p);
    let v = resize(&v, &mut vec![], &is_map_only);
    let mut hs: Vec<(Vec<String>, String)> = opaque.iter().map(|p| (p.clone(), "X".to_string())).collect();
    // no position may have both kinds, the property says nothing about their order
    let mut all = vec![];
    paths(&v, &mut vec![], &mut all);
    if all.iter().any(|p| (is_map(p) && is_opaque(p)) || p.last().is_some_and(|k| k.ends_with('?') || k == "__type__")) {
        return Ok(());
    }
    hs.extend(maps.iter().map(|p| (p.clone(), "map".to_string())));
    let d = || format!("hints {:?}, sample {}", hs.iter().map(|(p, t)| format!("{} -> {}", pointer(p), t)).collect::<Vec<_>>(), v.show());
    for th in [None, Some(4)] {
        let mut o = hint_block(&hs);
        o.infer_map_threshold = th;
        match run_bytes(v.show().as_bytes(), o) {
            Ok(Ok(s)) => {
                let t: serde_json::Value = serde_json::from_str(&s).map_err(|e| Fail { input: d(), why: format!("{}: {}", e, s) })?;
                if let Err(w) = hint_shape(&t, &[At { v: &v, path: vec![] }], &is_opaque, &is_map) {
                    return fail(d(), format!("threshold {:?}: {}\nwhole result: {}", th, w, s));
                }
            }
            Ok(x) => return fail(d(), format!("threshold {:?}: got {:?}", th, x)),
            Err(e) => return fail(d(), format!("panicked: {}", e)),
        }
    }
    r.note(d, all.iter().any(|p| is_opaque(p) || is_map(p)));
    // a map hint on something else than an object is an error
    if let Some(m) = maps.first() {
        if all.iter().any(|p| hits(m, p)) {
            let is_first = |p: &[String]| hits(m, p);
            let bad = replace(&v, &mut vec![], &is_first);
            match run_bytes(bad.show().as_bytes(), hint_block(&[(m.clone(), "map".to_string())])) {
                Ok(Err(_)) => {}
                x => return fail(format!("map hint {} on {}", pointer(m), bad.show()), format!("{:?}", x)),
            }
        }
    }
    Ok(())
}
/// C08
pub fn hints(r: &mut Run) -> Res {
    let p = |s: &str| -> Vec<String> { if s.is_empty() { vec![] } else { s[1..].split('/').map(|x| x.to_string()).collect() } };
    // every index of arrays longer than the tuple limit
    for n in [1usize, 2, 11, 12, 13, 14, 30, 101, 120] {
        let a = J::Arr((0..n).map(|i| if i % 3 == 1 { obj(&[("a", int(1))]) } else { int(1) }).collect());
        for i in [0, 1, 2, 9, 10, 11, 12, 13, 29, 100, 119] {
            if i < n + 2 {
                hint_case(r, &a, &[p(&format!("/{}", i))], &[])?;
                hint_case(r, &obj(&[("b", a.clone()), ("c", a.clone())]), &[p(&format!("/c/{}", i))], &[])?;
                hint_case(r, &a, &[], &[p(&format!("/{}", i))])?;
                hint_case(r, &a, &[p(&format!("/{}/a", i))], &[])?;
            }
        }
        hint_case(r, &a, &[p("/-")], &[])?;
        hint_case(r, &a, &[p("/-/a")], &[p("/1")])?;
        hint_case(r, &a, &[], &[p("/-")])?;
    }
    let v = obj(&[("a", obj(&[("b", obj(&[("c", int(1)), ("0", J::Null)])), ("a", J::Arr(vec![obj(&[("a", int(2))])]))])), ("-x", int(1)), ("0", J::Arr(vec![J::Null]))]);
    for s in ["", "/a", "/-", "/a/b", "/-/b", "/a/-", "/-/-", "/a/b/c", "/-/-/-", "/a/a/0", "/a/a/0/a", "/a/a/-/a", "/0", "/0/0", "/a/b/0", "/b", "/a/a/1", "/a/a/00", "/-x", "/A"] {
        hint_case(r, &v, &[p(s)], &[])?;
        hint_case(r, &v, &[], &[p(s)])?;
        for q in ["/a/b/c", "/-/a/0", "/0/-"] {
            hint_case(r, &v, &[p(s), p(q)], &[])?;
            hint_case(r, &v, &[p(q)], &[p(s)])?;
        }
    }
    let mut g = doc_gen(r.seed);
    g.keys.push("0".into());
    g.keys.push("1".into());
    while r.more() {
        let v = if g.rng.chance(1, 3) { J::Arr((0..g.rng.below(16)).map(|_| g.value(1)).collect()) } else { g.value(0) };
        let no = g.rng.below(3);
        let o: Vec<_> = (0..no).map(|_| rnd_pointer(&mut g, &v)).collect();
        let nm = g.rng.below(3);
        let m: Vec<_> = (0..nm).map(|_| rnd_pointer(&mut g, &v)).collect();
        hint_case(r, &v, &o, &m)?;
    }
    Ok(())
}
fn select<'a>(v: &'a J, p: &[String], out: &mut Vec<&'a J>) {
    if p.is_empty() {
        out.push(v);
        return;
    }
    match v {
        J::Arr(a) => {
            for (i, x) in a.iter().enumerate() {
                if p[0] == "-" || p[0] == i.to_string() {
                    select(x, &p[1..], out);
                }
            }
        }
        J::Obj(m) => {
            for (k, x) in m {
                if p[0] == "-" || &p[0] == k {
                    select(x, &p[1..], out);
                }
            }
        }
        _ => {}
    }
}
fn unwrap_case(r: &mut Run, v: &J, p: &[String], hs: &[(Vec<String>, String)]) -> Res {
    let mut nodes = vec![];
    select(v, p, &mut nodes);
    let mut o = hint_block(hs);
    o.unwrap = pointer(p);
    let d = || format!("unwrap {:?}, hints {:?}, sample {}", pointer(p), hs, v.show());
    let got = run_bytes(v.show().as_bytes(), o.clone());
    match (&got, nodes.is_empty()) {
        (Err(e), _) => return fail(d(), format!("panicked: {}", e)),
        (Ok(Err(_)), true) => {}
        (Ok(Ok(s)), true) => return fail(d(), format!("no node is selected, but a type was inferred: {}", s)),
        (Ok(x), false) => {
            let list = J::Arr(nodes.iter().map(|x| (*x).clone()).collect());
            let (doc, u) = if nodes.len() == 1 { (nodes[0].clone(), "") } else { (list, "/-") };
            let mut o2 = o.clone();
            o2.unwrap = u.into();
            let want = run_bytes(doc.show().as_bytes(), o2);
            // the order of fields depends on the order of merging
            let norm = |x: &Result<String, String>| match x {
                Ok(s) => serde_json::from_str::<serde_json::Value>(s).map(Some).map_err(|e| e.to_string()),
                Err(_) => Ok(None),
            };
            if Ok(norm(x)) != want.as_ref().map(norm) {
                return fail(d(), format!("got {:?}\nbut the selected nodes alone give {:?}", x, want));
            }
            if hs.is_empty() {
                if let Ok(s) = x {
                    let j: serde_json::Value = serde_json::from_str(s).map_err(|e| Fail { input: d(), why: e.to_string() })?;
                    let t = from_shape_json(&j).map_err(|e| Fail { input: d(), why: e })?;
                    for n in &nodes {
                        if let Err(w) = accepts(&Env::new(), &t, Some(n), "", 50) {
                            return fail(d(), format!("selected node {} is not admitted: {}", n.show(), w));
                        }
                    }
                } else {
                    return fail(d(), format!("{:?}", x));
                }
            }
        }
    }
    r.note(d, !nodes.is_empty() && !p.is_empty());
    Ok(())
}
/// C09
pub fn unwrapping(r: &mut Run) -> Res {
    let p = |s: &str| -> Vec<String> { if s.is_empty() { vec![] } else { s[1..].split('/').map(|x| x.to_string()).collect() } };
    let long = J::Arr((0..25).map(|i| if i == 20 { obj(&[("a", J::Null)]) } else if i == 3 { st("q") } else { obj(&[("a", int(i)), ("b", st("x"))]) }).collect());
    let v = obj(&[("a", obj(&[("b", obj(&[("c", int(1)), ("0", J::Null)])), ("a", J::Arr(vec![obj(&[("a", int(2))]), J::Null, obj(&[("a", num("1.5")), ("b", int(1))])]))])), ("-x", int(1)), ("0", J::Arr(vec![J::Null])), ("l", long.clone())]);
    for s in [
        "", "/a", "/-", "/a/b", "/-/b", "/a/-", "/-/-", "/a/b/c", "/-/-/-", "/a/a/0", "/a/a/0/a", "/a/a/-/a", "/0", "/0/0", "/a/b/0", "/b", "/a/a/1", "/a/a/00", "/-x", "/A", "/a/a/2", "/a/a/3", "/l/-/a", "/l/3", "/l/20/a", "/l/2/b", "/l/24", "/l/25",
        "/l/-", "/l/-/b", "/-/0", "/-/0/a", "/l/+1", "/l/-1", "/-/-/a",
    ] {
        unwrap_case(r, &v, &p(s), &[])?;
        unwrap_case(r, &v, &p(s), &[(p("/a"), "X".into())])?;
    }
    let mut g = doc_gen(r.seed);
    g.keys.push("0".into());
    g.keys.push("1".into());
    while r.more() {
        let v = if g.rng.chance(1, 3) { J::Arr((0..g.rng.below(16)).map(|_| g.value(1)).collect()) } else { g.value(0) };
        let q = rnd_pointer(&mut g, &v);
        let hs = if g.rng.chance(1, 4) { vec![(rnd_pointer(&mut g, &v), "X".to_string())] } else { vec![] };
        unwrap_case(r, &v, &q, &hs)?;
    }
    Ok(())
}
/// C07
pub fn grammar(r: &mut Run) -> Res {
    let bad = [
        "[1 2]", "[1,]", "[,1]", "[,]", "[1,,2]", "[", "[1", "[1,", "[[1]", "[1]]x", "{", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "{\"a\":1,}", "{,}", "{\"a\" 1}", "{\"a\"::1}", "{\"a\":1 \"b\":2}", "{\"a\":1,,\"b\":2}", "{1:2}", "{a:1}",
        "{null:1}", "{[]:1}", "{{}:1}", "{\"a\":}", "{\"a\":,}", "{:1}", "[}", "{]", "[1}", "{\"a\":1]", "]", "}", ",", ":", "", "[\"a\":1]", "{\"a\",\"b\"}", "{\"a\":1,\"b\"}", "[{]}", "{\"a\":[}]", "[1:2]", "{\"a\":1:2}", "[true,]", "[[],]", "[{},]", "[\"x\",]",
        "[[1,]]", "{\"a\":{\"b\":1,}}", "[{\"a\":1},]", "{\"a\":[1,]}", "{true:1}", "{\"\":1,2}",
    ];
    let wraps = ["", "/a", "/-", "/0", "/-/a", "/b", "/zz"];
    let mut one = |r: &mut Run, doc: &[u8], wrap: &str, hs: &[(Vec<String>, String)]| -> Res {
        if value(&lex(doc)).is_some() {
            return Ok(());
        }
        let mut o = hint_block(hs);
        o.unwrap = wrap.into();
        let d = || format!("unwrap {:?}, hints {:?}, sample {}", wrap, hs, lossy(doc));
        match run_bytes(doc, o) {
            Ok(Err(_)) => {}
            Ok(Ok(s)) => return fail(d(), format!("not JSON, but accepted: {}", s)),
            Err(e) => return fail(d(), format!("panicked: {}", e)),
        }
        r.note(d, doc.len() > 1);
        Ok(())
    };
    let p = |s: &str| -> Vec<String> { s[1..].split('/').map(|x| x.to_string()).collect() };
    let hints = [vec![], vec![(vec![], "X".to_string())], vec![(p("/a"), "X".to_string())], vec![(p("/-"), "X".to_string())], vec![(p("/0"), "X".to_string())], vec![(vec![], "map".to_string())], vec![(p("/-"), "map".to_string())]];
    for b in bad {
        for ctx in ["@", "[@]", "[1,@]", "[@,1]", "{\"a\":@}", "{\"b\":@,\"a\":1}", "{\"a\":1,\"b\":@}", "[[@],{\"a\":1}]", "[{\"a\":@}]", "[0,0,0,0,0,0,0,0,0,0,0,0,0,@]"] {
            for w in wraps {
                for h in &hints {
                    one(r, ctx.replace('@', b).as_bytes(), w, h)?;
                }
            }
        }
    }
    let mut g = doc_gen(r.seed);
    let pool = vec![Tok::P(b'{'), Tok::P(b'}'), Tok::P(b'['), Tok::P(b']'), Tok::P(b','), Tok::P(b':'), Tok::Lit("null"), Tok::Num("1".into()), Tok::Str(b"a".to_vec()), Tok::Bad];
    while r.more() {
        let v = if g.rng.chance(1, 3) { J::Arr((0..g.rng.below(15)).map(|_| g.value(1)).collect()) } else { g.value(0) };
        let t = lex(v.show().as_bytes());
        let w = if g.rng.chance(1, 2) { String::new() } else { pointer(&rnd_pointer(&mut g, &v)) };
        let hs = if g.rng.chance(1, 2) { vec![] } else { vec![(rnd_pointer(&mut g, &v), if g.rng.chance(2, 3) { "X".to_string() } else { "map".to_string() })] };
        for _ in 0..4 {
            let mut m = t.clone();
            for _ in 0..1 + g.rng.below(2) {
                let i = g.rng.below(m.len() + 1);
                match g.rng.below(5) {
                    0 if i < m.len() => {
                        m.remove(i);
                    }
                    1 => m.insert(i, g.rng.pick(&pool).clone()),
                    2 if i < m.len() => m[i] = g.rng.pick(&pool).clone(),
                    3 if i + 1 < m.len() => m.swap(i, i + 1),
                    4 => m.truncate(i),
                    _ => {}
                }
            }
            let d = render(&m, &mut g.rng, 0);
            one(r, &d, &w, &hs)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02
/// Err when `t` claims more than the observations `vs` (None: absent) call for
fn tight(t: &Ty, vs: &[Option<&J>], path: &str) -> Result<(), String> {
    let here: Vec<&J> = vs.iter().filter_map(|x| *x).collect();
    let err = |s: &str| Err(format!("{}: {} (observed {})", path, s, here.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")));
    let non_null: Vec<&J> = here.iter().filter(|x| !matches!(x, J::Null)).cloned().collect();
    let kind = |v: &J| match v {
        J::Null => 0,
        J::Bool(_) => 1,
        J::Num(_) => 2,
        J::Str(_) => 3,
        J::Arr(_) => 4,
        J::Obj(_) => 5,
    };
    match t {
        Ty::Opt(t) => {
            if vs.iter().all(|v| v.is_some()) {
                return err("optional but never absent");
            }
            tight(t, &here.iter().map(|x| Some(*x)).collect::<Vec<_>>(), path)
        }
        Ty::Nullable(t) => {
            if here.len() == non_null.len() {
                return err("nullable but never null");
            }
            tight(t, &non_null.iter().map(|x| Some(*x)).collect::<Vec<_>>(), path)
        }
        Ty::Any => {
            let mut k: Vec<_> = non_null.iter().map(|v| kind(v)).collect();
            k.sort();
            k.dedup();
            if k.len() < 2 {
                return err("unconstrained, but only one kind of value was observed");
            }
            Ok(())
        }
        Ty::Float => {
            if !here.iter().any(|v| matches!(v, J::Num(n) if is_float(n))) {
                return err("floating point, but no fraction or exponent was observed");
            }
            Ok(())
        }
        Ty::Obj(d) => {
            for f in &d.fields {
                let sub: Vec<Option<&J>> = here.iter().map(|v| v.get(&f.key)).collect();
                if sub.iter().all(|x| x.is_none()) {
                    return err(&format!("field {:?} was never observed", f.key));
                }
                let present: Vec<Option<&J>> = sub.iter().filter(|x| x.is_some()).cloned().collect();
                if f.optional && f.ty != Ty::Any && present.len() == sub.len() {
                    return err(&format!("field {:?} is optional but never absent", f.key));
                }
                tight(&f.ty, &present, &format!("{}/{}", path, f.key))?;
            }
            for v in &here {
                if let J::Obj(m) = v {
                    for (k, _) in m {
                        if !d.fields.iter().any(|f| &f.key == k) {
                            return err(&format!("observed key {:?} is no field", k));
                        }
                    }
                }
            }
            Ok(())
        }
        Ty::Arr(e) => {
            let sub: Vec<Option<&J>> = here.iter().flat_map(|v| if let J::Arr(a) = v { a.iter().map(Some).collect() } else { vec![] }).collect();
            tight(e, &sub, &format!("{}/-", path))
        }
        Ty::Tup(ts) => {
            for (i, t) in ts.iter().enumerate() {
                let sub: Vec<Option<&J>> = here.iter().filter_map(|v| if let J::Arr(a) = v { a.get(i).map(Some) } else { None }).collect();
                tight(t, &sub, &format!("{}/{}", path, i))?;
            }
            Ok(())
        }
        Ty::Never => {
            if !here.is_empty() {
                return err("no value");
            }
            Ok(())
        }
        Ty::Map(_) => err("a map without hint or threshold"),
        _ => Ok(()),
    }
}
pub fn tightness(r: &mut Run) -> Res {
    let mut one = |r: &mut Run, vals: &[J]| -> Res {
        let nt = vals.len() > 1 && vals.iter().any(|v| v != &vals[0]);
        let arr = J::Arr(vals.to_vec());
        let mut long = vec![vals[0].clone(); 12];
        long.extend(vals.iter().cloned());
        let recs = J::Arr(vals.iter().map(|v| J::Obj(vec![("x".into(), v.clone())])).chain([obj(&[("y", int(1))])]).collect());
        for d in [&arr, &J::Arr(long.clone()), &recs, &J::Arr(vec![arr.clone(), J::Arr(vals[1..].to_vec())])] {
            let t = shape_ty(&d.show(), opts(OutputMode::Shape))?;
            if let Err(w) = tight(&t, &[Some(d)], "") {
                return fail(d.show(), format!("the inferred shape {:?} claims more than was observed: {}", t, w));
            }
        }
        let mut o = opts(OutputMode::Shape);
        o.unwrap = "/-".into();
        let t = shape_ty(&arr.show(), o)?;
        if let Err(w) = tight(&t, &vals.iter().map(Some).collect::<Vec<_>>(), "") {
            return fail(format!("unwrap /- of {}", arr.show()), format!("the inferred shape {:?} claims more than was observed: {}", t, w));
        }
        r.note(|| arr.show(), nt);
        Ok(())
    };
    let b = base_values();
    for x in &b {
        for y in &b {
            one(r, &[x.clone(), y.clone()])?;
        }
    }
    for x in WIDE {
        for y in WIDE {
            one(r, &[num(x), num(y)])?;
        }
        for y in &b {
            one(r, &[num(x), y.clone()])?;
        }
    }
    let mut g = Gen::new(r.seed);
    g.wide = true;
    while r.more() {
        let v = g.batch();
        one(r, &v)?;
    }
    Ok(())
}
