//! A small common language for the types that the generators emit, and when such a type accepts a JSON value.
use crate::gen::{is_float, J};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Any,
    Never,
    Null,
    Bool,
    Str,
    Int,
    /// an integer that fits in a signed 64-bit word
    I64,
    Float,
    /// only absence
    Undef,
    Union(Vec<Ty>),
    Arr(Box<Ty>),
    Tup(Vec<Ty>),
    Map(Box<Ty>),
    /// null is accepted as well
    Nullable(Box<Ty>),
    /// may be absent
    Opt(Box<Ty>),
    Ref(String),
    Obj(Box<Def>),
    Lit(String),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Def {
    pub fields: Vec<Field>,
    pub closed: bool,
    pub rest: Option<Ty>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub key: String,
    pub ident: String,
    pub ty: Ty,
    pub optional: bool,
}
pub type Env = BTreeMap<String, Ty>;

/// Err(reason) when `v` is rejected
pub fn accepts(env: &Env, t: &Ty, v: Option<&J>, path: &str, fuel: usize) -> Result<(), String> {
    if fuel == 0 {
        return Err(format!("{}: type is infinitely recursive", path));
    }
    let bad = |why: &str| Err(format!("{}: {} (value {})", path, why, v.map(|x| x.show()).unwrap_or("absent".into())));
    match t {
        Ty::Any => {
            if v.is_none() {
                return bad("required field of unconstrained type is absent");
            }
            Ok(())
        }
        Ty::Never => bad("type has no values"),
        Ty::Opt(i) => {
            if v.is_none() {
                Ok(())
            } else {
                accepts(env, i, v, path, fuel)
            }
        }
        Ty::Nullable(i) => {
            if v == Some(&J::Null) {
                Ok(())
            } else {
                accepts(env, i, v, path, fuel)
            }
        }
        Ty::Ref(n) => match env.get(n) {
            Some(t) => accepts(env, t, v, path, fuel - 1),
            None => Err(format!("{}: undefined type {}", path, n)),
        },
        Ty::Null => match v {
            Some(J::Null) => Ok(()),
            _ => bad("not null"),
        },
        Ty::Bool => match v {
            Some(J::Bool(_)) => Ok(()),
            _ => bad("not a boolean"),
        },
        Ty::Str => match v {
            Some(J::Str(_)) => Ok(()),
            _ => bad("not a string"),
        },
        Ty::Lit(l) => match v {
            Some(J::Str(s)) if s == l => Ok(()),
            _ => bad("not the literal"),
        },
        Ty::Int => match v {
            Some(J::Num(n)) if !is_float(n) => Ok(()),
            _ => bad("not an integer"),
        },
        Ty::I64 => match v {
            Some(J::Num(n)) if !is_float(n) && n.parse::<i64>().is_ok() => Ok(()),
            _ => bad("not a 64-bit integer"),
        },
        Ty::Undef => {
            if v.is_none() {
                Ok(())
            } else {
                bad("undefined required")
            }
        }
        Ty::Union(ts) => {
            let mut why = String::new();
            for t in ts {
                match accepts(env, t, v, path, fuel - 1) {
                    Ok(()) => return Ok(()),
                    Err(e) => why = e,
                }
            }
            Err(why)
        }
        Ty::Float => match v {
            Some(J::Num(_)) => Ok(()),
            _ => bad("not a number"),
        },
        Ty::Arr(e) => match v {
            Some(J::Arr(a)) => {
                for (i, x) in a.iter().enumerate() {
                    accepts(env, e, Some(x), &format!("{}/{}", path, i), 50)?;
                }
                Ok(())
            }
            _ => bad("not an array"),
        },
        Ty::Tup(es) => match v {
            Some(J::Arr(a)) => {
                if a.len() != es.len() {
                    return bad("wrong tuple length");
                }
                for (i, x) in a.iter().enumerate() {
                    accepts(env, &es[i], Some(x), &format!("{}/{}", path, i), 50)?;
                }
                Ok(())
            }
            _ => bad("not an array"),
        },
        Ty::Map(e) => match v {
            Some(J::Obj(m)) => {
                for (k, x) in m {
                    accepts(env, e, Some(x), &format!("{}/{}", path, k), 50)?;
                }
                Ok(())
            }
            _ => bad("not an object"),
        },
        Ty::Obj(d) => match v {
            Some(J::Obj(m)) => {
                for f in &d.fields {
                    let x = m.iter().find(|e| e.0 == f.key).map(|e| &e.1);
                    if x.is_none() && f.optional {
                        continue;
                    }
                    accepts(env, &f.ty, x, &format!("{}/{}", path, f.key), 50)?;
                }
                for (k, x) in m {
                    if d.fields.iter().any(|f| &f.key == k) {
                        continue;
                    }
                    match &d.rest {
                        Some(t) => accepts(env, t, Some(x), &format!("{}/{}", path, k), 50)?,
                        None => {
                            if d.closed {
                                return Err(format!("{}: no field for key {:?}", path, k));
                            }
                        }
                    }
                }
                Ok(())
            }
            _ => bad("not an object"),
        },
    }
}

/// the shape output mode, read back (keys must not end in '?' nor be "__type__")
pub fn from_shape_json(v: &serde_json::Value) -> Result<Ty, String> {
    use serde_json::Value as V;
    Ok(match v {
        V::Null => Ty::Null,
        V::String(s) => match s.as_str() {
            "any" => Ty::Any,
            "bottom" => Ty::Never,
            "bool" => Ty::Bool,
            "string" => Ty::Str,
            "integer" => Ty::Int,
            "floating" => Ty::Float,
            _ => Ty::Any, // opaque
        },
        V::Array(a) if a.len() == 1 => Ty::Arr(Box::new(from_shape_json(&a[0])?)),
        V::Object(m) => match m.get("__type__").and_then(|x| x.as_str()) {
            Some("optional") => Ty::Opt(Box::new(from_shape_json(&m["item"])?)),
            Some("nullable") => Ty::Nullable(Box::new(from_shape_json(&m["item"])?)),
            Some("map") => Ty::Map(Box::new(from_shape_json(&m["values"])?)),
            Some("tuple") => Ty::Tup(m["items"].as_array().ok_or("tuple items")?.iter().map(from_shape_json).collect::<Result<_, _>>()?),
            Some(o) => return Err(format!("unknown shape {}", o)),
            None => {
                let mut d = Def { closed: true, ..Default::default() };
                for (k, x) in m {
                    let (key, optional) = match k.strip_suffix('?') {
                        Some(k) => (k.to_string(), true),
                        None => (k.clone(), false),
                    };
                    let ty = from_shape_json(x)?;
                    // an unconstrained shape also stands for fields that may be absent
                    let optional = optional || ty == Ty::Any;
                    d.fields.push(Field { key: key.clone(), ident: key, ty, optional });
                }
                Ty::Obj(Box::new(d))
            }
        },
        _ => return Err(format!("unexpected shape output {}", v)),
    })
}
