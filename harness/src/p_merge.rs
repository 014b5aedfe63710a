use crate::*;

fn check_all(r: &mut Run, input: &str, vals: &[J], proj: impl Fn(&Ty) -> Option<Ty>, o: Options, nontrivial: bool) -> Res {
    let t = shape_ty(input, o)?;
    let env = Env::new();
    let e = match proj(&t) {
        Some(e) => e,
        None => return fail(input, format!("unexpected inferred shape {:?}", t)),
    };
    for v in vals {
        if let Err(w) = accepts(&env, &e, Some(v), "", 50) {
            return fail(input, format!("the merged shape {:?} does not admit {}: {}", e, v.show(), w));
        }
    }
    r.note(|| input.to_string(), nontrivial);
    Ok(())
}

/// every value is admitted by the shape inferred for the collection it came from
fn one(r: &mut Run, vals: &[J]) -> Res {
    let nt = vals.len() > 1 && vals.iter().any(|v| v != &vals[0]);
    let elems = |t: &Ty| match t {
        Ty::Arr(e) => Some((**e).clone()),
        _ => None,
    };
    let whole = |t: &Ty| Some(t.clone());
    let arr = J::Arr(vals.to_vec());
    check_all(r, &arr.show(), &[arr.clone()], whole, opts(OutputMode::Shape), nt)?;
    // more than twelve elements: the incremental fold
    let mut long: Vec<J> = vec![vals[0].clone(); 12];
    long.extend(vals.iter().cloned());
    check_all(r, &J::Arr(long.clone()).show(), &long, elems, opts(OutputMode::Shape), nt)?;
    let mut long2: Vec<J> = vals.to_vec();
    long2.extend(vec![vals[0].clone(); 13 - 1]);
    check_all(r, &J::Arr(long2.clone()).show(), &long2, elems, opts(OutputMode::Shape), nt)?;
    // unwrapping folds the selected nodes
    let mut o = opts(OutputMode::Shape);
    o.unwrap = "/-".into();
    check_all(r, &arr.show(), vals, whole, o.clone(), nt)?;
    // as a field, present in some records only
    let mut recs: Vec<J> = vals.iter().map(|v| J::Obj(vec![("x".into(), v.clone())])).collect();
    check_all(r, &J::Arr(recs.clone()).show(), &[J::Arr(recs.clone())], whole, opts(OutputMode::Shape), nt)?;
    recs.insert(1, J::Obj(vec![("y".into(), J::Bool(true))]));
    let ra = J::Arr(recs.clone());
    check_all(r, &ra.show(), &recs, whole, o.clone(), true)?;
    // as map values
    let mut om = opts(OutputMode::Shape);
    om.infer_map_threshold = Some(0);
    let m = J::Obj(vals.iter().enumerate().map(|(i, v)| (format!("k{}", i), v.clone())).collect());
    if !vals.iter().any(|v| v.size() > 1 && v.show().contains(':')) {
        let w = J::Arr(vec![m.clone()]);
        check_all(r, &w.show(), &[w.clone()], whole, om, nt)?;
    }
    // arrays of different lengths
    let n = J::Arr(vec![J::Arr(vals.to_vec()), J::Arr(vals[1..].to_vec()), J::Arr(vals[..1].to_vec())]);
    check_all(r, &n.show(), &[n.clone()], whole, opts(OutputMode::Shape), nt)?;
    Ok(())
}

pub fn merge_sound(r: &mut Run) -> Res {
    let b = base_values();
    for x in &b {
        for y in &b {
            one(r, &[x.clone(), y.clone()])?;
        }
    }
    let mut g = Gen::new(r.seed);
    g.wide = true;
    while r.more() {
        let v = g.batch();
        one(r, &v)?;
    }
    Ok(())
}
