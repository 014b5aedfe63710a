//@ raw
// ===== JSON documents over tokens =====
pub enum GTree { Null, Bool, Num(bool), Str, Arr(Seq<GTree>), Obj(Seq<(Seq<char>, GTree)>) }
pub type Members = Seq<(Seq<char>, GTree)>;
pub type Toks = Seq<GTok>;
// a number is an integer unless it is written with a fraction or an exponent
pub open spec fn is_int(s: Seq<char>) -> bool { !(s.contains('.') || s.contains('e') || s.contains('E')) }
// the value at the start of s, and the tokens after it
pub open spec fn p_value(s: Toks) -> Option<(GTree, Toks)> decreases s.len(), 2nat {
    if s.len() == 0 { None } else { match s[0] {
        GTok::True | GTok::False => Some((GTree::Bool, s.skip(1))),
        GTok::Null => Some((GTree::Null, s.skip(1))),
        GTok::Num(n) => Some((GTree::Num(is_int(n)), s.skip(1))),
        GTok::Str(_) => Some((GTree::Str, s.skip(1))),
        GTok::OStart => match p_obj(s.skip(1)) { Some((m, r)) => Some((GTree::Obj(m), r)), None => None },
        GTok::AStart => match p_arr(s.skip(1)) { Some((m, r)) => Some((GTree::Arr(m), r)), None => None },
        GTok::OEnd | GTok::AEnd | GTok::Comma | GTok::Colon | GTok::Bad => None,
    } }
}
// what follows the opening brace
pub open spec fn p_obj(s: Toks) -> Option<(Members, Toks)> decreases s.len(), 4nat {
    if s.len() > 0 && s[0] is OEnd { Some((Seq::empty(), s.skip(1))) } else { p_members(s) }
}
pub open spec fn p_members(s: Toks) -> Option<(Members, Toks)> decreases s.len(), 3nat {
    if s.len() < 2 || !(s[0] is Str) || !(s[1] is Colon) { None } else {
        match p_value(s.skip(2)) {
            None => None,
            Some((t, r)) => if r.len() == 0 || r.len() >= s.len() { None }
                else if r[0] is OEnd { Some((seq![(s[0]->Str_0, t)], r.skip(1))) }
                else if r[0] is Comma { match p_members(r.skip(1)) { None => None, Some((m, x)) => Some((seq![(s[0]->Str_0, t)] + m, x)) } }
                else { None },
        }
    }
}
pub open spec fn p_arr(s: Toks) -> Option<(Seq<GTree>, Toks)> decreases s.len(), 4nat {
    if s.len() > 0 && s[0] is AEnd { Some((Seq::empty(), s.skip(1))) } else { p_elems(s) }
}
pub open spec fn p_elems(s: Toks) -> Option<(Seq<GTree>, Toks)> decreases s.len(), 3nat {
    match p_value(s) {
        None => None,
        Some((t, r)) => if r.len() == 0 || r.len() >= s.len() { None }
            else if r[0] is AEnd { Some((seq![t], r.skip(1))) }
            else if r[0] is Comma { match p_elems(r.skip(1)) { None => None, Some((m, x)) => Some((seq![t] + m, x)) } }
            else { None },
    }
}
pub open spec fn mcat(a: Members, r: Option<(Members, Toks)>) -> Option<(Members, Toks)> { match r { None => None, Some((m, x)) => Some((a + m, x)) } }
pub open spec fn ecat(a: Seq<GTree>, r: Option<(Seq<GTree>, Toks)>) -> Option<(Seq<GTree>, Toks)> { match r { None => None, Some((m, x)) => Some((a + m, x)) } }
// reading a value takes at least one token
pub broadcast proof fn lemma_p_rest(s: Toks)
    ensures #[trigger] p_value(s) matches Some((t, r)) ==> r.len() < s.len()
    decreases s.len(), 2nat
{
    if s.len() > 0 {
        if s[0] is OStart { if !(s.len() > 1 && s[1] is OEnd) { lemma_p_members_rest(s.skip(1)); } }
        if s[0] is AStart { if !(s.len() > 1 && s[1] is AEnd) { lemma_p_elems_rest(s.skip(1)); } }
    }
}
pub proof fn lemma_p_members_rest(s: Toks) ensures p_members(s) matches Some((m, r)) ==> r.len() + 3 < s.len() && m.len() > 0 decreases s.len(), 3nat
{
    if s.len() >= 2 { lemma_p_rest(s.skip(2)); match p_value(s.skip(2)) { Some((t, r)) => { if r.len() > 0 && r.len() < s.len() && r[0] is Comma { lemma_p_members_rest(r.skip(1)); } } None => {} } }
}
pub proof fn lemma_p_elems_rest(s: Toks) ensures p_elems(s) matches Some((m, r)) ==> r.len() + 1 < s.len() && m.len() > 0 decreases s.len(), 3nat
{
    lemma_p_rest_(s);
    match p_value(s) { Some((t, r)) => { if r.len() > 0 && r.len() < s.len() && r[0] is Comma { lemma_p_elems_rest(r.skip(1)); } } None => {} }
}
pub proof fn lemma_p_rest_(s: Toks) ensures p_value(s) matches Some((t, r)) ==> r.len() < s.len() decreases s.len(), 2nat
{
    if s.len() > 0 {
        if s[0] is OStart { if !(s.len() > 1 && s[1] is OEnd) { lemma_p_members_rest(s.skip(1)); } }
        if s[0] is AStart { if !(s.len() > 1 && s[1] is AEnd) { lemma_p_elems_rest(s.skip(1)); } }
    }
}

// ===== what the tree denotes (a repeated key: the last value counts) =====
pub open spec fn last_of(ms: Members, j: int) -> bool { 0 <= j < ms.len() && forall|i: int| j < i < ms.len() ==> (#[trigger] ms[i]).0 != ms[j].0 }
pub open spec fn val(t: GTree, v: GVal) -> bool decreases t {
    match t {
        GTree::Null => v is Null,
        GTree::Bool => v is Bool,
        GTree::Num(i) => v == (if i { GVal::Int } else { GVal::Float }),
        GTree::Str => v is Str,
        GTree::Arr(es) => v is Arr && v->Arr_0.len() == es.len() && forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> val(es[i], v->Arr_0[i]),
        GTree::Obj(ms) => v is Obj && (forall|k: Seq<char>| #[trigger] v->Obj_0.dom().contains(k) ==> has_key(ms, k))
            && forall|j: int| #![trigger ms[j]] 0 <= j < ms.len() ==> v->Obj_0.dom().contains(ms[j].0) && (last_of(ms, j) ==> val(ms[j].1, v->Obj_0[ms[j].0])),
    }
}

// ===== combining =====
// `merged`: what some call of common_shape makes of two shapes
pub type Shapes = ISet<GShape>;
pub open spec fn closed(p: spec_fn(GShape) -> bool) -> bool { forall|a: GShape, b: GShape, c: GShape| p(a) && p(b) && #[trigger] merged(a, b, c) ==> p(c) }
// r is made of nothing but the shapes in s
#[verifier::opaque]
pub open spec fn from(s: Shapes, r: GShape) -> bool {
    forall|p: spec_fn(GShape) -> bool| p(GShape::Bottom) && (forall|x: GShape| #[trigger] s.contains(x) ==> p(x)) && #[trigger] closed(p) ==> p(r)
}
// r is the combination of exactly the shapes in s
#[verifier::opaque]
pub open spec fn comb(r: GShape, s: Shapes) -> bool {
    gwf(r) && from(s, r) && (forall|x: GShape| #[trigger] s.contains(x) ==> covers(r, x)) && (r is Bottom <==> forall|x: GShape| #[trigger] s.contains(x) ==> x is Bottom)
}
pub proof fn lemma_comb_none(s: Shapes) requires forall|x: GShape| !#[trigger] s.contains(x) ensures comb(GShape::Bottom, s)
{ reveal(comb); reveal(from); }
pub proof fn lemma_comb_one(x: GShape, s: Shapes) requires gwf(x), s =~= Shapes::empty().insert(x) ensures comb(x, s)
{ reveal(comb); reveal(from); broadcast use lemma_covers_refl; assert(s.contains(x)); }
pub proof fn lemma_comb_merge(a: GShape, sa: Shapes, b: GShape, sb: Shapes, r: GShape, s: Shapes)
    requires comb(a, sa), comb(b, sb), merged(a, b, r), covers(r, a), covers(r, b), gwf(r), r is Bottom <==> a is Bottom && b is Bottom, s =~= sa.union(sb)
    ensures comb(r, s)
{
    reveal(comb); reveal(from);
    assert forall|p: spec_fn(GShape) -> bool| p(GShape::Bottom) && (forall|x: GShape| #[trigger] s.contains(x) ==> p(x)) && #[trigger] closed(p) implies p(r) by {
        assert forall|x: GShape| #[trigger] sa.contains(x) implies p(x) by { assert(s.contains(x)); }
        assert forall|x: GShape| #[trigger] sb.contains(x) implies p(x) by { assert(s.contains(x)); }
    }
    assert forall|x: GShape| #[trigger] s.contains(x) implies covers(r, x) by {
        if sa.contains(x) { lemma_covers_trans(r, a, x); } else { lemma_covers_trans(r, b, x); }
    }
    if r is Bottom { assert forall|x: GShape| #[trigger] s.contains(x) implies x is Bottom by { assert(sa.contains(x) || sb.contains(x)); } }
    else {
        if !(a is Bottom) { let x = choose|x: GShape| #[trigger] sa.contains(x) && !(x is Bottom); assert(s.contains(x)); }
        else { let x = choose|x: GShape| #[trigger] sb.contains(x) && !(x is Bottom); assert(s.contains(x)); }
    }
}
pub open spec fn vset(fs: Seq<(Seq<char>, GShape)>) -> Shapes { ISet::new(|x: GShape| exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).1 == x) }
pub open spec fn sset(ss: Seq<GShape>) -> Shapes { ISet::new(|x: GShape| exists|i: int| 0 <= i < ss.len() && #[trigger] ss[i] == x) }

// ===== what inference may answer for a value: h are the hints, lim the map threshold =====
pub open spec fn opq(h: GH) -> bool { exists|t: Seq<char>| #[trigger] h.contains((here(), GHint::Opaque(t))) }
pub open spec fn mp(h: GH) -> bool { h.contains((here(), GHint::Map)) }
pub open spec fn over(n: nat, lim: Option<nat>) -> bool { lim is Some && n > lim->Some_0 }
pub open spec fn fit(s: GShape, t: GTree, h: GH, lim: Option<nat>) -> bool decreases t, 1nat {
    ||| s is Opaque && h.contains((here(), GHint::Opaque(s->Opaque_0)))
    ||| mp(h) && t is Obj && map_fit(s, t->Obj_0, h, lim)
    ||| !opq(h) && !mp(h) && match t {
        GTree::Null => s is Null,
        GTree::Bool => s is Bool,
        GTree::Num(i) => s == (if i { GShape::Integer } else { GShape::Floating }),
        GTree::Str => s is StringT,
        GTree::Arr(es) => arr_fit(s, es, h, lim),
        GTree::Obj(ms) => obj_fit(s, ms, h, lim),
    }
}
pub open spec fn fits_at(ss: Seq<GShape>, es: Seq<GTree>, h: GH, lim: Option<nat>) -> bool decreases es, 2nat {
    ss.len() == es.len() && forall|i: int| #![trigger ss[i]] #![trigger es[i]] 0 <= i < es.len() ==> fit(ss[i], es[i], gstep(h, dec(i as nat)), lim)
}
pub open spec fn arr_fit(s: GShape, es: Seq<GTree>, h: GH, lim: Option<nat>) -> bool decreases es, 3nat {
    match s {
        GShape::Tuple(ss, _) => fits_at(ss, es, h, lim),
        GShape::VecT(e) => exists|ss: Seq<GShape>| fits_at(ss, es, h, lim) && #[trigger] comb(*e, sset(ss)),
        _ => false,
    }
}
// one field for each key, for the last value of that key
pub open spec fn fields_fit(fs: Seq<(Seq<char>, GShape)>, ms: Members, h: GH, lim: Option<nat>) -> bool decreases ms, 2nat {
    &&& uniq(fs)
    &&& forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> field_fit(fs[i], ms, h, lim)
    &&& forall|j: int| #![trigger ms[j]] 0 <= j < ms.len() ==> has_key(fs, ms[j].0)
}
pub open spec fn field_fit(e: (Seq<char>, GShape), ms: Members, h: GH, lim: Option<nat>) -> bool decreases ms, 1nat {
    exists|j: int| 0 <= j < ms.len() && last_of(ms, j) && (#[trigger] ms[j]).0 == e.0 && fit(e.1, ms[j].1, gstep(h, e.0), lim)
}
pub open spec fn obj_fit(s: GShape, ms: Members, h: GH, lim: Option<nat>) -> bool decreases ms, 3nat {
    match s {
        GShape::Struct(fs) => fields_fit(fs, ms, h, lim) && !over(fs.len(), lim),
        GShape::MapT(e) => exists|fs: Seq<(Seq<char>, GShape)>| fields_fit(fs, ms, h, lim) && over(fs.len(), lim) && #[trigger] comb(*e, vset(fs)),
        _ => false,
    }
}
pub open spec fn map_fit(s: GShape, ms: Members, h: GH, lim: Option<nat>) -> bool decreases ms, 3nat {
    match s {
        GShape::MapT(e) => exists|fs: Seq<(Seq<char>, GShape)>| fields_fit(fs, ms, h, lim) && #[trigger] comb(*e, vset(fs)),
        _ => false,
    }
}
// a map hint on something that is not an object
pub open spec fn clash(t: GTree, h: GH) -> bool decreases t {
    ||| mp(h) && !(t is Obj)
    ||| (mp(h) || !opq(h)) && match t {
        GTree::Arr(es) => exists|i: int| #![trigger es[i]] 0 <= i < es.len() && clash(es[i], gstep(h, dec(i as nat))),
        GTree::Obj(ms) => exists|i: int| #![trigger ms[i]] 0 <= i < ms.len() && clash(ms[i].1, gstep(h, ms[i].0)),
        _ => false,
    }
}
pub open spec fn clash_elems(es: Seq<GTree>, h: GH) -> bool { exists|i: int| #![trigger es[i]] 0 <= i < es.len() && clash(es[i], gstep(h, dec(i as nat))) }
pub open spec fn clash_members(ms: Members, h: GH) -> bool { exists|i: int| #![trigger ms[i]] 0 <= i < ms.len() && clash(ms[i].1, gstep(h, ms[i].0)) }
// ===== C06: what is inferred admits the value =====
pub proof fn lemma_fit_admits(s: GShape, t: GTree, h: GH, lim: Option<nat>, v: GVal)
    requires fit(s, t, h, lim), val(t, v)
    ensures admits(s, Some(v))
    decreases t
{
    reveal(comb); reveal_with_fuel(fit, 3); reveal_with_fuel(fits_at, 3); reveal_with_fuel(arr_fit, 3); reveal_with_fuel(fields_fit, 3); reveal_with_fuel(obj_fit, 3); reveal_with_fuel(map_fit, 3);
    if s is Opaque {}
    else if t is Arr {
        let es = t->Arr_0; let a = v->Arr_0;
        match s {
            GShape::Tuple(ss, _) => { assert forall|i: int| #![trigger a[i]] #![trigger ss[i]] 0 <= i < ss.len() implies admits(ss[i], Some(a[i])) by { assert(val(es[i], a[i])); lemma_fit_admits(ss[i], es[i], gstep(h, dec(i as nat)), lim, a[i]); } }
            GShape::VecT(e) => {
                let ss = choose|ss: Seq<GShape>| fits_at(ss, es, h, lim) && #[trigger] comb(*e, sset(ss));
                assert forall|i: int| 0 <= i < a.len() implies admits(*e, Some(#[trigger] a[i])) by {
                    assert(val(es[i], a[i])); lemma_fit_admits(ss[i], es[i], gstep(h, dec(i as nat)), lim, a[i]);
                    assert(sset(ss).contains(ss[i])); reveal(covers);
                    assert(covers(*e, ss[i]));
                }
            }
            _ => {}
        }
    } else if t is Obj {
        let ms = t->Obj_0; let m = v->Obj_0;
        let fs = match s {
            GShape::Struct(fs) => fs,
            GShape::MapT(e) => if mp(h) { choose|fs: Seq<(Seq<char>, GShape)>| fields_fit(fs, ms, h, lim) && #[trigger] comb(*e, vset(fs)) }
                else { choose|fs: Seq<(Seq<char>, GShape)>| fields_fit(fs, ms, h, lim) && over(fs.len(), lim) && #[trigger] comb(*e, vset(fs)) },
            _ => arbitrary(),
        };
        assert(fields_fit(fs, ms, h, lim));
        assert forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() implies m.dom().contains(fs[i].0) && admits(fs[i].1, Some(m[fs[i].0])) by {
            assert(field_fit(fs[i], ms, h, lim));
            let j = choose|j: int| 0 <= j < ms.len() && last_of(ms, j) && (#[trigger] ms[j]).0 == fs[i].0 && fit(fs[i].1, ms[j].1, gstep(h, fs[i].0), lim);
            lemma_fit_admits(fs[i].1, ms[j].1, gstep(h, fs[i].0), lim, m[ms[j].0]);
        }
        match s {
            GShape::Struct(_) => {
                assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies has_key(fs, k) by {
                    let j = choose|j: int| 0 <= j < ms.len() && #[trigger] ms[j].0 == k;
                    assert(has_key(fs, ms[j].0));
                }
            }
            GShape::MapT(e) => {
                assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies admits(*e, Some(m[k])) by {
                    let j = choose|j: int| 0 <= j < ms.len() && #[trigger] ms[j].0 == k;
                    assert(has_key(fs, ms[j].0));
                    let i = choose|i: int| 0 <= i < fs.len() && #[trigger] fs[i].0 == k;
                    assert(vset(fs).contains(fs[i].1)); reveal(covers);
                    assert(covers(*e, fs[i].1));
                }
            }
            _ => {}
        }
    }
}
// without hints nothing can clash
pub proof fn lemma_no_clash(t: GTree) ensures !clash(t, GH::empty()) decreases t
{
    match t {
        GTree::Arr(es) => { assert forall|i: int| 0 <= i < es.len() implies !clash(#[trigger] es[i], gstep(GH::empty(), dec(i as nat))) by { lemma_gstep_empty(dec(i as nat)); lemma_no_clash(es[i]); } }
        GTree::Obj(ms) => { assert forall|i: int| 0 <= i < ms.len() implies !clash((#[trigger] ms[i]).1, gstep(GH::empty(), ms[i].0)) by { lemma_gstep_empty(ms[i].0); lemma_no_clash(ms[i].1); } }
        _ => {}
    }
}
// ===== C09: the nodes a pointer selects, in document order =====
pub open spec fn picks(f: Seq<char>, n: Seq<char>) -> bool { f == "-"@ || f == n }
pub open spec fn sel(t: GTree, p: Seq<Seq<char>>) -> Seq<GTree> decreases p.len(), 0nat, 1nat {
    if p.len() == 0 { seq![t] } else { match t {
        GTree::Obj(ms) => sel_members(ms, p),
        GTree::Arr(es) => sel_elems(es, p),
        _ => Seq::empty(),
    } }
}
pub open spec fn sel_members(ms: Members, p: Seq<Seq<char>>) -> Seq<GTree> decreases p.len(), 0nat, 0nat, ms.len() {
    if p.len() == 0 || ms.len() == 0 { Seq::empty() } else {
        sel_members(ms.drop_last(), p) + (if picks(p[0], ms.last().0) { sel(ms.last().1, p.skip(1)) } else { Seq::empty() })
    }
}
pub open spec fn sel_elems(es: Seq<GTree>, p: Seq<Seq<char>>) -> Seq<GTree> decreases p.len(), 0nat, 0nat, es.len() {
    if p.len() == 0 || es.len() == 0 { Seq::empty() } else {
        sel_elems(es.drop_last(), p) + (if picks(p[0], dec((es.len() - 1) as nat)) { sel(es.last(), p.skip(1)) } else { Seq::empty() })
    }
}
pub open spec fn fits_all(ss: Seq<GShape>, ts: Seq<GTree>, h: GH, lim: Option<nat>) -> bool {
    ss.len() == ts.len() && forall|i: int| #![trigger ss[i]] #![trigger ts[i]] 0 <= i < ts.len() ==> fit(ss[i], ts[i], h, lim)
}
// r is the combination of what is inferred from exactly these nodes
#[verifier::opaque]
pub open spec fn many(r: Option<GShape>, ts: Seq<GTree>, h: GH, lim: Option<nat>) -> bool {
    match r {
        None => ts.len() == 0,
        Some(x) => ts.len() > 0 && exists|ss: Seq<GShape>| fits_all(ss, ts, h, lim) && #[trigger] comb(x, sset(ss)) && (ss.len() == 1 ==> x == ss[0]),
    }
}
pub open spec fn clash_any(ts: Seq<GTree>, h: GH) -> bool { exists|i: int| 0 <= i < ts.len() && clash(#[trigger] ts[i], h) }

// ===== one call of common_shape =====
#[verifier::opaque]
pub open spec fn mg(a: GShape, b: GShape, r: GShape) -> bool {
    merged(a, b, r) && covers(r, a) && covers(r, b) && gwf(r) && (r is Bottom <==> a is Bottom && b is Bottom) && gsz(r) <= gsz(a) + gsz(b)
}
pub open spec fn tree(s: Toks) -> GTree { p_value(s)->Some_0.0 }
pub open spec fn rest(s: Toks) -> Toks { p_value(s)->Some_0.1 }
// s is what may be inferred for the value between t0 and t1
#[verifier::opaque]
pub open spec fn infd(s: GShape, t0: Toks, t1: Toks, h: GH, lim: Option<nat>) -> bool {
    p_value(t0) == Some((tree(t0), t1)) && fit(s, tree(t0), h, lim) && gwf(s) && !(s is Bottom) && gsz(s) + t1.len() <= t0.len() && t1.len() < t0.len()
}
// there is no value, or a hint that cannot be followed
#[verifier::opaque]
pub open spec fn bad(t0: Toks, h: GH) -> bool { p_value(t0) matches Some((t, r)) ==> clash(t, h) }
#[verifier::opaque]
pub open spec fn bad_obj(s0: Toks, h: GH) -> bool { p_obj(s0) matches Some((m, r)) ==> clash_members(m, h) }
#[verifier::opaque]
pub open spec fn bad_arr(s0: Toks, h: GH) -> bool { p_arr(s0) matches Some((m, r)) ==> clash_elems(m, h) }
#[verifier::opaque]
pub open spec fn obj_ok(s: GShape, s0: Toks, t1: Toks, h: GH, lim: Option<nat>) -> bool {
    &&& p_obj(s0) is Some && p_obj(s0)->Some_0.1 == t1 && obj_fit(s, p_obj(s0)->Some_0.0, h, lim)
    &&& gwf(s) && gsz(s) + t1.len() <= s0.len()
}
#[verifier::opaque]
pub open spec fn map_ok(s: GShape, s0: Toks, t1: Toks, h: GH, lim: Option<nat>) -> bool {
    &&& p_obj(s0) is Some && p_obj(s0)->Some_0.1 == t1 && map_fit(s, p_obj(s0)->Some_0.0, h, lim)
    &&& gwf(s) && gsz(s) + t1.len() <= s0.len()
}
#[verifier::opaque]
pub open spec fn arr_ok(s: GShape, s0: Toks, t1: Toks, h: GH, lim: Option<nat>) -> bool {
    &&& p_arr(s0) is Some && p_arr(s0)->Some_0.1 == t1 && arr_fit(s, p_arr(s0)->Some_0.0, h, lim)
    &&& gwf(s) && gsz(s) + t1.len() <= s0.len()
}
pub proof fn lemma_bad_empty(t0: Toks) ensures bad(t0, GH::empty()) ==> p_value(t0) is None
{ reveal(bad); if p_value(t0) is Some { lemma_no_clash(tree(t0)); } }
pub proof fn lemma_clash_in(t: GTree, h: GH)
    requires mp(h) || !opq(h)
    ensures t is Obj && clash_members(t->Obj_0, h) ==> clash(t, h), !mp(h) && t is Arr && clash_elems(t->Arr_0, h) ==> clash(t, h)
{
    if t is Obj && clash_members(t->Obj_0, h) { let ms = t->Obj_0; let i = choose|i: int| #![trigger ms[i]] 0 <= i < ms.len() && clash(ms[i].1, gstep(h, ms[i].0)); assert(clash(ms[i].1, gstep(h, ms[i].0))); assert(clash(t, h)); }
    if t is Arr && clash_elems(t->Arr_0, h) { let es = t->Arr_0; let i = choose|i: int| #![trigger es[i]] 0 <= i < es.len() && clash(es[i], gstep(h, dec(i as nat))); assert(clash(es[i], gstep(h, dec(i as nat)))); if !mp(h) { assert(clash(t, h)); } }
}
// ----- infer_shape -----
pub proof fn lemma_shape(t0: Toks, h: GH, lim: Option<nat>)
    ensures
        t0.len() == 0 ==> bad(t0, h),
        t0.len() > 0 && (t0[0] is OEnd || t0[0] is AEnd || t0[0] is Comma || t0[0] is Colon || t0[0] is Bad) ==> bad(t0, h),
        mp(h) && t0.len() > 0 && !(t0[0] is OStart) ==> bad(t0, h),
        mp(h) && t0.len() > 0 && t0[0] is OStart && bad_obj(t0.skip(1), h) ==> bad(t0, h),
        forall|s: GShape, t1: Toks| mp(h) && t0.len() > 0 && t0[0] is OStart && #[trigger] map_ok(s, t0.skip(1), t1, h, lim) ==> infd(s, t0, t1, h, lim),
        bad(t0, GH::empty()) ==> bad(t0, h),
        forall|x: GShape, t1: Toks, n: Seq<char>| #[trigger] infd(x, t0, t1, GH::empty(), lim) && #[trigger] h.contains((here(), GHint::Opaque(n))) ==> infd(GShape::Opaque(n), t0, t1, h, lim),
        !opq(h) && !mp(h) && t0.len() > 0 ==> {
            &&& t0[0] is Null ==> infd(GShape::Null, t0, t0.skip(1), h, lim)
            &&& t0[0] is True || t0[0] is False ==> infd(GShape::Bool, t0, t0.skip(1), h, lim)
            &&& t0[0] is Num ==> infd(if is_int(t0[0]->Num_0) { GShape::Integer } else { GShape::Floating }, t0, t0.skip(1), h, lim)
            &&& t0[0] is Str ==> infd(GShape::StringT, t0, t0.skip(1), h, lim)
            &&& t0[0] is OStart && bad_obj(t0.skip(1), h) ==> bad(t0, h)
            &&& t0[0] is AStart && bad_arr(t0.skip(1), h) ==> bad(t0, h)
            &&& forall|s: GShape, t1: Toks| t0[0] is OStart && #[trigger] obj_ok(s, t0.skip(1), t1, h, lim) ==> infd(s, t0, t1, h, lim)
            &&& forall|s: GShape, t1: Toks| t0[0] is AStart && #[trigger] arr_ok(s, t0.skip(1), t1, h, lim) ==> infd(s, t0, t1, h, lim)
        },
{
    reveal(infd); reveal(bad); reveal(bad_obj); reveal(bad_arr); reveal(obj_ok); reveal(map_ok); reveal(arr_ok);
    lemma_bad_empty(t0); lemma_p_rest(t0);
    if p_value(t0) is Some && (mp(h) || !opq(h)) { lemma_clash_in(tree(t0), h); }
    reveal_with_fuel(fit, 2); reveal_with_fuel(obj_fit, 2); reveal_with_fuel(arr_fit, 2); reveal_with_fuel(map_fit, 2); reveal_with_fuel(clash, 2);
}
// ----- folding common_shape over shapes -----
pub open spec fn vals(fs: Seq<(Seq<char>, GShape)>) -> Seq<GShape> { Seq::new(fs.len(), |i: int| fs[i].1) }
pub open spec fn good(ss: Seq<GShape>) -> bool { forall|i: int| 0 <= i < ss.len() ==> gwf(#[trigger] ss[i]) && !(ss[i] is Bottom) }
pub open spec fn ssum(ss: Seq<GShape>) -> nat { nsum(sizes(ss)) }
pub proof fn lemma_ssum_push(ss: Seq<GShape>, x: GShape) ensures ssum(ss.push(x)) == ssum(ss) + gsz(x)
{ broadcast use group_gsz; assert(sizes(ss.push(x)) =~= sizes(ss).push(gsz(x))); lemma_nsum_push(sizes(ss), gsz(x)); }
pub proof fn lemma_ssum_take(ss: Seq<GShape>, n: int) requires 0 <= n < ss.len()
    ensures ssum(ss.take(n + 1)) == ssum(ss.take(n)) + gsz(ss[n]), ssum(ss.take(n + 1)) <= ssum(ss), ssum(ss.take(0)) == 0, ss.take(ss.len() as int) == ss
{
    broadcast use group_gsz;
    lemma_nsum_mono(sizes(ss), n);
    assert(sizes(ss.take(n)) =~= sizes(ss).take(n)); assert(sizes(ss.take(n + 1)) =~= sizes(ss).take(n + 1));
    assert(sizes(ss.take(0)) =~= Seq::<nat>::empty()); assert(ss.take(ss.len() as int) =~= ss);
}
// acc is made of the shapes in b and the first n of ss
#[verifier::opaque]
pub open spec fn fold2(acc: GShape, b: Shapes, bs: nat, ss: Seq<GShape>, n: int) -> bool {
    0 <= n <= ss.len() && good(ss) && comb(acc, b.union(sset(ss.take(n)))) && gsz(acc) <= bs + ssum(ss.take(n))
}
pub proof fn lemma_fold_init(acc: GShape, b: Shapes, ss: Seq<GShape>)
    requires good(ss), comb(acc, b)
    ensures fold2(acc, b, gsz(acc), ss, 0), gwf(acc)
{
    reveal(fold2); reveal(comb); broadcast use group_gsz;
    assert(b.union(sset(ss.take(0))) =~= b) by { assert forall|x: GShape| !#[trigger] sset(ss.take(0)).contains(x) by {} }
    assert(sizes(ss.take(0)) =~= Seq::<nat>::empty());
}
pub proof fn lemma_fold_step(acc: GShape, b: Shapes, bs: nat, ss: Seq<GShape>, n: int)
    requires fold2(acc, b, bs, ss, n)
    ensures
        gwf(acc), 0 <= n <= ss.len(),
        n < ss.len() ==> gwf(ss[n]) && gsz(acc) + gsz(ss[n]) <= bs + ssum(ss),
        n < ss.len() ==> forall|r: GShape| #[trigger] mg(acc, ss[n], r) ==> fold2(r, b, bs, ss, n + 1),
{
    reveal(fold2); reveal(mg);
    assert(gwf(acc)) by { reveal(comb); }
    if n < ss.len() {
        lemma_ssum_take(ss, n);
        let x = ss[n];
        let u = b.union(sset(ss.take(n)));
        let u2 = b.union(sset(ss.take(n + 1)));
        assert(u2 =~= u.union(Shapes::empty().insert(x))) by {
            assert forall|y: GShape| #[trigger] u2.contains(y) == u.union(Shapes::empty().insert(x)).contains(y) by {
                let a = ss.take(n); let c = ss.take(n + 1);
                if sset(c).contains(y) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == y; if i < n { assert(a[i] == y); } }
                if sset(a).contains(y) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == y; assert(c[i] == y); }
                assert(c[n] == x);
            }
        }
        lemma_comb_one(x, Shapes::empty().insert(x));
        assert forall|r: GShape| #[trigger] mg(acc, ss[n], r) implies fold2(r, b, bs, ss, n + 1) by {
            lemma_comb_merge(acc, u, x, Shapes::empty().insert(x), r, u2);
        }
    }
}
pub proof fn lemma_fold_done(acc: GShape, b: Shapes, bs: nat, ss: Seq<GShape>)
    requires fold2(acc, b, bs, ss, ss.len() as int)
    ensures comb(acc, b.union(sset(ss))), gsz(acc) <= bs + ssum(ss), gwf(acc)
{ reveal(fold2); reveal(comb); assert(ss.take(ss.len() as int) =~= ss); }

// ----- objects -----
pub type GFs = Seq<(Seq<char>, GShape)>;
pub open spec fn fput(fs: GFs, k: Seq<char>, x: GShape) -> GFs { without(fs, k).push((k, x)) }
pub proof fn lemma_vset(fs: GFs) ensures vset(fs) == sset(vals(fs)), vals(fs).len() == fs.len()
{
    let v = vals(fs);
    assert forall|x: GShape| #[trigger] vset(fs).contains(x) == sset(v).contains(x) by {
        if vset(fs).contains(x) { let i = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).1 == x; assert(v[i] == x); }
        if sset(v).contains(x) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == x; assert(fs[i].1 == x); }
    }
    assert(vset(fs) =~= sset(v));
}
pub proof fn lemma_vals_sizes(fs: GFs) ensures ssum(vals(fs)) == nsum(fsizes(fs))
{ broadcast use group_gsz; assert(sizes(vals(fs)) =~= fsizes(fs)); }
pub proof fn lemma_fput_sum(fs: GFs, k: Seq<char>, x: GShape) ensures nsum(fsizes(fput(fs, k, x))) <= nsum(fsizes(fs)) + gsz(x)
{
    broadcast use group_gsz;
    lemma_without_sum(fs, k);
    assert(fsizes(fput(fs, k, x)) =~= fsizes(without(fs, k)).push(gsz(x)));
    lemma_nsum_push(fsizes(without(fs, k)), gsz(x));
}
pub proof fn lemma_without_sum(fs: GFs, k: Seq<char>) ensures nsum(fsizes(without(fs, k))) <= nsum(fsizes(fs)) decreases fs.len()
{
    broadcast use group_gsz; reveal(Seq::filter);
    if fs.len() > 0 {
        let d = fs.drop_last(); let l = fs.last();
        lemma_without_sum(d, k);
        assert(fsizes(fs) =~= fsizes(d).push(gsz(l.1))); lemma_nsum_push(fsizes(d), gsz(l.1));
        if l.0 != k { assert(without(fs, k) == without(d, k).push(l)); assert(fsizes(without(fs, k)) =~= fsizes(without(d, k)).push(gsz(l.1))); lemma_nsum_push(fsizes(without(d, k)), gsz(l.1)); }
    } else { assert(without(fs, k) =~= fs); }
}
pub proof fn lemma_has_fput(fs: GFs, k: Seq<char>, x: GShape, n: Seq<char>)
    ensures has_key(fput(fs, k, x), n) == (has_key(fs, n) || n == k)
{
    lemma_without(fs, k);
    let w = without(fs, k); let f = fput(fs, k, x);
    assert(f[w.len() as int].0 == k);
    if has_key(fs, n) && n != k { let i = choose|i: int| 0 <= i < fs.len() && #[trigger] fs[i].0 == n; assert(w.contains(fs[i])); let j = choose|j: int| 0 <= j < w.len() && w[j] == fs[i]; assert(f[j].0 == n); }
    if has_key(f, n) && n != k { let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j].0 == n; assert(f[j] == w[j]); assert(fs.contains(w[j])); }
}
pub proof fn lemma_fields_insert(fs: GFs, ms: Members, k: Seq<char>, x: GShape, t: GTree, h: GH, lim: Option<nat>)
    requires fields_fit(fs, ms, h, lim), gwf(GShape::Struct(fs)), fit(x, t, gstep(h, k), lim), gwf(x), !(x is Bottom)
    ensures fields_fit(fput(fs, k, x), ms.push((k, t)), h, lim), gwf(GShape::Struct(fput(fs, k, x)))
{
    lemma_without(fs, k);
    let w = without(fs, k); let f = fput(fs, k, x); let m2 = ms.push((k, t));
    assert forall|i: int| #![trigger f[i]] 0 <= i < f.len() implies field_fit(f[i], m2, h, lim) && !(f[i].1 is Bottom) && gwf(f[i].1) by {
        if i < w.len() {
            assert(f[i] == w[i]); assert(fs.contains(w[i]));
            let l = choose|l: int| 0 <= l < fs.len() && fs[l] == w[i];
            assert(field_fit(fs[l], ms, h, lim));
            let j = choose|j: int| 0 <= j < ms.len() && last_of(ms, j) && (#[trigger] ms[j]).0 == fs[l].0 && fit(fs[l].1, ms[j].1, gstep(h, fs[l].0), lim);
            assert(m2[j] == ms[j]);
            assert(last_of(m2, j)) by { assert forall|q: int| j < q < m2.len() implies (#[trigger] m2[q]).0 != m2[j].0 by { if q < ms.len() { assert(m2[q] == ms[q]); } } }
        } else {
            let j = ms.len() as int;
            assert(m2[j] == (k, t)); assert(last_of(m2, j));
        }
    }
    assert forall|j: int| #![trigger m2[j]] 0 <= j < m2.len() implies has_key(f, m2[j].0) by { lemma_has_fput(fs, k, x, m2[j].0); if j < ms.len() { assert(m2[j] == ms[j]); } }
    assert(uniq(f)) by { assert forall|i: int, j: int| #![trigger f[i], f[j]] 0 <= i < j < f.len() implies f[i].0 != f[j].0 by { assert(f[i] == w[i]); if j < w.len() { assert(f[j] == w[j]); } } }
    assert(fields_fit(f, m2, h, lim)) by { reveal_with_fuel(fields_fit, 3); reveal_with_fuel(fit, 3); }
}
#[verifier::opaque]
pub open spec fn obj_state(fs: GFs, s0: Toks, cur: Toks, acc: Members, h: GH, lim: Option<nat>) -> bool {
    &&& mcat(acc, p_members(cur)) == p_members(s0) && p_obj(s0) == p_members(s0)
    &&& fields_fit(fs, acc, h, lim) && gwf(GShape::Struct(fs))
    &&& nsum(fsizes(fs)) + 3 * acc.len() + cur.len() <= s0.len()
}
#[verifier::opaque]
pub open spec fn obj_done(fs: GFs, s0: Toks, t1: Toks, h: GH, lim: Option<nat>) -> bool {
    &&& p_obj(s0) is Some && p_obj(s0)->Some_0.1 == t1
    &&& fields_fit(fs, p_obj(s0)->Some_0.0, h, lim) && gwf(GShape::Struct(fs))
    &&& nsum(fsizes(fs)) + 3 + t1.len() <= s0.len()
}
pub proof fn lemma_obj_init(s0: Toks, h: GH, lim: Option<nat>)
    ensures
        s0.len() > 0 && s0[0] is OEnd ==> obj_ok(GShape::Struct(Seq::empty()), s0, s0.skip(1), h, lim),
        !(s0.len() > 0 && s0[0] is OEnd) ==> obj_state(Seq::empty(), s0, s0, Seq::empty(), h, lim),
{
    reveal(obj_ok); reveal(obj_state); broadcast use group_gsz;
    let fs: GFs = Seq::empty();
    assert(fsizes(fs) =~= Seq::<nat>::empty());
    let ms: Members = Seq::empty();
    assert(fields_fit(fs, ms, h, lim));
    assert(gwf(GShape::Struct(fs)));
    assert(obj_fit(GShape::Struct(fs), ms, h, lim));
    match p_members(s0) { Some((m, x)) => { assert(ms + m =~= m); } None => {} }
}
pub open spec fn obj_next(fs: GFs, s0: Toks, r: Toks, acc: Members, h: GH, lim: Option<nat>) -> bool {
    &&& r[0] is OEnd ==> obj_done(fs, s0, r.skip(1), h, lim)
    &&& r[0] is Comma ==> obj_state(fs, s0, r.skip(1), acc, h, lim)
}
// one member: Str Colon value, then a comma or the end
pub open spec fn member_at(cur: Toks) -> bool { cur.len() >= 2 && cur[0] is Str && cur[1] is Colon }
pub open spec fn mkey(cur: Toks) -> Seq<char> { cur[0]->Str_0 }
pub open spec fn mval(cur: Toks) -> Toks { cur.skip(2) }
pub proof fn lemma_obj_step(fs: GFs, s0: Toks, cur: Toks, acc: Members, h: GH, lim: Option<nat>)
    requires obj_state(fs, s0, cur, acc, h, lim)
    ensures
        !member_at(cur) ==> bad_obj(s0, h),
        cur.len() >= 2 ==> cur.skip(1).skip(1) == mval(cur) && cur.skip(1)[0] == cur[1],
        member_at(cur) && bad(mval(cur), gstep(h, mkey(cur))) ==> bad_obj(s0, h),
        member_at(cur) ==> forall|x: GShape, r: Toks| #[trigger] infd(x, mval(cur), r, gstep(h, mkey(cur)), lim) ==> {
            &&& r.len() < mval(cur).len()
            &&& r.len() == 0 || !(r[0] is OEnd || r[0] is Comma) ==> bad_obj(s0, h)
            &&& r.len() > 0 ==> obj_next(fput(fs, mkey(cur), x), s0, r, acc.push((mkey(cur), tree(mval(cur)))), h, lim)
        },
{
    reveal(obj_state); reveal(obj_done); reveal(bad_obj); reveal(bad); reveal(infd);
    if cur.len() >= 2 { assert(cur.skip(1).skip(1) =~= cur.skip(2)); }
    if member_at(cur) {
        let k = mkey(cur); let v = mval(cur); let t = tree(v);
        lemma_p_rest(v);
        if p_value(v) is Some {
            let r = rest(v);
            if r.len() > 0 && r.len() < cur.len() && r[0] is Comma && p_members(r.skip(1)) is Some {
                let (m, y) = p_members(r.skip(1))->Some_0;
                let full = acc + (seq![(k, t)] + m);
                assert(full =~= acc.push((k, t)) + m);
                assert(p_members(cur) == Some((seq![(k, t)] + m, y)));
                assert(p_obj(s0) == Some((full, y)));
                if clash(t, gstep(h, k)) { assert(full[acc.len() as int] == (k, t)); assert(clash_members(full, h)); }
            }
            if r.len() > 0 && r.len() < cur.len() && r[0] is OEnd {
                let full = acc + seq![(k, t)];
                assert(full =~= acc.push((k, t)));
                assert(p_obj(s0) == Some((full, r.skip(1))));
                if clash(t, gstep(h, k)) { assert(full[acc.len() as int] == (k, t)); assert(clash_members(full, h)); }
            }
        }
        assert forall|x: GShape, r: Toks| #[trigger] infd(x, v, r, gstep(h, k), lim) && r.len() > 0 implies obj_next(fput(fs, k, x), s0, r, acc.push((k, t)), h, lim) by {
            lemma_fields_insert(fs, acc, k, x, t, h, lim);
            lemma_fput_sum(fs, k, x);
        }
    }
}
pub proof fn lemma_obj_end(fs: GFs, s0: Toks, t1: Toks, h: GH, lim: Option<nat>)
    requires obj_done(fs, s0, t1, h, lim)
    ensures
        !over(fs.len(), lim) ==> obj_ok(GShape::Struct(fs), s0, t1, h, lim),
        good(vals(fs)), ssum(vals(fs)) <= s0.len(), vals(fs).len() == fs.len(),
        comb(GShape::Bottom, Shapes::empty()),
        forall|e: GShape| over(fs.len(), lim) && #[trigger] fold2(e, Shapes::empty(), 0, vals(fs), fs.len() as int) ==> obj_ok(GShape::MapT(Box::new(e)), s0, t1, h, lim),
{
    reveal(obj_done); reveal(obj_ok); broadcast use group_gsz;
    lemma_vset(fs); lemma_vals_sizes(fs);
    lemma_comb_none(Shapes::empty());
    let ms = p_obj(s0)->Some_0.0;
    if !over(fs.len(), lim) { assert(obj_fit(GShape::Struct(fs), ms, h, lim)); }
    assert forall|e: GShape| over(fs.len(), lim) && #[trigger] fold2(e, Shapes::empty(), 0, vals(fs), fs.len() as int) implies obj_ok(GShape::MapT(Box::new(e)), s0, t1, h, lim) by {
        lemma_fold_done(e, Shapes::empty(), 0, vals(fs));
        assert(Shapes::empty().union(sset(vals(fs))) =~= vset(fs));
        assert(comb(e, vset(fs)));
        assert(obj_fit(GShape::MapT(Box::new(e)), ms, h, lim));
    }
}
pub proof fn lemma_map_start(s0: Toks, h: GH, lim: Option<nat>)
    ensures forall|s: GShape, t1: Toks| s is MapT && #[trigger] obj_ok(s, s0, t1, h, lim) ==> map_ok(s, s0, t1, h, lim)
{ assert forall|s: GShape, t1: Toks| s is MapT && #[trigger] obj_ok(s, s0, t1, h, lim) implies map_ok(s, s0, t1, h, lim) by { lemma_map_end(s, s0, t1, h, lim); } }
pub proof fn lemma_map_end(s: GShape, s0: Toks, t1: Toks, h: GH, lim: Option<nat>)
    requires obj_ok(s, s0, t1, h, lim)
    ensures s is Struct || s is MapT, s is MapT ==> map_ok(s, s0, t1, h, lim),
        s is Struct ==> good(vals(s->Struct_0)) && ssum(vals(s->Struct_0)) <= s0.len() && vals(s->Struct_0).len() == s->Struct_0.len(),
        comb(GShape::Bottom, Shapes::empty()),
        forall|e: GShape| s is Struct && #[trigger] fold2(e, Shapes::empty(), 0, vals(s->Struct_0), s->Struct_0.len() as int) ==> map_ok(GShape::MapT(Box::new(e)), s0, t1, h, lim),
{
    reveal(map_ok); reveal(obj_ok); broadcast use group_gsz;
    lemma_comb_none(Shapes::empty());
    let ms = p_obj(s0)->Some_0.0;
    reveal_with_fuel(obj_fit, 2); reveal_with_fuel(map_fit, 2);
    if s is Struct {
        let fs = s->Struct_0;
        lemma_vset(fs); lemma_vals_sizes(fs);
        assert(fields_fit(fs, ms, h, lim));
        assert forall|e: GShape| #[trigger] fold2(e, Shapes::empty(), 0, vals(fs), fs.len() as int) implies map_ok(GShape::MapT(Box::new(e)), s0, t1, h, lim) by {
            lemma_fold_done(e, Shapes::empty(), 0, vals(fs));
            assert(Shapes::empty().union(sset(vals(fs))) =~= vset(fs));
            assert(comb(e, vset(fs)));
            assert(map_fit(GShape::MapT(Box::new(e)), ms, h, lim));
        }
    }
}
// ----- arrays -----
pub open spec fn min12(n: nat) -> int { if n < 12 { n as int } else { 12 } }
// ss: the shapes of the elements; the first twelve are kept apart
pub open spec fn arr_acc(ss: Seq<GShape>, shapes: Seq<GShape>, folded: GShape, es: Seq<GTree>, h: GH, lim: Option<nat>) -> bool {
    fits_at(ss, es, h, lim) && good(ss) && shapes == ss.take(min12(ss.len())) && comb(folded, sset(ss.skip(min12(ss.len()))))
}
pub open spec fn arr_any(shapes: Seq<GShape>, folded: GShape, es: Seq<GTree>, h: GH, lim: Option<nat>) -> bool {
    exists|ss: Seq<GShape>| #[trigger] arr_acc(ss, shapes, folded, es, h, lim)
}
#[verifier::opaque]
pub open spec fn arr_state(shapes: Seq<GShape>, folded: GShape, s0: Toks, cur: Toks, acc: Seq<GTree>, h: GH, lim: Option<nat>) -> bool {
    &&& ecat(acc, p_elems(cur)) == p_elems(s0) && p_arr(s0) == p_elems(s0)
    &&& arr_any(shapes, folded, acc, h, lim)
    &&& ssum(shapes) + gsz(folded) + acc.len() + cur.len() <= s0.len()
}
#[verifier::opaque]
pub open spec fn arr_done(shapes: Seq<GShape>, folded: GShape, s0: Toks, t1: Toks, n: nat, h: GH, lim: Option<nat>) -> bool {
    &&& p_arr(s0) is Some && p_arr(s0)->Some_0.1 == t1 && p_arr(s0)->Some_0.0.len() == n && n > 0
    &&& arr_any(shapes, folded, p_arr(s0)->Some_0.0, h, lim)
    &&& ssum(shapes) + gsz(folded) + n + t1.len() <= s0.len()
}
pub open spec fn arr_next(shapes: Seq<GShape>, folded: GShape, s0: Toks, r: Toks, acc: Seq<GTree>, h: GH, lim: Option<nat>) -> bool {
    &&& r[0] is AEnd ==> arr_done(shapes, folded, s0, r.skip(1), acc.len(), h, lim)
    &&& r[0] is Comma ==> arr_state(shapes, folded, s0, r.skip(1), acc, h, lim)
}
pub proof fn lemma_arr_init(s0: Toks, h: GH, lim: Option<nat>)
    ensures
        s0.len() > 0 && s0[0] is AEnd ==> arr_ok(GShape::VecT(Box::new(GShape::Bottom)), s0, s0.skip(1), h, lim),
        !(s0.len() > 0 && s0[0] is AEnd) ==> arr_state(Seq::empty(), GShape::Bottom, s0, s0, Seq::empty(), h, lim),
{
    reveal(arr_ok); reveal(arr_state); broadcast use group_gsz;
    let ss: Seq<GShape> = Seq::empty(); let es: Seq<GTree> = Seq::empty();
    assert(sizes(ss) =~= Seq::<nat>::empty());
    assert(ss.take(0) =~= ss); assert(ss.skip(0) =~= ss);
    lemma_comb_none(sset(ss));
    assert(fits_at(ss, es, h, lim));
    assert(arr_acc(ss, ss, GShape::Bottom, es, h, lim));
    assert(arr_fit(GShape::VecT(Box::new(GShape::Bottom)), es, h, lim));
    reveal_with_fuel(gsz, 2); reveal_with_fuel(gwf, 2);
    if s0.len() > 0 && s0[0] is AEnd { assert(p_arr(s0) == Some((es, s0.skip(1)))); }
    match p_elems(s0) { Some((m, x)) => { assert(es + m =~= m); } None => {} }
}
pub proof fn lemma_fits_push(ss: Seq<GShape>, es: Seq<GTree>, x: GShape, t: GTree, h: GH, lim: Option<nat>)
    requires fits_at(ss, es, h, lim), fit(x, t, gstep(h, dec(es.len())), lim)
    ensures fits_at(ss.push(x), es.push(t), h, lim)
{
    let s2 = ss.push(x); let e2 = es.push(t);
    assert forall|i: int| #![trigger s2[i]] #![trigger e2[i]] 0 <= i < e2.len() implies fit(s2[i], e2[i], gstep(h, dec(i as nat)), lim) by {
        if i < es.len() { assert(s2[i] == ss[i] && e2[i] == es[i]); assert(fit(ss[i], es[i], gstep(h, dec(i as nat)), lim)); }
    }
}
pub proof fn lemma_arr_push_few(shapes: Seq<GShape>, folded: GShape, acc: Seq<GTree>, x: GShape, t: GTree, h: GH, lim: Option<nat>)
    requires arr_any(shapes, folded, acc, h, lim), acc.len() < 12, fit(x, t, gstep(h, dec(acc.len())), lim), gwf(x), !(x is Bottom)
    ensures arr_any(shapes.push(x), folded, acc.push(t), h, lim)
{
    let ss = choose|ss: Seq<GShape>| #[trigger] arr_acc(ss, shapes, folded, acc, h, lim);
    let s2 = ss.push(x);
    lemma_fits_push(ss, acc, x, t, h, lim);
    assert(ss.take(ss.len() as int) =~= ss); assert(s2.take(s2.len() as int) =~= s2);
    assert(ss.skip(ss.len() as int) =~= s2.skip(s2.len() as int));
    assert(arr_acc(s2, shapes.push(x), folded, acc.push(t), h, lim));
}
pub proof fn lemma_arr_push_many(shapes: Seq<GShape>, folded: GShape, acc: Seq<GTree>, x: GShape, t: GTree, f: GShape, h: GH, lim: Option<nat>)
    requires arr_any(shapes, folded, acc, h, lim), acc.len() >= 12, fit(x, t, gstep(h, dec(acc.len())), lim), gwf(x), !(x is Bottom), mg(x, folded, f) || mg(folded, x, f)
    ensures arr_any(shapes, f, acc.push(t), h, lim)
{
    reveal(mg);
    let ss = choose|ss: Seq<GShape>| #[trigger] arr_acc(ss, shapes, folded, acc, h, lim);
    let s2 = ss.push(x);
    lemma_fits_push(ss, acc, x, t, h, lim);
    assert(s2.take(12) =~= ss.take(12));
    let a = ss.skip(12); let b = s2.skip(12);
    let one = Shapes::empty().insert(x);
    lemma_comb_one(x, one);
    assert(sset(b) =~= one.union(sset(a)) && sset(b) =~= sset(a).union(one)) by {
        assert forall|y: GShape| #[trigger] sset(b).contains(y) == (sset(a).contains(y) || y == x) by {
            if sset(a).contains(y) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == y; assert(b[i] == y); }
            if sset(b).contains(y) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == y; if i < a.len() { assert(a[i] == y); } }
            assert(b[a.len() as int] == x);
        }
    }
    if mg(x, folded, f) { lemma_comb_merge(x, one, folded, sset(a), f, sset(b)); } else { lemma_comb_merge(folded, sset(a), x, one, f, sset(b)); }
    assert(arr_acc(s2, shapes, f, acc.push(t), h, lim));
}
pub proof fn lemma_arr_step(shapes: Seq<GShape>, folded: GShape, s0: Toks, cur: Toks, acc: Seq<GTree>, h: GH, lim: Option<nat>)
    requires arr_state(shapes, folded, s0, cur, acc, h, lim)
    ensures
        acc.len() + cur.len() <= s0.len(), gwf(folded),
        bad(cur, gstep(h, dec(acc.len()))) ==> bad_arr(s0, h),
        forall|x: GShape, r: Toks| #[trigger] infd(x, cur, r, gstep(h, dec(acc.len())), lim) ==> {
            &&& r.len() < cur.len()
            &&& r.len() == 0 || !(r[0] is AEnd || r[0] is Comma) ==> bad_arr(s0, h)
            &&& gwf(x) && gsz(x) + gsz(folded) <= s0.len()
            &&& r.len() > 0 && acc.len() < 12 ==> arr_next(shapes.push(x), folded, s0, r, acc.push(tree(cur)), h, lim)
        },
        forall|x: GShape, r: Toks, f: GShape| #[trigger] infd(x, cur, r, gstep(h, dec(acc.len())), lim) && r.len() > 0 && acc.len() >= 12 && #[trigger] mg(x, folded, f)
            ==> arr_next(shapes, f, s0, r, acc.push(tree(cur)), h, lim),
        forall|x: GShape, r: Toks, f: GShape| #[trigger] infd(x, cur, r, gstep(h, dec(acc.len())), lim) && r.len() > 0 && acc.len() >= 12 && #[trigger] mg(folded, x, f)
            ==> arr_next(shapes, f, s0, r, acc.push(tree(cur)), h, lim),
{
    reveal(arr_state); reveal(arr_done); reveal(bad_arr); reveal(bad); reveal(infd);
    let t = tree(cur);
    lemma_p_rest(cur);
    assert(gwf(folded)) by { reveal(comb); let ss = choose|ss: Seq<GShape>| #[trigger] arr_acc(ss, shapes, folded, acc, h, lim); assert(arr_acc(ss, shapes, folded, acc, h, lim)); }
    if p_value(cur) is Some {
        let r = rest(cur);
        if r.len() > 0 && r.len() < cur.len() && r[0] is Comma && p_elems(r.skip(1)) is Some {
            let (m, y) = p_elems(r.skip(1))->Some_0;
            let full = acc + (seq![t] + m);
            assert(full =~= acc.push(t) + m);
            assert(p_elems(cur) == Some((seq![t] + m, y)));
            assert(p_arr(s0) == Some((full, y)));
            if clash(t, gstep(h, dec(acc.len()))) { assert(full[acc.len() as int] == t); assert(clash_elems(full, h)); }
        }
        if r.len() > 0 && r.len() < cur.len() && r[0] is AEnd {
            let full = acc + seq![t];
            assert(full =~= acc.push(t));
            assert(p_arr(s0) == Some((full, r.skip(1))));
            if clash(t, gstep(h, dec(acc.len()))) { assert(full[acc.len() as int] == t); assert(clash_elems(full, h)); }
        }
    }
    assert forall|x: GShape, r: Toks| #[trigger] infd(x, cur, r, gstep(h, dec(acc.len())), lim) && r.len() > 0 && acc.len() < 12 implies arr_next(shapes.push(x), folded, s0, r, acc.push(t), h, lim) by {
        lemma_arr_push_few(shapes, folded, acc, x, t, h, lim);
        lemma_ssum_push(shapes, x);
    }
    assert forall|x: GShape, r: Toks, f: GShape| #[trigger] infd(x, cur, r, gstep(h, dec(acc.len())), lim) && r.len() > 0 && acc.len() >= 12 && (#[trigger] mg(x, folded, f)) implies arr_next(shapes, f, s0, r, acc.push(t), h, lim) by {
        lemma_arr_push_many(shapes, folded, acc, x, t, f, h, lim); reveal(mg);
    }
    assert forall|x: GShape, r: Toks, f: GShape| #[trigger] infd(x, cur, r, gstep(h, dec(acc.len())), lim) && r.len() > 0 && acc.len() >= 12 && (#[trigger] mg(folded, x, f)) implies arr_next(shapes, f, s0, r, acc.push(t), h, lim) by {
        lemma_arr_push_many(shapes, folded, acc, x, t, f, h, lim); reveal(mg);
    }
}
pub open spec fn arr_wit(shapes: Seq<GShape>, folded: GShape, s0: Toks, h: GH, lim: Option<nat>) -> Seq<GShape> {
    choose|ss: Seq<GShape>| #[trigger] arr_acc(ss, shapes, folded, p_arr(s0)->Some_0.0, h, lim)
}
// the elements folded so far
pub open spec fn arr_rest(shapes: Seq<GShape>, folded: GShape, s0: Toks, h: GH, lim: Option<nat>) -> Shapes {
    let ss = arr_wit(shapes, folded, s0, h, lim);
    sset(ss.skip(min12(ss.len())))
}
pub proof fn lemma_arr_end(shapes: Seq<GShape>, folded: GShape, s0: Toks, t1: Toks, n: nat, h: GH, lim: Option<nat>)
    requires arr_done(shapes, folded, s0, t1, n, h, lim)
    ensures
        1 < n <= 12 ==> arr_ok(GShape::Tuple(shapes, 1), s0, t1, h, lim),
        good(shapes), comb(folded, arr_rest(shapes, folded, s0, h, lim)), gsz(folded) + ssum(shapes) <= s0.len(),
        forall|e: GShape| #[trigger] fold2(e, arr_rest(shapes, folded, s0, h, lim), gsz(folded), shapes, shapes.len() as int) ==> arr_ok(GShape::VecT(Box::new(e)), s0, t1, h, lim),
{
    reveal(arr_done); reveal(arr_ok); broadcast use group_gsz;
    let es = p_arr(s0)->Some_0.0;
    let ss = arr_wit(shapes, folded, s0, h, lim);
    assert(arr_acc(ss, shapes, folded, es, h, lim));
    let b = arr_rest(shapes, folded, s0, h, lim);
    if n <= 12 { assert(ss.take(ss.len() as int) =~= ss); }
    if 1 < n <= 12 { assert(arr_fit(GShape::Tuple(shapes, 1), es, h, lim)); }
    assert forall|e: GShape| #[trigger] fold2(e, b, gsz(folded), shapes, shapes.len() as int) implies arr_ok(GShape::VecT(Box::new(e)), s0, t1, h, lim) by {
        lemma_fold_done(e, b, gsz(folded), shapes);
        let k = min12(ss.len());
        assert(b.union(sset(shapes)) =~= sset(ss)) by {
            assert forall|y: GShape| #[trigger] sset(ss).contains(y) == (b.contains(y) || sset(shapes).contains(y)) by {
                if sset(ss).contains(y) { let i = choose|i: int| 0 <= i < ss.len() && #[trigger] ss[i] == y; if i < k { assert(shapes[i] == y); } else { assert(ss.skip(k)[i - k] == y); } }
                if b.contains(y) { let a = ss.skip(k); let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == y; assert(ss[i + k] == y); }
                if sset(shapes).contains(y) { let i = choose|i: int| 0 <= i < shapes.len() && #[trigger] shapes[i] == y; assert(ss[i] == y); }
            }
        }
        assert(comb(e, sset(ss)));
        assert(arr_fit(GShape::VecT(Box::new(e)), es, h, lim));
    }
}
// ----- unwrapping -----
pub open spec fn ogood(o: Option<GShape>) -> bool { o matches Some(x) ==> gwf(x) && !(x is Bottom) }
pub open spec fn osz(o: Option<GShape>) -> nat { match o { Some(x) => gsz(x), None => 0 } }
// optional_common_shape
#[verifier::opaque]
pub open spec fn omg(a: Option<GShape>, b: Option<GShape>, r: Option<GShape>) -> bool {
    match (a, b) { (Some(x), Some(y)) => r is Some && mg(x, y, r->Some_0), (None, _) => r == b, (_, None) => r == a }
}
pub proof fn lemma_many_cat(a: Option<GShape>, ta: Seq<GTree>, b: Option<GShape>, tb: Seq<GTree>, r: Option<GShape>, h: GH, lim: Option<nat>)
    requires many(a, ta, h, lim), many(b, tb, h, lim), omg(a, b, r), ogood(a), ogood(b)
    ensures many(r, ta + tb, h, lim), ogood(r), osz(r) <= osz(a) + osz(b)
{
    reveal(many); reveal(omg); reveal(mg);
    if a is None { assert(ta + tb =~= tb); }
    else if b is None { assert(ta + tb =~= ta); }
    else {
        let (x, y, z) = (a->Some_0, b->Some_0, r->Some_0);
        let sa = choose|ss: Seq<GShape>| fits_all(ss, ta, h, lim) && #[trigger] comb(x, sset(ss)) && (ss.len() == 1 ==> x == ss[0]);
        let sb = choose|ss: Seq<GShape>| fits_all(ss, tb, h, lim) && #[trigger] comb(y, sset(ss)) && (ss.len() == 1 ==> y == ss[0]);
        let ss = sa + sb; let ts = ta + tb;
        assert forall|i: int| #![trigger ss[i]] #![trigger ts[i]] 0 <= i < ts.len() implies fit(ss[i], ts[i], h, lim) by {
            if i < ta.len() { assert(ss[i] == sa[i] && ts[i] == ta[i]); } else { assert(ss[i] == sb[i - ta.len()] && ts[i] == tb[i - ta.len()]); }
        }
        assert(sset(ss) =~= sset(sa).union(sset(sb))) by {
            assert forall|q: GShape| #[trigger] sset(ss).contains(q) == (sset(sa).contains(q) || sset(sb).contains(q)) by {
                if sset(sa).contains(q) { let i = choose|i: int| 0 <= i < sa.len() && #[trigger] sa[i] == q; assert(ss[i] == q); }
                if sset(sb).contains(q) { let i = choose|i: int| 0 <= i < sb.len() && #[trigger] sb[i] == q; assert(ss[i + sa.len()] == q); }
                if sset(ss).contains(q) { let i = choose|i: int| 0 <= i < ss.len() && #[trigger] ss[i] == q; if i < sa.len() { assert(sa[i] == q); } else { assert(sb[i - sa.len()] == q); } }
            }
        }
        lemma_comb_merge(x, sset(sa), y, sset(sb), z, sset(ss));
        assert(fits_all(ss, ts, h, lim) && comb(z, sset(ss)));
    }
}
pub proof fn lemma_many_one(x: GShape, t: GTree, h: GH, lim: Option<nat>)
    requires fit(x, t, h, lim), gwf(x) ensures many(Some(x), seq![t], h, lim)
{
    reveal(many);
    let ss = seq![x];
    assert(sset(ss) =~= Shapes::empty().insert(x)) by { assert(ss[0] == x); }
    lemma_comb_one(x, sset(ss));
    assert(fits_all(ss, seq![t], h, lim) && comb(x, sset(ss)));
}
pub proof fn lemma_sel_members_cat(a: Members, b: Members, p: Seq<Seq<char>>)
    requires p.len() > 0 ensures sel_members(a + b, p) == sel_members(a, p) + sel_members(b, p) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(sel_members(a, p) + sel_members(b, p) =~= sel_members(a, p)); }
    else {
        lemma_sel_members_cat(a, b.drop_last(), p);
        assert((a + b).drop_last() =~= a + b.drop_last());
        let x = if picks(p[0], b.last().0) { sel(b.last().1, p.skip(1)) } else { Seq::empty() };
        assert(sel_members(a + b, p) == sel_members(a + b.drop_last(), p) + x);
        assert((sel_members(a, p) + sel_members(b.drop_last(), p)) + x =~= sel_members(a, p) + (sel_members(b.drop_last(), p) + x));
    }
}
pub proof fn lemma_sel_members_push(a: Members, k: Seq<char>, t: GTree, p: Seq<Seq<char>>)
    requires p.len() > 0 ensures sel_members(a.push((k, t)), p) == sel_members(a, p) + (if picks(p[0], k) { sel(t, p.skip(1)) } else { Seq::empty() })
{ assert(a.push((k, t)).drop_last() =~= a); }
pub proof fn lemma_sel_elems_push(a: Seq<GTree>, t: GTree, p: Seq<Seq<char>>)
    requires p.len() > 0 ensures sel_elems(a.push(t), p) == sel_elems(a, p) + (if picks(p[0], dec(a.len())) { sel(t, p.skip(1)) } else { Seq::empty() })
{ assert(a.push(t).drop_last() =~= a); }
// what is selected from a beginning is selected from the whole
pub proof fn lemma_sel_elems_prefix(a: Seq<GTree>, b: Seq<GTree>, p: Seq<Seq<char>>, h: GH)
    requires p.len() > 0, clash_any(sel_elems(a, p), h) ensures clash_any(sel_elems(a + b, p), h) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_sel_elems_prefix(a, b.drop_last(), p, h);
        assert((a + b).drop_last() =~= a + b.drop_last());
        let q = sel_elems(a + b.drop_last(), p); let w = sel_elems(a + b, p);
        let i = choose|i: int| 0 <= i < q.len() && clash(#[trigger] q[i], h);
        assert(w[i] == q[i]);
    }
}
pub proof fn lemma_sel_members_prefix(a: Members, b: Members, p: Seq<Seq<char>>, h: GH)
    requires p.len() > 0, clash_any(sel_members(a, p), h) ensures clash_any(sel_members(a + b, p), h)
{
    lemma_sel_members_cat(a, b, p);
    let q = sel_members(a, p); let w = sel_members(a + b, p);
    let i = choose|i: int| 0 <= i < q.len() && clash(#[trigger] q[i], h);
    assert(w[i] == q[i]);
}
pub proof fn lemma_clash_right(a: Seq<GTree>, b: Seq<GTree>, h: GH) requires clash_any(b, h) ensures clash_any(a + b, h)
{ let i = choose|i: int| 0 <= i < b.len() && clash(#[trigger] b[i], h); assert((a + b)[i + a.len()] == b[i]); }
#[verifier::opaque]
pub open spec fn uw_ok(o: Option<GShape>, t0: Toks, t1: Toks, p: Seq<Seq<char>>, h: GH, lim: Option<nat>) -> bool {
    &&& p_value(t0) == Some((tree(t0), t1)) && many(o, sel(tree(t0), p), h, lim)
    &&& ogood(o) && osz(o) + t1.len() <= t0.len() && t1.len() < t0.len()
}
#[verifier::opaque]
pub open spec fn uw_bad(t0: Toks, p: Seq<Seq<char>>, h: GH) -> bool { p_value(t0) matches Some((t, r)) ==> clash_any(sel(t, p), h) }
// inside an object or an array
pub enum Sort { Obj, Arr }
pub open spec fn sel_in(k: Sort, s0: Toks, p: Seq<Seq<char>>) -> Option<(Seq<GTree>, Toks)> {
    match k {
        Sort::Obj => match p_obj(s0) { Some((m, r)) => Some((sel_members(m, p), r)), None => None },
        Sort::Arr => match p_arr(s0) { Some((m, r)) => Some((sel_elems(m, p), r)), None => None },
    }
}
#[verifier::opaque]
pub open spec fn uin_bad(k: Sort, s0: Toks, p: Seq<Seq<char>>, h: GH) -> bool { sel_in(k, s0, p) matches Some((ts, r)) ==> clash_any(ts, h) }
#[verifier::opaque]
pub open spec fn uin_done(k: Sort, f: Option<GShape>, s0: Toks, t1: Toks, p: Seq<Seq<char>>, h: GH, lim: Option<nat>) -> bool {
    sel_in(k, s0, p) is Some && sel_in(k, s0, p)->Some_0.1 == t1 && many(f, sel_in(k, s0, p)->Some_0.0, h, lim) && ogood(f) && osz(f) + t1.len() <= s0.len()
}
#[verifier::opaque]
pub open spec fn uo_state(f: Option<GShape>, s0: Toks, cur: Toks, acc: Members, p: Seq<Seq<char>>, h: GH, lim: Option<nat>) -> bool {
    &&& mcat(acc, p_members(cur)) == p_members(s0) && p_obj(s0) == p_members(s0) && p.len() > 0
    &&& many(f, sel_members(acc, p), h, lim) && ogood(f) && osz(f) + cur.len() <= s0.len()
}
#[verifier::opaque]
pub open spec fn ua_state(f: Option<GShape>, s0: Toks, cur: Toks, acc: Seq<GTree>, p: Seq<Seq<char>>, h: GH, lim: Option<nat>) -> bool {
    &&& ecat(acc, p_elems(cur)) == p_elems(s0) && p_arr(s0) == p_elems(s0) && p.len() > 0
    &&& many(f, sel_elems(acc, p), h, lim) && ogood(f) && osz(f) + acc.len() + cur.len() <= s0.len()
}
pub proof fn lemma_u_init(s0: Toks, p: Seq<Seq<char>>, h: GH, lim: Option<nat>)
    requires p.len() > 0
    ensures
        s0.len() > 0 && s0[0] is OEnd ==> uin_done(Sort::Obj, None, s0, s0.skip(1), p, h, lim),
        !(s0.len() > 0 && s0[0] is OEnd) ==> uo_state(None, s0, s0, Seq::empty(), p, h, lim),
        s0.len() > 0 && s0[0] is AEnd ==> uin_done(Sort::Arr, None, s0, s0.skip(1), p, h, lim),
        !(s0.len() > 0 && s0[0] is AEnd) ==> ua_state(None, s0, s0, Seq::empty(), p, h, lim),
{
    reveal(uin_done); reveal(uo_state); reveal(ua_state); reveal(many);
    match p_members(s0) { Some((m, x)) => { assert(Members::empty() + m =~= m); } None => {} }
    match p_elems(s0) { Some((m, x)) => { assert(Seq::<GTree>::empty() + m =~= m); } None => {} }
}
pub open spec fn uo_next(f: Option<GShape>, s0: Toks, r: Toks, acc: Members, p: Seq<Seq<char>>, h: GH, lim: Option<nat>) -> bool {
    &&& r[0] is OEnd ==> uin_done(Sort::Obj, f, s0, r.skip(1), p, h, lim)
    &&& r[0] is Comma ==> uo_state(f, s0, r.skip(1), acc, p, h, lim)
}
pub open spec fn ua_next(f: Option<GShape>, s0: Toks, r: Toks, acc: Seq<GTree>, p: Seq<Seq<char>>, h: GH, lim: Option<nat>) -> bool {
    &&& r[0] is AEnd ==> uin_done(Sort::Arr, f, s0, r.skip(1), p, h, lim)
    &&& r[0] is Comma ==> ua_state(f, s0, r.skip(1), acc, p, h, lim) && acc.len() + r.skip(1).len() <= s0.len()
}
pub proof fn lemma_uo_step(f: Option<GShape>, s0: Toks, cur: Toks, acc: Members, p: Seq<Seq<char>>, h: GH, lim: Option<nat>)
    requires uo_state(f, s0, cur, acc, p, h, lim)
    ensures
        osz(f) + cur.len() <= s0.len(), ogood(f),
        !member_at(cur) ==> uin_bad(Sort::Obj, s0, p, h),
        cur.len() >= 2 ==> cur.skip(1).skip(1) == mval(cur) && cur.skip(1)[0] == cur[1],
        member_at(cur) && p_value(mval(cur)) is None ==> uin_bad(Sort::Obj, s0, p, h),
        member_at(cur) && picks(p[0], mkey(cur)) && uw_bad(mval(cur), p.skip(1), h) ==> uin_bad(Sort::Obj, s0, p, h),
        member_at(cur) && p_value(mval(cur)) is Some ==> {
            let r = rest(mval(cur)); let a1 = acc.push((mkey(cur), tree(mval(cur))));
            &&& r.len() == 0 || !(r[0] is OEnd || r[0] is Comma) ==> uin_bad(Sort::Obj, s0, p, h)
            &&& r.len() < mval(cur).len()
            &&& !picks(p[0], mkey(cur)) && r.len() > 0 ==> uo_next(f, s0, r, a1, p, h, lim)
            &&& picks(p[0], mkey(cur)) && r.len() > 0 ==> forall|o: Option<GShape>, g: Option<GShape>| #[trigger] uw_ok(o, mval(cur), r, p.skip(1), h, lim) && #[trigger] omg(f, o, g) ==> uo_next(g, s0, r, a1, p, h, lim)
        },
{
    reveal(uo_state); reveal(uin_done); reveal(uin_bad); reveal(uw_bad); reveal(uw_ok);
    if cur.len() >= 2 { assert(cur.skip(1).skip(1) =~= cur.skip(2)); }
    if member_at(cur) {
        let k = mkey(cur); let v = mval(cur); let t = tree(v);
        lemma_p_rest(v);
        if p_value(v) is Some {
            let r = rest(v); let a1 = acc.push((k, t));
            lemma_sel_members_push(acc, k, t, p);
            if picks(p[0], k) && clash_any(sel(t, p.skip(1)), h) { lemma_clash_right(sel_members(acc, p), sel(t, p.skip(1)), h); assert(clash_any(sel_members(a1, p), h)); }
            if r.len() > 0 && r.len() < cur.len() && r[0] is Comma && p_members(r.skip(1)) is Some {
                let (m, y) = p_members(r.skip(1))->Some_0;
                let full = acc + (seq![(k, t)] + m);
                assert(full =~= a1 + m);
                assert(p_members(cur) == Some((seq![(k, t)] + m, y)));
                assert(p_obj(s0) == Some((full, y)));
                if clash_any(sel_members(a1, p), h) { lemma_sel_members_prefix(a1, m, p, h); }
            }
            if r.len() > 0 && r.len() < cur.len() && r[0] is OEnd {
                let full = acc + seq![(k, t)];
                assert(full =~= a1);
                assert(p_obj(s0) == Some((full, r.skip(1))));
            }
            if !picks(p[0], k) { assert(sel_members(acc, p) + Seq::<GTree>::empty() =~= sel_members(acc, p)); }
            if picks(p[0], k) && r.len() > 0 {
                assert forall|o: Option<GShape>, g: Option<GShape>| #[trigger] uw_ok(o, v, r, p.skip(1), h, lim) && #[trigger] omg(f, o, g) implies uo_next(g, s0, r, a1, p, h, lim) by {
                    lemma_many_cat(f, sel_members(acc, p), o, sel(t, p.skip(1)), g, h, lim);
                }
            }
        }
    }
}
pub proof fn lemma_ua_step(f: Option<GShape>, s0: Toks, cur: Toks, acc: Seq<GTree>, p: Seq<Seq<char>>, h: GH, lim: Option<nat>)
    requires ua_state(f, s0, cur, acc, p, h, lim)
    ensures
        osz(f) + acc.len() + cur.len() <= s0.len(), ogood(f),
        p_value(cur) is None ==> uin_bad(Sort::Arr, s0, p, h),
        picks(p[0], dec(acc.len())) && uw_bad(cur, p.skip(1), h) ==> uin_bad(Sort::Arr, s0, p, h),
        p_value(cur) is Some ==> {
            let r = rest(cur); let a1 = acc.push(tree(cur));
            &&& r.len() == 0 || !(r[0] is AEnd || r[0] is Comma) ==> uin_bad(Sort::Arr, s0, p, h)
            &&& r.len() < cur.len()
            &&& !picks(p[0], dec(acc.len())) && r.len() > 0 ==> ua_next(f, s0, r, a1, p, h, lim)
            &&& picks(p[0], dec(acc.len())) && r.len() > 0 ==> forall|o: Option<GShape>, g: Option<GShape>| #[trigger] uw_ok(o, cur, r, p.skip(1), h, lim) && #[trigger] omg(f, o, g) ==> ua_next(g, s0, r, a1, p, h, lim)
        },
{
    reveal(ua_state); reveal(uin_done); reveal(uin_bad); reveal(uw_bad); reveal(uw_ok);
    let t = tree(cur);
    lemma_p_rest(cur);
    if p_value(cur) is Some {
        let r = rest(cur); let a1 = acc.push(t); let d = dec(acc.len());
        lemma_sel_elems_push(acc, t, p);
        if picks(p[0], d) && clash_any(sel(t, p.skip(1)), h) { lemma_clash_right(sel_elems(acc, p), sel(t, p.skip(1)), h); assert(clash_any(sel_elems(a1, p), h)); }
        if r.len() > 0 && r.len() < cur.len() && r[0] is Comma && p_elems(r.skip(1)) is Some {
            let (m, y) = p_elems(r.skip(1))->Some_0;
            let full = acc + (seq![t] + m);
            assert(full =~= a1 + m);
            assert(p_elems(cur) == Some((seq![t] + m, y)));
            assert(p_arr(s0) == Some((full, y)));
            if clash_any(sel_elems(a1, p), h) { lemma_sel_elems_prefix(a1, m, p, h); }
        }
        if r.len() > 0 && r.len() < cur.len() && r[0] is AEnd {
            let full = acc + seq![t];
            assert(full =~= a1);
            assert(p_arr(s0) == Some((full, r.skip(1))));
        }
        if !picks(p[0], d) { assert(sel_elems(acc, p) + Seq::<GTree>::empty() =~= sel_elems(acc, p)); }
        if picks(p[0], d) && r.len() > 0 {
            assert forall|o: Option<GShape>, g: Option<GShape>| #[trigger] uw_ok(o, cur, r, p.skip(1), h, lim) && #[trigger] omg(f, o, g) implies ua_next(g, s0, r, a1, p, h, lim) by {
                lemma_many_cat(f, sel_elems(acc, p), o, sel(t, p.skip(1)), g, h, lim);
            }
        }
    }
}
pub proof fn lemma_unwrap(t0: Toks, p: Seq<Seq<char>>, h: GH, lim: Option<nat>)
    ensures
        t0.len() == 0 ==> uw_bad(t0, p, h),
        t0.len() > 0 && (t0[0] is OEnd || t0[0] is AEnd || t0[0] is Comma || t0[0] is Colon || t0[0] is Bad) ==> uw_bad(t0, p, h),
        p.len() == 0 ==> {
            &&& bad(t0, h) ==> uw_bad(t0, p, h)
            &&& forall|s: GShape, t1: Toks| #[trigger] infd(s, t0, t1, h, lim) ==> uw_ok(Some(s), t0, t1, p, h, lim)
        },
        p.len() > 0 && t0.len() > 0 ==> {
            &&& t0[0] is True || t0[0] is False || t0[0] is Null || t0[0] is Num || t0[0] is Str ==> uw_ok(None, t0, t0.skip(1), p, h, lim)
            &&& t0[0] is OStart && uin_bad(Sort::Obj, t0.skip(1), p, h) ==> uw_bad(t0, p, h)
            &&& t0[0] is AStart && uin_bad(Sort::Arr, t0.skip(1), p, h) ==> uw_bad(t0, p, h)
            &&& forall|o: Option<GShape>, t1: Toks| t0[0] is OStart && #[trigger] uin_done(Sort::Obj, o, t0.skip(1), t1, p, h, lim) ==> uw_ok(o, t0, t1, p, h, lim)
            &&& forall|o: Option<GShape>, t1: Toks| t0[0] is AStart && #[trigger] uin_done(Sort::Arr, o, t0.skip(1), t1, p, h, lim) ==> uw_ok(o, t0, t1, p, h, lim)
        },
{
    reveal(uw_ok); reveal(uw_bad); reveal(uin_bad); reveal(uin_done); reveal(infd); reveal(bad);
    lemma_p_rest(t0);
    if p.len() == 0 {
        if p_value(t0) is Some && clash(tree(t0), h) { assert(seq![tree(t0)][0] == tree(t0)); assert(clash_any(seq![tree(t0)], h)); }
        assert forall|s: GShape, t1: Toks| #[trigger] infd(s, t0, t1, h, lim) implies uw_ok(Some(s), t0, t1, p, h, lim) by { lemma_many_one(s, tree(t0), h, lim); }
    } else { reveal(many); }
}

pub broadcast proof fn lemma_infd(s: GShape, t0: Toks, t1: Toks, h: GH, lim: Option<nat>)
    requires #[trigger] infd(s, t0, t1, h, lim) ensures p_value(t0) is Some && rest(t0) == t1
{ reveal(infd); }
pub broadcast proof fn lemma_uw_ok(o: Option<GShape>, t0: Toks, t1: Toks, p: Seq<Seq<char>>, h: GH, lim: Option<nat>)
    requires #[trigger] uw_ok(o, t0, t1, p, h, lim) ensures p_value(t0) is Some && rest(t0) == t1 && osz(o) <= t0.len() && ogood(o)
{ reveal(uw_ok); }
pub proof fn lemma_uw_end(o: Option<GShape>, t0: Toks, t1: Toks, p: Seq<Seq<char>>, h: GH, lim: Option<nat>)
    requires uw_ok(o, t0, t1, p, h, lim) ensures many(o, sel(tree(t0), p), h, lim), o is None ==> sel(tree(t0), p).len() == 0, o is Some ==> sel(tree(t0), p).len() > 0
{ reveal(uw_ok); reveal(many); }
// the tokens of an unwrap pointer; one without a leading slash is read as if it had it
pub open spec fn unwrap_tokens(u: Seq<char>) -> Seq<Seq<char>> {
    if u.len() == 0 || u == seq!['/'] { here() } else if u[0] == '/' { split_of(u, '/').skip(1) } else { split_of(u, '/') }
}
// C06, C09: what is inferred admits every selected node
pub proof fn lemma_many_admits(x: GShape, ts: Seq<GTree>, h: GH, lim: Option<nat>, i: int, v: GVal)
    requires many(Some(x), ts, h, lim), 0 <= i < ts.len(), val(ts[i], v) ensures admits(x, Some(v))
{
    reveal(many); reveal(comb); reveal(covers);
    let ss = choose|ss: Seq<GShape>| fits_all(ss, ts, h, lim) && #[trigger] comb(x, sset(ss)) && (ss.len() == 1 ==> x == ss[0]);
    assert(fit(ss[i], ts[i], h, lim));
    lemma_fit_admits(ss[i], ts[i], h, lim, v);
    assert(sset(ss).contains(ss[i]));
    assert(covers(x, ss[i]));
}
