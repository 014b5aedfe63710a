//@ include singular.vx assume
//@ include keyed.vx
//@ include options_type.vx
//@ rename-path shape::fold_shapes => vx_fold_shapes
//@ raw
// ===== what the schema says about a shape =====
pub open spec fn typed_only(items: Seq<(Seq<char>, GDoc)>, t: Seq<char>) -> bool { only(items, "type"@, "type"@, "type"@) && at(items, "type"@) == Some(GDoc::Str(t)) }
pub open spec fn ok(d: GDoc, s: GShape) -> bool decreases d, s {
    d is Node && d->Node_0 && {
        let items = d->Node_1;
        uniq(items) && match s {
            GShape::Null | GShape::Any | GShape::Bottom => items.len() == 0,
            GShape::Bool => typed_only(items, "boolean"@),
            GShape::StringT => typed_only(items, "string"@),
            GShape::Integer => typed_only(items, "number"@) || typed_only(items, "integer"@),
            GShape::Floating => typed_only(items, "number"@),
            GShape::Opaque(t) => typed_only(items, t),
            GShape::Optional(e) => ok(d, *e),
            GShape::Nullable(e) => only(items, "anyOf"@, "anyOf"@, "anyOf"@) && exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "anyOf"@
                && two_of(items[i].1) && ok(items[i].1->Node_1[0].1, *e) && null_type(items[i].1->Node_1[1].1),
            GShape::VecT(e) => only(items, "type"@, "items"@, "items"@) && at(items, "type"@) == Some(GDoc::Str("array"@))
                && exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "items"@ && ok(items[i].1, *e),
            GShape::MapT(e) => only(items, "type"@, "additionalProperties"@, "additionalProperties"@) && at(items, "type"@) == Some(GDoc::Str("object"@))
                && exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "additionalProperties"@ && ok(items[i].1, *e),
            GShape::Tuple(ss, _) => only(items, "type"@, "items"@, "additionalItems"@) && at(items, "type"@) == Some(GDoc::Str("array"@))
                && exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "items"@ && (
                    (at(items, "additionalItems"@) is None && exists|f: GShape| #[trigger] folds(f, ss) && ok(items[i].1, f))
                    || (items[i].1 is Node && !items[i].1->Node_0 && items[i].1->Node_1.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> ok((#[trigger] items[i].1->Node_1[j]).1, ss[j]))),
            GShape::Struct(fs) => only(items, "type"@, "properties"@, "required"@) && at(items, "type"@) == Some(GDoc::Str("object"@))
                && (match at(items, "required"@) { Some(r) => required(r, fs, fs.len() as int), None => true })
                && exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "properties"@ && items[i].1 is Node && items[i].1->Node_0
                    && items[i].1->Node_1.len() == fs.len() && uniq(items[i].1->Node_1)
                    && forall|j: int| 0 <= j < fs.len() ==> (#[trigger] items[i].1->Node_1[j]).0 == fs[j].0 && ok(items[i].1->Node_1[j].1, fs[j].1),
        }
    }
}
pub open spec fn two_of(d: GDoc) -> bool { d is Node && !d->Node_0 && d->Node_1.len() == 2 }
pub open spec fn null_type(d: GDoc) -> bool { d is Node && d->Node_0 && uniq(d->Node_1) && typed_only(d->Node_1, "null"@) }
// only keys that no record lacks
pub open spec fn required(r: GDoc, fs: Seq<(Seq<char>, GShape)>, n: int) -> bool {
    r is Node && !r->Node_0 && forall|j: int| 0 <= j < r->Node_1.len() ==> must((#[trigger] r->Node_1[j]).1, fs, n)
}
pub open spec fn must(d: GDoc, fs: Seq<(Seq<char>, GShape)>, n: int) -> bool { d is Str && exists|i: int| 0 <= i < n && i < fs.len() && (#[trigger] fs[i]).0 == d->Str_0 && !(fs[i].1 is Optional) }
pub open spec fn schema_of(d: GDoc, s: GShape) -> bool {
    d is Node && d->Node_0 && uniq(d->Node_1) && d->Node_1.len() >= 2
        && d->Node_1[0] == ("$schema"@, GDoc::Str("http://json-schema.org/draft-07/schema#"@)) && d->Node_1[1].0 == "title"@ && d->Node_1[1].1 is Str
        && ok(GDoc::Node(true, d->Node_1.skip(2)), s)
}
// ===== draft-07 validation of a value (None where a keyword outside the ones used appears) =====
pub open spec fn has_type(t: Seq<char>, g: GVal) -> bool {
    (t == "boolean"@ && g is Bool) || (t == "string"@ && g is Str) || (t == "number"@ && (g is Int || g is Float)) || (t == "integer"@ && g is Int)
    || (t == "null"@ && g is Null) || (t == "array"@ && g is Arr) || (t == "object"@ && g is Obj)
}
pub open spec fn valid(d: GDoc, g: GVal) -> bool decreases d {
    match d {
        GDoc::Bool(b) => b,
        GDoc::Node(o, items) => o && forall|i: int| 0 <= i < items.len() ==> {
            let (k, v) = #[trigger] items[i];
            if k == "$schema"@ || k == "title"@ { true }
            else if k == "type"@ { v is Str && has_type(v->Str_0, g) }
            else if k == "anyOf"@ { v is Node && !v->Node_0 && exists|j: int| 0 <= j < v->Node_1.len() && valid((#[trigger] v->Node_1[j]).1, g) }
            else if k == "properties"@ { v is Node && v->Node_0 && (g is Obj ==> forall|j: int| 0 <= j < v->Node_1.len() && g->Obj_0.dom().contains((#[trigger] v->Node_1[j]).0) ==> valid(v->Node_1[j].1, g->Obj_0[v->Node_1[j].0])) }
            else if k == "additionalProperties"@ { at(items, "properties"@) is None && (g is Obj ==> forall|n: Seq<char>| #[trigger] g->Obj_0.dom().contains(n) ==> valid(v, g->Obj_0[n])) }
            else if k == "items"@ {
                if v is Node && !v->Node_0 { g is Arr ==> forall|j: int| #![trigger g->Arr_0[j]] #![trigger v->Node_1[j]] 0 <= j < v->Node_1.len() && j < g->Arr_0.len() ==> valid(v->Node_1[j].1, g->Arr_0[j]) }
                else { g is Arr ==> forall|j: int| 0 <= j < g->Arr_0.len() ==> valid(v, #[trigger] g->Arr_0[j]) }
            }
            else if k == "additionalItems"@ { g is Arr ==> match at(items, "items"@) { Some(l) => l is Node && !l->Node_0 ==> g->Arr_0.len() <= l->Node_1.len(), None => true } }
            else if k == "required"@ { v is Node && !v->Node_0 && (g is Obj ==> forall|j: int| 0 <= j < v->Node_1.len() ==> (#[trigger] v->Node_1[j]).1 is Str && (g->Obj_0.dom().contains(v->Node_1[j].1->Str_0) || lax(items, v->Node_1[j].1->Str_0))) }
            else { false }
        },
        _ => false,
    }
}
// known finding: a field of conflicting kinds is listed as required even where a record lacks it; its schema accepts everything
pub open spec fn lax(items: Seq<(Seq<char>, GDoc)>, k: Seq<char>) -> bool {
    match at(items, "properties"@) { Some(GDoc::Node(o, ps)) => match at(ps, k) { Some(p) => forgiving(p), None => false }, _ => false }
}
pub open spec fn forgiving(d: GDoc) -> bool decreases d {
    match d { GDoc::Node(o, items) => o && (items.len() == 0 || (items.len() == 1 && items[0].0 == "anyOf"@ && items[0].1 is Node && items[0].1->Node_1.len() > 0 && forgiving(items[0].1->Node_1[0].1))), _ => false }
}
pub proof fn lemma_words()
    ensures "$schema"@ != "title"@, "$schema"@ != "type"@, "$schema"@ != "items"@, "$schema"@ != "additionalProperties"@, "$schema"@ != "additionalItems"@, "$schema"@ != "properties"@, "$schema"@ != "required"@, "$schema"@ != "anyOf"@,
        "title"@ != "type"@, "title"@ != "items"@, "title"@ != "additionalProperties"@, "title"@ != "additionalItems"@, "title"@ != "properties"@, "title"@ != "required"@, "title"@ != "anyOf"@,
        "type"@ != "items"@, "type"@ != "additionalProperties"@, "type"@ != "additionalItems"@, "type"@ != "properties"@, "type"@ != "required"@, "type"@ != "anyOf"@,
        "items"@ != "additionalProperties"@, "items"@ != "additionalItems"@, "items"@ != "properties"@, "items"@ != "required"@, "items"@ != "anyOf"@,
        "additionalProperties"@ != "additionalItems"@, "additionalProperties"@ != "properties"@, "additionalProperties"@ != "required"@, "additionalProperties"@ != "anyOf"@,
        "additionalItems"@ != "properties"@, "additionalItems"@ != "required"@, "additionalItems"@ != "anyOf"@,
        "properties"@ != "required"@, "properties"@ != "anyOf"@, "required"@ != "anyOf"@,
{
    reveal_strlit("$schema"); reveal_strlit("title"); reveal_strlit("type"); reveal_strlit("items"); reveal_strlit("additionalProperties"); reveal_strlit("additionalItems");
    reveal_strlit("properties"); reveal_strlit("required"); reveal_strlit("anyOf");
    assert("$schema"@.len() == 7 && "title"@.len() == 5 && "type"@.len() == 4 && "items"@.len() == 5 && "additionalProperties"@.len() == 20 && "additionalItems"@.len() == 15
        && "properties"@.len() == 10 && "required"@.len() == 8 && "anyOf"@.len() == 5);
    assert("title"@[0] == 't' && "items"@[0] == 'i' && "anyOf"@[0] == 'a');
}
pub proof fn lemma_one(items: Seq<(Seq<char>, GDoc)>, a: Seq<char>, b: Seq<char>, c: Seq<char>, i: int)
    requires uniq(items), only(items, a, b, c), 0 <= i < items.len(),
    ensures items[i].0 == a || items[i].0 == b || items[i].0 == c, at(items, items[i].0) == Some(items[i].1)
{ reveal(only); lemma_at_idx(items, i); }
pub proof fn lemma_absent(d: GDoc, s: GShape)
    requires ok(d, s), gwf(s), clean(s), !(s is Optional), admits(s, None), ensures forgiving(d), decreases s
{
    if s is Nullable {
        let e = *s->Nullable_0;
        let items = d->Node_1;
        let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "anyOf"@ && two_of(items[i].1) && ok(items[i].1->Node_1[0].1, e) && null_type(items[i].1->Node_1[1].1);
        if i != 0 { lemma_one(items, "anyOf"@, "anyOf"@, "anyOf"@, 0); assert(items[0].0 != items[i].0); }
        if items.len() > 1 { lemma_one(items, "anyOf"@, "anyOf"@, "anyOf"@, 1); assert(items[1].0 != items[0].0); }
        lemma_absent(items[0].1->Node_1[0].1, e);
    }
}
pub proof fn lemma_typed(items: Seq<(Seq<char>, GDoc)>, t: Seq<char>, g: GVal)
    requires uniq(items), typed_only(items, t), has_type(t, g), ensures valid(GDoc::Node(true, items), g)
{
    lemma_words();
    let d = GDoc::Node(true, items);
    assert forall|i: int| 0 <= i < d->Node_1.len() implies (#[trigger] d->Node_1[i]).0 == "type"@ && d->Node_1[i].1 == GDoc::Str(t) by { lemma_one(items, "type"@, "type"@, "type"@, i); }
}
/// the schema accepts every value its shape admits
pub proof fn lemma_valid(d: GDoc, s: GShape, g: GVal)
    requires ok(d, s), gwf(s), clean(s), admits(s, Some(g)), ensures valid(d, g), decreases d, s
{
    lemma_words();
    let items = d->Node_1;
    assert(d == GDoc::Node(true, items));
    match s {
        GShape::Null | GShape::Any | GShape::Bottom => {},
        GShape::Bool => { lemma_typed(items, "boolean"@, g); },
        GShape::StringT => { lemma_typed(items, "string"@, g); },
        GShape::Integer => { if typed_only(items, "number"@) { lemma_typed(items, "number"@, g); } else { lemma_typed(items, "integer"@, g); } },
        GShape::Floating => { lemma_typed(items, "number"@, g); },
        GShape::Opaque(t) => {},
        GShape::Optional(e) => { lemma_valid(d, *e, g); },
        GShape::Nullable(e) => {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "anyOf"@ && two_of(items[i].1) && ok(items[i].1->Node_1[0].1, *e) && null_type(items[i].1->Node_1[1].1);
            let l = items[i].1->Node_1;
            if g is Null { let n = l[1].1; assert(n == GDoc::Node(true, n->Node_1)); lemma_typed(n->Node_1, "null"@, g); assert(valid(l[1].1, g)); } else { lemma_valid(l[0].1, *e, g); assert(valid(l[0].1, g)); }
            assert forall|j: int| 0 <= j < d->Node_1.len() implies (#[trigger] d->Node_1[j]) == items[i] by { lemma_one(items, "anyOf"@, "anyOf"@, "anyOf"@, j); lemma_one(items, "anyOf"@, "anyOf"@, "anyOf"@, i); }
        },
        GShape::VecT(e) => {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "items"@ && ok(items[i].1, *e);
            let a = g->Arr_0;
            assert forall|j: int| 0 <= j < a.len() implies valid(items[i].1, #[trigger] a[j]) by { lemma_valid(items[i].1, *e, a[j]); }
            lemma_one(items, "type"@, "items"@, "items"@, i);
            assert forall|j: int| 0 <= j < d->Node_1.len() implies ((#[trigger] d->Node_1[j]) == ("type"@, GDoc::Str("array"@)) || d->Node_1[j] == items[i]) by { lemma_one(items, "type"@, "items"@, "items"@, j); }
        },
        GShape::MapT(e) => {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "additionalProperties"@ && ok(items[i].1, *e);
            let m = g->Obj_0;
            assert forall|n: Seq<char>| #[trigger] m.dom().contains(n) implies valid(items[i].1, m[n]) by { lemma_valid(items[i].1, *e, m[n]); }
            lemma_one(items, "type"@, "additionalProperties"@, "additionalProperties"@, i);
            assert forall|j: int| 0 <= j < d->Node_1.len() implies ((#[trigger] d->Node_1[j]) == ("type"@, GDoc::Str("object"@)) || d->Node_1[j] == items[i]) by { lemma_one(items, "type"@, "additionalProperties"@, "additionalProperties"@, j); }
            lemma_at_found(items, "properties"@);
            if at(items, "properties"@) is Some { let j = choose|j: int| 0 <= j < items.len() && (#[trigger] items[j]).0 == "properties"@; lemma_one(items, "type"@, "additionalProperties"@, "additionalProperties"@, j); }
        },
        GShape::Tuple(ss, _) => {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "items"@ && (
                    (at(items, "additionalItems"@) is None && exists|f: GShape| #[trigger] folds(f, ss) && ok(items[i].1, f))
                    || (items[i].1 is Node && !items[i].1->Node_0 && items[i].1->Node_1.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> ok((#[trigger] items[i].1->Node_1[j]).1, ss[j])));
            let a = g->Arr_0;
            let x = items[i].1;
            lemma_one(items, "type"@, "items"@, "additionalItems"@, i);
            lemma_at_found(items, "additionalItems"@);
            if at(items, "additionalItems"@) is None && exists|f: GShape| #[trigger] folds(f, ss) && ok(x, f) {
                let f = choose|f: GShape| #[trigger] folds(f, ss) && ok(x, f);
                assert forall|j: int| 0 <= j < a.len() implies valid(x, #[trigger] a[j]) by { assert(admits(ss[j], Some(a[j]))); assert(covers(f, ss[j])); reveal(covers); lemma_valid(x, f, a[j]); }
                assert forall|j: int| 0 <= j < d->Node_1.len() implies ((#[trigger] d->Node_1[j]) == ("type"@, GDoc::Str("array"@)) || d->Node_1[j] == items[i]) by { lemma_one(items, "type"@, "items"@, "additionalItems"@, j); assert(items[j].0 != "additionalItems"@); }
                assert(!(x is Node && !x->Node_0));
            } else {
                let es = x->Node_1;
                assert forall|j: int| #![trigger a[j]] #![trigger es[j]] 0 <= j < es.len() && j < a.len() implies valid(es[j].1, a[j]) by { assert(admits(ss[j], Some(a[j]))); assert(ok(es[j].1, ss[j])); lemma_valid(es[j].1, ss[j], a[j]); }
                assert forall|j: int| 0 <= j < d->Node_1.len() implies ((#[trigger] d->Node_1[j]) == ("type"@, GDoc::Str("array"@)) || d->Node_1[j] == items[i] || d->Node_1[j].0 == "additionalItems"@) by { lemma_one(items, "type"@, "items"@, "additionalItems"@, j); }
            }
        },
        GShape::Struct(fs) => {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "properties"@ && items[i].1 is Node && items[i].1->Node_0
                    && items[i].1->Node_1.len() == fs.len() && uniq(items[i].1->Node_1)
                    && forall|j: int| 0 <= j < fs.len() ==> (#[trigger] items[i].1->Node_1[j]).0 == fs[j].0 && ok(items[i].1->Node_1[j].1, fs[j].1);
            let m = g->Obj_0;
            let ps = items[i].1->Node_1;
            lemma_one(items, "type"@, "properties"@, "required"@, i);
            assert forall|j: int| 0 <= j < ps.len() && m.dom().contains((#[trigger] ps[j]).0) implies valid(ps[j].1, m[ps[j].0]) by {
                assert(ps[j].0 == fs[j].0); assert(admits(fs[j].1, lookup(m, fs[j].0))); lemma_valid(ps[j].1, fs[j].1, m[ps[j].0]);
            }
            assert forall|r: int| 0 <= r < items.len() && (#[trigger] items[r]).0 == "required"@ implies required(items[r].1, fs, fs.len() as int) by { lemma_one(items, "type"@, "properties"@, "required"@, r); }
            assert forall|r: int, j: int| 0 <= r < items.len() && items[r].0 == "required"@ && 0 <= j < items[r].1->Node_1.len() implies
                (m.dom().contains((#[trigger] items[r].1->Node_1[j]).1->Str_0) || lax(items, items[r].1->Node_1[j].1->Str_0)) by {
                let u = items[r].1->Node_1[j].1;
                assert(must(u, fs, fs.len() as int));
                let n = choose|n: int| 0 <= n < fs.len() && (#[trigger] fs[n]).0 == u->Str_0 && !(fs[n].1 is Optional);
                assert(admits(fs[n].1, lookup(m, fs[n].0)));
                if !m.dom().contains(u->Str_0) { assert(ps[n].0 == fs[n].0); lemma_absent(ps[n].1, fs[n].1); lemma_at_idx(ps, n); }
            }
            assert forall|j: int| 0 <= j < d->Node_1.len() implies ((#[trigger] d->Node_1[j]) == ("type"@, GDoc::Str("object"@)) || d->Node_1[j] == items[i] || d->Node_1[j].0 == "required"@) by { lemma_one(items, "type"@, "properties"@, "required"@, j); }
        },
    }
}
pub proof fn lemma_schema(d: GDoc, s: GShape, g: GVal)
    requires schema_of(d, s), gwf(s), clean(s), admits(s, Some(g)), ensures valid(d, g)
{
    let e = GDoc::Node(true, d->Node_1.skip(2));
    lemma_valid(e, s, g);
    lemma_words();
    assert(d->Node_1[0].0 == "$schema"@);
    let (all, rest) = (d->Node_1, d->Node_1.skip(2));
    assert forall|k: Seq<char>| k != "$schema"@ && k != "title"@ implies at(all, k) == #[trigger] at(rest, k) by {
        lemma_at_found(rest, k); lemma_at_found(all, k);
        if at(rest, k) is Some { let j = choose|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == k && rest[j].1 == at(rest, k)->Some_0; lemma_at_idx(all, j + 2); assert(all[j + 2] == rest[j]); }
        else if at(all, k) is Some { let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0 == k; assert(j >= 2); assert(rest[j - 2].0 == k); }
    }
    assert(at(all, "properties"@) == at(rest, "properties"@)); assert(at(all, "items"@) == at(rest, "items"@));
    assert forall|k: Seq<char>| lax(rest, k) implies lax(all, k) by {}
    assert forall|i: int| 0 <= i < rest.len() implies (#[trigger] rest[i]) == all[i + 2] by {}
    assert forall|i: int| 2 <= i < all.len() implies (#[trigger] all[i]) == e->Node_1[i - 2] by {}
}
pub proof fn lemma_texts()
    ensures unesc("boolean"@) == Some("boolean"@), unesc("string"@) == Some("string"@), unesc("number"@) == Some("number"@), unesc("integer"@) == Some("integer"@), unesc("array"@) == Some("array"@),
        unesc("object"@) == Some("object"@), unesc("null"@) == Some("null"@), unesc("http://json-schema.org/draft-07/schema#"@) == Some("http://json-schema.org/draft-07/schema#"@),
{
    reveal_strlit("boolean"); reveal_strlit("string"); reveal_strlit("number"); reveal_strlit("integer"); reveal_strlit("array"); reveal_strlit("object"); reveal_strlit("null");
    reveal_strlit("http://json-schema.org/draft-07/schema#");
    assert(plain_text("boolean"@)); assert(plain_text("string"@)); assert(plain_text("number"@)); assert(plain_text("integer"@)); assert(plain_text("array"@)); assert(plain_text("object"@)); assert(plain_text("null"@));
    assert(plain_text("http://json-schema.org/draft-07/schema#"@));
    lemma_unesc_text("boolean"@); lemma_unesc_text("string"@); lemma_unesc_text("number"@); lemma_unesc_text("integer"@); lemma_unesc_text("array"@); lemma_unesc_text("object"@); lemma_unesc_text("null"@);
    lemma_unesc_text("http://json-schema.org/draft-07/schema#"@);
}
pub broadcast proof fn lemma_as_tuple(d: GDoc, f: GShape, ss: Seq<GShape>, n: nat)
    requires ok(d, GShape::VecT(Box::new(f))), folds(f, ss), ensures #![trigger ok(d, GShape::VecT(Box::new(f))), ok(d, GShape::Tuple(ss, n))] ok(d, GShape::Tuple(ss, n))
{
    let items = d->Node_1;
    let s = GShape::VecT(Box::new(f));
    assert(*s->VecT_0 == f);
    let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "items"@ && ok(items[i].1, *s->VecT_0);
    assert(ok(items[i].1, f));
    reveal(only);
    assert(only(items, "type"@, "items"@, "additionalItems"@));
    lemma_at_found(items, "additionalItems"@);
    lemma_words();
    assert(at(items, "additionalItems"@) is None) by { if at(items, "additionalItems"@) is Some { let j = choose|j: int| 0 <= j < items.len() && (#[trigger] items[j]).0 == "additionalItems"@; assert(false); } }
    let u = GShape::Tuple(ss, n);
    assert(u->Tuple_0 == ss);
    assert(folds(f, u->Tuple_0));
    assert(uniq(items) && at(items, "type"@) == Some(GDoc::Str("array"@)) && items[i].0 == "items"@);
}
pub broadcast proof fn lemma_ok_flat(items: Seq<(Seq<char>, GDoc)>, s: GShape)
    requires uniq(items), match s {
            GShape::Null | GShape::Any | GShape::Bottom => items.len() == 0,
            GShape::Bool => typed_only(items, "boolean"@), GShape::StringT => typed_only(items, "string"@), GShape::Integer => typed_only(items, "number"@) || typed_only(items, "integer"@),
            GShape::Floating => typed_only(items, "number"@), GShape::Opaque(t) => typed_only(items, t),
            GShape::Nullable(e) => only(items, "anyOf"@, "anyOf"@, "anyOf"@) && items.len() == 1 && items[0].0 == "anyOf"@ && two_of(items[0].1) && ok(items[0].1->Node_1[0].1, *e) && null_type(items[0].1->Node_1[1].1),
            _ => false },
    ensures #[trigger] ok(GDoc::Node(true, items), s)
{ let d = GDoc::Node(true, items); assert(d->Node_1 == items); if s is Nullable { assert(items[0].0 == "anyOf"@); } }
pub broadcast proof fn lemma_ok_wrapped(d: GDoc, s: GShape) requires s is Optional, ok(d, *s->Optional_0), ensures #[trigger] ok(d, s) { lemma_ok_uniq(d, *s->Optional_0); }
pub proof fn lemma_ok_uniq(d: GDoc, s: GShape) requires ok(d, s), ensures d is Node, d->Node_0, uniq(d->Node_1) {}
pub proof fn lemma_ok_tup(d: GDoc, i: int, ss: Seq<GShape>, n: nat)
    requires d is Node, d->Node_0, uniq(d->Node_1), only(d->Node_1, "type"@, "items"@, "additionalItems"@), at(d->Node_1, "type"@) == Some(GDoc::Str("array"@)),
        0 <= i < d->Node_1.len(), d->Node_1[i].0 == "items"@, d->Node_1[i].1 is Node, !d->Node_1[i].1->Node_0, d->Node_1[i].1->Node_1.len() == ss.len(),
        forall|j: int| 0 <= j < ss.len() ==> ok((#[trigger] d->Node_1[i].1->Node_1[j]).1, ss[j]),
    ensures ok(d, GShape::Tuple(ss, n))
{ let u = GShape::Tuple(ss, n); assert(u->Tuple_0 == ss); let items = d->Node_1; assert(items[i].0 == "items"@); }
pub proof fn lemma_ok_tuple2(d: GDoc, s: GShape, t: GShape) requires ok(d, s), s is Tuple, t is Tuple, s->Tuple_0 == t->Tuple_0, ensures ok(d, t)
{
    let items = d->Node_1;
    match s { GShape::Tuple(ss, _) => {
        let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == "items"@ && (
                    (at(items, "additionalItems"@) is None && exists|f: GShape| #[trigger] folds(f, ss) && ok(items[i].1, f))
                    || (items[i].1 is Node && !items[i].1->Node_0 && items[i].1->Node_1.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> ok((#[trigger] items[i].1->Node_1[j]).1, ss[j])));
        assert(items[i].0 == "items"@);
    }, _ => {} }
}
pub broadcast proof fn lemma_ok_tuple(d: GDoc, ss: Seq<GShape>, n: nat, m: nat) requires #[trigger] ok(d, GShape::Tuple(ss, n)), ensures #[trigger] ok(d, GShape::Tuple(ss, m))
{ lemma_ok_tuple2(d, GShape::Tuple(ss, n), GShape::Tuple(ss, m)); }
pub open spec fn head(top: Seq<(Seq<char>, GDoc)>) -> bool { top.len() == 2 && top[0] == ("$schema"@, GDoc::Str("http://json-schema.org/draft-07/schema#"@)) && top[1].0 == "title"@ && top[1].1 is Str }
// no keyword of a shape is one of the first two
pub proof fn lemma_other(s: Seq<(Seq<char>, Value)>, m: Seq<(Seq<char>, Value)>, n: int, top: Seq<(Seq<char>, GDoc)>)
    requires 0 <= n < m.len(), head(top), uniq(dvf(m)), inside(dvf(m)), dvf(s) == top + dvf(m).take(n), ensures !has_key(s, m[n].0)
{
    broadcast use group_dv;
    lemma_words();
    assert(dvf(m)[n].0 == m[n].0);
    if has_key(s, m[n].0) {
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].0 == m[n].0;
        assert(dvf(s)[j].0 == s[j].0);
        if j < 2 { assert(dvf(s)[j] == top[j]); } else { assert(dvf(s)[j] == dvf(m)[j - 2]); assert(dvf(m)[j - 2].0 != dvf(m)[n].0); }
    }
}
pub open spec fn inside(s: Seq<(Seq<char>, GDoc)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != "$schema"@ && s[i].0 != "title"@ }
pub proof fn lemma_inside(d: GDoc, s: GShape) requires ok(d, s), ensures inside(d->Node_1), uniq(d->Node_1), decreases s
{ lemma_words(); reveal(only); if let GShape::Optional(e) = s { lemma_inside(d, *e); } }
pub proof fn lemma_no_key(p: Seq<(Seq<char>, Value)>, m: Seq<(Seq<char>, Shape)>, n: int)
    requires uniq(m), 0 <= n < m.len(), p.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] dvf(p)[j]).0 == svf(m)[j].0, ensures !has_key(p, m[n].0)
{ broadcast use {group_dv, group_sv}; if has_key(p, m[n].0) { let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j].0 == m[n].0; assert(dvf(p)[j].0 == p[j].0); assert(svf(m)[j].0 == m[j].0); } }
//@ file json_typegen_shared/src/generation/json_schema.rs
//@ type Ctxt
//@ type Code
//@ prologue broadcast use {group_sv, group_gsz, group_keyed, lemma_dv_map_ok, lemma_object}; proof { lemma_words(); lemma_texts(); lemma_sv_consts(); }
//@ prologue hide(ok); broadcast use {group_sv, group_gsz, group_keyed, lemma_dv_map_ok, lemma_same_shapes, lemma_as_tuple, lemma_ok_flat, lemma_ok_wrapped, lemma_ok_tuple}; proof { lemma_words(); lemma_texts(); lemma_sv_consts(); }
//@ fn type_from_shape
//@ attr verifier::rlimit(40)
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures ok(dv(r), sv(*shape)), sound(dv(r))
    decreases gsz(sv(*shape)), wrappers(sv(*shape)), 1nat
//@ at start
    proof { lemma_sv_kind(*shape); if *shape is Struct { shape->Struct_fields.lemma_uniq(); } if *shape is Tuple { lemma_tuple(shape->Tuple_0@, shape->Tuple_1 as nat); } }
//@ at end
    proof { if *shape is Nullable { let items = dv(vx_ret)->Node_1; assert(items[0].0 == "anyOf"@); assert(items[0].1->Node_1[1].1 == GDoc::Node(true, Seq::<(Seq<char>, GDoc)>::empty().push(("type"@, GDoc::Str("null"@))))); } }
//@ prologue broadcast use {group_sv, group_gsz, group_keyed, lemma_dv_map_ok, lemma_object}; proof { lemma_words(); lemma_texts(); lemma_sv_consts(); }
//@ fn generate_vec_type
//@ attr verifier::rlimit(40)
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures ok(dv(r), GShape::VecT(Box::new(sv(*shape)))), sound(dv(r))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ fn generate_map_type
//@ attr verifier::rlimit(40)
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures ok(dv(r), GShape::MapT(Box::new(sv(*shape)))), sound(dv(r))
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ fn collapse_option
    ensures *typ is Optional ==> r.0 && *r.1 == *(*typ)->Optional_0, !(*typ is Optional) ==> !r.0 && r.1 == typ
//@ prologue hide(ok); broadcast use {group_sv, group_gsz, group_keyed, lemma_dv_map_ok, lemma_object}; proof { lemma_words(); lemma_texts(); lemma_sv_consts(); }
//@ fn generate_tuple_type
//@ attr verifier::rlimit(100)
    requires gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX,
    ensures ok(dv(r), GShape::Tuple(svs(shapes@), 0)), sound(dv(r))
    decreases zsum(shapes@) + 1, 0nat, 0nat
//@ loop 0
    invariant gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) < u64::MAX, vx_s0 == refs(shapes@), types@.len() == vx_it0.pos(), sound_items(dvs(types@)),
        forall|j: int| 0 <= j < vx_it0.pos() ==> ok((#[trigger] dvs(types@)[j]).1, sv(shapes@[j])),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*shape == shapes@[n]); assert(svs(shapes@)[n] == sv(*shape)); lemma_zsum_step(shapes@, n); }
    let ghost t0 = types@;
//@ at loop 0 end
    proof { let n = vx_it0.pos() - 1; assert(types@ == t0.push(typ)); assert forall|j: int| 0 <= j < vx_it0.pos() implies ok((#[trigger] dvs(types@)[j]).1, sv(shapes@[j])) by { if j < n { assert(dvs(types@)[j] == dvs(t0)[j]); } } }
//@ at end
    proof { let items = dv(vx_ret)->Node_1; assert(items[1].0 == "items"@); assert forall|j: int| 0 <= j < shapes@.len() implies ok((#[trigger] items[1].1->Node_1[j]).1, svs(shapes@)[j]) by { assert(svs(shapes@)[j] == sv(shapes@[j])); } lemma_ok_tup(dv(vx_ret), 1, svs(shapes@), 0); }
//@ prologue broadcast use {group_sv, group_gsz, group_keyed, lemma_dv_map_ok, lemma_object}; proof { lemma_words(); lemma_texts(); lemma_sv_consts(); }
//@ fn generate_struct_from_field_shapes
//@ attr verifier::rlimit(40)
    requires gwf(GShape::Struct(svf(map@))), gsz(GShape::Struct(svf(map@))) <= u64::MAX,
    ensures ok(dv(r), GShape::Struct(svf(map@))), sound(dv(r))
    decreases gsz(GShape::Struct(svf(map@))), 0nat, 0nat
//@ loop 0
    invariant vx_s0.len() == map@.len(), (forall|i: int| 0 <= i < map@.len() ==> (#[trigger] vx_s0[i]).0@ == map@[i].0 && *vx_s0[i].1 == map@[i].1),
        fs == svf(map@), uniq(map@), gwf(GShape::Struct(fs)), gsz(GShape::Struct(fs)) <= u64::MAX, properties@.len() == vx_it0.pos(), sound_items(dvf(properties@)), sound_items(dvs(required@)),
        forall|j: int| 0 <= j < vx_it0.pos() ==> (#[trigger] dvf(properties@)[j]).0 == fs[j].0 && ok(dvf(properties@)[j].1, fs[j].1),
        forall|j: int| 0 <= j < required@.len() ==> must((#[trigger] dvs(required@)[j]).1, fs, vx_it0.pos()),
//@ at start
    proof { map.lemma_uniq(); }
    let ghost fs = svf(map@);
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*typ == map@[n].1); assert(fs[n] == (name@, sv(*typ))); lemma_sv_kind(*typ); lemma_fields(fs, n); }
    let ghost (p0, r0) = (properties@, required@);
//@ at loop 0 end
    proof {
        let n = vx_it0.pos() - 1;
        lemma_no_key(p0, map@, n); lemma_fresh(p0, name@);
        assert(properties@ == p0.push((name@, field_code)));
        assert(dvf(properties@)[n] == (name@, dv(field_code)));
        assert forall|j: int| 0 <= j < vx_it0.pos() implies (#[trigger] dvf(properties@)[j]).0 == fs[j].0 && ok(dvf(properties@)[j].1, fs[j].1) by { if j < n { assert(dvf(properties@)[j] == dvf(p0)[j]); } }
        assert forall|j: int| 0 <= j < required@.len() implies must((#[trigger] dvs(required@)[j]).1, fs, vx_it0.pos()) by { if j < r0.len() { assert(dvs(required@)[j] == dvs(r0)[j]); assert(must(dvs(r0)[j].1, fs, n)); } else { assert(fs[n].0 == name@); } }
    }
//@ at end
    proof { let items = dv(vx_ret)->Node_1; assert(items[1].0 == "properties"@); assert(at(items, "properties"@) == Some(items[1].1)); }
//@ fn json_schema
//@ attr verifier::rlimit(40)
    requires gwf(sv(*shape)), gsz(sv(*shape)) <= u64::MAX,
    ensures exists|d: GDoc| #[trigger] schema_of(d, sv(*shape)) && renders(r@, d)
//@ at start
    let ghost mut top = Seq::<(Seq<char>, GDoc)>::empty();
    let ghost mut m0 = Seq::<(Seq<char>, Value)>::empty();
//@ at loop 0 before
    proof { top = dvf(schema@); lemma_object(value); m0 = map@; lemma_inside(dv(value), sv(*shape)); assert(dvf(schema@) =~= top + dvf(m0).take(0)); }
//@ loop 0
    invariant vx_s0.len() == m0.len(), (forall|i: int| 0 <= i < m0.len() ==> (#[trigger] vx_s0[i]).0@ == m0[i].0 && vx_s0[i].1 == m0[i].1),
        head(top), inside(dvf(m0)), uniq(dvf(m0)), sound_items(dvf(m0)), sound_items(dvf(schema@)), dvf(schema@) == top + dvf(m0).take(vx_it0.pos()),
//@ at loop 0 start
    let ghost s0 = schema@;
    proof { let n = vx_it0.pos() - 1; assert(dvf(m0)[n] == (key@, dv(val))); lemma_sound_at(dvf(m0), n); assert(dvf(m0).take(n + 1) =~= dvf(m0).take(n).push(dvf(m0)[n])); lemma_other(s0, m0, n, top); lemma_fresh(s0, key@);
        assert(top + dvf(m0).take(n + 1) =~= (top + dvf(m0).take(n)).push(dvf(m0)[n])); }
//@ at tail
    proof { axiom_deep(Value::Object(schema)); let d = dv(Value::Object(schema)); assert(d->Node_1.skip(2) =~= dvf(m0)); assert(d->Node_1[0] == top[0]); assert(d->Node_1[1] == top[1]); assert(schema_of(d, sv(*shape))); }
