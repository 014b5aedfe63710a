//@ raw
// ===== JSON documents and their texts =====
// an array is a node whose items have no keys; `Bad` is text that is not the inside of a string literal
pub enum GDoc { Null, Bool(bool), Str(Seq<char>), Node(bool, Seq<(Seq<char>, GDoc)>), Bad }
pub open spec fn jblank(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> jblank(#[trigger] s[i]) }
pub open spec fn inner(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() - 1) }
pub open spec fn quoted(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= 2 && s[0] == '"' && s.last() == '"' && unesc(inner(s)) == Some(t) }
pub open spec fn cut2(a: Seq<char>, b: Seq<char>) -> bool { true }
pub open spec fn cut3(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> bool { true }
/// RFC 8259: the text s is the document d (white space around it aside)
#[verifier::opaque]
pub open spec fn renders(s: Seq<char>, d: GDoc) -> bool decreases d, 2int {
    match d {
        GDoc::Null => s == "null"@,
        GDoc::Bool(b) => s == (if b { "true"@ } else { "false"@ }),
        GDoc::Str(t) => quoted(s, t),
        GDoc::Node(o, items) => s.len() >= 2 && s[0] == (if o { '{' } else { '[' }) && s.last() == (if o { '}' } else { ']' }) && listed(inner(s), o, items, items.len() as int),
        GDoc::Bad => false,
    }
}
/// the first n items, with commas between
#[verifier::opaque]
pub open spec fn listed(s: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int) -> bool decreases items, n {
    if n <= 0 { blank(s) } else {
        exists|q: Seq<char>, e: Seq<char>, w: Seq<char>| #[trigger] cut3(q, e, w) && s == q + e + w && blank(w) && 1 <= n <= items.len()
            && (if n == 1 { blank(q) } else { exists|p: Seq<char>, v: Seq<char>| #[trigger] cut2(p, v) && q == p + seq![','] + v && blank(v) && listed(p, o, items, n - 1) })
            && (if o { exists|k: Seq<char>, c: Seq<char>, x: Seq<char>| #[trigger] cut3(k, c, x) && e == k + c + x && quoted(k, items[n - 1].0) && colon(c) && renders(x, items[n - 1].1) }
                else { renders(e, items[n - 1].1) })
    }
}
pub open spec fn colon(c: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] cut2(a, b) && blank(a) && blank(b) && c == a + seq![':'] + b }
pub open spec fn item_text(e: Seq<char>, o: bool, it: (Seq<char>, GDoc)) -> bool {
    if o { exists|k: Seq<char>, c: Seq<char>, x: Seq<char>| #[trigger] cut3(k, c, x) && e == k + c + x && quoted(k, it.0) && colon(c) && renders(x, it.1) } else { renders(e, it.1) }
}
/// text after which item n can follow
#[verifier::opaque]
pub open spec fn ready(q: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int) -> bool {
    (n == 0 && blank(q)) || (n > 0 && exists|p: Seq<char>, v: Seq<char>| #[trigger] cut2(p, v) && q == p + seq![','] + v && blank(v) && listed(p, o, items, n))
}
pub proof fn lemma_blank_add(a: Seq<char>, b: Seq<char>) requires blank(a), blank(b), ensures blank(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies jblank(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_ready_start(s: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>)
    requires blank(s), ensures ready(s, o, items, 0), listed(s, o, items, 0)
{ reveal(ready); reveal_with_fuel(listed, 1); reveal_with_fuel(renders, 1); }
pub proof fn lemma_ready_more(q: Seq<char>, w: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int)
    requires ready(q, o, items, n), blank(w), ensures ready(q + w, o, items, n)
{
    reveal(ready);
    if n == 0 { lemma_blank_add(q, w); } else {
        let (p, v) = choose|p: Seq<char>, v: Seq<char>| #[trigger] cut2(p, v) && q == p + seq![','] + v && blank(v) && listed(p, o, items, n);
        lemma_blank_add(v, w);
        assert(q + w =~= p + seq![','] + (v + w)); assert(cut2(p, v + w));
    }
}
pub proof fn lemma_item(q: Seq<char>, e: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int)
    requires ready(q, o, items, n), 0 <= n < items.len(), item_text(e, o, items[n]),
    ensures listed(q + e, o, items, n + 1)
{
    reveal(ready); reveal_with_fuel(listed, 1); reveal_with_fuel(renders, 1);
    let w = Seq::<char>::empty();
    assert(q + e =~= q + e + w); assert(cut3(q, e, w));
}
pub proof fn lemma_listed_more(s: Seq<char>, w: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int)
    requires listed(s, o, items, n), blank(w), ensures listed(s + w, o, items, n)
{
    reveal_with_fuel(listed, 1); reveal_with_fuel(renders, 1);
    if n <= 0 { lemma_blank_add(s, w); } else {
        let (q, e, v) = choose|q: Seq<char>, e: Seq<char>, w: Seq<char>| #[trigger] cut3(q, e, w) && s == q + e + w && blank(w) && 1 <= n <= items.len()
            && (if n == 1 { blank(q) } else { exists|p: Seq<char>, v: Seq<char>| #[trigger] cut2(p, v) && q == p + seq![','] + v && blank(v) && listed(p, o, items, n - 1) })
            && (if o { exists|k: Seq<char>, c: Seq<char>, x: Seq<char>| #[trigger] cut3(k, c, x) && e == k + c + x && quoted(k, items[n - 1].0) && colon(c) && renders(x, items[n - 1].1) }
                else { renders(e, items[n - 1].1) });
        lemma_blank_add(v, w);
        assert(s + w =~= q + e + (v + w)); assert(cut3(q, e, v + w));
    }
}
pub proof fn lemma_comma(p: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int)
    requires listed(p, o, items, n), n > 0, ensures ready(p + seq![','], o, items, n)
{ reveal(ready); let v = Seq::<char>::empty(); assert(p + seq![','] =~= p + seq![','] + v); assert(cut2(p, v)); }
pub proof fn lemma_node(s: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>)
    requires listed(s, o, items, items.len() as int),
    ensures renders(seq![if o { '{' } else { '[' }] + s + seq![if o { '}' } else { ']' }], GDoc::Node(o, items))
{ reveal_with_fuel(listed, 1); reveal_with_fuel(renders, 1); let t = seq![if o { '{' } else { '[' }] + s + seq![if o { '}' } else { ']' }]; assert(inner(t) =~= s); }
pub proof fn lemma_member(k: Seq<char>, c: Seq<char>, x: Seq<char>, it: (Seq<char>, GDoc))
    requires quoted(k, it.0), colon(c), renders(x, it.1),
    ensures item_text(k + c + x, true, it)
{ assert(cut3(k, c, x)); }
pub proof fn lemma_quoted(b: Seq<char>, t: Seq<char>) requires unesc(b) == Some(t), ensures quoted(seq!['"'] + b + seq!['"'], t)
{ let s = seq!['"'] + b + seq!['"']; assert(inner(s) =~= b); }
// nesting at most n
pub open spec fn deep(d: GDoc, n: int) -> bool decreases d {
    match d { GDoc::Node(o, items) => n > 0 && forall|i: int| 0 <= i < items.len() ==> deep((#[trigger] items[i]).1, n - 1), _ => true }
}
pub open spec fn sound(d: GDoc) -> bool decreases d {
    match d { GDoc::Node(o, items) => forall|i: int| 0 <= i < items.len() ==> sound((#[trigger] items[i]).1), GDoc::Bad => false, _ => true }
}
pub proof fn lemma_at(o: bool, items: Seq<(Seq<char>, GDoc)>, i: int, n: int)
    requires 0 <= i < items.len(), sound(GDoc::Node(o, items)), deep(GDoc::Node(o, items), n),
    ensures sound(items[i].1), deep(items[i].1, n - 1), n > 0
{ reveal_with_fuel(sound, 2); reveal_with_fuel(deep, 2); let d = GDoc::Node(o, items); assert(d->Node_1[i] == items[i]); }
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { rep(s, (n - 1) as nat) + s } }
pub proof fn lemma_rep_blank(s: Seq<char>, n: nat) requires blank(s), ensures blank(rep(s, n)), decreases n
{ if n > 0 { lemma_rep_blank(s, (n - 1) as nat); lemma_blank_add(rep(s, (n - 1) as nat), s); } }
pub trait VxRepeat { spec fn rv(&self) -> Seq<char>; fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == rep(self.rv(), n as nat); }
impl VxRepeat for str { open spec fn rv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() } }
impl VxDisplay for bool { open spec fn shown(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { unimplemented!() } }
impl<'a> VxDisplay for &'a bool { open spec fn shown(&self) -> Seq<char> { if **self { "true"@ } else { "false"@ } } #[verifier::external_body] fn vx_fmt(&self, s: &mut String) { unimplemented!() } }
pub proof fn lemma_unesc_text(s: Seq<char>) requires plain_text(s), ensures unesc(s) == Some(s), decreases s.len()
{ if s.len() > 0 { let t = s.skip(1); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) != '"' && t[i] != '\\' && t[i] as u32 >= 0x20 by { assert(t[i] == s[i + 1]); } lemma_unesc_text(t); assert(seq![s[0]] + t =~= s); } }
//@ file json_typegen_shared/src/generation/value.rs
//@ type Value
//@ raw
#[verifier::opaque]
pub open spec fn dv(v: Value) -> GDoc decreases v {
    match v {
        Value::Null => GDoc::Null,
        Value::Bool(b) => GDoc::Bool(b),
        Value::Str(s) => match unesc(s@) { Some(t) => GDoc::Str(t), None => GDoc::Bad },
        Value::String(s) => GDoc::Str(s@),
        Value::Array(a) => GDoc::Node(false, Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { (Seq::<char>::empty(), dv(a@[i])) } else { arbitrary() })),
        Value::Object(m) => GDoc::Node(true, Seq::new(m.v@.len(), |i: int| if 0 <= i < m.v@.len() { (m.v@[i].0@, dv(m.v@[i].1)) } else { arbitrary() })),
    }
}
#[verifier::opaque]
pub open spec fn dvs(s: Seq<Value>) -> Seq<(Seq<char>, GDoc)> { Seq::new(s.len(), |i: int| (Seq::<char>::empty(), dv(s[i]))) }
#[verifier::opaque]
pub open spec fn dvf(s: Seq<(Seq<char>, Value)>) -> Seq<(Seq<char>, GDoc)> { Seq::new(s.len(), |i: int| (s[i].0, dv(s[i].1))) }
pub broadcast proof fn lemma_dv_arr(a: Vec<Value>) ensures #[trigger] dv(Value::Array(a)) == GDoc::Node(false, dvs(a@))
{ reveal_with_fuel(dv, 2); reveal(dvs); assert(dv(Value::Array(a))->Node_1 =~= dvs(a@)); }
pub broadcast proof fn lemma_dv_obj(m: LinkedHashMap<String, Value>) ensures #[trigger] dv(Value::Object(m)) == GDoc::Node(true, dvf(m@))
{ reveal_with_fuel(dv, 2); reveal(dvf); assert(dv(Value::Object(m))->Node_1 =~= dvf(m@)); }
pub broadcast proof fn lemma_dv_string(s: String) ensures #[trigger] dv(Value::String(s)) == GDoc::Str(s@) { reveal(dv); }
pub broadcast proof fn lemma_dv_str(s: &'static str) ensures #[trigger] dv(Value::Str(s)) == (match unesc(s@) { Some(t) => GDoc::Str(t), None => GDoc::Bad }) { reveal(dv); }
pub broadcast proof fn lemma_dv_bool(b: bool) ensures #[trigger] dv(Value::Bool(b)) == GDoc::Bool(b) { reveal(dv); }
pub proof fn lemma_dv_null() ensures dv(Value::Null) == GDoc::Null { reveal(dv); }
pub broadcast proof fn lemma_dvs_idx(s: Seq<Value>, i: int) requires 0 <= i < s.len(), ensures #![trigger dvs(s)[i]] #![trigger dvs(s), s[i]] dvs(s)[i] == (Seq::<char>::empty(), dv(s[i])) { reveal(dvs); }
pub broadcast proof fn lemma_dvs_len(s: Seq<Value>) ensures (#[trigger] dvs(s)).len() == s.len() { reveal(dvs); }
pub broadcast proof fn lemma_dvf_idx(s: Seq<(Seq<char>, Value)>, i: int) requires 0 <= i < s.len(), ensures #![trigger dvf(s)[i]] #![trigger dvf(s), s[i]] dvf(s)[i] == (s[i].0, dv(s[i].1)) { reveal(dvf); }
pub broadcast proof fn lemma_dvf_len(s: Seq<(Seq<char>, Value)>) ensures (#[trigger] dvf(s)).len() == s.len() { reveal(dvf); }
pub broadcast group group_dv { lemma_dv_arr, lemma_dv_obj, lemma_dv_string, lemma_dv_str, lemma_dv_bool, lemma_dvs_idx, lemma_dvs_len, lemma_dvf_idx, lemma_dvf_len }
