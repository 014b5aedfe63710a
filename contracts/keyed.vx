//@ include value.vx assume
//@ include folding.vx
//@ raw
// ===== object documents built key by key =====
pub open spec fn at<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>) -> Option<V> decreases s.len() {
    if s.len() == 0 { None } else { match at(s.drop_last(), k) { Some(v) => Some(v), None => if s.last().0 == k { Some(s.last().1) } else { None } } }
}
// the keys are among these
#[verifier::opaque]
pub open spec fn only<V>(s: Seq<(Seq<char>, V)>, a: Seq<char>, b: Seq<char>, c: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == a || s[i].0 == b || s[i].0 == c
}
#[verifier::opaque]
pub open spec fn sound_items(s: Seq<(Seq<char>, GDoc)>) -> bool { forall|i: int| 0 <= i < s.len() ==> sound((#[trigger] s[i]).1) }
pub broadcast proof fn lemma_at_none<V>(k: Seq<char>) ensures #[trigger] at(Seq::<(Seq<char>, V)>::empty(), k) == None::<V> {}
pub broadcast proof fn lemma_at_push<V>(s: Seq<(Seq<char>, V)>, e: (Seq<char>, V), k: Seq<char>)
    ensures #[trigger] at(s.push(e), k) == (match at(s, k) { Some(v) => Some(v), None => if e.0 == k { Some(e.1) } else { None } })
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_only_none<V>(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] only(Seq::<(Seq<char>, V)>::empty(), a, b, c) { reveal(only); }
pub broadcast proof fn lemma_only_push<V>(s: Seq<(Seq<char>, V)>, e: (Seq<char>, V), a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] only(s.push(e), a, b, c) == (only(s, a, b, c) && (e.0 == a || e.0 == b || e.0 == c))
{
    reveal(only);
    let t = s.push(e);
    if only(t, a, b, c) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == a || s[i].0 == b || s[i].0 == c by { assert(t[i] == s[i]); } assert(t[s.len() as int] == e); }
}
pub broadcast proof fn lemma_without_empty<V>(k: Seq<char>) ensures #[trigger] without(Seq::<(Seq<char>, V)>::empty(), k) == Seq::<(Seq<char>, V)>::empty()
{ lemma_without(Seq::<(Seq<char>, V)>::empty(), k); }
pub broadcast proof fn lemma_without_push<V>(s: Seq<(Seq<char>, V)>, e: (Seq<char>, V), k: Seq<char>)
    ensures #[trigger] without(s.push(e), k) == (if e.0 == k { without(s, k) } else { without(s, k).push(e) })
{ reveal(Seq::filter); assert(s.push(e).drop_last() =~= s); }
// documents of the values inserted
pub broadcast proof fn lemma_dvf_none() ensures #[trigger] dvf(Seq::<(Seq<char>, Value)>::empty()) == Seq::<(Seq<char>, GDoc)>::empty()
{ broadcast use group_dv; assert(dvf(Seq::<(Seq<char>, Value)>::empty()) =~= Seq::<(Seq<char>, GDoc)>::empty()); }
pub broadcast proof fn lemma_dvf_push(s: Seq<(Seq<char>, Value)>, e: (Seq<char>, Value)) ensures #[trigger] dvf(s.push(e)) == dvf(s).push((e.0, dv(e.1)))
{ broadcast use group_dv; assert(dvf(s.push(e)) =~= dvf(s).push((e.0, dv(e.1)))); }
pub broadcast proof fn lemma_dvs_none() ensures #[trigger] dvs(Seq::<Value>::empty()) == Seq::<(Seq<char>, GDoc)>::empty()
{ broadcast use group_dv; assert(dvs(Seq::<Value>::empty()) =~= Seq::<(Seq<char>, GDoc)>::empty()); }
pub broadcast proof fn lemma_dvs_push(s: Seq<Value>, e: Value) ensures #[trigger] dvs(s.push(e)) == dvs(s).push((Seq::<char>::empty(), dv(e)))
{ broadcast use group_dv; assert(dvs(s.push(e)) =~= dvs(s).push((Seq::<char>::empty(), dv(e)))); }
pub broadcast proof fn lemma_sound_none() ensures #[trigger] sound_items(Seq::<(Seq<char>, GDoc)>::empty()) { reveal(sound_items); }
pub broadcast proof fn lemma_sound_push(s: Seq<(Seq<char>, GDoc)>, e: (Seq<char>, GDoc)) ensures #[trigger] sound_items(s.push(e)) == (sound_items(s) && sound(e.1))
{
    reveal(sound_items);
    let t = s.push(e);
    if sound_items(t) { assert forall|i: int| 0 <= i < s.len() implies sound((#[trigger] s[i]).1) by { assert(t[i] == s[i]); } assert(t[s.len() as int] == e); }
}
pub broadcast proof fn lemma_sound_node(o: bool, s: Seq<(Seq<char>, GDoc)>) ensures #[trigger] sound(GDoc::Node(o, s)) == sound_items(s)
{
    reveal(sound_items); reveal_with_fuel(sound, 2);
    let d = GDoc::Node(o, s);
    assert(d->Node_1 == s);
    if sound(d) { assert forall|i: int| 0 <= i < s.len() implies sound((#[trigger] s[i]).1) by { assert(d->Node_1[i] == s[i]); } }
}
pub broadcast group group_keyed { lemma_at_none, lemma_at_push, lemma_only_none, lemma_only_push, lemma_without_empty, lemma_without_push,
    lemma_dvf_none, lemma_dvf_push, lemma_dvs_none, lemma_dvs_push, lemma_sound_none, lemma_sound_push, lemma_sound_node, group_dv }
pub proof fn lemma_at_idx<V>(s: Seq<(Seq<char>, V)>, i: int) requires uniq(s), 0 <= i < s.len(), ensures at(s, s[i].0) == Some(s[i].1), decreases s.len()
{
    let t = s.drop_last();
    assert(uniq(t)) by { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies t[i].0 != t[j].0 by { assert(s[i].0 != s[j].0); } }
    if i < t.len() { lemma_at_idx(t, i); assert(t[i] == s[i]); } else { if at(t, s[i].0) is Some { lemma_at_found(t, s[i].0); let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s[i].0; assert(s[j].0 == s[i].0); } }
}
pub proof fn lemma_at_found<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>)
    ensures match at(s, k) { Some(v) => exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k && s[j].1 == v, None => !has_key(s, k) }, decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_at_found(t, k);
        match at(t, k) { Some(v) => { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k && t[j].1 == v; assert(s[j] == t[j]); }
            None => { assert(s[s.len() - 1] == s.last()); if has_key(s, k) && s.last().0 != k { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].0 == k; assert(t[j].0 == k); } } }
    }
}
pub proof fn lemma_fresh<V>(s: Seq<(Seq<char>, V)>, k: Seq<char>) requires !has_key(s, k), ensures without(s, k) == s { lemma_without(s, k); }
pub broadcast proof fn lemma_object(v: Value) ensures #[trigger] dv(v) is Node && dv(v)->Node_0 ==> v is Object
{ reveal_with_fuel(dv, 1); }
// values held in memory do not nest deeper than the address space
pub axiom fn axiom_deep(v: Value) ensures deep(dv(v), usize::MAX as int);

// the pieces of a schema, from what has been inserted
pub broadcast proof fn lemma_dv_map_ok(m: LinkedHashMap<String, Value>) ensures uniq(dvf(m@)), #[trigger] dv(Value::Object(m)) == GDoc::Node(true, dvf(m@))
{ broadcast use group_dv; m.lemma_uniq(); let s = dvf(m@); assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies s[i].0 != s[j].0 by { assert(m@[i].0 != m@[j].0); } }
pub proof fn lemma_sound_at(s: Seq<(Seq<char>, GDoc)>, n: int) requires sound_items(s), 0 <= n < s.len(), ensures sound(s[n].1) { reveal(sound_items); }
//@ end
