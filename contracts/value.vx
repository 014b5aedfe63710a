//@ include util.vx assume
//@ include shape_types.vx
//@ include docs.vx
//@ rename-method len => vx_len
//@ raw
impl<V> VxLen for LinkedHashMap<String, V> { open spec fn vlen(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
pub proof fn lemma_literals()
    ensures "null"@ == seq!['n', 'u', 'l', 'l'], "true"@ == seq!['t', 'r', 'u', 'e'], "false"@ == seq!['f', 'a', 'l', 's', 'e'],
        "\""@ == seq!['"'], "[\n"@ == seq!['[', '\n'], "{\n"@ == seq!['{', '\n'], "  "@ == seq![' ', ' '], ","@ == seq![','], "\n"@ == seq!['\n'], "]"@ == seq![']'], "}"@ == seq!['}'], "\": "@ == seq!['"', ':', ' '],
{
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("\""); reveal_strlit("[\n"); reveal_strlit("{\n"); reveal_strlit("  ");
    reveal_strlit(","); reveal_strlit("\n"); reveal_strlit("]"); reveal_strlit("}"); reveal_strlit("\": ");
    assert("null"@ =~= seq!['n', 'u', 'l', 'l']); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
    assert("\""@ =~= seq!['"']); assert("[\n"@ =~= seq!['[', '\n']); assert("{\n"@ =~= seq!['{', '\n']); assert("  "@ =~= seq![' ', ' ']); assert(","@ =~= seq![',']);
    assert("\n"@ =~= seq!['\n']); assert("]"@ =~= seq![']']); assert("}"@ =~= seq!['}']); assert("\": "@ =~= seq!['"', ':', ' ']);
}
// what one round of the loop adds: blanks, the item, and a comma unless it is the last
pub open spec fn added(c0: Seq<char>, ind: Seq<char>, e: Seq<char>, comma: bool) -> Seq<char> { if comma { c0 + ind + e + ","@ + "\n"@ } else { c0 + ind + e + "\n"@ } }
pub open spec fn so_far(c: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int) -> bool {
    c.len() > 0 && c[0] == (if o { '{' } else { '[' }) && (n < items.len() ==> ready(c.skip(1), o, items, n)) && (n >= items.len() ==> listed(c.skip(1), o, items, n))
}
pub proof fn lemma_round(c0: Seq<char>, ind: Seq<char>, e: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>, n: int)
    requires so_far(c0, o, items, n), 0 <= n < items.len(), blank(ind), item_text(e, o, items[n]),
    ensures so_far(added(c0, ind, e, n + 1 < items.len()), o, items, n + 1)
{
    lemma_literals();
    let b = c0.skip(1);
    let nl = "\n"@;
    assert(blank(nl)) by { assert forall|i: int| 0 <= i < nl.len() implies jblank(#[trigger] nl[i]) by { assert(nl[0] == '\n'); } }
    lemma_ready_more(b, ind, o, items, n);
    lemma_item(b + ind, e, o, items, n);
    let l = b + ind + e;
    if n + 1 < items.len() {
        lemma_comma(l, o, items, n + 1);
        lemma_ready_more(l + seq![','], nl, o, items, n + 1);
        assert(added(c0, ind, e, true).skip(1) =~= l + seq![','] + nl);
    } else {
        lemma_listed_more(l, nl, o, items, n + 1);
        assert(added(c0, ind, e, false).skip(1) =~= l + nl);
    }
}
pub proof fn lemma_start(c: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>)
    requires c == (if o { "{\n"@ } else { "[\n"@ }), ensures so_far(c, o, items, 0)
{
    lemma_literals();
    let b = c.skip(1);
    assert(b =~= seq!['\n']);
    assert(blank(b));
    lemma_ready_start(b, o, items);
}
pub proof fn lemma_finish(c: Seq<char>, ind: Seq<char>, o: bool, items: Seq<(Seq<char>, GDoc)>)
    requires so_far(c, o, items, items.len() as int), blank(ind),
    ensures renders(c + ind + (if o { "}"@ } else { "]"@ }), GDoc::Node(o, items))
{
    lemma_literals();
    let b = c.skip(1);
    lemma_listed_more(b, ind, o, items, items.len() as int);
    lemma_node(b + ind, o, items);
    assert(c + ind + (if o { "}"@ } else { "]"@ }) =~= seq![if o { '{' } else { '[' }] + (b + ind) + seq![if o { '}' } else { ']' }]);
}
pub proof fn lemma_key(esc: Seq<char>, x: Seq<char>, it: (Seq<char>, GDoc))
    requires unesc(esc) == Some(it.0), renders(x, it.1),
    ensures item_text("\""@ + esc + "\": "@ + x, true, it)
{
    lemma_literals();
    lemma_quoted(esc, it.0);
    let k = seq!['"'] + esc + seq!['"'];
    let c = seq![':', ' '];
    let a = Seq::<char>::empty();
    assert(c =~= a + seq![':'] + seq![' ']); assert(cut2(a, seq![' '])); assert(blank(seq![' ']));
    lemma_member(k, c, x, it);
    assert("\""@ + esc + "\": "@ + x =~= k + c + x);
}
//@ file json_typegen_shared/src/generation/value.rs
//@ fn pretty_print_value
    requires sound(dv(*value)), deep(dv(*value), usize::MAX - indent),
    ensures renders(r@, dv(*value))
//@ at start
    broadcast use group_dv;
    proof { lemma_literals(); lemma_dv_null(); reveal_with_fuel(renders, 2);
        assert forall|n: nat| blank(#[trigger] rep("  "@, n)) by { assert(blank("  "@)); lemma_rep_blank("  "@, n); }
        let none = Seq::<char>::empty();
        assert(none + "true"@ =~= "true"@); assert(none + "false"@ =~= "false"@);
        assert forall|b: Seq<char>| unesc(b) is Some implies quoted(#[trigger] (none + "\""@ + b + "\""@), unesc(b)->Some_0) by { lemma_quoted(b, unesc(b)->Some_0); assert(none + "\""@ + b + "\""@ =~= seq!['"'] + b + seq!['"']); }
    }
//@ loop 0
    invariant vx_s0 == refs(values@), len == values@.len(), sound(GDoc::Node(false, dvs(values@))), deep(GDoc::Node(false, dvs(values@)), usize::MAX - indent),
        so_far(code@, false, dvs(values@), vx_it0.pos()),
//@ at loop 0 before
    proof { lemma_start(code@, false, dvs(values@)); }
//@ at loop 0 start
    let ghost c0 = code@;
    proof { let n = vx_it0.pos() - 1; assert(*val == values@[n]); assert(dvs(values@)[n].1 == dv(*val)); lemma_at(false, dvs(values@), n, usize::MAX - indent); }
//@ at loop 0 end
    proof {
        let n = vx_it0.pos() - 1;
        let ind = rep("  "@, (indent + 1) as nat);
        let e = choose|e: Seq<char>| #[trigger] renders(e, dv(*val)) && code@ == added(c0, ind, e, n + 1 < values@.len());
        lemma_round(c0, ind, e, false, dvs(values@), n);
    }
//@ at loop 0 after
    proof { lemma_finish(code@, rep("  "@, indent as nat), false, dvs(values@)); }
//@ loop 1
    invariant vx_s1.len() == map@.len(), (forall|i: int| 0 <= i < map@.len() ==> (#[trigger] vx_s1[i]).0@ == map@[i].0 && *vx_s1[i].1 == map@[i].1),
        len == map@.len(), sound(GDoc::Node(true, dvf(map@))), deep(GDoc::Node(true, dvf(map@)), usize::MAX - indent),
        so_far(code@, true, dvf(map@), vx_it1.pos()),
//@ at loop 1 before
    proof { lemma_start(code@, true, dvf(map@)); }
//@ at loop 1 start
    let ghost c0 = code@;
    proof { let n = vx_it1.pos() - 1; assert(*val == map@[n].1); assert(dvf(map@)[n].1 == dv(*val)); lemma_at(true, dvf(map@), n, usize::MAX - indent); assert(dvf(map@)[n].0 == key@); }
//@ at loop 1 end
    proof {
        let n = vx_it1.pos() - 1;
        let ind = rep("  "@, (indent + 1) as nat);
        let it = dvf(map@)[n];
        let (k, x) = choose|k: Seq<char>, x: Seq<char>| #[trigger] renders(x, dv(*val)) && #[trigger] unesc(k) == Some(key@) && code@ == added(c0 + ind, Seq::<char>::empty() + "\""@ + k + "\": "@, x, n + 1 < map@.len());
        assert(Seq::<char>::empty() + "\""@ =~= "\""@);
        assert(c0 + ind + ("\""@ + k + "\": "@) + x =~= c0 + ind + ("\""@ + k + "\": "@ + x));
        lemma_key(k, x, it);
        lemma_round(c0, ind, "\""@ + k + "\": "@ + x, true, dvf(map@), n);
    }
//@ at loop 1 after
    proof { lemma_finish(code@, rep("  "@, indent as nat), true, dvf(map@)); }
