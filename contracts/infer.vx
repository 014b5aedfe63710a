//@ include merge.vx assume
//@ include lex.vx assume
//@ include hints.vx assume
//@ include infer_spec.vx
//@ include tight_spec.vx
//@ subst-type Peekable<T> => VxToks
//@ subst-type R => VxRead
//@ rename-path common_shape => vx_common_shape
//@ file json_typegen_shared/src/options.rs
//@ type OutputMode
//@ type ImportStyle
//@ type InputMode
//@ type StringTransform
//@ type Options
//@ raw
// std::iter::Peekable over the lexer: contracts assumed
#[verifier::external_body] pub struct VxToks { x: u8 }
impl VxToks {
    pub uninterp spec fn view(&self) -> Toks;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<JsonToken, JsonInputErr>>)
        ensures r is None <==> old(self)@.len() == 0, r is None ==> final(self)@ == old(self)@,
            r is Some ==> gr(r->Some_0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&Result<JsonToken, JsonInputErr>>)
        ensures final(self)@ == old(self)@, r is None <==> old(self)@.len() == 0, r is Some ==> gr(*r->Some_0) == old(self)@[0],
    { unimplemented!() }
}
impl JsonLexer {
    #[verifier::external_body] pub fn peekable(self) -> (r: VxToks) ensures r@ == toks(self) { unimplemented!() }
}
// derived PartialEq of JsonToken
impl PartialEq for JsonToken { #[verifier::external_body] fn eq(&self, other: &JsonToken) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for JsonToken {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &JsonToken) -> bool { gt(*self) == gt(*other) }
}
// common_shape; `merged` is the relation between its arguments and results
pub open spec fn merged(a: GShape, b: GShape, r: GShape) -> bool {
    exists|x: Shape, y: Shape, z: Shape| sv(x) == a && sv(y) == b && sv(z) == r && #[trigger] call_ensures(common_shape, (x, y), z)
}
fn vx_apply<F: FnOnce(Shape, Shape) -> Shape>(f: F, a: Shape, b: Shape) -> (r: Shape)
    requires call_requires(f, (a, b)), ensures call_ensures(f, (a, b), r)
{ f(a, b) }
pub fn vx_common_shape(a: Shape, b: Shape) -> (r: Shape)
    requires gwf(sv(a)), gwf(sv(b)), gsz(sv(a)) + gsz(sv(b)) <= u64::MAX,
    ensures mg(sv(a), sv(b), sv(r))
{ let r = vx_apply(common_shape, a, b); proof { reveal(mg); assert(merged(sv(a), sv(b), sv(r))); } r }
pub open spec fn un(n: usize) -> nat { n as nat }
pub open spec fn fv(m: LinkedHashMap<String, Shape>) -> GFs { svf(m@) }
pub open spec fn limv(o: Options) -> Option<nat> { match o.infer_map_threshold { Some(n) => Some(n as nat), None => None } }
pub open spec fn osv(o: Option<Shape>) -> Option<GShape> { match o { Some(s) => Some(sv(s)), None => None } }
pub broadcast proof fn lemma_svs_push(s: Seq<Shape>, x: Shape) ensures #[trigger] svs(s.push(x)) == svs(s).push(sv(x))
{ broadcast use group_sv; assert(svs(s.push(x)) =~= svs(s).push(sv(x))); }
pub broadcast proof fn lemma_svf_push(s: Seq<(Seq<char>, Shape)>, e: (Seq<char>, Shape)) ensures #[trigger] svf(s.push(e)) == svf(s).push((e.0, sv(e.1)))
{ broadcast use group_sv; assert(svf(s.push(e)) =~= svf(s).push((e.0, sv(e.1)))); }
pub broadcast proof fn lemma_svf_without(s: Seq<(Seq<char>, Shape)>, k: Seq<char>) ensures #[trigger] svf(without(s, k)) == without(svf(s), k) decreases s.len()
{
    broadcast use group_sv; reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); let l = s.last();
        lemma_svf_without(d, k);
        assert(svf(s).drop_last() =~= svf(d)); assert(svf(s).last() == (l.0, sv(l.1)));
        if l.0 != k { assert(without(s, k) == without(d, k).push(l)); lemma_svf_push(without(d, k), l); assert(without(svf(s), k) == without(svf(d), k).push((l.0, sv(l.1)))); }
        else { assert(without(s, k) == without(d, k)); assert(without(svf(s), k) == without(svf(d), k)); }
    } else { assert(svf(s) =~= Seq::<(Seq<char>, GShape)>::empty()); assert(without(s, k) =~= s); assert(without(svf(s), k) =~= svf(s)); }
}
// which hints are in force at a position
pub proof fn lemma_here(hs: Hints)
    requires hwf(hs)
    ensures
        forall|i: int| #![trigger hs.applicable@[i]] 0 <= i < hs.applicable@.len() ==> hv(hs).contains((here(), gh(*hs.applicable@[i]))),
        (forall|i: int| #![trigger hs.applicable@[i]] 0 <= i < hs.applicable@.len() ==> gh(*hs.applicable@[i]) is Name) ==> !opq(hv(hs)) && !mp(hv(hs)),
{
    reveal(lv);
    assert forall|g: GHint| #[trigger] hv(hs).contains((here(), g)) implies in_app(hs.applicable@, (here(), g)) by {
        if in_hints(hs.hints@, (here(), g)) { let i = choose|i: int| 0 <= i < hs.hints@.len() && #[trigger] hent(hs.hints@[i]) == (here(), g); assert(tv(hs.hints@[i].0@).len() > 0); }
    }
}
pub trait VxEq<R: ?Sized> { spec fn eq_is(&self, r: &R) -> bool; fn vx_eq(&self, r: &R) -> (b: bool) ensures b == self.eq_is(r); }
impl<'a, 'b> VxEq<&'b str> for &'a str { open spec fn eq_is(&self, r: &&'b str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &&'b str) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<String> for &'a str { open spec fn eq_is(&self, r: &String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &String) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<&'a str> for String { open spec fn eq_is(&self, r: &&'a str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &&'a str) -> (b: bool) { unimplemented!() } }
impl VxEq<str> for str { open spec fn eq_is(&self, r: &str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &str) -> (b: bool) { unimplemented!() } }
impl VxEq<str> for String { open spec fn eq_is(&self, r: &str) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &str) -> (b: bool) { unimplemented!() } }
impl VxEq<String> for String { open spec fn eq_is(&self, r: &String) -> bool { self@ == r@ } #[verifier::external_body] fn vx_eq(&self, r: &String) -> (b: bool) { unimplemented!() } }
impl VxEq<usize> for usize { open spec fn eq_is(&self, r: &usize) -> bool { *self == *r } fn vx_eq(&self, r: &usize) -> (b: bool) { *self == *r } }
pub trait VxSplitFirst<T> { spec fn whole(&self) -> Seq<T>; fn vx_split_first(&self) -> (r: Option<(&T, &[T])>)
    ensures self.whole().len() == 0 <==> r is None, r is Some ==> *r->Some_0.0 == self.whole()[0] && r->Some_0.1@ == self.whole().skip(1); }
impl<T> VxSplitFirst<T> for [T] { open spec fn whole(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() } }
pub proof fn lemma_digits(s: Seq<char>)
    ensures (exists|n: nat| s == #[trigger] dec(n)) ==> forall|i: int| 0 <= i < encode_utf8(s).len() ==> 0x30 <= #[trigger] encode_utf8(s)[i] <= 0x39
{
    if exists|n: nat| s == #[trigger] dec(n) {
        let n = choose|n: nat| s == #[trigger] dec(n);
        lemma_dec(n);
        vstd::utf8::is_ascii_chars_encode_utf8(s);
    }
}
pub proof fn lemma_ptr1(p: Seq<char>)
    ensures p.len() > 0 && p[0] == '/' ==> split_of(p, '/').len() >= 2, p.len() > 0 ==> (is_prefix(seq!['/'], p) <==> p[0] == '/')
{ if p.len() > 0 { lemma_split_len(p.drop_first(), '/'); assert(p.take(1)[0] == p[0]); if p[0] == '/' { assert(p.take(1) =~= seq!['/']); } } }
pub broadcast proof fn lemma_uw_ends(o: Option<GShape>, t0: Toks, t1: Toks, p: Seq<Seq<char>>, h: GH, lim: Option<nat>)
    requires #[trigger] uw_ok(o, t0, t1, p, h, lim)
    ensures p_value(t0) is Some, many(o, sel(tree(t0), p), h, lim), o is None ==> sel(tree(t0), p).len() == 0, o is Some ==> sel(tree(t0), p).len() > 0
{ lemma_uw_end(o, t0, t1, p, h, lim); reveal(uw_ok); }
pub broadcast proof fn lemma_uw_bads(t0: Toks, p: Seq<Seq<char>>, h: GH)
    requires #[trigger] uw_bad(t0, p, h) ensures p_value(t0) is None || clash_any(sel(tree(t0), p), h)
{ reveal(uw_bad); }
// ===== C02: what is inferred claims no more than the selected values call for =====
// the contract of common_shape that the unit `tight` proves
#[verifier::external_body]
pub proof fn axiom_narrow(x: Shape, y: Shape, z: Shape) requires call_ensures(common_shape, (x, y), z) ensures narrow(sv(z), sv(x), sv(y)) {}
pub proof fn lemma_from_tight(mx: bool, s: Shapes, r: GShape, a: VS)
    requires comb(r, s), forall|x: GShape| #[trigger] s.contains(x) ==> tight(mx, x, a), ensures tight(mx, r, a)
{
    reveal(comb); reveal(from);
    let p = |x: GShape| tight(mx, x, a);
    assert(p(GShape::Bottom));
    assert(closed(p)) by {
        assert forall|x: GShape, y: GShape, z: GShape| p(x) && p(y) && #[trigger] merged(x, y, z) implies p(z) by {
            let (sx, sy, sz) = choose|sx: Shape, sy: Shape, sz: Shape| sv(sx) == x && sv(sy) == y && sv(sz) == z && #[trigger] call_ensures(common_shape, (sx, sy), sz);
            axiom_narrow(sx, sy, sz); reveal(narrow);
        }
    }
    assert(p(r));
}
// without hints and without a map threshold `mx` may be false: then maps and the user's own types never occur
pub open spec fn plain(h: GH, lim: Option<nat>) -> bool { h == GH::empty() && lim is None }
pub proof fn lemma_fit_tight(mx: bool, s: GShape, t: GTree, h: GH, lim: Option<nat>, v: GVal, a: VS)
    requires fit(s, t, h, lim), val(t, v), mx || plain(h, lim), a.contains(Some(v)),
    ensures tight(mx, s, a)
    decreases t
{
    reveal_with_fuel(fit, 3); reveal_with_fuel(fits_at, 3); reveal_with_fuel(arr_fit, 3); reveal_with_fuel(fields_fit, 3); reveal_with_fuel(obj_fit, 3); reveal_with_fuel(map_fit, 3);
    let w = Some(v);
    if s is Opaque {}
    else if t is Arr {
        let es = t->Arr_0; let el = v->Arr_0;
        assert(vkind(w) == 4);
        match s {
            GShape::Tuple(ss, _) => {
                assert(has_arr_n(a, ss.len()));
                assert forall|i: int| #![trigger ss[i]] 0 <= i < ss.len() implies tight(mx, ss[i], v_nth(a, ss.len(), i)) by {
                    let hi = gstep(h, dec(i as nat));
                    if !mx { lemma_gstep_empty(dec(i as nat)); }
                    assert(val(es[i], el[i]));
                    assert(fit(ss[i], es[i], hi, lim));
                    assert(arr_of(w)[i] == el[i]);
                    assert(v_nth(a, ss.len(), i).contains(Some(el[i])));
                    lemma_fit_tight(mx, ss[i], es[i], hi, lim, el[i], v_nth(a, ss.len(), i));
                }
            }
            GShape::VecT(e) => {
                let ss = choose|ss: Seq<GShape>| fits_at(ss, es, h, lim) && #[trigger] comb(*e, sset(ss));
                assert forall|x: GShape| #[trigger] sset(ss).contains(x) implies tight(mx, x, v_elems(a)) by {
                    let i = choose|i: int| 0 <= i < ss.len() && #[trigger] ss[i] == x;
                    let hi = gstep(h, dec(i as nat));
                    if !mx { lemma_gstep_empty(dec(i as nat)); }
                    assert(val(es[i], el[i]));
                    assert(fit(ss[i], es[i], hi, lim));
                    assert(arr_of(w)[i] == el[i]);
                    assert(v_elems(a).contains(Some(el[i])));
                    lemma_fit_tight(mx, ss[i], es[i], hi, lim, el[i], v_elems(a));
                }
                lemma_from_tight(mx, sset(ss), *e, v_elems(a));
            }
            _ => {}
        }
    } else if t is Obj {
        let ms = t->Obj_0; let m = v->Obj_0;
        assert(vkind(w) == 5);
        let fs = match s {
            GShape::Struct(fs) => fs,
            GShape::MapT(e) => if mp(h) { choose|fs: Seq<(Seq<char>, GShape)>| fields_fit(fs, ms, h, lim) && #[trigger] comb(*e, vset(fs)) }
                else { choose|fs: Seq<(Seq<char>, GShape)>| fields_fit(fs, ms, h, lim) && over(fs.len(), lim) && #[trigger] comb(*e, vset(fs)) },
            _ => arbitrary(),
        };
        assert(fields_fit(fs, ms, h, lim));
        assert forall|i: int, b: VS| #![trigger fs[i], b.contains(Some(m[fs[i].0]))] 0 <= i < fs.len() && b.contains(Some(m[fs[i].0])) implies m.dom().contains(fs[i].0) && tight(mx, fs[i].1, b) by {
            assert(field_fit(fs[i], ms, h, lim));
            let k = fs[i].0;
            if !mx { lemma_gstep_empty(k); }
            let j = choose|j: int| 0 <= j < ms.len() && last_of(ms, j) && (#[trigger] ms[j]).0 == fs[i].0 && fit(fs[i].1, ms[j].1, gstep(h, fs[i].0), lim);
            lemma_fit_tight(mx, fs[i].1, ms[j].1, gstep(h, k), lim, m[ms[j].0], b);
        }
        assert forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() implies m.dom().contains(fs[i].0) by {
            assert(field_fit(fs[i], ms, h, lim));
            let j = choose|j: int| 0 <= j < ms.len() && last_of(ms, j) && (#[trigger] ms[j]).0 == fs[i].0 && fit(fs[i].1, ms[j].1, gstep(h, fs[i].0), lim);
            assert(m.dom().contains(ms[j].0));
        }
        match s {
            GShape::Struct(_) => {
                assert forall|k: Seq<char>| #[trigger] obj_of(w).dom().contains(k) implies has_key(fs, k) by {
                    let j = choose|j: int| 0 <= j < ms.len() && #[trigger] ms[j].0 == k;
                    assert(has_key(fs, ms[j].0));
                }
                assert(has_record(a, fs));
                assert forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() implies has_field(a, fs[i].0) && tight(mx, fs[i].1, v_proj(a, fs[i].0)) by {
                    let k = fs[i].0;
                    assert(obj_of(w).dom().contains(k));
                    assert(lookup(obj_of(w), k) == Some(m[k]));
                    assert(v_proj(a, k).contains(Some(m[k])));
                }
            }
            GShape::MapT(e) => {
                assert(mx);
                assert forall|x: GShape| #[trigger] vset(fs).contains(x) implies tight(mx, x, v_vals(a)) by {
                    let i = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).1 == x;
                    assert(obj_of(w).dom().contains(fs[i].0));
                    assert(v_vals(a).contains(Some(m[fs[i].0])));
                }
                lemma_from_tight(mx, vset(fs), *e, v_vals(a));
                assert(has_obj(a));
            }
            _ => {}
        }
    } else {
        assert(a.contains(Some(v)));
    }
}
/// a: at least the values of the selected nodes
pub proof fn lemma_many_tight(mx: bool, x: GShape, ts: Seq<GTree>, h: GH, lim: Option<nat>, a: VS)
    requires many(Some(x), ts, h, lim), mx || plain(h, lim),
        forall|i: int| #![trigger ts[i]] 0 <= i < ts.len() ==> exists|v: GVal| val(ts[i], v) && #[trigger] a.contains(Some(v)),
    ensures tight(mx, x, a)
{
    reveal(many);
    let ss = choose|ss: Seq<GShape>| fits_all(ss, ts, h, lim) && #[trigger] comb(x, sset(ss)) && (ss.len() == 1 ==> x == ss[0]);
    assert forall|y: GShape| #[trigger] sset(ss).contains(y) implies tight(mx, y, a) by {
        let i = choose|i: int| 0 <= i < ss.len() && #[trigger] ss[i] == y;
        let v = choose|v: GVal| val(ts[i], v) && #[trigger] a.contains(Some(v));
        assert(fit(ss[i], ts[i], h, lim));
        lemma_fit_tight(mx, ss[i], ts[i], h, lim, v, a);
    }
    lemma_from_tight(mx, sset(ss), x, a);
}
//@ rename-method split_first => vx_split_first
//@ file json_typegen_shared/src/inference/jsoninfer.rs
//@ type Inference keep nogenerics
//@ prologue broadcast use {lemma_sv_opaque, lemma_sv_map, lemma_sv_vec, lemma_sv_tuple, lemma_sv_struct}; proof { lemma_sv_consts(); }
//@ fn Inference::new
//@ header impl Inference
//@ attr terminates
    ensures r.tokens@ == stream(source.content())
//@ fn Inference::next_token
//@ header impl Inference
//@ attr terminates
    ensures
        r is Ok ==> old(self).tokens@.len() > 0 && gt(r->Ok_0) == old(self).tokens@[0] && final(self).tokens@ == old(self).tokens@.skip(1),
        r is Err ==> old(self).tokens@.len() == 0 || old(self).tokens@[0] is Bad,
//@ fn Inference::expect_token
//@ header impl Inference
//@ attr terminates
    ensures
        r is Ok ==> old(self).tokens@.len() > 0 && gt(expected_token) == old(self).tokens@[0] && final(self).tokens@ == old(self).tokens@.skip(1),
        r is Err ==> old(self).tokens@.len() == 0 || old(self).tokens@[0] is Bad || gt(expected_token) != old(self).tokens@[0],
//@ fn Inference::infer_shape
//@ header impl Inference
    requires hwf(*hints), old(self).tokens@.len() <= usize::MAX
    ensures r is Ok ==> infd(sv(r->Ok_0), old(self).tokens@, final(self).tokens@, hv(*hints), limv(*options)),
        r is Err ==> bad(old(self).tokens@, hv(*hints)),
    decreases old(self).tokens@.len(), (if hints.applicable@.len() > 0 { 1nat } else { 0nat })
//@ at start
    let ghost t0 = self.tokens@;
    proof { lemma_shape(t0, hv(*hints), limv(*options)); lemma_here(*hints); }
//@ loop 0
    invariant self.tokens@ == t0, forall|i: int| #![trigger hints.applicable@[i]] 0 <= i < vx_it0.pos() ==> gh(*hints.applicable@[i]) is Name,
//@ at loop 0 next
    proof { assert(*vx_s0[vx_it0.pos() - 1] == hints.applicable@[vx_it0.pos() - 1]); }
//@ fn Inference::infer_map
//@ header impl Inference
    requires hwf(*hints), old(self).tokens@.len() <= usize::MAX
    ensures r is Ok ==> map_ok(sv(r->Ok_0), old(self).tokens@, final(self).tokens@, hv(*hints), limv(*options)),
        r is Err ==> bad_obj(old(self).tokens@, hv(*hints)),
    decreases old(self).tokens@.len(), 3nat
//@ at start
    let ghost s0 = self.tokens@;
    proof { lemma_map_start(s0, hv(*hints), limv(*options)); }
//@ loop 0
    invariant fold2(sv(vx_acc0), Shapes::empty(), 0, vals(fs), vx_it0.pos()), vals(fs).len() == vx_s0.len(), ssum(vals(fs)) <= usize::MAX,
        forall|i: int| #![trigger vx_s0[i]] 0 <= i < vx_s0.len() ==> sv(vx_s0[i].1) == vals(fs)[i],
//@ at loop 0 before
    let ghost fs = fv(fields);
    proof { broadcast use group_sv; lemma_map_end(GShape::Struct(fs), s0, self.tokens@, hv(*hints), limv(*options)); lemma_fold_init(GShape::Bottom, Shapes::empty(), vals(fs)); }
//@ at loop 0 next
    proof { lemma_fold_step(sv(vx_acc0), Shapes::empty(), 0, vals(fs), vx_it0.pos() - 1); }
//@ fn Inference::infer_object
//@ header impl Inference
    requires hwf(*hints), old(self).tokens@.len() <= usize::MAX
    ensures r is Ok ==> obj_ok(sv(r->Ok_0), old(self).tokens@, final(self).tokens@, hv(*hints), limv(*options)) && (r->Ok_0 is Struct || r->Ok_0 is MapT),
        r is Err ==> bad_obj(old(self).tokens@, hv(*hints)),
    decreases old(self).tokens@.len(), 2nat
//@ at start
    let ghost s0 = self.tokens@;
    let ghost h = hv(*hints);
    let ghost lim = limv(*options);
    let ghost mut acc: Members = Seq::empty();
    proof { broadcast use group_sv; lemma_obj_init(s0, h, lim); assert(svf(Seq::empty()) =~= Seq::empty()); }
//@ loop 0
    invariant s0.len() <= usize::MAX, self.tokens@.len() <= s0.len(),
    invariant_except_break obj_state(fv(fields), s0, self.tokens@, acc, h, lim),
    ensures obj_done(fv(fields), s0, self.tokens@, h, lim),
    decreases self.tokens@.len()
//@ at loop 0 start
    let ghost cur = self.tokens@;
    proof { broadcast use {lemma_svf_push, lemma_svf_without}; lemma_obj_step(fv(fields), s0, cur, acc, h, lim); acc = acc.push((mkey(cur), tree(mval(cur)))); }
//@ at loop 0 after
    proof { lemma_obj_end(fv(fields), s0, self.tokens@, h, lim); }
//@ loop 1
    invariant fold2(sv(vx_acc1), Shapes::empty(), 0, vals(fs), vx_it1.pos()), vals(fs).len() == vx_s1.len(), ssum(vals(fs)) <= usize::MAX,
        forall|i: int| #![trigger vx_s1[i]] 0 <= i < vx_s1.len() ==> sv(vx_s1[i].1) == vals(fs)[i],
//@ at loop 1 before
    let ghost fs = fv(fields);
    proof { broadcast use group_sv; lemma_fold_init(GShape::Bottom, Shapes::empty(), vals(fs)); }
//@ at loop 1 next
    proof { lemma_fold_step(sv(vx_acc1), Shapes::empty(), 0, vals(fs), vx_it1.pos() - 1); }
//@ fn Inference::infer_array
//@ header impl Inference
    requires hwf(*hints), old(self).tokens@.len() <= usize::MAX
    ensures r is Ok ==> arr_ok(sv(r->Ok_0), old(self).tokens@, final(self).tokens@, hv(*hints), limv(*options)),
        r is Err ==> bad_arr(old(self).tokens@, hv(*hints)),
    decreases old(self).tokens@.len(), 2nat
//@ at start
    let ghost s0 = self.tokens@;
    let ghost h = hv(*hints);
    let ghost lim = limv(*options);
    let ghost mut acc: Seq<GTree> = Seq::empty();
    proof { broadcast use group_sv; lemma_arr_init(s0, h, lim); assert(svs(Seq::empty()) =~= Seq::empty()); }
//@ loop 0
    invariant s0.len() <= usize::MAX, self.tokens@.len() <= s0.len(), un(len) == acc.len(),
    invariant_except_break arr_state(svs(vsh(shapes)), sv(folded), s0, self.tokens@, acc, h, lim),
    ensures arr_done(svs(vsh(shapes)), sv(folded), s0, self.tokens@, un(len), h, lim),
    decreases self.tokens@.len()
//@ at loop 0 start
    let ghost cur = self.tokens@;
    broadcast use lemma_svs_push;
    proof { lemma_arr_step(svs(vsh(shapes)), sv(folded), s0, cur, acc, h, lim); acc = acc.push(tree(cur)); }
//@ at loop 0 after
    proof { lemma_arr_end(svs(vsh(shapes)), sv(folded), s0, self.tokens@, un(len), h, lim); }
//@ loop 1
    invariant fold2(sv(vx_acc1), base, bs, ss, vx_it1.pos()), ss.len() == vx_s1.len(), bs + ssum(ss) <= usize::MAX,
        forall|i: int| #![trigger vx_s1[i]] 0 <= i < vx_s1.len() ==> sv(vx_s1[i]) == ss[i],
//@ at loop 1 before
    let ghost ss = svs(vx_s1);
    let ghost bs = gsz(sv(vx_acc1));
    let ghost base = arr_rest(ss, sv(vx_acc1), s0, h, lim);
    proof { broadcast use group_sv; lemma_fold_init(sv(vx_acc1), base, ss); }
//@ at loop 1 next
    proof { lemma_fold_step(sv(vx_acc1), base, bs, ss, vx_it1.pos() - 1); }
//@ fn optional_common_shape
//@ attr terminates
    requires ogood(osv(a)), ogood(osv(b)), osz(osv(a)) + osz(osv(b)) <= u64::MAX
    ensures omg(osv(a), osv(b), osv(r))
//@ at start
    proof { reveal(omg); }
//@ fn Inference::unwrap
//@ header impl Inference
//@ attr eq
    requires hwf(*hints), old(self).tokens@.len() <= usize::MAX
    ensures r is Ok ==> uw_ok(osv(r->Ok_0), old(self).tokens@, final(self).tokens@, tv(pointer_tokens@), hv(*hints), limv(*options)),
        r is Err ==> uw_bad(old(self).tokens@, tv(pointer_tokens@), hv(*hints)),
    decreases old(self).tokens@.len(), 4nat
//@ at start
    let ghost t0 = self.tokens@;
    let ghost s0 = t0.skip(1);
    let ghost h = hv(*hints);
    let ghost lim = limv(*options);
    let ghost p = tv(pointer_tokens@);
    let ghost mut acc: Members = Seq::empty();
    let ghost mut acce: Seq<GTree> = Seq::empty();
    proof {
        lemma_unwrap(t0, p, h, lim);
        if p.len() > 0 { lemma_u_init(s0, p, h, lim); lemma_digits(p[0]); assert(tv(pointer_tokens@.skip(1)) =~= p.skip(1)); }
    }
//@ loop 0
    invariant s0.len() <= usize::MAX, self.tokens@.len() <= s0.len(), uo_state(osv(folded), s0, self.tokens@, acc, p, h, lim),
    decreases self.tokens@.len()
//@ at loop 0 start
    let ghost cur = self.tokens@;
    proof { broadcast use {lemma_infd, lemma_uw_ok}; lemma_bad_empty(mval(cur)); lemma_uo_step(osv(folded), s0, cur, acc, p, h, lim); acc = acc.push((mkey(cur), tree(mval(cur)))); }
//@ loop 1
    invariant vx_s1 == encode_utf8(first_token@),
    ensures !vx_res1 ==> exists|i: int| 0 <= i < vx_s1.len() && !(0x30 <= #[trigger] vx_s1[i] <= 0x39),
//@ loop 2
    invariant s0.len() < usize::MAX, self.tokens@.len() <= s0.len(), un(vx_i2) == acce.len(),
    invariant_except_break acce.len() + self.tokens@.len() <= s0.len(), ua_state(osv(folded), s0, self.tokens@, acce, p, h, lim),
    ensures uin_done(Sort::Arr, osv(folded), s0, self.tokens@, p, h, lim),
    decreases self.tokens@.len()
//@ at loop 2 start
    let ghost cur = self.tokens@;
    proof { broadcast use {lemma_infd, lemma_uw_ok}; lemma_bad_empty(cur); lemma_ua_step(osv(folded), s0, cur, acce, p, h, lim); acce = acce.push(tree(cur)); }
//@ fn shape_from_json
//@ attr eq
//@ generics
//@ attr terminates
    requires hwf(*hints), stream(read.content()).len() <= usize::MAX
    ensures ({
        let ts = stream(read.content());
        let nodes = sel(tree(ts), unwrap_tokens(options.unwrap@));
        &&& r is Ok ==> p_value(ts) is Some && nodes.len() > 0 && many(Some(sv(r->Ok_0)), nodes, hv(*hints), limv(*options))
        &&& r is Err ==> p_value(ts) is None || nodes.len() == 0 || clash_any(nodes, hv(*hints))
    })
//@ at start
    proof { lemma_ptr1(options.unwrap@); reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
//@ loop 0
    invariant vstrs(vx_out0) == vx_s0.subrange(if vx_it0.pos() >= 1 { 1 } else { vx_it0.pos() }, vx_it0.pos()),
        vx_skip0 == (if vx_it0.pos() >= 1 { 0 } else { 1 - vx_it0.pos() }),
//@ at loop 0 after
    proof { assert(tv(vstrs(vx_out0)) =~= unwrap_tokens(options.unwrap@)); }
//@ loop 1
    invariant vstrs(vx_out1) == vx_s1.take(vx_it1.pos()),
//@ at loop 1 after
    proof { assert(tv(vstrs(vx_out1)) =~= unwrap_tokens(options.unwrap@)); }
//@ at tail
    proof { assert(tv(pointer_tokens@) =~= unwrap_tokens(options.unwrap@)); }
    broadcast use {lemma_uw_ends, lemma_uw_bads};
