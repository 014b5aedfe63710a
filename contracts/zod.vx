//@ include structs.vx
//@ file json_typegen_shared/src/generation/typescript.rs
//@ fn collapse_option
    ensures *typ is Optional ==> r.0 && *r.1 == *(*typ)->Optional_0, !(*typ is Optional) ==> !r.0 && r.1 == typ
//@ file json_typegen_shared/src/generation/zod_schema.rs
//@ type Ctxt
//@ prologue hide(fits); hide(writes); hide(uniq); hide(gwf); hide(folds); broadcast use {group_sv, lemma_cat_none, group_writes, lemma_same_shapes}; proof { lemma_sv_consts(); lemma_show_flat(); }
//@ fn type_from_shape
    requires gwf(sv(*shape)), gsz(sv(*shape)) + old(ctxt).indent_level <= usize::MAX, old(ctxt).indent_level >= 1,
    ensures writes(r@, sv(*shape), old(ctxt).options, old(ctxt).indent_level as nat, true), *final(ctxt) == *old(ctxt),
    decreases gsz(sv(*shape)), wrappers(sv(*shape)), 1nat
//@ at start
    broadcast use {lemma_show_user, axiom_entry_refs};
    proof { lemma_sv_kind(*shape); lemma_inner(sv(*shape)); if *shape is Struct { shape->Struct_fields.lemma_uniq(); lemma_part_none(shape->Struct_fields@); } if *shape is Tuple { lemma_tuple(shape->Tuple_0@, shape->Tuple_1 as nat); } }
//@ loop 1
    invariant vx_s1.len() == fields@.len(), (forall|i: int| 0 <= i < fields@.len() ==> (#[trigger] vx_s1[i]).0@ == fields@[i].0 && *vx_s1[i].1 == fields@[i].1),
        gwf(GShape::Struct(svf(fields@))), gsz(GShape::Struct(svf(fields@))) <= u64::MAX, part(sv(vx_acc1), fields@, vx_it1.pos()),
//@ at loop 1 next
    let ghost a0 = vx_acc1;
    proof { lemma_part_pre(sv(vx_acc1), fields@, vx_it1.pos() - 1); }
//@ at loop 1 end
    proof { lemma_part_step(sv(a0), sv(vx_acc1), fields@, vx_it1.pos() - 1); }
//@ at loop 1 after
    proof { lemma_part_all(sv(vx_acc1), fields@); }
//@ fn generate_vec_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) + old(ctxt).indent_level <= usize::MAX, old(ctxt).indent_level >= 1,
    ensures writes(r@, GShape::VecT(Box::new(sv(*shape))), old(ctxt).options, old(ctxt).indent_level as nat, true), *final(ctxt) == *old(ctxt),
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ fn generate_map_type
    requires gwf(sv(*shape)), gsz(sv(*shape)) + old(ctxt).indent_level <= usize::MAX, old(ctxt).indent_level >= 1,
    ensures writes(r@, GShape::MapT(Box::new(sv(*shape))), old(ctxt).options, old(ctxt).indent_level as nat, true), *final(ctxt) == *old(ctxt),
    decreases gsz(sv(*shape)) + 1, 0nat, 0nat
//@ at start
    proof { lemma_sv_kind(*shape); lemma_bare(sv(*shape)); }
//@ at call type_from_shape before
    proof { assert(sv(*collapsed) == bare(sv(*shape))); }
//@ prologue hide(fits); hide(writes); broadcast use {group_sv, group_gsz, lemma_cat_none, lemma_texts_none, lemma_texts_push, lemma_texts_len}; proof { lemma_sv_consts(); }
//@ fn generate_tuple_type
    requires gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) + old(ctxt).indent_level < usize::MAX, old(ctxt).indent_level >= 1,
    ensures writes(r@, GShape::Tuple(svs(shapes@), 0), old(ctxt).options, old(ctxt).indent_level as nat, true), *final(ctxt) == *old(ctxt),
    decreases zsum(shapes@) + 1, 0nat, 0nat
//@ at start
    broadcast use {lemma_shows_none, lemma_shows_push};
    let ghost mut ts = Seq::<STy>::empty();
    let ghost c0 = *ctxt;
    let ghost k = cfg_of(ctxt.options, true);
//@ loop 0
    invariant gwf(GShape::Tuple(svs(shapes@), 0)), zsum(shapes@) + ctxt.indent_level < usize::MAX, vx_s0 == refs(shapes@), ts.len() == vx_it0.pos(), *ctxt == c0, c0.indent_level >= 1, k == cfg_of(c0.options, true),
        texts(types@) == shows(ts, c0.indent_level as nat, true),
        forall|j: int| 0 <= j < vx_it0.pos() ==> fits(#[trigger] ts[j], sv(shapes@[j]), k),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; assert(*shape == shapes@[n]); assert(svs(shapes@)[n] == sv(*shape)); lemma_zsum_step(shapes@, n); }
//@ at loop 0 end
    proof {
        reveal(writes);
        let s = sv(*shape);
        let t = choose|t: STy| #[trigger] written(t, typ@, s, c0.options, c0.indent_level as nat, true);
        ts = ts.push(t);
    }
//@ at end
    proof { lemma_writes_tup(vx_ret@, ts, svs(shapes@), c0.options, c0.indent_level as nat, true); }
//@ fn generate_struct_from_field_shapes
    requires gwf(GShape::Struct(svf(map@))), gsz(GShape::Struct(svf(map@))) + old(ctxt).indent_level <= usize::MAX, old(ctxt).indent_level >= 1, !over(map@.len() as int, cfg_of(old(ctxt).options, true)),
    ensures writes(r@, GShape::Struct(svf(map@)), old(ctxt).options, old(ctxt).indent_level as nat, true), *final(ctxt) == *old(ctxt),
    decreases gsz(GShape::Struct(svf(map@))), 0nat, 0nat
//@ at start
    broadcast use {lemma_lines_none, lemma_lines_push};
    let ghost c0 = *ctxt;
    let ghost fs = svf(map@);
    let ghost mut gs = Seq::<SField>::empty();
    let ghost k = cfg_of(ctxt.options, true);
    let ghost d = ctxt.indent_level as nat;
//@ at loop 0 before
    proof { assert(vx_out0.vcol() =~= Seq::<String>::empty()); }
//@ loop 0
    invariant vx_s0.len() == map@.len(), (forall|i: int| 0 <= i < map@.len() ==> (#[trigger] vx_s0[i]).0@ == map@[i].0 && *vx_s0[i].1 == map@[i].1),
        fs == svf(map@), gwf(GShape::Struct(fs)), gsz(GShape::Struct(fs)) + ctxt.indent_level <= usize::MAX, *ctxt == c0, c0.indent_level >= 1, d == c0.indent_level, k == cfg_of(c0.options, true),
        gs.len() == vx_it0.pos(), texts(vx_out0.vcol()) == lines(gs, d, true),
        forall|j: int| 0 <= j < vx_it0.pos() ==> field_fits(#[trigger] gs[j], fs[j].0, fs[j].1, k),
//@ at loop 0 next
    proof { let n = vx_it0.pos() - 1; let (kk, ty) = vx_x0; assert(*ty == map@[n].1); assert(fs[n] == (kk@, sv(*ty))); lemma_sv_kind(*ty); lemma_fields(fs, n); lemma_bare(sv(*ty)); }
//@ at loop 0 end
    proof {
        reveal(writes);
        let s = sv(*typ);
        let t = choose|t: STy| #[trigger] written(t, field_type@, s, c0.options, d + 1, true);
        let n = vx_it0.pos() - 1;
        let text = vx_out0.vcol().last()@;
        let e = choose|e: Seq<char>| #[trigger] unesc(e) == Some(name@) && (plain_text(name@) ==> e == name@) && text == line_of(d, escape_name, e, false, show(t, d + 1, true), true);
        lemma_line(escape_name, e, name@, false, t, d, true);
        gs = gs.push(SField { key: name@, word: if escape_name { "\""@ + e + "\""@ } else { e }, opt: false, ty: t });
        assert(text == line(gs.last(), d, true));
    }
//@ at end
    proof { reveal(lines); lemma_obj_text(gs, d, true); lemma_writes_obj(vx_ret@, gs, fs, c0.options, d, true); }
//@ prologue hide(fits); hide(writes); broadcast use lemma_cat_none;
//@ fn zod_schema
    requires gwf(sv(*shape)), gsz(sv(*shape)) < usize::MAX,
    ensures exists|t: STy, n: Seq<char>| #[trigger] declared(t, r@, "export const "@, n, sv(*shape), options, true) && ident(n)
//@ at start
    let ghost mut t: STy = arbitrary();
    let ghost mut q = Seq::<char>::empty();
    let ghost mut n = Seq::<char>::empty();
    proof {
        reveal_strlit("Schema"); reveal_strlit("n"); assert("n"@ =~= seq!['n']);
        assert forall|a: Seq<char>| alnums(a) && (a.len() == 0 || alpha(a[0])) implies ident(#[trigger] (a + "Schema"@)) by {
            let u = a + "Schema"@;
            assert forall|i: int| 0 <= i < u.len() implies word_char(#[trigger] u[i]) by { if i < a.len() { assert(u[i] == a[i]); assert(alnum(a[i])); } else { assert(u[i] == "Schema"@[i - a.len()]); assert(word("Schema"@)); } }
            if a.len() > 0 { assert(u[0] == a[0]); } else { assert(u[0] == 'S'); }
        }
        assert forall|a: Seq<char>| alnums(a) implies alnums(#[trigger] ("n"@ + a)) && ("n"@ + a)[0] == 'n' by { let u = "n"@ + a; assert forall|i: int| 0 <= i < u.len() implies alnum(#[trigger] u[i]) by { if i > 0 { assert(u[i] == a[i - 1]); } } }
    }
//@ at tail
    proof { reveal(writes); q = code@; n = schema_name@; t = choose|t: STy| #[trigger] written(t, code@, sv(*shape), options, 1, true); assert(written(t, code@, sv(*shape), options, 1, true));
        assert(ident(n)); }
//@ at end
    proof { lemma_declared(t, q, vx_ret@, "export const "@, n, sv(*shape), options, true); }
