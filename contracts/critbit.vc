%file state/critbit.rs
%item
impl<'a, C> Slab<'a, C> {
    pub open spec fn sv(&self) -> SlabV<C> {
        SlabV { h: *self.header, lv: self.leaf_nodes@, inn: self.inner_nodes@, cb: self.callback_infos@ }
    }
}

%fn LeafNode::price_from_key
%own B01 B02 B04 M01
%ret r
%ens
    r == price_of(key),
%at start
    assert(key >> 64 == key >> 64u128);
    assert((key >> 64u128) <= 0xffff_ffff_ffff_ffffu128) by (bit_vector);

%fn LeafNode::order_id
%own B01 B04
%ret r
%ens
    r == lkey(*self),
%at start
    proof { lemma_order_id(*self); }

%fn LeafNode::price
%own B01 B02 B04 M01
%ret r
%ens
    r == price_of(lkey(*self)),
%at start
    proof { lemma_order_id(*self); }

%fn InnerNode::walk_down
%own B01
%ret r
%req
    self.prefix_len < 128,
%ens
    r.1 == bit(search_key, self.prefix_len),
    r.0 == self.children@[if bit(search_key, self.prefix_len) { 1int } else { 0int }],
%at start
    proof { lemma_bit(search_key, self.prefix_len); }

%fn Node::from_handle
%own B01
%ret r
%ens
    r is Leaf <==> h < 0x8000_0000u32,
%at start
    proof { lemma_handle(h); }

%fn Slab::root
%own B01 B02
%ret r
%ens
    r == (if self.sv().h.leaf_count == 0 { None } else { Some(self.sv().h.root_node) }),

%fn Slab::allocate_leaf
%own B01 B03
%ret r
%req
    exists|fl: Seq<nat>| lfl_ok(old(self).sv().h, old(self).sv().lv, fl),
%ens
    slab_fin(*final(self)) == slab_fin(*old(self)),
    r is Err ==> final(self).sv() == old(self).sv() && forall|fl: Seq<nat>| #[trigger] lfl_ok(old(self).sv().h, old(self).sv().lv, fl) ==>
        fl.len() == 0 && old(self).sv().h.leaf_bump_index == old(self).sv().lv.len(),
    r is Ok ==> alloc_leaf_post(old(self).sv(), final(self).sv(), r->Ok_0 as nat),
%at start
    let ghost o = self.sv();
    assert forall|fl: Seq<nat>| #[trigger] lfl_ok(self.sv().h, self.sv().lv, fl) implies
        fl.len() == self.sv().h.leaf_free_list_len && (fl.len() > 0 ==> fl[0] < self.sv().lv.len()) by {
        if fl.len() > 0 { assert(fl[0] < self.sv().h.leaf_bump_index); }
    }
%at return 2
    assert forall|fl: Seq<nat>| #[trigger] lfl_ok(o.h, o.lv, fl) implies lfl_ok(self.sv().h, self.sv().lv, fl) by {}
%tail r
    assert(self.sv().lv =~= o.lv);
    assert forall|fl: Seq<nat>| #[trigger] lfl_ok(o.h, o.lv, fl) implies lfl_ok(self.sv().h, self.sv().lv, fl.skip(1)) by {
        if fl.len() > 1 { assert(fl[1] < o.h.leaf_bump_index); }
        assert forall|i: int| 0 <= i < fl.skip(1).len() - 1 implies o.lv[(#[trigger] fl.skip(1)[i]) as int].base_quantity == fl.skip(1)[i + 1] by {
            assert(fl.skip(1)[i] == fl[i + 1]);
        }
    }

%fn Slab::free_leaf
%own B01 B03
%req
    handle < old(self).sv().h.leaf_bump_index <= old(self).sv().lv.len(),
    old(self).sv().h.leaf_free_list_len < 0xffff_ffffu32,
%ens
    slab_fin(*final(self)) == slab_fin(*old(self)),
    free_leaf_post(old(self).sv(), final(self).sv(), handle as nat),
%at start
    let ghost o = self.sv();
%at end
    assert forall|fl: Seq<nat>| #[trigger] lfl_ok(o.h, o.lv, fl) && !fl.contains(handle as nat) implies lfl_ok(self.sv().h, self.sv().lv, seq![handle as nat] + fl) by {
        lemma_free_list_push(o.h, o.lv, self.sv().h, self.sv().lv, fl, handle as nat);
    }

%fn Slab::allocate_inner_node
%own B01 B03
%ret r
%req
    exists|fl: Seq<nat>| ifl_ok(old(self).sv().h, old(self).sv().inn, fl),
%ens
    slab_fin(*final(self)) == slab_fin(*old(self)),
    r is Err ==> final(self).sv() == old(self).sv() && forall|fl: Seq<nat>| #[trigger] ifl_ok(old(self).sv().h, old(self).sv().inn, fl) ==>
        fl.len() == 0 && old(self).sv().h.inner_node_bump_index == old(self).sv().inn.len(),
    r is Ok ==> r->Ok_0 >= 0x8000_0000u32 && alloc_inner_post(old(self).sv(), final(self).sv(), neg(r->Ok_0) as nat),
%at start
    let ghost o = self.sv();
    assert forall|fl: Seq<nat>| #[trigger] ifl_ok(self.sv().h, self.sv().inn, fl) implies
        fl.len() == self.sv().h.inner_node_free_list_len && (fl.len() > 0 ==> fl[0] < self.sv().inn.len()) by {
        if fl.len() > 0 { assert(fl[0] < self.sv().h.inner_node_bump_index); }
    }
%at let key 1
    proof { lemma_neg(key); lemma_handle(key); }
%at let key 2
    proof { lemma_neg(key); lemma_handle(key); }
%at return 2
    assert forall|fl: Seq<nat>| #[trigger] ifl_ok(o.h, o.inn, fl) implies ifl_ok(self.sv().h, self.sv().inn, fl) by {}
%tail r
    assert(self.sv().inn =~= o.inn);
    assert forall|fl: Seq<nat>| #[trigger] ifl_ok(o.h, o.inn, fl) implies ifl_ok(self.sv().h, self.sv().inn, fl.skip(1)) by {
        if fl.len() > 1 { assert(fl[1] < o.h.inner_node_bump_index); }
        assert forall|i: int| 0 <= i < fl.skip(1).len() - 1 implies o.inn[(#[trigger] fl.skip(1)[i]) as int].prefix_len == fl.skip(1)[i + 1] by {
            assert(fl.skip(1)[i] == fl[i + 1]);
        }
    }

%fn Slab::free_inner_node
%own B01 B03
%req
    handle >= 0x8000_0000u32,
    neg(handle) < old(self).sv().h.inner_node_bump_index <= old(self).sv().inn.len(),
    old(self).sv().h.inner_node_free_list_len < 0xffff_ffffu32,
%ens
    slab_fin(*final(self)) == slab_fin(*old(self)),
    free_inner_post(old(self).sv(), final(self).sv(), neg(handle) as nat),
%at start
    let ghost o = self.sv();
    proof { lemma_neg(handle); }
%at end
    assert forall|fl: Seq<nat>| #[trigger] ifl_ok(o.h, o.inn, fl) && !fl.contains(neg(handle) as nat) implies ifl_ok(self.sv().h, self.sv().inn, seq![neg(handle) as nat] + fl) by {
        lemma_inner_list_push(o.h, o.inn, self.sv().h, self.sv().inn, fl, neg(handle) as nat);
    }

%fn Slab::insert_leaf
%own B01 B03
%ret r
%req
    wf(old(self).sv()),
%ens
    slab_fin(*final(self)) == slab_fin(*old(self)),
    wf(final(self).sv()),
    match r {
        Ok((h, None)) => ins_new(old(self).sv(), final(self).sv(), h as nat, *new_leaf),
        Ok((h, Some(l))) => ins_dup(old(self).sv(), final(self).sv(), h as nat, *new_leaf, l),
        Err(e) => e == AoError::SlabOutOfSpace && final(self).sv() == old(self).sv()
            && old(self).sv().h.leaf_count == old(self).sv().lv.len() && !slots(old(self).sv()).contains_key(lkey(*new_leaf)),
    },
%at start
    let ghost o = self.sv();
    let ghost w = wit(o);
    let ghost k = lkey(*new_leaf);
    proof { lemma_wf(o, w); lemma_slots_dom(o); }
%at let new_leaf_handle 1
    let ghost a = self.sv();
%at return 1
    proof { lemma_insert_first(o, a, self.sv(), new_leaf_handle as nat, *new_leaf); }
%at beforelet parent_node 1
    let ghost t = w.t->Some_0;
    let ghost mut p: Seq<bool> = Seq::empty();
%loop 1
%inv
    slab_fin(*self) == slab_fin(*old(self)),
    self.sv() == o,
    o == old(self).sv(), w == wit(o), wfw(o, w), w.t == Some(t), k == lkey(*new_leaf),
    o.lv.len() <= 0x8000_0000, o.inn.len() < 0x8000_0000,
    valid(t, p), agrees(o.inn, t, p, k), follows(o.inn, t, p, k),
    root == hnd(sub_at(t, p)),
    parent_node == (if p.len() > 0 { Some(hnd(sub_at(t, p.drop_last()))) } else { None }),
    previous_critbit == (if p.len() > 0 { Some(p.last()) } else { None }),
%dec
    sub_at(t, p)
%at loop 1 start
    let ghost cur = sub_at(t, p);
    proof {
        lemma_wf(o, w);
        lemma_sub(o.lv, o.inn, t, p);
        lemma_handle(root); lemma_neg(root);
        if p.len() > 0 {
            lemma_pop(t, p); lemma_inns_out(o.lv, o.inn, t, p);
            lemma_bounds(o.lv, o.inn, t);
            let ph = hnd(sub_at(t, p.drop_last()));
            lemma_sub(o.lv, o.inn, t, p.drop_last());
            lemma_neg(ph);
        }
    }
%at let keep_old_root 1
    proof {
        let n = shared_prefix_len as u64;
        lemma_lz_pfx(root_node.key, k, shared_prefix_len, root_node.prefix_len);
        lemma_pfx_sym(root_node.key, k, root_node.prefix_len);
        if !keep_old_root { lemma_lz_split(root_node.key, k, n); lemma_diverge(o.lv, o.inn, cur, k, n); }
    }
%at assign previous_critbit 1
    proof {
        lemma_push(o.inn, t, p, r.1, k);
        assert(p.push(r.1).drop_last() =~= p);
        p = p.push(r.1);
    }
%at let leaf_copy 1
    proof { lemma_lkey_inj(leaf_copy, *new_leaf); }
%at return 2
    proof { lemma_leaf_in(o.lv, o.inn, t, p); }
    proof { lemma_insert_dup(o, self.sv(), root as nat, *new_leaf); }
%at let shared_prefix_len 3
    proof {
        let n = shared_prefix_len as u64;
        lemma_lkey_inj(*root_node, *new_leaf);
        lemma_lz_pfx(lkey(*root_node), k, shared_prefix_len, 0);
        lemma_lz_split(lkey(*root_node), k, n);
        lemma_diverge(o.lv, o.inn, cur, k, n);
    }
%at let new_leaf_crit_bit 1
    proof {
        let m = (1u128 << 127u128) >> shared_prefix_len;
        assert(m & k == k & m) by (bit_vector);
        assert(new_leaf_crit_bit == bit(k, shared_prefix_len as u64));
    }
%at beforelet new_leaf_handle 2
    proof { assert(self.sv().lv =~= o.lv); assert(self.sv().inn =~= o.inn); assert(self.sv() == o); assert(wfw(o, w)); assert(lfl_ok(self.sv().h, self.sv().lv, w.fl)); lemma_not_below(o, t, p, k, shared_prefix_len as u64); }
%at let new_leaf_handle 2
    let ghost a = self.sv();
    let ghost n = shared_prefix_len as u64;
%at beforelet new_root_node_handle 1
    let ghost a2 = self.sv();
    proof {
        assert(a2.lv == a.lv.update(new_leaf_handle as int, *new_leaf));
        assert(lfl_ok(o.h, o.lv, w.fl));
        assert(ifl_ok(a2.h, a2.inn, w.ifl));
        lemma_size(t);
        assert(n < 128);
    }
%at let new_root_node_handle 1
    let ghost b = self.sv();
    proof {
        lemma_neg(new_root_node_handle); lemma_handle(new_root_node_handle);
        if p.len() > 0 {
            let ni = neg(new_root_node_handle) as nat;
            assert(inns(t).contains(parent_of(t, p)));
            assert(inner(w.t).contains(parent_of(t, p)));
            assert(ni != parent_of(t, p)) by { if w.ifl.len() > 0 { assert(!inner(w.t).contains(w.ifl[0])); } }
        }
    }
%at return 3
    proof { lemma_insert_new(o, a, b, self.sv(), t, p, new_leaf_handle as nat, neg(new_root_node_handle) as nat, *new_leaf, n); }

%fn Slab::get_callback_info
%own B01
%ret r
%req
    leaf_handle < self.sv().cb.len(),
%ens
    *r == self.sv().cb[leaf_handle as int],

%fn Slab::get_callback_info_mut
%own B01
%ret r
%req
    leaf_handle < old(self).sv().cb.len(),
%ens
    slab_fin(*final(self)) == slab_fin(*old(self)),
    *r == old(self).sv().cb[leaf_handle as int],
    final(self).sv() == (SlabV { cb: old(self).sv().cb.update(leaf_handle as int, *final(r)), ..old(self).sv() }),

%fn Slab::remove_by_key
%own B01 B03
%ret r
%req
    wf(old(self).sv()),
%ens
    slab_fin(*final(self)) == slab_fin(*old(self)),
    wf(final(self).sv()),
    match r {
        None => !slots(old(self).sv()).contains_key(search_key) && final(self).sv() == old(self).sv(),
        Some((l, c)) => rem_post(old(self).sv(), final(self).sv(), search_key)
            && l == old(self).sv().lv[slots(old(self).sv())[search_key] as int]
            && *c == old(self).sv().cb[slots(old(self).sv())[search_key] as int],
    },
%at start
    let ghost o = self.sv();
    let ghost w = wit(o);
    let ghost k = search_key;
    proof {
        lemma_wf(o, w); lemma_slots_dom(o);
        if o.h.leaf_count == 0 { assert(slots(o) =~= Map::<u128, nat>::empty()); }
    }
%at let parent_h 1
    let ghost t = w.t->Some_0;
    let ghost mut p: Seq<bool> = Seq::empty();
    proof { lemma_handle(parent_h); lemma_neg(parent_h); }
%at return 2
    proof { lemma_not_there(o, t, Seq::empty(), k); }
%at assign crit_bit 1
    proof {
        lemma_push(o.inn, t, p, cb, k);
        assert(p.push(cb).drop_last() =~= p);
        p = p.push(cb);
    }
%at before free_leaf 1
    proof {
        assert(lvs(t)[0] == node_of(t)); assert(leaves(w.t)[0] < o.h.leaf_bump_index); assert(!w.fl.contains(node_of(t)));
        assert(lfl_ok(self.sv().h, self.sv().lv, w.fl));
    }
%at return 3
    proof {
        assert(lfl_ok(self.sv().h, self.sv().lv, seq![node_of(t)] + w.fl));
        lemma_remove_root(o, self.sv(), node_of(t), k);
    }
%loop 1
%inv
    slab_fin(*self) == slab_fin(*old(self)),
    self.sv() == o, o == old(self).sv(), wf(o), w == wit(o), w.t == Some(t), wfw(o, w), k == search_key, o.h.leaf_count > 0,
    o.lv.len() <= 0x8000_0000, o.inn.len() < 0x8000_0000,
    p.len() > 0, valid(t, p), follows(o.inn, t, p, k),
    child_h == hnd(sub_at(t, p)), parent_h == hnd(sub_at(t, p.drop_last())), crit_bit == p.last(),
    grandparent_h == (if p.len() > 1 { Some(hnd(sub_at(t, p.drop_last().drop_last()))) } else { None }),
    prev_crit_bit == (if p.len() > 1 { Some(p.drop_last().last()) } else { None }),
%lens
    sub_at(t, p) is L, lkey(o.lv[child_h as int]) == k, child_h < o.lv.len(), child_h == node_of(sub_at(t, p)),
%dec
    sub_at(t, p)
%at loop 1 start
    proof {
        lemma_sub(o.lv, o.inn, t, p);
        lemma_handle(child_h); lemma_neg(child_h);
    }
%at assign crit_bit 2
    proof {
        lemma_push(o.inn, t, p, crit_bit, k);
        assert(p.push(crit_bit).drop_last() =~= p);
        p = p.push(crit_bit);
    }
%at return 4
    proof { lemma_not_there(o, t, p, k); }
%at beforelet other_child_h 1
    let ghost dh = child_h as nat;
    proof {
        lemma_pop(t, p);
        lemma_sub(o.lv, o.inn, t, p.drop_last());
        lemma_neg(parent_h); lemma_handle(parent_h);
        lemma_bounds(o.lv, o.inn, t);
        lemma_inns_out(o.lv, o.inn, t, p);
        if p.len() > 1 {
            let q = p.drop_last();
            lemma_pop(t, q);
            lemma_sub(o.lv, o.inn, t, q.drop_last());
            lemma_inns_out(o.lv, o.inn, t, q);
            lemma_neg(hnd(sub_at(t, q.drop_last())));
        }
        lemma_leaf_in(o.lv, o.inn, t, p);
        let j = choose|j: int| 0 <= j < lvs(t).len() && lvs(t)[j] == dh;
        assert(leaves(w.t)[j] < o.h.leaf_bump_index);
        assert(inner(w.t).contains(parent_of(t, p)));
        assert(lvs(t).contains(dh) && leaves(w.t)[j] == dh);
        assert(!w.fl.contains(dh));
        assert(!w.ifl.contains(parent_of(t, p)));
    }
%at before free_leaf 2
    proof { assert(lfl_ok(self.sv().h, self.sv().lv, w.fl)); }
%at before free_inner_node 1
    proof {
        // the free list is untouched by the pointer update
        assert forall|i: int| 0 <= i < w.ifl.len() - 1 implies self.sv().inn[(#[trigger] w.ifl[i]) as int].prefix_len == w.ifl[i + 1] by {
            assert(!inner(w.t).contains(w.ifl[i]));
            assert(w.ifl[i] < o.h.inner_node_bump_index);
            assert(o.inn[w.ifl[i] as int].prefix_len == w.ifl[i + 1]);
        }
        assert(ifl_ok(self.sv().h, self.sv().inn, w.ifl));
    }
%at end
    proof {
        assert(lfl_ok(self.sv().h, self.sv().lv, seq![dh] + w.fl));
        assert(ifl_ok(self.sv().h, self.sv().inn, seq![parent_of(t, p)] + w.ifl));
        lemma_remove_done(o, self.sv(), t, p, dh, k);
    }

%fn Slab::find_min_max
%own B02
%ret r
%req
    wf(self.sv()),
%ens
    extreme(self.sv(), find_max, r),
%at start
    let ghost o = self.sv();
    let ghost w = wit(o);
    proof { lemma_wf(o, w); }
    let ghost t = w.t->Some_0;
    let ghost mut p: Seq<bool> = Seq::empty();
    proof {
        lemma_handle(self.header.root_node); lemma_neg(self.header.root_node);
        if o.h.leaf_count > 0 {
            lemma_sub(o.lv, o.inn, t, p);
            if sub_at(t, p) is L { lemma_extreme_leaf(o.lv, o.inn, t, p, find_max); }
        }
    }
%loop 1
%inv
    o == self.sv(), w == wit(o), wfw(o, w), w.t == Some(t), o.h.leaf_count > 0, leaves(w.t) == ordered(o), lens_ok(o),
    leaves(w.t).len() == o.h.leaf_count,
    valid(t, p), root == hnd(sub_at(t, p)), forall|i: int| 0 <= i < p.len() ==> p[i] == find_max,
    (root & (1u32 << 31u32) == 0) <==> root < 0x8000_0000u32, (root < 0x8000_0000u32) <==> sub_at(t, p) is L,
    root < 0x8000_0000u32 ==> extreme(o, find_max, Some(root)),
%dec
    sub_at(t, p)
%at loop 1 start
    proof {
        lemma_sub(o.lv, o.inn, t, p);
        lemma_handle(root); lemma_neg(root);
    }
%at assign root 1
    proof {
        lemma_push(o.inn, t, p, find_max, 0);
        p = p.push(find_max);
        lemma_sub(o.lv, o.inn, t, p);
        lemma_handle(root); lemma_neg(root);
        if sub_at(t, p) is L { lemma_extreme_leaf(o.lv, o.inn, t, p, find_max); }
    }

%fn Slab::find_min
%own B02
%ret r
%req
    wf(self.sv()),
%ens
    extreme(self.sv(), false, r),

%fn Slab::find_max
%own B02
%ret r
%req
    wf(self.sv()),
%ens
    extreme(self.sv(), true, r),

%fn Slab::find_by_key
%own B01
%ret r
%req
    wf(self.sv()),
%ens
    r == (if slots(self.sv()).contains_key(search_key) { Some(slots(self.sv())[search_key] as u32) } else { None }),
%at start
    let ghost o = self.sv();
    let ghost w = wit(o);
    let ghost k = search_key;
    proof {
        lemma_wf(o, w); lemma_slots_dom(o);
        if o.h.leaf_count == 0 { assert(slots(o) =~= Map::<u128, nat>::empty()); }
    }
    let ghost t = w.t->Some_0;
    let ghost mut p: Seq<bool> = Seq::empty();
%loop 1
%inv
    o == self.sv(), w == wit(o), wfw(o, w), wf(o), w.t == Some(t), o.h.leaf_count > 0, lens_ok(o), k == search_key,
    valid(t, p), follows(o.inn, t, p, k), node_handle == hnd(sub_at(t, p)),
%dec
    sub_at(t, p)
%at loop 1 start
    proof {
        lemma_sub(o.lv, o.inn, t, p);
        lemma_handle(node_handle); lemma_neg(node_handle);
    }
%at return 1
    proof { lemma_leaf_in(o.lv, o.inn, t, p); lemma_wf(o, w); assert(kat(o.lv, node_handle as nat) == k); }
%at return 2
    proof { lemma_not_there(o, t, p, k); }
%at let common_prefix_len 1
    proof {
        lemma_lz_pfx(k, n.key, common_prefix_len, n.prefix_len);
        if (common_prefix_len as u64) < n.prefix_len { lemma_prefix_miss(o, t, p, k); }
    }
%at beforeassign node_handle 1
    let ghost d = bit(k, n.prefix_len);
%at assign node_handle 1
    proof {
        lemma_push(o.inn, t, p, d, k);
        p = p.push(d);
    }

%fn Slab::into_iter
%own B02
%ret r
%req
    wf(self.sv()),
%ens
    r.slab == self, r.ascending == price_ascending,
    it_wf(r.slab.sv(), r.search_stack@),
    it_rem(r.slab.sv(), r.search_stack@, price_ascending) == (if price_ascending { ordered(self.sv()) } else { ordered(self.sv()).reverse() }),
%at start
    let ghost o = self.sv();
    let ghost w = wit(o);
    proof {
        lemma_wf(o, w);
        if let Some(t) = w.t {
            lemma_it(o, seq![o.h.root_node], seq![t]);
            assert(seq![t].drop_last() =~= Seq::<Tree>::empty());
            reveal_with_fuel(flat, 2); assert(seq![t].last() == t); assert(flat(seq![t], price_ascending) =~= rlv(t, price_ascending));
        } else {
            lemma_it(o, Seq::<u32>::empty(), Seq::<Tree>::empty());
            assert(ordered(o) =~= Seq::<nat>::empty());
            assert(ordered(o).reverse() =~= Seq::<nat>::empty());
        }
    }
%tail r
    proof {
        if o.h.leaf_count == 0 { assert(r.search_stack@ =~= Seq::<u32>::empty()); } else { assert(r.search_stack@ =~= seq![o.h.root_node]); }
    }

%fn SlabIterator::next
%own B02
%ret r
%req
    it_wf(old(self).slab.sv(), old(self).search_stack@),
%ens
    it_wf(final(self).slab.sv(), final(self).search_stack@),
    final(self).slab.sv() == old(self).slab.sv(), final(self).ascending == old(self).ascending,
    ({
        let rem = it_rem(old(self).slab.sv(), old(self).search_stack@, old(self).ascending);
        let rem2 = it_rem(final(self).slab.sv(), final(self).search_stack@, old(self).ascending);
        match r {
            None => rem.len() == 0 && rem2.len() == 0,
            Some(l) => rem.len() > 0 && l == old(self).slab.sv().lv[rem[0] as int] && rem2 == rem.skip(1),
        }
    }),
%at start
    let ghost o = self.slab.sv();
    let ghost asc = self.ascending;
    let ghost rem = it_rem(o, self.search_stack@, asc);
    let ghost mut ts = it_trees(o, self.search_stack@);
%loop 1
%inv
    o == self.slab.sv(), o == old(self).slab.sv(), asc == self.ascending, asc == old(self).ascending, lens_ok(o),
    rem == it_rem(o, old(self).search_stack@, asc),
    stack_ok(o, self.search_stack@, ts), flat(ts, asc) == rem,
%lens
    self.search_stack@.len() == 0,
%dec
    tsz(ts)
%at loop 1 start
    let ghost cur = ts.last();
    let ghost rest = ts.drop_last();
    proof {
        assert(ts =~= rest.push(cur));
        assert(current == hnd(cur));
        assert(wft(o.lv, o.inn, cur));
        lemma_handle(current); lemma_neg(current);
        assert(stack_ok(o, self.search_stack@, rest));
    }
%at loop 1 end
    proof {
        lemma_it_expand(cur, rest, asc);
        ts = rest.push(child(cur, asc)).push(child(cur, !asc));
        assert(stack_ok(o, self.search_stack@, ts));
    }
%at return 1
    proof {
        lemma_it(o, self.search_stack@, rest);
        lemma_it_leaf(cur, rest, asc);
        assert(rem.skip(1) =~= flat(rest, asc));
    }
%at end
    proof { lemma_it(o, self.search_stack@, ts); assert(ts.len() == 0); assert(ts =~= Seq::<Tree>::empty()); }
