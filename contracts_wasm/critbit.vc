%file critbit.rs
%item
impl<'a> Slab<'a> {
    pub open spec fn at(&self, b: Seq<u8>, cb: nat, slot: nat) -> bool {
        self.buffer.bytes() == b && self.callback_info_len == cb && self.slot_size == slot
            && self.header.root_node == root_of(b) && self.header.leaf_count == count_of(b)
    }
    pub open spec fn ok(&self) -> bool {
        self.at(self.buffer.bytes(), self.callback_info_len as nat, self.slot_size as nat)
            && book(self.buffer.bytes(), self.callback_info_len as nat, self.slot_size as nat)
    }
    pub open spec fn vb(&self) -> Seq<u8> { self.buffer.bytes() }
    pub open spec fn vc(&self) -> nat { self.callback_info_len as nat }
    pub open spec fn vs(&self) -> nat { self.slot_size as nat }
}

%fn LeafNode::deserialize
%own W01
%ret r
%req
    callback_info_len + 24 <= buf@.len() <= usize::MAX,
%ens
    r is Ok,
    r->Ok_0.key == le(buf@.subrange(0, 16)) as u128,
    r->Ok_0.base_quantity == le(buf@.subrange(callback_info_len + 16, callback_info_len + 24)) as u64,
%at start
    broadcast use crate::stubs::group_std;

%fn LeafNode::price
%own W01
%ret r
%ens
    r == price_of(self.key),
%at start
    let k = self.key;
    assert(k >> 64 == k / 0x1_0000_0000_0000_0000u128) by (bit_vector);
    assert(k >> 64 <= 0xffff_ffff_ffff_ffffu128) by (bit_vector);

%fn Node::deserialize
%own W01
%ret r
%req
    0 < buffer@.len() <= usize::MAX, buffer@[0] == 2 ==> callback_info_len + 25 <= buffer@.len(),
%ens
    buffer@[0] == 1 && buffer@.len() >= 29 ==> r is Ok && r->Ok_0 is Inner
        && r->Ok_0->Inner_0.children@ == seq![le(buffer@.subrange(21, 25)) as u32, le(buffer@.subrange(25, 29)) as u32],
    buffer@[0] == 2 ==> r is Ok && r->Ok_0 is Leaf && r->Ok_0->Leaf_0.key == le(buffer@.subrange(1, 17)) as u128
        && r->Ok_0->Leaf_0.base_quantity == le(buffer@.subrange(callback_info_len + 17, callback_info_len + 25)) as u64,
%at start
    proof {
        let b = buffer@;
        let n = b.len() as int;
        assert(b.len() >= 29 ==> b.subrange(1, n).subrange(0, 28).subrange(20, 28).subrange(0, 4) =~= b.subrange(21, 25));
        assert(b.len() >= 29 ==> b.subrange(1, n).subrange(0, 28).subrange(20, 28).subrange(4, 8) =~= b.subrange(25, 29));
        assert(b.len() >= 17 ==> b.subrange(1, n).subrange(0, 16) =~= b.subrange(1, 17));
        let c = callback_info_len as int;
        assert(b.len() >= c + 25 ==> b.subrange(1, n).subrange(c + 16, c + 24) =~= b.subrange(c + 17, c + 25));
    }

%fn Slab::new
%own W01
%ret r
%req
    book(buffer.bytes(), callback_info_len as nat, slot_size as nat),
%ens
    r.at(buffer.bytes(), callback_info_len as nat, slot_size as nat),
%at start
    proof {
        let b = buffer.bytes();
        assert(b.subrange(0, 65).subrange(21, 25) =~= b.subrange(21, 25));
        assert(b.subrange(0, 65).subrange(25, 33) =~= b.subrange(25, 33));
        assert(b.subrange(0, 65).subrange(0, 1)[0] == b[0]);
    }

%fn Slab::get_node
%own W01
%ret r
%req
    fits(self.vb(), self.vs(), key), kind(self.vb(), self.vs(), key) == 2 ==> self.vc() + 25 <= self.vs(),
%ens
    kind(self.vb(), self.vs(), key) == 1 && self.vs() >= 29 ==> r is Some && r->0 is Inner
        && r->0->Inner_0.children@ == seq![child(self.vb(), self.vs(), key, false), child(self.vb(), self.vs(), key, true)],
    kind(self.vb(), self.vs(), key) == 2 ==> r is Some && r->0 is Leaf && r->0->Leaf_0.key == key_of(self.vb(), self.vs(), key)
        && r->0->Leaf_0.base_quantity == qty_of(self.vb(), self.vc(), self.vs(), key),
%at start
    assert(key * self.slot_size + self.slot_size <= usize::MAX) by (nonlinear_arith)
        requires 65 + key as nat * self.slot_size as nat + self.slot_size <= usize::MAX;

%fn Slab::root
%own W01
%ret r
%ens
    r == (if self.header.leaf_count == 0 { None } else { Some(self.header.root_node) }),

%fn Slab::find_min_max
%own W01
%ret r
%req
    self.ok(),
%ens
    best(self.vb(), self.vc(), self.vs(), find_max, r),
%at let root
    let ghost t = wit(self.vb(), self.vc(), self.vs());
    let ghost mut cur = t;
    proof {
        assert(tree(self.vb(), self.vc(), self.vs(), t));
        lemma_ord(cur);
    }
%loop 1
%inv
    self.ok(), t == wit(self.vb(), self.vc(), self.vs()), count_of(self.vb()) != 0, tree(self.vb(), self.vc(), self.vs(), t),
    rep(self.vb(), self.vc(), self.vs(), cur), root == hnd(cur), ord(cur, true).len() > 0,
    ord(t, true).len() > 0,
    find_max ==> ord(cur, true).last() == ord(t, true).last(),
    !find_max ==> ord(cur, true)[0] == ord(t, true)[0],
%dec
    cur
%at assign root
    proof {
        let l = cur->l;
        let r = cur->r;
        lemma_ord(*l);
        lemma_ord(*r);
        cur = if find_max { *r } else { *l };
    }

%fn Slab::find_min
%own W01
%ret r
%req
    self.ok(),
%ens
    best(self.vb(), self.vc(), self.vs(), false, r),

%fn Slab::find_max
%own W01
%ret r
%req
    self.ok(),
%ens
    best(self.vb(), self.vc(), self.vs(), true, r),

%fn Slab::find_l2_depth
%own W01
%ret r
%req
    self.ok(),
    2 * depth <= usize::MAX,
    fit64(levels(self.vb(), self.vc(), self.vs(), orders(self.vb(), self.vc(), self.vs(), increasing))),
%ens
    ints(r@) == first(levels(self.vb(), self.vc(), self.vs(), orders(self.vb(), self.vc(), self.vs(), increasing)), (2 * depth) as nat),
    by_price(self.vb(), self.vc(), self.vs(), orders(self.vb(), self.vc(), self.vs(), increasing), increasing,
        levels(self.vb(), self.vc(), self.vs(), orders(self.vb(), self.vc(), self.vs(), increasing))),
%at start
    proof {
        lemma_dir(self.vb(), self.vc(), self.vs(), increasing);
        lemma_by_price(self.vb(), self.vc(), self.vs(), orders(self.vb(), self.vc(), self.vs(), increasing), increasing);
        assert(count_of(self.vb()) == 0 ==> levels(self.vb(), self.vc(), self.vs(), orders(self.vb(), self.vc(), self.vs(), increasing)) =~= seq![]) by { reveal(levels); }
    }
%at let search_stack
    let ghost (b, c, s) = (self.vb(), self.vc(), self.vs());
    let ghost t = wit(b, c, s);
    let ghost all = orders(b, c, s, increasing);
    let ghost mut ts = seq![t];
    let ghost mut done: Seq<u32> = seq![];
    proof {
        assert(tree(b, c, s, t));
        lemma_flat_push(seq![], t, increasing);
        assert(seq![t] =~= Seq::<Tr>::empty().push(t));
        assert(done + flat(ts, increasing) =~= all);
        assert(ints(result@) =~= levels(b, c, s, done)) by { reveal(levels); }
    }
%loop 1
%invxb
    stack_ok(b, c, s, search_stack@, ts),
    done + flat(ts, increasing) == all, ts.len() == 0 ==> done == all,
    ints(result@) == levels(b, c, s, done), result@.len() <= 2 * depth, result@.len() % 2 == 0,
%inv
    self.ok(), b == self.vb(), c == self.vc(), s == self.vs(), all == orders(b, c, s, increasing),
    fit64(levels(b, c, s, all)), 2 * depth <= usize::MAX,
%lens
    ints(result@) == first(levels(b, c, s, all), (2 * depth) as nat),
%dec
    tsz(ts)
%at let current
    let ghost cur = ts.last();
    let ghost rest = flat(ts, increasing);
    proof {
        if ts.len() > 0 {
            lemma_flat_push(ts.drop_last(), cur, increasing);
            assert(ts.drop_last().push(cur) =~= ts);
            ts = ts.drop_last();
            lemma_ord(cur);
        }
    }
%at arm Node::Inner(refinner)
    proof {
        let (l, r) = (*cur->l, *cur->r);
        let (x, y) = if increasing { (r, l) } else { (l, r) };
        lemma_flat_push(ts, x, increasing);
        lemma_flat_push(ts.push(x), y, increasing);
        assert(ord(cur, increasing) + flat(ts, increasing) =~= flat(ts.push(x).push(y), increasing));
        ts = ts.push(x).push(y);
    }
%closure 1
-> (r: bool) ensures r == (*p == leaf_price)
%at loop 1 end
    assert(ints(result@) =~= levels(b, c, s, done));
%at arm Node::Leaf(refleaf)
    proof {
        let old = levels(b, c, s, done);
        assert(old.len() == result@.len());
        assert(old.len() > 0 ==> old.last() == result@.last() as int);
        assert(old.len() > 1 ==> old[old.len() - 2] == result@[result@.len() - 2] as int);
        let h = hnd(cur);
        assert(ord(cur, increasing) =~= seq![h]);
        assert(done.push(h) + flat(ts, increasing) =~= all);
        lemma_level(b, c, s, done, h, flat(ts, increasing));
        assert(ts.len() == 0 ==> done.push(h) =~= all);
        done = done.push(h);
    }

%fn LeafNode::serialize
%skip
%fn LeafNode::new
%own W01
%ret r
%ens
    r.key == key, r.base_quantity == quantity,

%fn LeafNode::order_id
%own W01
%ret r
%ens
    r == self.key,

%fn LeafNode::set_base_quantity
%own W01
%ens
    final(self).base_quantity == quantity, final(self).key == old(self).key,

%fn Node::serialize
%skip
%fn Node::key
%own W01
%ret r
%ens
    r == match *self { Node::Inner(i) => Some(i.key), Node::Leaf(l) => Some(l.key), _ => None::<u128> },

%fn Node::children
%own W01
%ret r
%ens
    match *self { Node::Inner(i) => r is Some && *r->0 == i.children, _ => r is None },

%fn Node::as_leaf
%own W01
%ret r
%ens
    match *self { Node::Leaf(l) => r is Some && *r->0 == l, _ => r is None },

%fn InnerNode::walk_down
%own W01
%ret r
%req
    self.prefix_len < 128,
%ens
    r.1 == (search_key & ((1u128 << 127u128) >> self.prefix_len as u128) != 0), r.0 == self.children@[if r.1 { 1int } else { 0int }],

%fn Slab::check
%skip
%fn Slab::write_header
%skip
%fn Slab::compute_slot_size
%skip
%fn Slab::capacity
%skip
%fn Slab::write_node
%skip
%fn Slab::insert
%skip
%fn Slab::remove
%skip
%fn Slab::find_node_sequence
%own W01
%ret r
%req
    self.ok(),
%ens
    first_of(r@, orders(self.vb(), self.vc(), self.vs(), increasing), depth as nat),
%at start
    proof { lemma_dir(self.vb(), self.vc(), self.vs(), increasing); }
%at let search_stack
    let ghost (b, c, s) = (self.vb(), self.vc(), self.vs());
    let ghost t = wit(b, c, s);
    let ghost all = orders(b, c, s, increasing);
    let ghost mut ts = seq![t];
    proof {
        assert(tree(b, c, s, t));
        lemma_flat_push(seq![], t, increasing);
        assert(seq![t] =~= Seq::<Tr>::empty().push(t));
        assert(result@ + flat(ts, increasing) =~= all);
    }
%loop 1
%invxb
    stack_ok(b, c, s, search_stack@, ts), result@.len() <= depth,
    result@ + flat(ts, increasing) == all, ts.len() == 0 ==> result@ == all,
%inv
    self.ok(), b == self.vb(), c == self.vc(), s == self.vs(), all == orders(b, c, s, increasing),
%lens
    first_of(result@, all, depth as nat),
%dec
    tsz(ts)
%at let current
    let ghost cur = ts.last();
    let ghost rest = flat(ts, increasing);
    proof {
        if ts.len() > 0 {
            lemma_flat_push(ts.drop_last(), cur, increasing);
            assert(ts.drop_last().push(cur) =~= ts);
            ts = ts.drop_last();
            lemma_ord(cur);
            if cur is L && result@.len() < depth {
                assert(ord(cur, increasing) =~= seq![hnd(cur)]);
                assert(result@.push(hnd(cur)) + flat(ts, increasing) =~= all);
                assert(ts.len() == 0 ==> result@.push(hnd(cur)) =~= all);
            } else if cur is I {
                let (l, r) = (*cur->l, *cur->r);
                let (x, y) = if increasing { (r, l) } else { (l, r) };
                lemma_flat_push(ts, x, increasing);
                lemma_flat_push(ts.push(x), y, increasing);
                assert(ord(cur, increasing) + flat(ts, increasing) =~= flat(ts.push(x).push(y), increasing));
                assert(result@ + flat(ts.push(x).push(y), increasing) =~= all);
                ts = ts.push(x).push(y);
            }
        }
    }

%fn Slab::remove_by_key
%skip
%fn Slab::remove_min
%skip
%fn Slab::remove_max
%skip
%file lib.rs
%fn find_max
%own W01
%ret r
%req
    book(old(data)@, callback_info_len as nat, slot_size as nat), callback_info_len <= usize::MAX, slot_size <= usize::MAX,
%ens
    best(old(data)@, callback_info_len as nat, slot_size as nat, true, r),

%fn find_min
%own W01
%ret r
%req
    book(old(data)@, callback_info_len as nat, slot_size as nat), callback_info_len <= usize::MAX, slot_size <= usize::MAX,
%ens
    best(old(data)@, callback_info_len as nat, slot_size as nat, false, r),

%fn find_l2_depth
%own W01
%ret r
%req
    book(old(data)@, callback_info_len as nat, slot_size as nat), callback_info_len <= usize::MAX, slot_size <= usize::MAX,
    2 * depth <= usize::MAX,
    fit64(levels(old(data)@, callback_info_len as nat, slot_size as nat, orders(old(data)@, callback_info_len as nat, slot_size as nat, increasing))),
%ens
    ints(r@) == first(levels(old(data)@, callback_info_len as nat, slot_size as nat, orders(old(data)@, callback_info_len as nat, slot_size as nat, increasing)), (2 * depth) as nat),
    by_price(old(data)@, callback_info_len as nat, slot_size as nat, orders(old(data)@, callback_info_len as nat, slot_size as nat, increasing), increasing,
        levels(old(data)@, callback_info_len as nat, slot_size as nat, orders(old(data)@, callback_info_len as nat, slot_size as nat, increasing))),
