%file state/orderbook.rs
%within trait CallbackInfo
    /// the identity `as_callback_id` exposes
    spec fn cid(&self) -> Self::CallbackId;
%within impl CallbackInfo for [u8; 32]
    open spec fn cid(&self) -> [u8; 32] { *self }

%fn CallbackInfo::as_callback_id
%ret r
%ens
    *r == self.cid(),

%fn [u8; 32]::as_callback_id
%own M06
%ret r

%fn OrderBookState::find_bbo
%own B02 M01
%ret r
%req
    wf(self.bids.sv()), wf(self.asks.sv()),
%ens
    side is Bid ==> extreme(self.bids.sv(), true, r),
    side is Ask ==> extreme(self.asks.sv(), false, r),

%fn OrderBookState::get_tree
%own B01 M01 X01
%ret r
%ens
    *r == (match side { Side::Bid => old(self).bids, Side::Ask => old(self).asks }),
    side is Bid ==> final(self).bids == *final(r) && final(self).asks == old(self).asks,
    side is Ask ==> final(self).asks == *final(r) && final(self).bids == old(self).bids,

%fn OrderBookState::is_empty
%own B03 L01
%ret r
%ens
    r == (self.bids.sv().h.leaf_count == 0 && self.asks.sv().h.leaf_count == 0),

%fn OrderBookState::new_order
%own M04 R01
%ret r
%req
    wf(old(self).bids.sv()), wf(old(self).asks.sv()), eq_wf(old(event_queue).qv()), clone_id::<C>(),
    ids_ok(bk(old(self).bids.sv()), true, old(event_queue).qv().seq), ids_ok(bk(old(self).asks.sv()), false, old(event_queue).qv().seq),
    old(event_queue).qv().seq < 0x8000_0000_0000_0000u64,
    min_base_order_size > 0,
    id_cmp::<C>(),
%req [M07]
    uncrossed(bk(old(self).bids.sv()), bk(old(self).asks.sv())),
%req [M08]
    min_ok(bk(old(self).bids.sv()), min_base_order_size), min_ok(bk(old(self).asks.sv()), min_base_order_size),
%ens
    slab_fin(final(self).bids) == slab_fin(old(self).bids), slab_fin(final(self).asks) == slab_fin(old(self).asks), eq_fin(*final(event_queue)) == eq_fin(*old(event_queue)),
    wf(final(self).bids.sv()), wf(final(self).asks.sv()), eq_wf(final(event_queue).qv()),
    r is Ok ==> grown(old(event_queue).qv(), final(event_queue).qv()),
    r is Ok ==> final(event_queue).qv().seq == old(event_queue).qv().seq + (if r->Ok_0.posted_order_id is Some { 1int } else { 0int }) || (r->Ok_0.posted_order_id is None && final(event_queue).qv().seq == old(event_queue).qv().seq + 1),
    r is Ok ==> ids_ok(bk(final(self).bids.sv()), true, final(event_queue).qv().seq) && ids_ok(bk(final(self).asks.sv()), false, final(event_queue).qv().seq),
    tree(*final(self), Side::Bid).lv.len() == tree(*old(self), Side::Bid).lv.len(), tree(*final(self), Side::Ask).lv.len() == tree(*old(self), Side::Ask).lv.len(),
%ens
    r is Ok ==> bk(tree(*final(self), opp(params.side))) == book_at(bk(tree(*old(self), opp(params.side))), nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))),
    r is Ok ==> (match r->Ok_0.posted_order_id {
        None => !evicted(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) && bk(tree(*final(self), params.side)) == bk(tree(*old(self), params.side)),
        Some(k) => bk(tree(*final(self), params.side)) == own_after(bk(tree(*old(self), params.side)), params.side, nev(old(event_queue).qv(), final(event_queue).qv()), k,
            OrdV { qty: r->Ok_0.total_base_qty_posted, cb: params.callback_info }),
    }),
    r is Ok ==> forall|i: int| #![trigger nev(old(event_queue).qv(), final(event_queue).qv())[i]] 0 <= i < nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) ==> ok_cons(params.side, params.callback_info, book_at(bk(tree(*old(self), opp(params.side))), nev(old(event_queue).qv(), final(event_queue).qv()), i), nev(old(event_queue).qv(), final(event_queue).qv())[i]),
%ens [B04, T01, R01]
    r is Ok && r->Ok_0.posted_order_id is Some ==> r->Ok_0.posted_order_id == Some(new_id(params.side, params.limit_price, old(event_queue).qv().seq))
        && final(event_queue).qv().seq == old(event_queue).qv().seq + 1 && !bk(tree(*old(self), params.side)).contains_key(r->Ok_0.posted_order_id->Some_0),
%ens [M01]
    r is Ok ==> forall|i: int| #![trigger nev(old(event_queue).qv(), final(event_queue).qv())[i]] 0 <= i < nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) ==> ok_prio(params.side, params.limit_price, book_at(bk(tree(*old(self), opp(params.side))), nev(old(event_queue).qv(), final(event_queue).qv()), i), nev(old(event_queue).qv(), final(event_queue).qv())[i]),
%ens [M02]
    r is Ok ==> r->Ok_0.total_base_qty == bsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) + r->Ok_0.total_base_qty_posted,
    r is Ok ==> r->Ok_0.total_quote_qty == qsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) + quote_of(params.side, r->Ok_0.total_base_qty_posted as int, params.limit_price),
    r is Ok ==> r->Ok_0.total_base_qty <= params.max_base_qty && r->Ok_0.total_quote_qty <= params.max_quote_qty,
    r is Ok ==> (r->Ok_0.posted_order_id is Some <==> r->Ok_0.total_base_qty_posted > 0),
%ens [M03]
    r is Ok ==> forall|i: int| #![trigger nev(old(event_queue).qv(), final(event_queue).qv())[i]] 0 <= i < nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) ==> ok_quote(params.side, nev(old(event_queue).qv(), final(event_queue).qv())[i]),
    r is Ok ==> r->Ok_0.total_quote_qty == qsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) + quote_of(params.side, r->Ok_0.total_base_qty_posted as int, params.limit_price),
%ens [M05]
    r is Ok && params.post_only ==> nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) == 0,
%ens [M05, T01]
    r is Ok && !params.post_allowed ==> r->Ok_0.posted_order_id is None,
%ens [M05]
    r is Ok ==> steps(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) <= params.match_limit,
    r is Ok && r->Ok_0.posted_order_id is Some ==> no_cross(params.side, params.limit_price, bk(tree(*final(self), opp(params.side)))),
%ens [M06]
    r is Ok ==> forall|i: int| #![trigger nev(old(event_queue).qv(), final(event_queue).qv())[i]] 0 <= i < nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) ==> ok_self(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv())[i])
        && ok_after(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), i),
    r is Ok ==> params.post_only || steps(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) == params.match_limit
        || params.self_trade_behavior is DecrementTake || !meets_own(params.side, params.limit_price, params.callback_info, bk(tree(*final(self), opp(params.side))), params.max_base_qty - bsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))), params.max_quote_qty - qsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())))),
    r is Ok && cancels_last(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) ==> steps(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) == params.match_limit
        || no_more(params.side, params.limit_price, bk(tree(*final(self), opp(params.side))), params.max_base_qty - bsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))), params.max_quote_qty - qsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())))),
    r matches Err(AoError::WouldSelfTrade) ==> params.self_trade_behavior is AbortTransaction
        && meets_own(params.side, params.limit_price, params.callback_info, bk(tree(*final(self), opp(params.side))), params.max_base_qty - bsum(nev(old(event_queue).qv(), final(event_queue).qv()), nev(old(event_queue).qv(), final(event_queue).qv()).len() as int), params.max_quote_qty - qsum(nev(old(event_queue).qv(), final(event_queue).qv()), nev(old(event_queue).qv(), final(event_queue).qv()).len() as int)),
%ens [M07]
    r is Ok ==> uncrossed(bk(final(self).bids.sv()), bk(final(self).asks.sv())),
%ens [M08]
    r is Ok ==> min_ok(bk(final(self).bids.sv()), min_base_order_size) && min_ok(bk(final(self).asks.sv()), min_base_order_size),
    r is Ok ==> forall|i: int| #![trigger nev(old(event_queue).qv(), final(event_queue).qv())[i]] 0 <= i < nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) ==> ok_leave(params.self_trade_behavior, params.callback_info, min_base_order_size, book_at(bk(tree(*old(self), opp(params.side))), nev(old(event_queue).qv(), final(event_queue).qv()), i), nev(old(event_queue).qv(), final(event_queue).qv())[i])
        && ok_after(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), i),
%ens [M09]
    r is Ok && evicted(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) ==> ({
        let m = bk(tree(*old(self), params.side));
        let e = nev(old(event_queue).qv(), final(event_queue).qv()).last();
        &&& r->Ok_0.posted_order_id is Some
        &&& m.len() == tree(*old(self), params.side).lv.len()
        &&& worst(m, is_bid(params.side), eid(e)) && worse_price(params.side, price_of(eid(e)), params.limit_price)
        &&& outv(e).base_size == m[eid(e)].qty && e.m == m[eid(e)].cb
    }),
    r is Ok && r->Ok_0.posted_order_id is Some && bk(tree(*old(self), params.side)).len() == tree(*old(self), params.side).lv.len() ==> evicted(params.side, nev(old(event_queue).qv(), final(event_queue).qv())),
%ens [M09, M10]
    r is Ok ==> ({
        let n = nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()));
        let m = bk(tree(*old(self), params.side));
        let br = params.max_base_qty - bsum(nev(old(event_queue).qv(), final(event_queue).qv()), n);
        let qr = params.max_quote_qty - qsum(nev(old(event_queue).qv(), final(event_queue).qv()), n);
        &&& r->Ok_0.posted_order_id is Some <==> (params.post_allowed
            && steps(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), n) < params.match_limit
            && no_cross(params.side, params.limit_price, bk(tree(*final(self), opp(params.side))))
            && rest_qty(br, qr, params.limit_price) >= min_base_order_size
            && (m.len() < tree(*old(self), params.side).lv.len() || has_worse(m, params.side, params.limit_price)))
        &&& r->Ok_0.posted_order_id is Some ==> r->Ok_0.total_base_qty_posted == rest_qty(br, qr, params.limit_price)
    }),
%ens [M10]
    r is Ok ==> forall|i: int| #![trigger nev(old(event_queue).qv(), final(event_queue).qv())[i]] 0 <= i < nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())) ==> ok_size(book_at(bk(tree(*old(self), opp(params.side))), nev(old(event_queue).qv(), final(event_queue).qv()), i), params.max_base_qty - bsum(nev(old(event_queue).qv(), final(event_queue).qv()), i), params.max_quote_qty - qsum(nev(old(event_queue).qv(), final(event_queue).qv()), i), nev(old(event_queue).qv(), final(event_queue).qv())[i]),
    r is Ok ==> params.post_only || steps(params.self_trade_behavior, params.callback_info, nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))) == params.match_limit
        || no_more(params.side, params.limit_price, bk(tree(*final(self), opp(params.side))), params.max_base_qty - bsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv()))), params.max_quote_qty - qsum(nev(old(event_queue).qv(), final(event_queue).qv()), nm(params.side, nev(old(event_queue).qv(), final(event_queue).qv())))),
%ens [R01]
    r is Ok ==> quote_of(params.side, r->Ok_0.total_base_qty_posted as int, params.limit_price) < e64(),
%ens [R01, M06, T01, E01]
    match r { Ok(_) => true, Err(AoError::EventQueueFull) => final(event_queue).qv().count == final(event_queue).qv().ev.len(),
        Err(AoError::WouldSelfTrade) => params.self_trade_behavior is AbortTransaction, Err(_) => false },
%at start
    hide(wfw); hide(kmap); hide(ordered); hide(bk); hide(q); hide(eq_wf); hide(book_at); hide(bsum); hide(qsum); hide(evs);
    let ghost ob = *self;
    let ghost q0 = event_queue.qv();
    let ghost sd = params.side;
    let ghost os = opp(sd);
    let ghost b0 = bk(tree(ob, os));
    let ghost cb = params.callback_info;
    broadcast use {book_facts, bl_qlen, bl_out_gen, bl_lkey};
    proof { lemma_none(q0, b0); }
    let ghost z0 = quote_of(sd, 0, params.limit_price);
    proof { lemma_quote_zero(sd, params.limit_price); }
%closure 1
    -> (r: u64) ensures r == (if q <= quote_qty_remaining { q } else { quote_qty_remaining })
%loop 1
%inv
    slab_fin(self.bids) == slab_fin(ob.bids), slab_fin(self.asks) == slab_fin(ob.asks), eq_fin(*event_queue) == eq_fin(*old(event_queue)),
    base_qty_remaining <= max_base_qty, quote_qty_remaining <= max_quote_qty,
    base_qty_remaining == max_base_qty - bsum(nev(q0, event_queue.qv()), nev(q0, event_queue.qv()).len() as int),
    quote_qty_remaining == max_quote_qty - qsum(nev(q0, event_queue.qv()), nev(q0, event_queue.qv()).len() as int),
    self_trade_behavior == params.self_trade_behavior, match_limit <= params.match_limit,
    side == params.side, limit_price == params.limit_price, callback_info == params.callback_info,
    post_only == params.post_only, post_allowed == params.post_allowed, max_base_qty == params.max_base_qty, max_quote_qty == params.max_quote_qty,
    ob == *old(self), q0 == old(event_queue).qv(), sd == side, os == opp(sd), b0 == bk(tree(ob, os)), cb == callback_info,
    clone_id::<C>(), id_cmp::<C>(), min_base_order_size > 0,
    wf(self.bids.sv()), wf(self.asks.sv()), eq_wf(event_queue.qv()),
    tree(*self, sd) == tree(ob, sd), tree(*self, os).lv.len() == tree(ob, os).lv.len(),
    grown(q0, event_queue.qv()),
    bk(tree(*self, os)) == book_at(b0, nev(q0, event_queue.qv()), nev(q0, event_queue.qv()).len() as int),
    forall|i: int| #![trigger nev(q0, event_queue.qv())[i]] 0 <= i < nev(q0, event_queue.qv()).len() ==> ok_cons(sd, cb, book_at(b0, nev(q0, event_queue.qv()), i), nev(q0, event_queue.qv())[i]),
    event_queue.qv().seq == q0.seq,
    ids_ok(bk(tree(*self, os)), is_bid(os), q0.seq), ids_ok(bk(tree(ob, sd)), is_bid(sd), q0.seq),
%inv [M01]
    forall|i: int| #![trigger nev(q0, event_queue.qv())[i]] 0 <= i < nev(q0, event_queue.qv()).len() ==> ok_prio(sd, limit_price, book_at(b0, nev(q0, event_queue.qv()), i), nev(q0, event_queue.qv())[i]),
%inv [M03]
    forall|i: int| #![trigger nev(q0, event_queue.qv())[i]] 0 <= i < nev(q0, event_queue.qv()).len() ==> ok_quote(sd, nev(q0, event_queue.qv())[i]),
%inv [M05, M06, M09, M10]
    steps(self_trade_behavior, cb, nev(q0, event_queue.qv()), nev(q0, event_queue.qv()).len() as int) == params.match_limit - match_limit,
%inv [M05, M06]
    post_only ==> nev(q0, event_queue.qv()).len() == 0,
%inv [M06]
    forall|i: int| #![trigger nev(q0, event_queue.qv())[i]] 0 <= i < nev(q0, event_queue.qv()).len() ==> ok_self(self_trade_behavior, cb, nev(q0, event_queue.qv())[i]),
%inv [M06, M08]
    forall|i: int| #![trigger nev(q0, event_queue.qv())[i]] 0 <= i < nev(q0, event_queue.qv()).len() ==> ok_after(self_trade_behavior, cb, nev(q0, event_queue.qv()), i),
%inv [M08]
    min_ok(bk(tree(*self, os)), min_base_order_size), min_ok(bk(tree(ob, sd)), min_base_order_size),
    forall|i: int| #![trigger nev(q0, event_queue.qv())[i]] 0 <= i < nev(q0, event_queue.qv()).len() ==> ok_leave(self_trade_behavior, cb, min_base_order_size, book_at(b0, nev(q0, event_queue.qv()), i), nev(q0, event_queue.qv())[i]),
%inv [M07]
    uncrossed(bk(self.bids.sv()), bk(self.asks.sv())),
%invxb [M05, M07, M09, M10]
    crossed,
%inv [M10]
    forall|i: int| #![trigger nev(q0, event_queue.qv())[i]] 0 <= i < nev(q0, event_queue.qv()).len() ==> ok_size(book_at(b0, nev(q0, event_queue.qv()), i), max_base_qty - bsum(nev(q0, event_queue.qv()), i), max_quote_qty - qsum(nev(q0, event_queue.qv()), i), nev(q0, event_queue.qv())[i]),
%lens [M05, M07, M09, M10]
    crossed <==> !(match_limit > 0 && no_cross(sd, limit_price, bk(tree(*self, os)))),
%lens [M06]
    post_only || match_limit == 0 || self_trade_behavior is DecrementTake || !meets_own(sd, limit_price, cb, bk(tree(*self, os)), base_qty_remaining as int, quote_qty_remaining as int),
    cancels_last(self_trade_behavior, cb, nev(q0, event_queue.qv()), nev(q0, event_queue.qv()).len() as int) ==> match_limit == 0 || no_more(sd, limit_price, bk(tree(*self, os)), base_qty_remaining as int, quote_qty_remaining as int),
%lens [M10]
    post_only || match_limit == 0 || no_more(sd, limit_price, bk(tree(*self, os)), base_qty_remaining as int, quote_qty_remaining as int),
%at loop 1 start
    let ghost s1 = *self;
    let ghost v1 = event_queue.qv();
    let ghost kk = choose|k: u128| best(bk(tree(s1, os)), is_bid(os), k);
    proof {
        assert forall|k: u128| #[trigger] best(bk(tree(s1, os)), is_bid(os), k) implies k == kk by {}
        lemma_oid_split(kk);
        if best(bk(tree(s1, os)), is_bid(os), kk) && !crosses(sd, limit_price, price_of(kk)) { lemma_best_no_cross(sd, limit_price, bk(tree(s1, os)), kk); }
    }
    broadcast use {book_facts, bl_qlen, bl_out_gen, bl_lkey};
%at let trade_price 1
    proof { assert(best(bk(tree(s1, os)), is_bid(os), kk) && trade_price == price_of(kk)); }
%at let base_trade_qty 1 [M06, M10]
    proof { assert(base_trade_qty == fillq(bk(tree(s1, os))[kk].qty as int, base_qty_remaining as int, quote_qty_remaining as int, trade_price)); }
%at let quote_maker_qty 1 [M06, M10]
    proof { assert(quote_maker_qty == quote_of(sd, base_trade_qty as int, trade_price)); }
%at return 1 [M06]
    proof { assert(bk(tree(*self, os)) =~= bk(tree(s1, os)));  assert(best(bk(tree(s1, os)), is_bid(os), kk) && same_owner(cb, bk(tree(s1, os))[kk].cb) && crosses(sd, limit_price, price_of(kk))); }
%at beforelet quote_maker_qty 1
    proof { lemma_afford(base_trade_qty as int, quote_qty_remaining as int, trade_price as int); }
%at let base_qty_to_post 1
    proof { lemma_afford(base_qty_to_post as int, quote_qty_remaining as int, limit_price as int); }
    let ghost s2 = *self;
    let ghost v2 = event_queue.qv();
    proof { lemma_exit(sd, cb, b0, q0, v2, v2); }
%at let new_leaf_order_id 1
    proof {
        lemma_seq(v2, event_queue.qv());
        lemma_fresh(bk(tree(ob, sd)), sd, limit_price, q0.seq);
        lemma_oid_split(new_leaf_order_id);
        lemma_bk_same(tree(ob, sd));
    }
%at loop 1 end
    proof { lemma_grow(q0, b0, v1, event_queue.qv()); }
%at loop 1 end [M05, M06, M09, M10]
    proof { lemma_steps_grow(self_trade_behavior, cb, q0, v1, event_queue.qv()); }
%at break * [M05, M06, M07, M09, M10]
    proof { assert(bk(tree(*self, os)) =~= bk(tree(s1, os))); }
%at continue *
    proof { lemma_grow(q0, b0, v1, event_queue.qv()); }
%at continue * [M05, M06, M09, M10]
    proof { lemma_steps_grow(self_trade_behavior, cb, q0, v1, event_queue.qv()); }
%at let boot_candidate_key 1
    proof { lemma_oid_split(boot_candidate_key); }
%at let boot_candidate_key 1 [M09, M10]
    proof {
        assert(worst(bk(tree(ob, sd)), is_bid(sd), boot_candidate_key));
        assert forall|k: u128| #[trigger] worst(bk(tree(ob, sd)), is_bid(sd), k) implies k == boot_candidate_key by {}
    }
%at return 3
    proof { lemma_exit(sd, cb, b0, q0, v2, event_queue.qv()); }
%tail r [M05, M06, M09, M10]
    proof { lemma_steps_grow(self_trade_behavior, cb, q0, v2, event_queue.qv()); }
%tail r
    proof { lemma_bk_same(tree(*self, sd)); }
    proof { lemma_grow(q0, b0, v2, event_queue.qv()); lemma_exit(sd, cb, b0, q0, v2, event_queue.qv()); }
