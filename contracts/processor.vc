%file processor/cancel_order.rs
%fn Accounts::parse
%own I01
%ret r
%ens
    r is Ok ==> accounts@.len() >= 4 && r->Ok_0 == cancel_accounts(accounts@),
    accounts@.len() == 4 ==> r is Ok,

%fn Accounts::perform_checks
%own L02
%ret r
%ens
    r is Ok <==> owned(self.market, program_id) && owned(self.event_queue, program_id) && owned(self.bids, program_id) && owned(self.asks, program_id),

%fn check_accounts
%own L02
%ret r
%ens
    r is Ok <==> *accounts.event_queue.key == market_state.event_queue && *accounts.bids.key == market_state.bids && *accounts.asks.key == market_state.asks,

%fn process
%own L02 X01
%ret r
%mark [I01]
    ran_cancel::<C>(*program_id, accounts, params, r),
%req
    room::<C>(),
    may_write(&accounts.market.data), may_write(&accounts.bids.data), may_write(&accounts.asks.data),
    laid_market(program_id, accounts.market),
    laid_books::<C>(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks),
%req [R01]
    genuine_books(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) ==> live_valued::<C>(d0(accounts.bids), d0(accounts.asks)),
%ens [L02]
    r is Ok ==> genuine_books(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks),
%ens
    r is Ok ==> market_kept(accounts.market) && side_kept(accounts.bids) && side_kept(accounts.asks),
    r is Ok ==> side_ok_bytes::<C>(d1(accounts.bids)) && side_ok_bytes::<C>(d1(accounts.asks)),
%ens [X01]
    r is Ok ==> ({
        let k = params.order_id;
        let bid = bid_flag(k);
        let o = book_of::<C>(d0(side_account(bid, accounts.bids, accounts.asks)));
        &&& o.contains_key(k)
        &&& book_of::<C>(d1(side_account(bid, accounts.bids, accounts.asks))) == o.remove(k)
        &&& slab_of::<C>(d1(side_account(!bid, accounts.bids, accounts.asks))) == slab_of::<C>(d0(side_account(!bid, accounts.bids, accounts.asks)))
        &&& r->Ok_0.total_base_qty == o[k].qty
        &&& r->Ok_0.total_quote_qty == mul_floor(o[k].qty as int, price_of(k) as int)
        &&& r->Ok_0.posted_order_id is None && r->Ok_0.total_base_qty_posted == 0
    }),
%ens [B04]
    r is Ok ==> (live::<C>(d0(accounts.market), d0(accounts.event_queue), d0(accounts.bids), d0(accounts.asks)) ==> live::<C>(d1(accounts.market), d0(accounts.event_queue), d1(accounts.bids), d1(accounts.asks))),
%ens [M07]
    r is Ok && live_uncrossed::<C>(d0(accounts.bids), d0(accounts.asks)) ==> live_uncrossed::<C>(d1(accounts.bids), d1(accounts.asks)),
%ens [M08]
    r is Ok && live_min::<C>(d0(accounts.market), d0(accounts.bids), d0(accounts.asks)) ==> live_min::<C>(d1(accounts.market), d1(accounts.bids), d1(accounts.asks)),
%ens [T01]
    r is Ok && live_prices::<C>(d0(accounts.market), d0(accounts.bids), d0(accounts.asks)) ==> live_prices::<C>(d1(accounts.market), d1(accounts.bids), d1(accounts.asks)),
%ens [R01]
    r is Ok && live_valued::<C>(d0(accounts.bids), d0(accounts.asks)) ==> live_valued::<C>(d1(accounts.bids), d1(accounts.asks)),
%ens [R01]
    r is Err ==> !genuine_books(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks)
        || !book_of::<C>(d0(side_account(bid_flag(params.order_id), accounts.bids, accounts.asks))).contains_key(params.order_id),
%at start
    hide(bk); hide(slab_of); hide(market_of); hide(slab_sized);
    broadcast use {book_facts, bl_dom};
%at end
    proof { lemma_sized::<C>(d0(accounts.bids), d1(accounts.bids)); lemma_sized::<C>(d0(accounts.asks), d1(accounts.asks)); }
%at end [B04, M07, M08, T01, R01]
    proof {
        let b0 = book_of::<C>(d0(accounts.bids)); let b1 = book_of::<C>(d1(accounts.bids));
        let a0 = book_of::<C>(d0(accounts.asks)); let a1 = book_of::<C>(d1(accounts.asks));
        assert(fewer(b0, b1)); assert(fewer(a0, a1));
        lemma_fewer(b0, b1, a0, a1, eq_of::<C>(d0(accounts.event_queue)).seq, market_of(d0(accounts.market)).min_base_order_size, market_of(d0(accounts.market)).tick_size);
    }

%file processor/mass_cancel_orders.rs
%fn Accounts::parse
%own I01
%ret r
%ens
    r is Ok ==> accounts@.len() >= 4 && r->Ok_0 == mass_accounts(accounts@),
    accounts@.len() == 4 ==> r is Ok,

%fn Accounts::perform_checks
%own L02
%ret r
%ens
    r is Ok <==> owned(self.market, program_id) && owned(self.event_queue, program_id) && owned(self.bids, program_id) && owned(self.asks, program_id),

%fn check_accounts
%own L02
%ret r
%ens
    r is Ok <==> *accounts.event_queue.key == market_state.event_queue && *accounts.bids.key == market_state.bids && *accounts.asks.key == market_state.asks,

%fn process
%own L02 X01
%ret r
%mark [I01]
    ran_mass::<C>(*program_id, accounts, params, r),
%req
    room::<C>(),
    may_write(&accounts.market.data), may_write(&accounts.bids.data), may_write(&accounts.asks.data),
    laid_market(program_id, accounts.market),
    laid_books::<C>(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks),
    sum_base(book_of::<C>(d0(accounts.bids)), book_of::<C>(d0(accounts.asks)), params.order_ids@, params.order_ids@.len() as int) < e64(),
    sum_value(book_of::<C>(d0(accounts.bids)), book_of::<C>(d0(accounts.asks)), params.order_ids@, params.order_ids@.len() as int) < e64(),
%ens [L02]
    r is Ok ==> genuine_books(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks),
%ens
    r is Ok ==> market_kept(accounts.market) && side_kept(accounts.bids) && side_kept(accounts.asks),
    r is Ok ==> side_ok_bytes::<C>(d1(accounts.bids)) && side_ok_bytes::<C>(d1(accounts.asks)),
%ens [X01]
    r is Ok ==> ({
        let ids = params.order_ids@;
        let b = book_of::<C>(d0(accounts.bids));
        let a = book_of::<C>(d0(accounts.asks));
        &&& forall|j: int| 0 <= j < ids.len() ==> rests(b, a, #[trigger] ids[j])
        &&& without(b, book_of::<C>(d1(accounts.bids)), true, ids, ids.len() as int)
        &&& without(a, book_of::<C>(d1(accounts.asks)), false, ids, ids.len() as int)
        &&& r->Ok_0.total_base_qty == sum_base(b, a, ids, ids.len() as int)
        &&& r->Ok_0.total_quote_qty == sum_value(b, a, ids, ids.len() as int)
        &&& r->Ok_0.posted_order_id is None && r->Ok_0.total_base_qty_posted == 0
    }),
%ens [B04]
    r is Ok ==> (live::<C>(d0(accounts.market), d0(accounts.event_queue), d0(accounts.bids), d0(accounts.asks)) ==> live::<C>(d1(accounts.market), d0(accounts.event_queue), d1(accounts.bids), d1(accounts.asks))),
%ens [M07]
    r is Ok && live_uncrossed::<C>(d0(accounts.bids), d0(accounts.asks)) ==> live_uncrossed::<C>(d1(accounts.bids), d1(accounts.asks)),
%ens [M08]
    r is Ok && live_min::<C>(d0(accounts.market), d0(accounts.bids), d0(accounts.asks)) ==> live_min::<C>(d1(accounts.market), d1(accounts.bids), d1(accounts.asks)),
%ens [T01]
    r is Ok && live_prices::<C>(d0(accounts.market), d0(accounts.bids), d0(accounts.asks)) ==> live_prices::<C>(d1(accounts.market), d1(accounts.bids), d1(accounts.asks)),
%ens [R01]
    r is Ok && live_valued::<C>(d0(accounts.bids), d0(accounts.asks)) ==> live_valued::<C>(d1(accounts.bids), d1(accounts.asks)),
%ens [R01]
    r is Err ==> !genuine_books(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks)
        || exists|j: int| 0 <= j < params.order_ids@.len() && (!rests(book_of::<C>(d0(accounts.bids)), book_of::<C>(d0(accounts.asks)), #[trigger] params.order_ids@[j]) || listed(params.order_ids@, j, params.order_ids@[j])),
%at start
    hide(bk); hide(slab_of); hide(market_of); hide(slab_sized); hide(without); hide(listed);
    broadcast use {book_facts, bl_dom};
    let ghost ids = params.order_ids@;
    let ghost b0 = book_of::<C>(d0(accounts.bids));
    let ghost a0 = book_of::<C>(d0(accounts.asks));
    let ghost gen = genuine_books(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks);
%at let order_book 1
    let ghost ob0 = order_book;
    proof { lemma_without_none(b0, true, ids); lemma_without_none(a0, false, ids); }
%loop 1
%inv
    vx_it.seq() == ids, ids == params.order_ids@,
    slab_fin(order_book.bids) == slab_fin(ob0.bids), slab_fin(order_book.asks) == slab_fin(ob0.asks),
    wf(order_book.bids.sv()), wf(order_book.asks.sv()),
    order_book.bids.sv().lv.len() == ob0.bids.sv().lv.len(), order_book.asks.sv().lv.len() == ob0.asks.sv().lv.len(),
    b0 == bk(ob0.bids.sv()), a0 == bk(ob0.asks.sv()), b0 == book_of::<C>(d0(accounts.bids)), a0 == book_of::<C>(d0(accounts.asks)),
    without(b0, bk(order_book.bids.sv()), true, ids, vx_it.index@), without(a0, bk(order_book.asks.sv()), false, ids, vx_it.index@),
    forall|j: int| 0 <= j < vx_it.index@ ==> rests(b0, a0, #[trigger] ids[j]),
    total_base_qty == sum_base(b0, a0, ids, vx_it.index@), total_quote_qty == sum_value(b0, a0, ids, vx_it.index@),
    sum_base(b0, a0, ids, ids.len() as int) < e64(), sum_value(b0, a0, ids, ids.len() as int) < e64(),
%at loop 1 start
    broadcast use {book_facts, bl_dom};
    let ghost i = vx_it.index@;
    proof {
        assert(0 <= i < ids.len() && order_id == ids[i] && params.order_ids@[i] == order_id);
        if i < ids.len() { lemma_sums(b0, a0, ids, i, ids.len() as int); lemma_sums(b0, a0, ids, i + 1, ids.len() as int); }
        lemma_without(b0, bk(order_book.bids.sv()), true, ids, i);
        lemma_without(a0, bk(order_book.asks.sv()), false, ids, i);
    }
%at let leaf_node 1
    proof {
        assert(leaf_node.base_quantity == base_of(b0, a0, ids[i]) && lkey(leaf_node) == ids[i]);
        assert(total_base_qty + leaf_node.base_quantity == sum_base(b0, a0, ids, i + 1));
        assert(total_quote_qty + value_of(b0, a0, ids[i]) == sum_value(b0, a0, ids, i + 1));
        lemma_mul_floor_pos(leaf_node.base_quantity as int, price_of(ids[i]) as int);
    }
%closure 1
    -> (r: Option<u64>) ensures r == opt64(n + total_quote_qty)
%at end
    proof { lemma_sized::<C>(d0(accounts.bids), d1(accounts.bids)); lemma_sized::<C>(d0(accounts.asks), d1(accounts.asks)); }
%at end [B04, M07, M08, T01, R01]
    proof {
        let b0 = book_of::<C>(d0(accounts.bids)); let b1 = book_of::<C>(d1(accounts.bids));
        let a0 = book_of::<C>(d0(accounts.asks)); let a1 = book_of::<C>(d1(accounts.asks));
        lemma_without_fewer(b0, b1, true, ids, ids.len() as int); lemma_without_fewer(a0, a1, false, ids, ids.len() as int);
        lemma_fewer(b0, b1, a0, a1, eq_of::<C>(d0(accounts.event_queue)).seq, market_of(d0(accounts.market)).min_base_order_size, market_of(d0(accounts.market)).tick_size);
    }

%file processor/consume_events.rs
%fn Accounts::parse
%own I01
%ret r
%ens
    r is Ok ==> accounts@.len() >= 2 && r->Ok_0 == consume_accounts(accounts@),
    accounts@.len() == 2 ==> r is Ok,

%fn Accounts::perform_checks
%own L02
%ret r
%ens
    r is Ok <==> owned(self.market, program_id) && owned(self.event_queue, program_id),

%fn check_accounts
%own L02
%ret r
%ens
    r is Ok <==> *accounts.event_queue.key == market_state.event_queue,

%fn process
%own L02 X02
%ret r
%mark [I01]
    ran_consume::<C>(*program_id, accounts, params, r),
%req
    room::<C>(),
    may_write(&accounts.market.data), may_write(&accounts.event_queue.data),
    laid_market(program_id, accounts.market),
    laid_queue::<C>(program_id, accounts.market, accounts.event_queue),
%ens [L02]
    r is Ok ==> genuine_queue(program_id, accounts.market, accounts.event_queue),
%ens
    r is Ok ==> market_kept(accounts.market) && queue_kept(accounts.event_queue) && queue_ok::<C>(d1(accounts.event_queue)),
%ens [X02, E01]
    r is Ok ==> ({
        let o = eq_of::<C>(d0(accounts.event_queue));
        let s = eq_of::<C>(d1(accounts.event_queue));
        &&& q(s) == q(o).skip(if params.number_of_entries_to_consume <= o.count { params.number_of_entries_to_consume as int } else { o.count as int })
        &&& s.seq == o.seq && s.ev.len() == o.ev.len()
    }),
%ens [B04]
    r is Ok ==> forall|b: Seq<u8>, a: Seq<u8>| live::<C>(d0(accounts.market), d0(accounts.event_queue), b, a) ==> #[trigger] live::<C>(d1(accounts.market), d1(accounts.event_queue), b, a),
%ens [R01]
    r is Err ==> !genuine_queue(program_id, accounts.market, accounts.event_queue),
%at start
    hide(eq_of); hide(market_of); hide(eq_sized); hide(q);
%at end
    proof { lemma_sized::<C>(d0(accounts.event_queue), d1(accounts.event_queue)); }

%file processor/close_market.rs
%fn Accounts::parse
%own I01
%ret r
%ens
    r is Ok ==> accounts@.len() >= 5 && r->Ok_0 == close_accounts(accounts@),
    accounts@.len() == 5 ==> r is Ok,

%fn Accounts::perform_checks
%own L02
%ret r
%ens
    r is Ok <==> owned(self.market, program_id),

%fn check_accounts
%own L02
%ret r
%ens
    r is Ok <==> *accounts.event_queue.key == market_state.event_queue && *accounts.bids.key == market_state.bids && *accounts.asks.key == market_state.asks,

%fn process
%own L01 L02
%abortok
%ret r
%mark [I01]
    ran_close::<C>(*program_id, accounts, _params, r),
%req
    room::<C>(),
    may_write(&accounts.market.data), may_write(&accounts.event_queue.data), may_write(&accounts.bids.data), may_write(&accounts.asks.data),
    may_pay(&accounts.market.lamports), may_pay(&accounts.event_queue.lamports), may_pay(&accounts.bids.lamports), may_pay(&accounts.asks.lamports), may_pay(&accounts.lamports_target_account.lamports),
    lamports0(accounts.market) + lamports0(accounts.event_queue) + lamports0(accounts.bids) + lamports0(accounts.asks) + lamports0(accounts.lamports_target_account) < e64(),
    laid_market(program_id, accounts.market),
    d0(accounts.event_queue).len() >= 32, d0(accounts.bids).len() >= 64 + csz::<C>(), d0(accounts.asks).len() >= 64 + csz::<C>(),
    real_market(program_id, accounts.market) && recorded(accounts.market, accounts.event_queue, accounts.bids, accounts.asks) ==>
        (bids_tagged(accounts.bids) ==> side_ok_bytes::<C>(d0(accounts.bids))) && (asks_tagged(accounts.asks) ==> side_ok_bytes::<C>(d0(accounts.asks)))
        && (queue_tagged(accounts.event_queue) ==> queue_ok::<C>(d0(accounts.event_queue))),
%ens [L02]
    r is Ok ==> real_market(program_id, accounts.market) && recorded(accounts.market, accounts.event_queue, accounts.bids, accounts.asks)
        && bids_tagged(accounts.bids) && asks_tagged(accounts.asks) && queue_tagged(accounts.event_queue),
%ens [L01]
    r is Ok ==> {
        &&& book_of::<C>(d0(accounts.bids)) == Map::<u128, OrdV<C>>::empty() && book_of::<C>(d0(accounts.asks)) == Map::<u128, OrdV<C>>::empty()
        &&& eq_of::<C>(d0(accounts.event_queue)).count == 0
        &&& tag64(d1(accounts.market)) == t_disabled() as u64 && tag64(d1(accounts.event_queue)) == t_disabled() as u64
        &&& tag8(d1(accounts.bids)) == t_disabled() as u8 && tag8(d1(accounts.asks)) == t_disabled() as u8
        &&& lamports1(accounts.lamports_target_account) == lamports0(accounts.lamports_target_account) + lamports0(accounts.market) + lamports0(accounts.event_queue) + lamports0(accounts.bids) + lamports0(accounts.asks)
        &&& lamports1(accounts.market) == 0 && lamports1(accounts.event_queue) == 0 && lamports1(accounts.bids) == 0 && lamports1(accounts.asks) == 0
    },
%at start
    hide(bk); hide(slab_of); hide(market_of); hide(slab_sized); hide(eq_of); hide(eq_sized);
    broadcast use {cut_facts, bl_tag64};
%at end
    proof {
        lemma_empty_side(slab_of::<C>(d0(accounts.bids))); lemma_empty_side(slab_of::<C>(d0(accounts.asks)));
        assert(tag64(d1(accounts.market)) == t_disabled() as u64);
        assert(tag64(d1(accounts.event_queue)) == t_disabled() as u64);
        assert(tag64(d1(accounts.bids)) == t_disabled() as u64);
        assert(tag64(d1(accounts.asks)) == t_disabled() as u64);
    }

%file processor/create_market.rs
%fn Accounts::parse
%own I01
%ret r
%ens
    r is Ok ==> accounts@.len() >= 4 && r->Ok_0 == create_accounts(accounts@),
    accounts@.len() == 4 ==> r is Ok,

%fn Accounts::perform_checks
%own L02
%ret r
%ens
    r is Ok <==> owned(self.event_queue, program_id) && owned(self.bids, program_id) && owned(self.asks, program_id),

%fn check_rent
%own L01
%ret r
%ens
    r is Ok <==> rent_exempt(accounts.market) && rent_exempt(accounts.event_queue) && rent_exempt(accounts.bids) && rent_exempt(accounts.asks),

%fn process
%own L01 L02
%abortok
%ret r
%mark [I01]
    ran_create::<C>(*program_id, accounts, params, r),
%req
    room::<C>(), 5 * eq_slot::<C>() + 32 <= usize::MAX,
    may_write(&accounts.market.data), may_write(&accounts.event_queue.data), may_write(&accounts.bids.data), may_write(&accounts.asks.data),
    d0(accounts.bids).len() > 0, d0(accounts.asks).len() > 0, d0(accounts.event_queue).len() <= usize::MAX,
%ens [L02]
    r is Ok ==> owned(accounts.event_queue, program_id) && owned(accounts.bids, program_id) && owned(accounts.asks, program_id),
%ens [L01]
    r is Ok ==> {
        &&& params.min_base_order_size > 0 && params.tick_size > 0
        &&& rent_exempt(accounts.market) && rent_exempt(accounts.event_queue) && rent_exempt(accounts.bids) && rent_exempt(accounts.asks)
        &&& tag64(d0(accounts.market)) == t_uninitialized() as u64 && tag64(d0(accounts.event_queue)) == t_uninitialized() as u64
        &&& tag8(d0(accounts.bids)) == t_uninitialized() as u8 && tag8(d0(accounts.asks)) == t_uninitialized() as u8
        &&& d0(accounts.market).len() == market_len() && eq_sized::<C>(d0(accounts.event_queue)) && eq_n::<C>(d0(accounts.event_queue).len() as int) >= 5
    },
    r is Ok ==> {
        &&& market_ok(d1(accounts.market)) && tag64(d1(accounts.market)) == t_market() as u64
        &&& recorded_as(d1(accounts.market), *accounts.event_queue.key, *accounts.bids.key, *accounts.asks.key, params.min_base_order_size, params.tick_size)
        &&& tag64(d1(accounts.event_queue)) == t_eventqueue() as u64 && d1(accounts.event_queue).len() == d0(accounts.event_queue).len()
        &&& eq_of::<C>(d1(accounts.event_queue)) == eq_of::<C>(d0(accounts.event_queue))
        &&& tag8(d1(accounts.bids)) == t_bids() as u8 && tag8(d1(accounts.asks)) == t_asks() as u8
    },
    r is Ok && zeroed(d0(accounts.event_queue)) ==> queue_ok::<C>(d1(accounts.event_queue)) && q(eq_of::<C>(d1(accounts.event_queue))).len() == 0 && eq_of::<C>(d1(accounts.event_queue)).seq == 0,
    r is Ok && fresh_side::<C>(d0(accounts.bids)) ==> side_ok_bytes::<C>(d1(accounts.bids)) && book_of::<C>(d1(accounts.bids)) == Map::<u128, OrdV<C>>::empty(),
    r is Ok && fresh_side::<C>(d0(accounts.asks)) ==> side_ok_bytes::<C>(d1(accounts.asks)) && book_of::<C>(d1(accounts.asks)) == Map::<u128, OrdV<C>>::empty(),
%ens [B04]
    r is Ok && zeroed(d0(accounts.event_queue)) && fresh_side::<C>(d0(accounts.bids)) && fresh_side::<C>(d0(accounts.asks)) ==> live::<C>(d1(accounts.market), d1(accounts.event_queue), d1(accounts.bids), d1(accounts.asks)),
%ens [M07]
    r is Ok && zeroed(d0(accounts.event_queue)) && fresh_side::<C>(d0(accounts.bids)) && fresh_side::<C>(d0(accounts.asks)) ==> live_uncrossed::<C>(d1(accounts.bids), d1(accounts.asks)),
%ens [M08]
    r is Ok && zeroed(d0(accounts.event_queue)) && fresh_side::<C>(d0(accounts.bids)) && fresh_side::<C>(d0(accounts.asks)) ==> live_min::<C>(d1(accounts.market), d1(accounts.bids), d1(accounts.asks)),
%ens [T01]
    r is Ok && zeroed(d0(accounts.event_queue)) && fresh_side::<C>(d0(accounts.bids)) && fresh_side::<C>(d0(accounts.asks)) ==> live_prices::<C>(d1(accounts.market), d1(accounts.bids), d1(accounts.asks)),
%ens [R01]
    r is Ok && zeroed(d0(accounts.event_queue)) && fresh_side::<C>(d0(accounts.bids)) && fresh_side::<C>(d0(accounts.asks)) ==> live_valued::<C>(d1(accounts.bids), d1(accounts.asks)),
%at start
    hide(bk); hide(slab_of); hide(market_of); hide(slab_sized); hide(eq_of);
%at end
    proof {
        let t = t_bids() as u8; let u = t_asks() as u8;
        if fresh_side::<C>(d0(accounts.bids)) { lemma_fresh_side::<C>(d0(accounts.bids), t); }
        if fresh_side::<C>(d0(accounts.asks)) { lemma_fresh_side::<C>(d0(accounts.asks), u); }
        if zeroed(d0(accounts.event_queue)) { lemma_fresh_queue::<C>(d0(accounts.event_queue), d1(accounts.event_queue)); }
    }

%file processor/new_order.rs
%fn Accounts::parse
%own I01
%ret r
%ens
    r is Ok ==> accounts@.len() >= 4 && r->Ok_0 == order_accounts(accounts@),
    accounts@.len() == 4 ==> r is Ok,

%fn Accounts::perform_checks
%own L02
%ret r
%ens
    r is Ok <==> owned(self.market, program_id) && owned(self.event_queue, program_id) && owned(self.bids, program_id) && owned(self.asks, program_id),

%fn check_accounts
%own L02
%ret r
%ens
    r is Ok <==> *accounts.event_queue.key == market_state.event_queue && *accounts.bids.key == market_state.bids && *accounts.asks.key == market_state.asks,

%fn process
%own L02 R01 M04
%ret r
%mark [I01]
    ran_order::<C>(*program_id, accounts, params, r),
%req
    room::<C>(), clone_id::<C>(), id_cmp::<C>(),
    may_write(&accounts.market.data), may_write(&accounts.event_queue.data), may_write(&accounts.bids.data), may_write(&accounts.asks.data),
    laid_market(program_id, accounts.market),
    laid_queue::<C>(program_id, accounts.market, accounts.event_queue),
    laid_books::<C>(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks),
    genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) ==> live::<C>(d0(accounts.market), d0(accounts.event_queue), d0(accounts.bids), d0(accounts.asks)) && eq_of::<C>(d0(accounts.event_queue)).seq < 0x8000_0000_0000_0000u64,
%req [M07]
    genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) ==> live_uncrossed::<C>(d0(accounts.bids), d0(accounts.asks)),
%req [M08]
    genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) ==> live_min::<C>(d0(accounts.market), d0(accounts.bids), d0(accounts.asks)),
%req [T01]
    genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) ==> live_prices::<C>(d0(accounts.market), d0(accounts.bids), d0(accounts.asks)),
%req [R01]
    genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) ==> live_valued::<C>(d0(accounts.bids), d0(accounts.asks)),
%ens [L02]
    r is Ok ==> genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks),
%ens
    r is Ok ==> market_kept(accounts.market) && queue_kept(accounts.event_queue) && side_kept(accounts.bids) && side_kept(accounts.asks),
    r is Ok ==> live::<C>(d1(accounts.market), d1(accounts.event_queue), d1(accounts.bids), d1(accounts.asks)),
    r is Ok ==> grown(eq_of::<C>(d0(accounts.event_queue)), eq_of::<C>(d1(accounts.event_queue))),
%ens [T01]
    r is Ok ==> price_accepted(d0(accounts.market), params.limit_price, params.post_allowed),
    r is Ok ==> live_prices::<C>(d1(accounts.market), d1(accounts.bids), d1(accounts.asks)),
%ens [R01, T01]
    r is Err ==> !genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) || !price_accepted(d0(accounts.market), params.limit_price, params.post_allowed)
        || eq_of::<C>(d1(accounts.event_queue)).count == eq_of::<C>(d1(accounts.event_queue)).ev.len() || params.self_trade_behavior is AbortTransaction,
%ens [R01]
    r is Ok ==> live_valued::<C>(d1(accounts.bids), d1(accounts.asks)),
%ens
    r is Ok ==> bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), opp(params.side))) == book_at(bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), opp(params.side))), added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))),
    r is Ok ==> (match r->Ok_0.posted_order_id {
        None => !evicted(params.side, added::<C>(accounts.event_queue)) && bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), params.side)) == bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side)),
        Some(k) => bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), params.side)) == own_after(bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side)), params.side, added::<C>(accounts.event_queue), k,
            OrdV { qty: r->Ok_0.total_base_qty_posted, cb: params.callback_info }),
    }),
    r is Ok ==> forall|i: int| #![trigger added::<C>(accounts.event_queue)[i]] 0 <= i < nm(params.side, added::<C>(accounts.event_queue)) ==> ok_cons(params.side, params.callback_info, book_at(bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), opp(params.side))), added::<C>(accounts.event_queue), i), added::<C>(accounts.event_queue)[i]),
%ens [B04, T01, R01]
    r is Ok && r->Ok_0.posted_order_id is Some ==> r->Ok_0.posted_order_id == Some(new_id(params.side, params.limit_price, eq_of::<C>(d0(accounts.event_queue)).seq))
        && eq_of::<C>(d1(accounts.event_queue)).seq == eq_of::<C>(d0(accounts.event_queue)).seq + 1 && !bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side)).contains_key(r->Ok_0.posted_order_id->Some_0),
%ens [M01]
    r is Ok ==> forall|i: int| #![trigger added::<C>(accounts.event_queue)[i]] 0 <= i < nm(params.side, added::<C>(accounts.event_queue)) ==> ok_prio(params.side, params.limit_price, book_at(bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), opp(params.side))), added::<C>(accounts.event_queue), i), added::<C>(accounts.event_queue)[i]),
%ens [M02]
    r is Ok ==> r->Ok_0.total_base_qty == bsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) + r->Ok_0.total_base_qty_posted,
    r is Ok ==> r->Ok_0.total_quote_qty == qsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) + quote_of(params.side, r->Ok_0.total_base_qty_posted as int, params.limit_price),
    r is Ok ==> r->Ok_0.total_base_qty <= params.max_base_qty && r->Ok_0.total_quote_qty <= params.max_quote_qty,
    r is Ok ==> (r->Ok_0.posted_order_id is Some <==> r->Ok_0.total_base_qty_posted > 0),
%ens [M03]
    r is Ok ==> forall|i: int| #![trigger added::<C>(accounts.event_queue)[i]] 0 <= i < nm(params.side, added::<C>(accounts.event_queue)) ==> ok_quote(params.side, added::<C>(accounts.event_queue)[i]),
    r is Ok ==> r->Ok_0.total_quote_qty == qsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) + quote_of(params.side, r->Ok_0.total_base_qty_posted as int, params.limit_price),
%ens [M05]
    r is Ok && params.post_only ==> nm(params.side, added::<C>(accounts.event_queue)) == 0,
%ens [M05, T01]
    r is Ok && !params.post_allowed ==> r->Ok_0.posted_order_id is None,
%ens [M05]
    r is Ok ==> steps(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) <= params.match_limit,
    r is Ok && r->Ok_0.posted_order_id is Some ==> no_cross(params.side, params.limit_price, bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), opp(params.side)))),
%ens [M06]
    r is Ok ==> forall|i: int| #![trigger added::<C>(accounts.event_queue)[i]] 0 <= i < nm(params.side, added::<C>(accounts.event_queue)) ==> ok_self(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue)[i])
        && ok_after(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), i),
    r is Ok ==> params.post_only || steps(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) == params.match_limit
        || params.self_trade_behavior is DecrementTake || !meets_own(params.side, params.limit_price, params.callback_info, bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), opp(params.side))), params.max_base_qty - bsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))), params.max_quote_qty - qsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue)))),
    r is Ok && cancels_last(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) ==> steps(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) == params.match_limit
        || no_more(params.side, params.limit_price, bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), opp(params.side))), params.max_base_qty - bsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))), params.max_quote_qty - qsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue)))),
    r is Err && genuine(program_id, accounts.market, accounts.event_queue, accounts.bids, accounts.asks) && price_accepted(d0(accounts.market), params.limit_price, params.post_allowed)
        && eq_of::<C>(d1(accounts.event_queue)).count < eq_of::<C>(d1(accounts.event_queue)).ev.len() ==> params.self_trade_behavior is AbortTransaction
        && meets_own(params.side, params.limit_price, params.callback_info, bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), opp(params.side))), params.max_base_qty - bsum(added::<C>(accounts.event_queue), added::<C>(accounts.event_queue).len() as int), params.max_quote_qty - qsum(added::<C>(accounts.event_queue), added::<C>(accounts.event_queue).len() as int)),
%ens [M07]
    r is Ok ==> uncrossed(book_of::<C>(d1(accounts.bids)), book_of::<C>(d1(accounts.asks))),
%ens [M08]
    r is Ok ==> min_ok(book_of::<C>(d1(accounts.bids)), market_of(d0(accounts.market)).min_base_order_size) && min_ok(book_of::<C>(d1(accounts.asks)), market_of(d0(accounts.market)).min_base_order_size),
    r is Ok ==> forall|i: int| #![trigger added::<C>(accounts.event_queue)[i]] 0 <= i < nm(params.side, added::<C>(accounts.event_queue)) ==> ok_leave(params.self_trade_behavior, params.callback_info, market_of(d0(accounts.market)).min_base_order_size, book_at(bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), opp(params.side))), added::<C>(accounts.event_queue), i), added::<C>(accounts.event_queue)[i])
        && ok_after(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), i),
%ens [M09]
    r is Ok && evicted(params.side, added::<C>(accounts.event_queue)) ==> ({
        let m = bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side));
        let e = added::<C>(accounts.event_queue).last();
        &&& r->Ok_0.posted_order_id is Some
        &&& m.len() == tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side).lv.len()
        &&& worst(m, is_bid(params.side), eid(e)) && worse_price(params.side, price_of(eid(e)), params.limit_price)
        &&& outv(e).base_size == m[eid(e)].qty && e.m == m[eid(e)].cb
    }),
    r is Ok && r->Ok_0.posted_order_id is Some && bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side)).len() == tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side).lv.len() ==> evicted(params.side, added::<C>(accounts.event_queue)),
%ens [M09, M10]
    r is Ok ==> ({
        let n = nm(params.side, added::<C>(accounts.event_queue));
        let m = bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side));
        let br = params.max_base_qty - bsum(added::<C>(accounts.event_queue), n);
        let qr = params.max_quote_qty - qsum(added::<C>(accounts.event_queue), n);
        &&& r->Ok_0.posted_order_id is Some <==> (params.post_allowed
            && steps(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), n) < params.match_limit
            && no_cross(params.side, params.limit_price, bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), opp(params.side))))
            && rest_qty(br, qr, params.limit_price) >= market_of(d0(accounts.market)).min_base_order_size
            && (m.len() < tree_of::<C>(d0(accounts.bids), d0(accounts.asks), params.side).lv.len() || has_worse(m, params.side, params.limit_price)))
        &&& r->Ok_0.posted_order_id is Some ==> r->Ok_0.total_base_qty_posted == rest_qty(br, qr, params.limit_price)
    }),
%ens [M10]
    r is Ok ==> forall|i: int| #![trigger added::<C>(accounts.event_queue)[i]] 0 <= i < nm(params.side, added::<C>(accounts.event_queue)) ==> ok_size(book_at(bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), opp(params.side))), added::<C>(accounts.event_queue), i), params.max_base_qty - bsum(added::<C>(accounts.event_queue), i), params.max_quote_qty - qsum(added::<C>(accounts.event_queue), i), added::<C>(accounts.event_queue)[i]),
    r is Ok ==> params.post_only || steps(params.self_trade_behavior, params.callback_info, added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))) == params.match_limit
        || no_more(params.side, params.limit_price, bk(tree_of::<C>(d1(accounts.bids), d1(accounts.asks), opp(params.side))), params.max_base_qty - bsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue))), params.max_quote_qty - qsum(added::<C>(accounts.event_queue), nm(params.side, added::<C>(accounts.event_queue)))),
%at start
    hide(bk); hide(slab_of); hide(market_of); hide(slab_sized); hide(eq_of); hide(eq_sized); hide(q); hide(eq_wf); hide(book_at); hide(own_after); hide(ids_ok);
%at end
    proof {
        lemma_sized::<C>(d0(accounts.bids), d1(accounts.bids)); lemma_sized::<C>(d0(accounts.asks), d1(accounts.asks)); lemma_sized::<C>(d0(accounts.event_queue), d1(accounts.event_queue));
    }
%at end [T01]
    proof {
        let es = added::<C>(accounts.event_queue);
        let o = bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), opp(params.side)));
        lemma_less(params.side, params.callback_info, o, es, nm(params.side, es));
        lemma_new_id(params.side, params.limit_price, eq_of::<C>(d0(accounts.event_queue)).seq);
        reveal(own_after);
    }
%at end [R01]
    proof {
        let es = added::<C>(accounts.event_queue);
        let o = bk(tree_of::<C>(d0(accounts.bids), d0(accounts.asks), opp(params.side)));
        lemma_less(params.side, params.callback_info, o, es, nm(params.side, es));
        lemma_valued_less(o, book_at(o, es, nm(params.side, es)));
        lemma_new_id(params.side, params.limit_price, eq_of::<C>(d0(accounts.event_queue)).seq);
        lemma_floor_ceil(order_summary.total_base_qty_posted as int, params.limit_price as int);
        reveal(own_after);
    }
