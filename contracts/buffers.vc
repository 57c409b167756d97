%file state/market_state.rs
%fn MarketState::from_buffer
%own L01 L02 Y01
%ret r
%req
    old(account_data)@.len() >= 8,
    tag64(old(account_data)@) == expected_tag as u64 ==> old(account_data)@.len() == market_len(),
%ens
    final(account_data)@.len() == old(account_data)@.len(),
    match r {
        Err(_) => tag64(old(account_data)@) != expected_tag as u64 && final(account_data)@ == old(account_data)@,
        Ok(m) => {
            &&& tag64(old(account_data)@) == expected_tag as u64
            &&& *m == market_of(old(account_data)@)
            &&& tag64(final(account_data)@) == t_market() as u64
            &&& market_of(final(account_data)@) == *final(m)
        },
    },
%at start
    broadcast use cut_facts;
%at return 1
    proof { assert(account_data@ =~= old(account_data)@); }
%at beforelet data 1
    let ghost a1 = account_data@;
    proof { assert(a1.subrange(8, a1.len() as int) =~= old(account_data)@.subrange(8, a1.len() as int)); size_marketstate(); }

%file state/critbit.rs
%fn Slab::from_buffer
%own L02 Y01
%ret r
%req
    csz::<C>() > 0,
    old(buf)@.len() >= 64 + csz::<C>(),
    tag8(old(buf)@) == expected_tag as u8 ==> slab_sized::<C>(old(buf)@),
%ens
    final(buf)@.len() == old(buf)@.len(),
    match r {
        Err(_) => tag8(old(buf)@) != expected_tag as u8 && final(buf)@ == old(buf)@,
        Ok(s) => {
            let n = slab_n::<C>(old(buf)@.len() as int);
            &&& tag8(old(buf)@) == expected_tag as u8
            &&& s.sv() == slab_of::<C>(old(buf)@)
            &&& s.sv().lv.len() == n && s.sv().inn.len() == n - 1 && s.sv().cb.len() == n
            &&& slab_fin(s) == slab_of::<C>(final(buf)@)
            &&& final(buf)@.subrange(0, 8) == old(buf)@.subrange(0, 8) && tag8(final(buf)@) == tag8(old(buf)@)
        },
    },
%at start
    broadcast use cut_facts;
    let ghost b0 = buf@;
    let ghost n = slab_n::<C>(buf@.len() as int);
    proof {
        size_slabheader(); size_leafnode(); size_innernode();
        assert(buf.len() == buf@.len());
        lemma_slab_cap::<C>(b0.len() as int);
    }
%at let capacity 1
    proof { lemma_slab_cap::<C>(b0.len() as int); }

%fn Slab::initialize
%own L01
%ret r
%req
    old(asks_data)@.len() > 0, old(bids_data)@.len() > 0,
%ens
    match r {
        Ok(()) => {
            &&& tag8(old(asks_data)@) == t_uninitialized() as u8 && tag8(old(bids_data)@) == t_uninitialized() as u8
            &&& final(asks_data)@ == old(asks_data)@.update(0, t_asks() as u8)
            &&& final(bids_data)@ == old(bids_data)@.update(0, t_bids() as u8)
        },
        Err(_) => {
            &&& tag8(old(asks_data)@) != t_uninitialized() as u8 || tag8(old(bids_data)@) != t_uninitialized() as u8
            &&& final(asks_data)@ == old(asks_data)@ && final(bids_data)@ == old(bids_data)@
        },
    },

%fn Slab::compute_allocation_size
%own Y01 B03
%ret r
%req
    desired_order_capacity >= 1, slab_size::<C>(desired_order_capacity as int) <= usize::MAX,
%ens
    r == slab_size::<C>(desired_order_capacity as int),
%at start
    proof {
        size_slabheader(); size_leafnode(); size_innernode();
        lemma_slab_forms::<C>(desired_order_capacity as int);
    }

%file state/event_queue.rs
%fn EventQueue::from_buffer
%own L02 Y01 E01
%ret r
%req
    csz::<C>() > 0,
    40 + 2 * csz::<C>() <= usize::MAX,
    old(buf)@.len() >= 32,
    tag64(old(buf)@) == expected_tag as u64 ==> eq_sized::<C>(old(buf)@),
%ens
    final(buf)@.len() == old(buf)@.len(),
    match r {
        Err(_) => tag64(old(buf)@) != expected_tag as u64 && final(buf)@ == old(buf)@,
        Ok(s) => {
            let n = eq_n::<C>(old(buf)@.len() as int);
            &&& tag64(old(buf)@) == expected_tag as u64
            &&& s.qv() == eq_of::<C>(old(buf)@)
            &&& s.qv().ev.len() == n && s.qv().cb.len() == 2 * n
            &&& eq_fin(s) == eq_of::<C>(final(buf)@)
            &&& tag64(final(buf)@) == t_eventqueue() as u64
        },
    },
%at start
    broadcast use cut4_facts;
    let ghost b0 = buf@;
    let ghost n = eq_n::<C>(buf@.len() as int);
    proof {
        size_eventqueueheader(); size_fillevent();
        lemma_eq_cap::<C>(b0.len() as int);
    }
%at let capacity 1
    proof { assert(capacity == n); }
%at return 1
    proof { assert(buf@ =~= b0); }
%at beforelet header 1
    let ghost b1 = buf@;
    proof { assert(b1.subrange(8, b1.len() as int) =~= b0.subrange(8, b1.len() as int)); }

%fn EventQueue::compute_allocation_size
%own Y01 E01
%ret r
%req
    eq_size::<C>(desired_event_capacity as int) <= usize::MAX,
    40 + 2 * csz::<C>() <= usize::MAX,
%ens
    r == eq_size::<C>(desired_event_capacity as int),
%at start
    proof {
        size_eventqueueheader(); size_fillevent();
        lemma_eq_forms::<C>(desired_event_capacity as int);
    }

%fn EventQueue::check_buffer_size
%own L01
%ret r
%req
    csz::<C>() > 0, 5 * eq_slot::<C>() + 32 <= usize::MAX,
%ens
    r is Ok <==> (eq_sized::<C>(buffer@) && eq_n::<C>(buffer@.len() as int) >= 5),
%at start
    proof {
        size_eventqueueheader(); size_fillevent();
        lemma_eq_check::<C>(buffer@.len() as int);
    }

%file state/market_state.rs
%fn MarketState::check_buffer_size
%own L01
%ret r
%ens
    r is Ok <==> account_data@.len() == market_len(),
%at start
    proof { size_marketstate(); }

%file state/orderbook.rs
%fn OrderBookState::new_safe
%own L02 Y01
%ret r
%req
    slab_openable::<C>(old(bids_account)@, t_bids()), slab_openable::<C>(old(asks_account)@, t_asks()),
%ens
    final(bids_account)@.len() == old(bids_account)@.len(), final(asks_account)@.len() == old(asks_account)@.len(),
    match r {
        Err(_) => tag8(old(bids_account)@) != t_bids() as u8 || tag8(old(asks_account)@) != t_asks() as u8,
        Ok(s) => {
            &&& tag8(old(bids_account)@) == t_bids() as u8 && tag8(old(asks_account)@) == t_asks() as u8
            &&& s.bids.sv() == slab_of::<C>(old(bids_account)@) && s.asks.sv() == slab_of::<C>(old(asks_account)@)
            &&& slab_fin(s.bids) == slab_of::<C>(final(bids_account)@) && slab_fin(s.asks) == slab_of::<C>(final(asks_account)@)
            &&& tag8(final(bids_account)@) == tag8(old(bids_account)@) && tag8(final(asks_account)@) == tag8(old(asks_account)@)
            &&& final(bids_account)@.subrange(0, 8) == old(bids_account)@.subrange(0, 8)
            &&& final(asks_account)@.subrange(0, 8) == old(asks_account)@.subrange(0, 8)
        },
    },

%fn OrderBookState::get_spread
%own B02
%ret r
%req
    wf(self.bids.sv()), wf(self.asks.sv()),
%ens
    is_spread(bk(self.bids.sv()), bk(self.asks.sv()), r),
%at start
    broadcast use book_facts;
%closure 1
    -> (r: u64) requires (h as int) < self.bids.sv().lv.len() ensures r == price_of(lkey(self.bids.sv().lv[h as int]))
%closure 2
    -> (r: u64) requires (h as int) < self.asks.sv().lv.len() ensures r == price_of(lkey(self.asks.sv().lv[h as int]))

%file utils.rs
%fn get_spread
%own B02
%ret r
%req
    may_write(&bids_account.data), may_write(&asks_account.data),
    slab_openable::<C>(bids_account.data.pre(), t_bids()), slab_openable::<C>(asks_account.data.pre(), t_asks()),
    tag8(bids_account.data.pre()) == t_bids() as u8, tag8(asks_account.data.pre()) == t_asks() as u8,
    wf(slab_of::<C>(bids_account.data.pre())), wf(slab_of::<C>(asks_account.data.pre())),
%ens
    is_spread(bk(slab_of::<C>(bids_account.data.pre())), bk(slab_of::<C>(asks_account.data.pre())), r),
    slab_of::<C>(bids_account.data.post()) == slab_of::<C>(bids_account.data.pre()),
    slab_of::<C>(asks_account.data.post()) == slab_of::<C>(asks_account.data.pre()),
