%file state/event_queue.rs
%item
impl<'a, C> EventQueue<'a, C> {
    pub open spec fn qv(&self) -> EqV<C> {
        EqV { head: self.header.head, count: self.header.count, seq: self.header.seq_num, ev: self.events@, cb: self.callback_infos@ }
    }
}
%within trait Event
    spec fn gen(&self) -> GenericEvent;
%within impl Event for FillEvent
    open spec fn gen(&self) -> GenericEvent { fill_gen(*self) }
%within impl Event for OutEvent
    open spec fn gen(&self) -> GenericEvent { out_gen(*self) }

%fn Event::to_generic
%ret r
%ens
    *r == old(self).gen(), r.tag <= 1,

%fn FillEvent::to_generic
%own E01 M04
%ret r

%fn OutEvent::to_generic
%own E01 M04
%ret r
%at start
    let ghost o = *self;
    proof { lemma_out_gen(o); }

%fn EventQueue::push_back
%own E01
%ret r
%req
    eq_wf(old(self).qv()), clone_id::<C>(),
%ens
    eq_fin(*final(self)) == eq_fin(*old(self)),
    eq_wf(final(self).qv()),
    match r {
        Ok(()) => old(self).qv().count < old(self).qv().ev.len()
            && push_post(old(self).qv(), final(self).qv(), event.gen(),
                match maker_callback_info { Some(c) => Some(*c), None => None },
                match taker_callback_info { Some(c) => Some(*c), None => None }),
        Err(e) => e == event && final(self).qv() == old(self).qv() && old(self).qv().count == old(self).qv().ev.len(),
    },
%at start
    let ghost o = self.qv();
    let ghost event0 = event;
%at beforelet event_idx 1
    proof { lemma_phys_range(o, o.count as int); }
%at end
    proof {
        let s = self.qv();
        let k = phys(o, o.count as int);
        assert(s.ev == o.ev.update(k, event0.gen()));
        assert(maker_callback_info is Some ==> s.cb[2 * k] == *maker_callback_info->Some_0);
        assert(taker_callback_info is Some ==> s.cb[2 * k + 1] == *taker_callback_info->Some_0);
        assert(s.seq == o.seq && s.head == o.head && s.count == o.count + 1);
        lemma_push_ev(o, self.qv(), event0.gen(),
        match maker_callback_info { Some(c) => Some(*c), None => None },
        match taker_callback_info { Some(c) => Some(*c), None => None }); }

%fn EventQueue::gen_order_id
%own B04
%ret r
%req
    old(self).qv().seq < 0x8000_0000_0000_0000u64,
%ens
    eq_fin(*final(self)) == eq_fin(*old(self)),
    r == mk_id(limit_price, match side { Side::Bid => (0xffff_ffff_ffff_ffff - old(self).qv().seq) as u64, Side::Ask => old(self).qv().seq }),
    final(self).qv() == (EqV { seq: (old(self).qv().seq + 1) as u64, ..old(self).qv() }),
%at start
    proof {
        let n = self.qv().seq;
        lemma_not64(n); lemma_mk_id(limit_price, n); lemma_mk_id(limit_price, (0xffff_ffff_ffff_ffff - n) as u64);
    }

%fn EventQueue::gen_seq_num
%own B04
%ret r
%req
    old(self).qv().seq < 0xffff_ffff_ffff_ffffu64,
%ens
    eq_fin(*final(self)) == eq_fin(*old(self)),
    r == old(self).qv().seq,
    final(self).qv() == (EqV { seq: (old(self).qv().seq + 1) as u64, ..old(self).qv() }),

%fn EventQueue::full
%own E01
%ret r
%ens
    r == (self.qv().count == self.qv().ev.len()),

%fn EventQueue::peek_at
%own E01
%ret r
%req
    eq_wf(self.qv()),
%ens
    match r {
        None => index >= self.qv().count,
        Some(e) => index < self.qv().count && ref_view(e) == decode(q(self.qv())[index as int]),
    },
%at start
    proof {
        if index < self.qv().count {
            lemma_phys_range(self.qv(), index as int);
            assert(self.qv().ev[phys(self.qv(), index as int)].tag <= 1);
        }
    }

%fn EventQueue::get_event
%own E01
%ret r
%req
    event_idx < self.qv().ev.len(), self.qv().cb.len() == 2 * self.qv().ev.len(), self.qv().ev.len() <= 0x0fff_ffff_ffff_ffff,
    self.qv().ev[event_idx as int].tag <= 1,
%ens
    ref_view(r) == decode(Ent { e: self.qv().ev[event_idx as int], m: self.qv().cb[2 * event_idx], t: self.qv().cb[2 * event_idx + 1] }),

%fn EventQueue::pop_n
%own E01
%req
    eq_wf(old(self).qv()),
%ens
    eq_fin(*final(self)) == eq_fin(*old(self)),
    eq_wf(final(self).qv()),
    q(final(self).qv()) == q(old(self).qv()).skip(if number_of_entries_to_pop <= old(self).qv().count { number_of_entries_to_pop as int } else { old(self).qv().count as int }),
    final(self).qv().seq == old(self).qv().seq, final(self).qv().ev == old(self).qv().ev, final(self).qv().cb == old(self).qv().cb,
    final(self).qv().count == old(self).qv().count - (if number_of_entries_to_pop <= old(self).qv().count { number_of_entries_to_pop } else { old(self).qv().count }),
%at start
    let ghost o = self.qv();
%at end
    proof { lemma_eq_pop(o, self.qv(), capped_number_of_entries_to_pop as int); }

%fn EventQueue::iter
%own E01
%ret r
%ens
    r.queue.qv() == self.qv(), r.current_index == 0, r.remaining == self.qv().count,

%fn EventQueue::is_empty
%own E01
%ret r
%ens
    r == (self.qv().count == 0),

%fn EventQueue::len
%own E01
%ret r
%ens
    r == self.qv().count,

%fn QueueIterator::next
%own E01
%ret r
%req
    eq_wf(old(self).queue.qv()), old(self).current_index + old(self).remaining == old(self).queue.qv().count,
%ens
    final(self).queue == old(self).queue,
    final(self).current_index + final(self).remaining == final(self).queue.qv().count,
    match r {
        None => old(self).remaining == 0 && final(self).current_index == old(self).current_index,
        Some(e) => old(self).remaining > 0 && final(self).current_index == old(self).current_index + 1
            && ref_view(e) == decode(q(old(self).queue.qv())[old(self).current_index as int]),
    },
%at start
    proof {
        if self.remaining > 0 {
            lemma_phys_range(self.queue.qv(), self.current_index as int);
            assert(self.queue.qv().ev[phys(self.queue.qv(), self.current_index as int)].tag <= 1);
        }
    }
