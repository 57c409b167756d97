// Ghost view of the event queue.
use crate::state::event_queue::{FillEvent, OutEvent, EventQueue, EventRef, layout_fillevent, layout_outevent, size_fillevent, size_outevent};
use crate::critbit_spec::price_of;
use crate::stubs::bytemuck::{reinterpret, pod_bytes, pod_from, axiom_reinterpret, axiom_pod_round};

pub ghost struct EqV<C> {
    pub head: u64,
    pub count: u64,
    pub seq: u64,
    pub ev: Seq<FillEvent>,
    pub cb: Seq<C>,
}
/// one stored entry: the generic event and its two callback slots
pub ghost struct Ent<C> {
    pub e: FillEvent,
    pub m: C,
    pub t: C,
}
/// what a reader sees
pub ghost enum EvV<C> {
    Fill { e: FillEvent, maker: C, taker: C },
    Out { e: OutEvent, cb: C },
}
pub open spec fn phys<C>(v: EqV<C>, i: int) -> int { (v.head + i) % (v.ev.len() as int) }
pub open spec fn ent<C>(v: EqV<C>, i: int) -> Ent<C> {
    let k = phys(v, i);
    Ent { e: v.ev[k], m: v.cb[2 * k], t: v.cb[2 * k + 1] }
}
/// the queue's content, oldest first
pub open spec fn q<C>(v: EqV<C>) -> Seq<Ent<C>> { Seq::new(v.count as nat, |i: int| ent(v, i)) }
pub open spec fn decode<C>(x: Ent<C>) -> EvV<C> {
    if x.e.tag == 0 { EvV::Fill { e: x.e, maker: x.m, taker: x.t } }
    else { EvV::Out { e: reinterpret::<FillEvent, OutEvent>(x.e), cb: x.m } }
}
pub open spec fn shape_ok<C>(v: EqV<C>) -> bool {
    &&& 0 < v.ev.len() <= 0x0fff_ffff_ffff_ffff
    &&& v.cb.len() == 2 * v.ev.len()
    &&& v.head < v.ev.len()
    &&& v.count <= v.ev.len()
}
pub open spec fn eq_wf<C>(v: EqV<C>) -> bool {
    &&& shape_ok(v)
    &&& forall|i: int| 0 <= i < v.count ==> (#[trigger] v.ev[phys(v, i)]).tag <= 1
}
pub open spec fn clone_id<C: Clone>() -> bool {
    forall|a: C, b: C| #[trigger] call_ensures(C::clone, (&a,), b) ==> a == b
}
pub open spec fn ref_view<C>(r: EventRef<'_, C>) -> EvV<C> {
    match r {
        EventRef::Fill(f) => EvV::Fill { e: *f.event, maker: *f.maker_callback_info, taker: *f.taker_callback_info },
        EventRef::Out(o) => EvV::Out { e: *o.event, cb: *o.callback_info },
    }
}
/// the event as stored, for the two kinds
pub open spec fn fill_gen(f: FillEvent) -> FillEvent { FillEvent { tag: 0, ..f } }
pub open spec fn out_gen(o: OutEvent) -> FillEvent { reinterpret::<OutEvent, FillEvent>(OutEvent { tag: 1, ..o }) }
pub proof fn lemma_out_gen(o: OutEvent)
    ensures
        out_gen(o).tag == 1,
        reinterpret::<FillEvent, OutEvent>(out_gen(o)) == (OutEvent { tag: 1, ..o }),
{
    let x = OutEvent { tag: 1, ..o };
    let f = reinterpret::<OutEvent, FillEvent>(x);
    size_fillevent(); size_outevent();
    axiom_reinterpret::<OutEvent, FillEvent>(x);
    axiom_reinterpret::<FillEvent, OutEvent>(f);
    layout_fillevent(f);
    layout_outevent(x);
    axiom_pod_round::<u8>(f.tag);
    axiom_pod_round::<u8>(x.tag);
    axiom_pod_round::<OutEvent>(x);
    axiom_pod_round::<OutEvent>(reinterpret::<FillEvent, OutEvent>(f));
}
pub proof fn lemma_phys_range<C>(v: EqV<C>, i: int)
    requires shape_ok(v), 0 <= i,
    ensures 0 <= phys(v, i) < v.ev.len(), i < v.ev.len() ==> phys(v, i) == (if v.head + i < v.ev.len() { v.head + i } else { v.head + i - v.ev.len() }),
{
    let n = v.ev.len() as int;
    vstd::arithmetic::div_mod::lemma_mod_bound(v.head + i, n);
    if i < n {
        if v.head + i < n {
            vstd::arithmetic::div_mod::lemma_small_mod((v.head + i) as nat, n as nat);
        } else {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v.head + i, n, 1, v.head + i - n);
        }
    }
}
pub open spec fn push_post<C>(o: EqV<C>, s: EqV<C>, e: FillEvent, m: Option<C>, t: Option<C>) -> bool {
    &&& q(s).len() == q(o).len() + 1
    &&& q(s).drop_last() == q(o)
    &&& q(s).last().e == e
    &&& m is Some ==> q(s).last().m == m->Some_0
    &&& t is Some ==> q(s).last().t == t->Some_0
    &&& s.seq == o.seq
    &&& s.ev.len() == o.ev.len()
}
pub proof fn lemma_push_ev<C>(o: EqV<C>, s: EqV<C>, e: FillEvent, m: Option<C>, t: Option<C>)
    requires
        eq_wf(o), o.count < o.ev.len(), e.tag <= 1,
        s.head == o.head, s.count == o.count + 1, s.seq == o.seq,
        s.ev == o.ev.update(phys(o, o.count as int), e),
        s.cb.len() == o.cb.len(),
        forall|j: int| 0 <= j < o.cb.len() && j != 2 * phys(o, o.count as int) && j != 2 * phys(o, o.count as int) + 1 ==> #[trigger] s.cb[j] == o.cb[j],
        m is Some ==> s.cb[2 * phys(o, o.count as int)] == m->Some_0,
        t is Some ==> s.cb[2 * phys(o, o.count as int) + 1] == t->Some_0,
    ensures eq_wf(s), push_post(o, s, e, m, t),
{
    let k = phys(o, o.count as int);
    lemma_phys_range(o, o.count as int);
    assert forall|i: int| 0 <= i < o.count implies phys(o, i) != k && 0 <= #[trigger] phys(o, i) < o.ev.len() by { lemma_phys_range(o, i); }
    assert forall|i: int| phys(s, i) == phys(o, i) by {}
    assert(q(s).drop_last() =~= q(o)) by {
        assert forall|i: int| 0 <= i < o.count implies q(s).drop_last()[i] == q(o)[i] by {
            let j = phys(o, i);
            assert(j != k);
            assert(s.cb[2 * j] == o.cb[2 * j]);
            assert(s.cb[2 * j + 1] == o.cb[2 * j + 1]);
        }
    }
    assert forall|i: int| 0 <= i < s.count implies (#[trigger] s.ev[phys(s, i)]).tag <= 1 by {
        if i < o.count { assert(o.ev[phys(o, i)].tag <= 1); }
    }
}
pub proof fn lemma_eq_pop<C>(o: EqV<C>, s: EqV<C>, n: int)
    requires
        eq_wf(o), 0 <= n <= o.count, s.head == (o.head + n) % (o.ev.len() as int), s.count == o.count - n, s.ev == o.ev, s.cb == o.cb,
    ensures eq_wf(s), q(s) == q(o).skip(n),
{
    let l = o.ev.len() as int;
    vstd::arithmetic::div_mod::lemma_mod_bound(o.head + n, l);
    assert forall|i: int| 0 <= i < s.count implies phys(s, i) == #[trigger] phys(o, i + n) by {
        vstd::arithmetic::div_mod::lemma_add_mod_noop(o.head + n, i, l);
        vstd::arithmetic::div_mod::lemma_add_mod_noop((o.head + n) % l, i, l);
        vstd::arithmetic::div_mod::lemma_mod_twice(o.head + n, l);
        assert(o.head + (i + n) == (o.head + n) + i);
    }
    assert forall|i: int| 0 <= i < s.count implies (#[trigger] s.ev[phys(s, i)]).tag <= 1 by {
        assert(phys(s, i) == phys(o, i + n));
        assert(o.ev[phys(o, i + n)].tag <= 1);
    }
    assert(q(s) =~= q(o).skip(n)) by {
        assert forall|i: int| 0 <= i < s.count implies q(s)[i] == q(o).skip(n)[i] by { assert(phys(s, i) == phys(o, i + n)); }
    }
}
// ---- order ids
pub open spec fn mk_id(price: u64, lower: u64) -> u128 { ((price as u128) * 0x1_0000_0000_0000_0000u128 + lower as u128) as u128 }
pub open spec fn low_of(k: u128) -> u64 { (k & 0xffff_ffff_ffff_ffffu128) as u64 }
/// sequence number of an order id resting on the given side
pub open spec fn seq_of(k: u128, bid: bool) -> u64 { if bid { (0xffff_ffff_ffff_ffff - low_of(k)) as u64 } else { low_of(k) } }
pub open spec fn bid_flag(k: u128) -> bool { k & 0x8000_0000_0000_0000u128 != 0 }
pub proof fn lemma_mk_id(price: u64, lower: u64)
    ensures
        ((price as u128) << 64) | (lower as u128) == mk_id(price, lower),
        (lower as u128) | ((price as u128) << 64) == mk_id(price, lower),
        ((price as u128) << 64) as int + lower as int == mk_id(price, lower) as int,
        mk_id(price, lower) as int == (price as int) * 0x1_0000_0000_0000_0000 + lower as int,
        price_of(mk_id(price, lower)) == price,
        low_of(mk_id(price, lower)) == lower,
        bid_flag(mk_id(price, lower)) == (lower >= 0x8000_0000_0000_0000u64),
{
    let p = price as u128;
    let l = lower as u128;
    assert(((p << 64) | l) == add(mul(p, 0x1_0000_0000_0000_0000u128), l) && mul(p, 0x1_0000_0000_0000_0000u128) <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128
        && ((p << 64) | l) >> 64u128 == p && ((p << 64) | l) & 0xffff_ffff_ffff_ffffu128 == l
        && ((((p << 64) | l) & 0x8000_0000_0000_0000u128 != 0) == (l >= 0x8000_0000_0000_0000u128)))
        by (bit_vector) requires p == price as u128, l == lower as u128;
    assert(p * 0x1_0000_0000_0000_0000u128 <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) by (nonlinear_arith) requires p <= 0xffff_ffff_ffff_ffff;
    assert((l | (p << 64)) == ((p << 64) | l) && (p << 64) == mul(p, 0x1_0000_0000_0000_0000u128)) by (bit_vector);
}
pub proof fn lemma_not64(x: u64)
    ensures !x == 0xffff_ffff_ffff_ffff - x,
{
    assert(!x == sub(0xffff_ffff_ffff_ffffu64, x)) by (bit_vector);
}
