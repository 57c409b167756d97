// Accounts: what a market's four accounts hold, before and after an instruction.
use crate::critbit_spec::*;
use crate::event_queue_spec::*;
use crate::book_spec::*;
use crate::orderbook_spec::*;
use crate::fp_math_spec::*;
use crate::buffers_spec::*;
use crate::stubs::solana_program::account_info::AccountInfo;
use crate::stubs::solana_program::pubkey::Pubkey;
use crate::state::AccountTag;
use crate::state::critbit::{SlabHeader, layout_slabheader, size_slabheader, size_leafnode, size_innernode};
use crate::state::event_queue::{EventQueueHeader, layout_eventqueueheader, size_eventqueueheader, size_fillevent};
use crate::stubs::bytemuck::{pod_from, pod_bytes, pod_slice, axiom_pod_round, axiom_pod_unround, axiom_le32, axiom_le64};

pub open spec fn owned(a: &AccountInfo, pid: &Pubkey) -> bool { a.owner.0@ == pid.0@ }
/// content of an account when the instruction starts, and when it ends
pub open spec fn d0(a: &AccountInfo) -> Seq<u8> { a.data.pre() }
pub open spec fn d1(a: &AccountInfo) -> Seq<u8> { a.data.post() }
/// the genuine accounts of a market: owned, tagged, and the ones the market records
pub open spec fn real_market(pid: &Pubkey, m: &AccountInfo) -> bool { owned(m, pid) && tag64(d0(m)) == t_market() as u64 }
pub open spec fn recorded_queue(m: &AccountInfo, q: &AccountInfo) -> bool { *q.key == market_of(d0(m)).event_queue }
pub open spec fn recorded_bids(m: &AccountInfo, b: &AccountInfo) -> bool { *b.key == market_of(d0(m)).bids }
pub open spec fn recorded_asks(m: &AccountInfo, a: &AccountInfo) -> bool { *a.key == market_of(d0(m)).asks }
pub open spec fn recorded(m: &AccountInfo, q: &AccountInfo, b: &AccountInfo, a: &AccountInfo) -> bool {
    recorded_queue(m, q) && recorded_bids(m, b) && recorded_asks(m, a)
}
pub open spec fn queue_tagged(q: &AccountInfo) -> bool { tag64(d0(q)) == t_eventqueue() as u64 }
pub open spec fn bids_tagged(b: &AccountInfo) -> bool { tag8(d0(b)) == t_bids() as u8 }
pub open spec fn asks_tagged(a: &AccountInfo) -> bool { tag8(d0(a)) == t_asks() as u8 }
/// owner, address and tag of everything a cancellation reads
pub open spec fn genuine_books(pid: &Pubkey, m: &AccountInfo, q: &AccountInfo, b: &AccountInfo, a: &AccountInfo) -> bool {
    real_market(pid, m) && recorded(m, q, b, a) && owned(q, pid) && owned(b, pid) && owned(a, pid) && bids_tagged(b) && asks_tagged(a)
}
pub open spec fn genuine_queue(pid: &Pubkey, m: &AccountInfo, q: &AccountInfo) -> bool {
    real_market(pid, m) && recorded_queue(m, q) && owned(q, pid) && queue_tagged(q)
}
pub open spec fn genuine(pid: &Pubkey, m: &AccountInfo, q: &AccountInfo, b: &AccountInfo, a: &AccountInfo) -> bool {
    genuine_books(pid, m, q, b, a) && genuine_queue(pid, m, q)
}

// ---- the state of a market between instructions
pub open spec fn market_ok(d: Seq<u8>) -> bool { d.len() == market_len() && market_of(d).tick_size > 0 && market_of(d).min_base_order_size > 0 }
pub open spec fn queue_ok<C>(d: Seq<u8>) -> bool { eq_sized::<C>(d) && eq_wf(eq_of::<C>(d)) }
pub open spec fn side_ok_bytes<C>(d: Seq<u8>) -> bool { slab_sized::<C>(d) && wf(slab_of::<C>(d)) }
/// every resting order's value fits 64 bits
pub open spec fn valued<C>(m: Map<u128, OrdV<C>>) -> bool { forall|k: u128| #[trigger] m.contains_key(k) ==> mul_floor(m[k].qty as int, price_of(k) as int) < e64() }
pub open spec fn book_of<C>(d: Seq<u8>) -> Map<u128, OrdV<C>> { bk(slab_of::<C>(d)) }
/// orders that fit in a book side account
pub open spec fn room_of<C>(d: Seq<u8>) -> int { slab_n::<C>(d.len() as int) }

/// Lengths the runtime gives every account passed to an instruction; shorter data aborts the instruction.
pub open spec fn room<C>() -> bool { csz::<C>() > 0 && 40 + 2 * csz::<C>() <= usize::MAX }
/// What carries a market's tag and belongs to the program was laid out by it.
pub open spec fn laid_market(pid: &Pubkey, m: &AccountInfo) -> bool { d0(m).len() >= 8 && (real_market(pid, m) ==> market_ok(d0(m))) }
pub open spec fn laid_queue<C>(pid: &Pubkey, m: &AccountInfo, q: &AccountInfo) -> bool {
    d0(q).len() >= 32 && (genuine_queue(pid, m, q) ==> queue_ok::<C>(d0(q)))
}
pub open spec fn laid_books<C>(pid: &Pubkey, m: &AccountInfo, q: &AccountInfo, b: &AccountInfo, a: &AccountInfo) -> bool {
    &&& d0(b).len() >= 64 + csz::<C>() && d0(a).len() >= 64 + csz::<C>()
    &&& real_market(pid, m) && recorded(m, q, b, a) && owned(q, pid) && owned(b, pid) && owned(a, pid) ==>
        (bids_tagged(b) ==> side_ok_bytes::<C>(d0(b))) && (asks_tagged(a) ==> side_ok_bytes::<C>(d0(a)))
}
pub open spec fn side_account<'b, 'c>(bid: bool, b: &'c AccountInfo<'b>, a: &'c AccountInfo<'b>) -> &'c AccountInfo<'b> { if bid { b } else { a } }
/// the market account keeps its tag and its record
pub open spec fn market_kept(m: &AccountInfo) -> bool { d1(m).len() == d0(m).len() && tag64(d1(m)) == tag64(d0(m)) && market_of(d1(m)) == market_of(d0(m)) }
/// a book side account keeps its size and its tag
pub open spec fn side_kept(b: &AccountInfo) -> bool { d1(b).len() == d0(b).len() && tag8(d1(b)) == tag8(d0(b)) }

// ---- mass cancellation
pub open spec fn pick<C>(b: Map<u128, OrdV<C>>, a: Map<u128, OrdV<C>>, k: u128) -> Map<u128, OrdV<C>> { if bid_flag(k) { b } else { a } }
pub open spec fn rests<C>(b: Map<u128, OrdV<C>>, a: Map<u128, OrdV<C>>, k: u128) -> bool { pick(b, a, k).contains_key(k) }
pub open spec fn base_of<C>(b: Map<u128, OrdV<C>>, a: Map<u128, OrdV<C>>, k: u128) -> int { if rests(b, a, k) { pick(b, a, k)[k].qty as int } else { 0 } }
pub open spec fn value_of<C>(b: Map<u128, OrdV<C>>, a: Map<u128, OrdV<C>>, k: u128) -> int { mul_floor(base_of(b, a, k), price_of(k) as int) }
pub open spec fn sum_base<C>(b: Map<u128, OrdV<C>>, a: Map<u128, OrdV<C>>, ids: Seq<u128>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sum_base(b, a, ids, n - 1) + base_of(b, a, ids[n - 1]) } }
pub open spec fn sum_value<C>(b: Map<u128, OrdV<C>>, a: Map<u128, OrdV<C>>, ids: Seq<u128>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sum_value(b, a, ids, n - 1) + value_of(b, a, ids[n - 1]) } }
/// n is m without the first i ids listed for this side
pub open spec fn without<C>(m: Map<u128, OrdV<C>>, n: Map<u128, OrdV<C>>, bid: bool, ids: Seq<u128>, i: int) -> bool {
    &&& forall|k: u128| #[trigger] n.contains_key(k) <==> m.contains_key(k) && !(bid_flag(k) == bid && listed(ids, i, k))
    &&& forall|k: u128| #[trigger] n.contains_key(k) ==> n[k] == m[k]
}
pub open spec fn listed(ids: Seq<u128>, i: int, k: u128) -> bool { exists|j: int| 0 <= j < i && #[trigger] ids[j] == k }
pub proof fn lemma_mul_floor_pos(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures mul_floor(a, b) >= 0,
{
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a * b, e32());
}
pub proof fn lemma_sums<C>(b: Map<u128, OrdV<C>>, a: Map<u128, OrdV<C>>, ids: Seq<u128>, i: int, n: int)
    requires 0 <= i <= n <= ids.len(),
    ensures
        0 <= sum_base(b, a, ids, i) <= sum_base(b, a, ids, n), 0 <= sum_value(b, a, ids, i) <= sum_value(b, a, ids, n),
    decreases n
{
    if n > 0 {
        lemma_mul_floor_pos(base_of(b, a, ids[n - 1]), price_of(ids[n - 1]) as int);
        if i < n { lemma_sums(b, a, ids, i, n - 1); } else { lemma_sums(b, a, ids, i - 1, n - 1); }
    }
}
/// dropping the next listed order
pub proof fn lemma_without<C>(m: Map<u128, OrdV<C>>, n: Map<u128, OrdV<C>>, bid: bool, ids: Seq<u128>, i: int)
    requires without(m, n, bid, ids, i), 0 <= i < ids.len(),
    ensures
        bid_flag(ids[i]) != bid ==> without(m, n, bid, ids, i + 1),
        bid_flag(ids[i]) == bid ==> without(m, n.remove(ids[i]), bid, ids, i + 1),
        bid_flag(ids[i]) == bid && !n.contains_key(ids[i]) ==> !m.contains_key(ids[i]) || listed(ids, i, ids[i]),
        bid_flag(ids[i]) == bid && n.contains_key(ids[i]) ==> m.contains_key(ids[i]) && n[ids[i]] == m[ids[i]],
{
    let k0 = ids[i];
    assert forall|k: u128| listed(ids, i + 1, k) == (listed(ids, i, k) || k == k0) by {
        if listed(ids, i + 1, k) { let j = choose|j: int| 0 <= j < i + 1 && #[trigger] ids[j] == k; if j < i { assert(listed(ids, i, k)); } }
        if k == k0 { assert(ids[i] == k); }
    }
    if bid_flag(k0) == bid {
        let r = n.remove(k0);
        assert forall|k: u128| #[trigger] r.contains_key(k) <==> m.contains_key(k) && !(bid_flag(k) == bid && listed(ids, i + 1, k)) by { assert(n.contains_key(k) || !n.contains_key(k)); }
    }
}
pub proof fn lemma_without_none<C>(m: Map<u128, OrdV<C>>, bid: bool, ids: Seq<u128>)
    ensures without(m, m, bid, ids, 0),
{ }

// ---- new orders
/// the whole state a market keeps between instructions
pub open spec fn prices_ok<C>(m: Map<u128, OrdV<C>>, tick: u64) -> bool { forall|k: u128| #[trigger] m.contains_key(k) ==> price_of(k) > 0 && price_of(k) as int % tick as int == 0 }
pub open spec fn live<C>(m: Seq<u8>, q: Seq<u8>, b: Seq<u8>, a: Seq<u8>) -> bool {
    &&& market_ok(m) && queue_ok::<C>(q) && side_ok_bytes::<C>(b) && side_ok_bytes::<C>(a)
    &&& ids_ok(book_of::<C>(b), true, eq_of::<C>(q).seq) && ids_ok(book_of::<C>(a), false, eq_of::<C>(q).seq)
}
pub open spec fn live_min<C>(m: Seq<u8>, b: Seq<u8>, a: Seq<u8>) -> bool { min_ok(book_of::<C>(b), market_of(m).min_base_order_size) && min_ok(book_of::<C>(a), market_of(m).min_base_order_size) }
pub open spec fn live_uncrossed<C>(b: Seq<u8>, a: Seq<u8>) -> bool { uncrossed(book_of::<C>(b), book_of::<C>(a)) }
pub open spec fn live_prices<C>(m: Seq<u8>, b: Seq<u8>, a: Seq<u8>) -> bool { prices_ok(book_of::<C>(b), market_of(m).tick_size) && prices_ok(book_of::<C>(a), market_of(m).tick_size) }
pub open spec fn live_valued<C>(b: Seq<u8>, a: Seq<u8>) -> bool { valued(book_of::<C>(b)) && valued(book_of::<C>(a)) }
pub open spec fn queue_kept(q: &AccountInfo) -> bool { d1(q).len() == d0(q).len() && tag64(d1(q)) == tag64(d0(q)) }
pub open spec fn price_accepted(m: Seq<u8>, limit: u64, post: bool) -> bool { limit as int % market_of(m).tick_size as int == 0 && (post ==> limit >= market_of(m).tick_size) }
pub open spec fn tree_of<C>(b: Seq<u8>, a: Seq<u8>, s: crate::state::Side) -> SlabV<C> { if s is Bid { slab_of::<C>(b) } else { slab_of::<C>(a) } }

// ---- opening and closing
pub open spec fn zeroed(d: Seq<u8>) -> bool { forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == 0 }
pub open spec fn lamports0(a: &AccountInfo) -> int { a.lamports.pre() as int }
pub open spec fn lamports1(a: &AccountInfo) -> int { a.lamports.post() as int }
pub open spec fn recorded_as(d: Seq<u8>, q: Pubkey, b: Pubkey, a: Pubkey, min: u64, tick: u64) -> bool {
    let m = market_of(d);
    m.event_queue == q && m.bids == b && m.asks == a && m.min_base_order_size == min && m.tick_size == tick
}
pub proof fn lemma_zero32(x: u32, b: Seq<u8>)
    requires pod_bytes::<u32>(x) == b, b.len() == 4, zeroed(b),
    ensures x == 0,
{ axiom_pod_round(x); axiom_le32(b); }
pub proof fn lemma_zero64(x: u64, b: Seq<u8>)
    requires pod_bytes::<u64>(x) == b, b.len() == 8, zeroed(b),
    ensures x == 0,
{ axiom_pod_round(x); axiom_le64(b); }
/// the first byte of a tag
pub broadcast proof fn bl_tag64(b: Seq<u8>)
    requires b.len() >= 8,
    ensures (#[trigger] tag64(b)) < 0x100 ==> tag8(b) == tag64(b),
{
    axiom_le64(b.subrange(0, 8));
    let t = b.subrange(0, 8);
    let u = t[1] + 0x100 * t[2] + 0x1_0000 * t[3] + 0x100_0000 * t[4] + 0x1_0000_0000 * t[5] + 0x100_0000_0000 * t[6] + 0x1_0000_0000_0000 * t[7];
    assert(tag64(b) == t[0] + 0x100 * u);
    assert(t[0] == b[0]);
}
/// freshly zeroed accounts read as an empty book side and an empty queue
pub proof fn lemma_fresh_side<C>(o: Seq<u8>, t: u8)
    requires zeroed(o), slab_sized::<C>(o), room_of::<C>(o) <= 0x8000_0000,
    ensures side_ok_bytes::<C>(o.update(0, t)), book_of::<C>(o.update(0, t)) == Map::<u128, OrdV<C>>::empty(),
{
    let d = o.update(0, t);
    let s = slab_of::<C>(d);
    let n = slab_n::<C>(d.len() as int);
    lemma_slab_cap::<C>(d.len() as int);
    size_slabheader(); size_leafnode(); size_innernode();
    let hb = d.subrange(8, 40);
    axiom_pod_unround::<SlabHeader>(hb);
    layout_slabheader(s.h);
    lemma_zero32(s.h.leaf_free_list_len, hb.subrange(0, 4));
    lemma_zero32(s.h.leaf_bump_index, hb.subrange(8, 12));
    lemma_zero32(s.h.inner_node_free_list_len, hb.subrange(12, 16));
    lemma_zero32(s.h.inner_node_bump_index, hb.subrange(20, 24));
    lemma_zero32(s.h.leaf_count, hb.subrange(28, 32));
    assert(s.lv.len() == n && s.inn.len() == n - 1 && s.cb.len() == n);
    let w = Wit { t: None, fl: Seq::empty(), ifl: Seq::empty() };
    assert(wfw(s, w));
    lemma_empty_side(s);
}
pub proof fn lemma_empty_side<C>(s: SlabV<C>)
    requires wf(s), s.h.leaf_count == 0,
    ensures bk(s) == Map::<u128, OrdV<C>>::empty(),
{
    lemma_slots_dom(s);
    lemma_bk_same(s);
    assert(bk(s) =~= Map::<u128, OrdV<C>>::empty()) by {
        assert(bk(s).dom().len() == 0);
        assert(bk(s).dom() =~= Set::<u128>::empty());
    }
}
pub proof fn lemma_fresh_queue<C>(o: Seq<u8>, d: Seq<u8>)
    requires zeroed(o), eq_sized::<C>(o), eq_n::<C>(o.len() as int) >= 1, o.len() <= usize::MAX, d.len() == o.len(), eq_of::<C>(d) == eq_of::<C>(o),
    ensures queue_ok::<C>(d), q(eq_of::<C>(d)).len() == 0, eq_of::<C>(d).seq == 0,
{
    let v = eq_of::<C>(o);
    size_eventqueueheader(); size_fillevent();
    lemma_eq_cap::<C>(o.len() as int);
    let hb = o.subrange(8, 32);
    let h = pod_from::<EventQueueHeader>(hb);
    axiom_pod_unround::<EventQueueHeader>(hb);
    layout_eventqueueheader(h);
    lemma_zero64(h.head, hb.subrange(0, 8));
    lemma_zero64(h.count, hb.subrange(8, 16));
    lemma_zero64(h.seq_num, hb.subrange(16, 24));
    let n = eq_n::<C>(o.len() as int);
    assert(v.ev.len() == n && v.cb.len() == 2 * n);
    assert(n <= 0x0fff_ffff_ffff_ffff) by (nonlinear_arith) requires n * eq_slot::<C>() + 32 <= usize::MAX, eq_slot::<C>() >= 40, n >= 0;
}
/// the events an instruction added to the queue
pub open spec fn added<C>(q: &AccountInfo) -> Seq<Ent<C>> { nev(eq_of::<C>(d0(q)), eq_of::<C>(d1(q))) }
/// matching only takes away
pub open spec fn less<C>(m: Map<u128, OrdV<C>>, n: Map<u128, OrdV<C>>) -> bool { forall|k: u128| #[trigger] n.contains_key(k) ==> m.contains_key(k) && n[k].qty <= m[k].qty }
pub proof fn lemma_less<C>(taker: crate::state::Side, cb: C, m: Map<u128, OrdV<C>>, es: Seq<Ent<C>>, n: int)
    requires 0 <= n <= es.len(), forall|i: int| #![trigger es[i]] 0 <= i < n ==> ok_cons(taker, cb, book_at(m, es, i), es[i]),
    ensures less(m, book_at(m, es, n)),
    decreases n,
{
    if n > 0 {
        lemma_less(taker, cb, m, es, n - 1);
        assert(ok_cons(taker, cb, book_at(m, es, n - 1), es[n - 1]));
    }
}
pub proof fn lemma_floor_mono(a: int, b: int, p: int)
    requires 0 <= a <= b, p >= 0,
    ensures mul_floor(a, p) <= mul_floor(b, p),
{
    assert(a * p <= b * p) by (nonlinear_arith) requires 0 <= a <= b, p >= 0;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(a * p, b * p, e32());
}
pub proof fn lemma_floor_ceil(a: int, p: int)
    ensures mul_floor(a, p) <= mul_ceil(a, p),
{
    vstd::arithmetic::div_mod::lemma_div_is_ordered(a * p, a * p + e32() - 1, e32());
}
pub proof fn lemma_valued_less<C>(m: Map<u128, OrdV<C>>, n: Map<u128, OrdV<C>>)
    requires less(m, n), valued(m),
    ensures valued(n),
{
    assert forall|k: u128| #[trigger] n.contains_key(k) implies mul_floor(n[k].qty as int, price_of(k) as int) < e64() by {
        lemma_floor_mono(n[k].qty as int, m[k].qty as int, price_of(k) as int);
    }
}

// ---- what every instruction preserves
/// some orders are gone, the others are untouched
pub open spec fn fewer<C>(m: Map<u128, OrdV<C>>, n: Map<u128, OrdV<C>>) -> bool { forall|k: u128| #[trigger] n.contains_key(k) ==> m.contains_key(k) && n[k] == m[k] }
pub proof fn lemma_without_fewer<C>(m: Map<u128, OrdV<C>>, n: Map<u128, OrdV<C>>, bid: bool, ids: Seq<u128>, i: int)
    requires without(m, n, bid, ids, i),
    ensures fewer(m, n),
{ }
pub proof fn lemma_fewer<C>(b0: Map<u128, OrdV<C>>, b1: Map<u128, OrdV<C>>, a0: Map<u128, OrdV<C>>, a1: Map<u128, OrdV<C>>, seq: u64, min: u64, tick: u64)
    requires fewer(b0, b1), fewer(a0, a1),
    ensures
        ids_ok(b0, true, seq) ==> ids_ok(b1, true, seq), ids_ok(a0, false, seq) ==> ids_ok(a1, false, seq),
        min_ok(b0, min) ==> min_ok(b1, min), min_ok(a0, min) ==> min_ok(a1, min),
        prices_ok(b0, tick) ==> prices_ok(b1, tick), prices_ok(a0, tick) ==> prices_ok(a1, tick),
        valued(b0) ==> valued(b1), valued(a0) ==> valued(a1),
        uncrossed(b0, a0) ==> uncrossed(b1, a1),
{ }
/// an account prepared for a book side: zeroed, of the size computed for a number of orders
pub open spec fn fresh_side<C>(d: Seq<u8>) -> bool { zeroed(d) && slab_sized::<C>(d) && room_of::<C>(d) <= 0x8000_0000 }
