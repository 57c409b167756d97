// Ghost view of the matching loop: the events an order produces, replayed over the book.
use crate::critbit_spec::*;
use crate::book_spec::*;
use crate::event_queue_spec::*;
use crate::fp_math_spec::*;
use crate::state_spec::*;
use crate::state::{Side, SelfTradeBehavior};
use crate::state::critbit::LeafNode;
use crate::state::event_queue::{FillEvent, OutEvent, EventQueueHeader};
use crate::state::orderbook::{CallbackInfo, OrderBookState};
use crate::stubs::bytemuck::reinterpret;
use vstd::std_specs::cmp::PartialEqSpec;

//@only host
pub open spec fn oid(x: [u64; 2]) -> u128 { ((x@[0] as u128) + ((x@[1] as u128) * 0x1_0000_0000_0000_0000u128)) as u128 }
pub proof fn lemma_oid_split(k: u128)
    ensures
        forall|x: [u64; 2]| x@[0] == k as u64 && x@[1] == (k >> 64) as u64 ==> #[trigger] oid(x) == k,
{
    let a = k as u64;
    let b = (k >> 64) as u64;
    assert(add(mul(b as u128, 0x1_0000_0000_0000_0000u128), a as u128) == k && mul(b as u128, 0x1_0000_0000_0000_0000u128) <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128)
        by (bit_vector) requires a == k as u64, b == (k >> 64) as u64;
    assert((b as u128) * 0x1_0000_0000_0000_0000u128 <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) by (nonlinear_arith) requires b <= 0xffff_ffff_ffff_ffff;
}
//@only solana
pub open spec fn oid(x: u128) -> u128 { x }
pub proof fn lemma_oid_split(k: u128) { }
//@only both

pub open spec fn tree<C>(o: OrderBookState<'_, C>, side: Side) -> SlabV<C> { if side is Bid { o.bids.sv() } else { o.asks.sv() } }
pub open spec fn is_bid(s: Side) -> bool { s is Bid }
pub open spec fn side_u8(s: Side) -> u8 { if s is Bid { 0 } else { 1 } }
pub open spec fn crosses(taker: Side, limit: u64, price: u64) -> bool { if taker is Bid { limit >= price } else { limit <= price } }

// ---- events
pub open spec fn is_fill<C>(e: Ent<C>) -> bool { e.e.tag == 0 }
pub open spec fn outv<C>(e: Ent<C>) -> OutEvent { reinterpret::<FillEvent, OutEvent>(e.e) }
pub open spec fn eid<C>(e: Ent<C>) -> u128 { if is_fill(e) { oid(e.e.maker_order_id) } else { oid(outv(e).order_id) } }
pub open spec fn fbase<C>(e: Ent<C>) -> int { if is_fill(e) { e.e.base_size as int } else { 0 } }
pub open spec fn fquote<C>(e: Ent<C>) -> int { if is_fill(e) { e.e.quote_size as int } else { 0 } }
/// the events added between two states of the queue
pub open spec fn evs<C>(n0: int, v: EqV<C>) -> Seq<Ent<C>> { q(v).skip(n0) }
pub open spec fn step<C>(m: Map<u128, OrdV<C>>, e: Ent<C>) -> Map<u128, OrdV<C>> {
    if is_fill(e) { m.insert(eid(e), OrdV { qty: (m[eid(e)].qty - e.e.base_size) as u64, cb: m[eid(e)].cb }) }
    else { m.remove(eid(e)) }
}
/// the opposing side after the first i events
pub open spec fn book_at<C>(m: Map<u128, OrdV<C>>, es: Seq<Ent<C>>, i: int) -> Map<u128, OrdV<C>>
    decreases i,
{ if i <= 0 { m } else { step(book_at(m, es, i - 1), es[i - 1]) } }
pub open spec fn bsum<C>(es: Seq<Ent<C>>, i: int) -> int
    decreases i,
{ if i <= 0 { 0 } else { bsum(es, i - 1) + fbase(es[i - 1]) } }
pub open spec fn qsum<C>(es: Seq<Ent<C>>, i: int) -> int
    decreases i,
{ if i <= 0 { 0 } else { qsum(es, i - 1) + fquote(es[i - 1]) } }
pub open spec fn same_owner<C: CallbackInfo>(a: C, b: C) -> bool where C::CallbackId: PartialEq { a.cid().eq_spec(&b.cid()) }
/// a resting order of the taker's own user, cancelled instead of matched
pub open spec fn is_cancel<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, e: Ent<C>) -> bool where C::CallbackId: PartialEq {
    !is_fill(e) && stb is CancelProvide && same_owner(cb, e.m)
}
pub open spec fn weight<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, e: Ent<C>) -> int where C::CallbackId: PartialEq {
    if is_fill(e) || is_cancel(stb, cb, e) { 1 } else { 0 }
}
/// how many makers were matched or cancelled
pub open spec fn steps<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, es: Seq<Ent<C>>, i: int) -> int where C::CallbackId: PartialEq
    decreases i,
{ if i <= 0 { 0 } else { steps(stb, cb, es, i - 1) + weight(stb, cb, es[i - 1]) } }

pub proof fn lemma_ev_push<C>(m: Map<u128, OrdV<C>>, es: Seq<Ent<C>>, e: Ent<C>)
    ensures
        forall|i: int| 0 <= i <= es.len() ==> #[trigger] book_at(m, es.push(e), i) == book_at(m, es, i),
        forall|i: int| 0 <= i <= es.len() ==> #[trigger] bsum(es.push(e), i) == bsum(es, i),
        forall|i: int| 0 <= i <= es.len() ==> #[trigger] qsum(es.push(e), i) == qsum(es, i),
        book_at(m, es.push(e), (es.len() + 1) as int) == step(book_at(m, es, es.len() as int), e),
        bsum(es.push(e), (es.len() + 1) as int) == bsum(es, es.len() as int) + fbase(e),
        qsum(es.push(e), (es.len() + 1) as int) == qsum(es, es.len() as int) + fquote(e),
{
    assert forall|i: int| 0 <= i <= es.len() implies #[trigger] book_at(m, es.push(e), i) == book_at(m, es, i) by { lemma_pre1(m, es, e, i); }
    assert forall|i: int| 0 <= i <= es.len() implies #[trigger] bsum(es.push(e), i) == bsum(es, i) by { lemma_pre1(m, es, e, i); }
    assert forall|i: int| 0 <= i <= es.len() implies #[trigger] qsum(es.push(e), i) == qsum(es, i) by { lemma_pre1(m, es, e, i); }
    assert(es.push(e)[es.len() as int] == e);
    let n = (es.len() + 1) as int;
    assert(book_at(m, es.push(e), n) == step(book_at(m, es.push(e), n - 1), es.push(e)[n - 1]));
    lemma_pre1(m, es, e, n - 1);
}
proof fn lemma_pre1<C>(m: Map<u128, OrdV<C>>, es: Seq<Ent<C>>, e: Ent<C>, i: int)
    requires 0 <= i <= es.len(),
    ensures book_at(m, es.push(e), i) == book_at(m, es, i), bsum(es.push(e), i) == bsum(es, i), qsum(es.push(e), i) == qsum(es, i),
    decreases i,
{
    if i > 0 { lemma_pre1(m, es, e, i - 1); assert(es.push(e)[i - 1] == es[i - 1]); }
}
pub proof fn lemma_steps_push<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, es: Seq<Ent<C>>, e: Ent<C>) where C::CallbackId: PartialEq
    ensures steps(stb, cb, es.push(e), (es.len() + 1) as int) == steps(stb, cb, es, es.len() as int) + weight(stb, cb, e),
{
    lemma_steps_pre(stb, cb, es, e, es.len() as int);
    assert(es.push(e)[es.len() as int] == e);
}
proof fn lemma_steps_pre<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, es: Seq<Ent<C>>, e: Ent<C>, i: int) where C::CallbackId: PartialEq
    requires 0 <= i <= es.len(),
    ensures steps(stb, cb, es.push(e), i) == steps(stb, cb, es, i),
    decreases i,
{
    if i > 0 { lemma_steps_pre(stb, cb, es, e, i - 1); assert(es.push(e)[i - 1] == es[i - 1]); }
}
/// one more event in the queue is one more event of this order
pub proof fn lemma_evs_push<C>(n0: int, o: EqV<C>, s: EqV<C>)
    requires 0 <= n0 <= q(o).len(), q(s) == q(o).push(q(s).last()), q(s).len() == q(o).len() + 1,
    ensures evs(n0, s) == evs(n0, o).push(q(s).last()), q(s).take(n0) == q(o).take(n0),
{
    assert(evs(n0, s) =~= evs(n0, o).push(q(s).last()));
    assert(q(s).take(n0) =~= q(o).take(n0));
}

// ---- per-event conditions (m: opposing side just before the event)
/// M01
pub open spec fn ok_prio<C>(taker: Side, limit: u64, m: Map<u128, OrdV<C>>, e: Ent<C>) -> bool {
    best(m, is_bid(opp(taker)), eid(e)) && crosses(taker, limit, price_of(eid(e)))
}
/// M03
pub open spec fn quote_of(taker: Side, base: int, price: u64) -> int { if taker is Bid { mul_ceil(base, price as int) } else { mul_floor(base, price as int) } }
pub open spec fn ok_quote<C>(taker: Side, e: Ent<C>) -> bool { is_fill(e) ==> e.e.quote_size == quote_of(taker, e.e.base_size as int, price_of(eid(e))) }
/// M04
pub open spec fn ok_cons<C>(taker: Side, cb: C, m: Map<u128, OrdV<C>>, e: Ent<C>) -> bool {
    &&& m.contains_key(eid(e))
    &&& e.m == m[eid(e)].cb
    &&& is_fill(e) ==> e.e.base_size <= m[eid(e)].qty && e.t == cb && e.e.taker_side == side_u8(taker)
    &&& !is_fill(e) ==> outv(e).base_size == m[eid(e)].qty && outv(e).side == side_u8(opp(taker))
}
/// M06
pub open spec fn ok_self<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, e: Ent<C>) -> bool where C::CallbackId: PartialEq {
    is_fill(e) && !(stb is DecrementTake) ==> !same_owner(cb, e.m)
}
/// M08: an order leaves the book only when it is too small, or cancelled to avoid a self trade
pub open spec fn ok_leave<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, min: u64, m: Map<u128, OrdV<C>>, e: Ent<C>) -> bool where C::CallbackId: PartialEq {
    !is_fill(e) ==> m[eid(e)].qty < min || is_cancel(stb, cb, e)
}
/// M10: how much one match takes
pub open spec fn fillq(qty: int, br: int, qr: int, price: u64) -> int {
    let a = if qty <= br { qty } else { br };
    let b = match qdiv(qr, price as int) { Some(x) => x as int, None => 0xffff_ffff_ffff_ffff };
    if a <= b { a } else { b }
}
pub open spec fn ok_size<C>(m: Map<u128, OrdV<C>>, br: int, qr: int, e: Ent<C>) -> bool {
    is_fill(e) ==> e.e.base_size == fillq(m[eid(e)].qty as int, br, qr, price_of(eid(e)))
}
/// the last of the first n events cancels an own order
pub open spec fn cancels_last<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, es: Seq<Ent<C>>, n: int) -> bool where C::CallbackId: PartialEq {
    0 < n <= es.len() && is_cancel(stb, cb, es[n - 1])
}
/// nothing more can be matched
pub open spec fn no_more<C>(taker: Side, limit: u64, m: Map<u128, OrdV<C>>, br: int, qr: int) -> bool {
    forall|k: u128| #[trigger] best(m, is_bid(opp(taker)), k) ==> !crosses(taker, limit, price_of(k))
        || fillq(m[k].qty as int, br, qr, price_of(k)) == 0
        || quote_of(taker, fillq(m[k].qty as int, br, qr, price_of(k)), price_of(k)) == 0
}
pub open spec fn no_cross<C>(taker: Side, limit: u64, m: Map<u128, OrdV<C>>) -> bool {
    forall|k: u128| #[trigger] m.contains_key(k) ==> !crosses(taker, limit, price_of(k))
}
pub proof fn lemma_best_no_cross<C>(taker: Side, limit: u64, m: Map<u128, OrdV<C>>, k: u128)
    requires best(m, is_bid(opp(taker)), k), !crosses(taker, limit, price_of(k)),
    ensures no_cross(taker, limit, m),
{
    assert forall|j: u128| #[trigger] m.contains_key(j) implies !crosses(taker, limit, price_of(j)) by {
        lemma_price_mono(j, k); lemma_price_mono(k, j);
    }
}
pub proof fn lemma_price_mono(a: u128, b: u128)
    ensures a <= b ==> price_of(a) <= price_of(b),
{
    if a <= b {
        assert((a >> 64u128) <= (b >> 64u128)) by (bit_vector) requires a <= b;
        assert((a >> 64u128) <= 0xffff_ffff_ffff_ffffu128 && (b >> 64u128) <= 0xffff_ffff_ffff_ffffu128) by (bit_vector);
    }
}
pub open spec fn uncrossed<C>(bids: Map<u128, OrdV<C>>, asks: Map<u128, OrdV<C>>) -> bool {
    forall|b: u128, a: u128| #[trigger] bids.contains_key(b) && #[trigger] asks.contains_key(a) ==> price_of(b) < price_of(a)
}
pub open spec fn min_ok<C>(m: Map<u128, OrdV<C>>, min: u64) -> bool { forall|k: u128| #[trigger] m.contains_key(k) ==> m[k].qty >= min }
/// every resting id carries its side and an already used sequence number
pub open spec fn ids_ok<C>(m: Map<u128, OrdV<C>>, bid: bool, seq: u64) -> bool {
    forall|k: u128| #[trigger] m.contains_key(k) ==> bid_flag(k) == bid && seq_of(k, bid) < seq
}
pub open spec fn new_id(side: Side, price: u64, seq: u64) -> u128 { mk_id(price, if side is Bid { (0xffff_ffff_ffff_ffff - seq) as u64 } else { seq }) }
/// between two orders of one side at one price the earlier one has priority
pub proof fn lemma_time_priority(bid: bool, a: u128, b: u128)
    requires price_of(a) == price_of(b), seq_of(a, bid) < seq_of(b, bid),
    ensures better(bid, a, b),
{
    lemma_split_id(a);
    lemma_split_id(b);
}
pub proof fn lemma_price_priority(bid: bool, a: u128, b: u128)
    requires if bid { price_of(a) > price_of(b) } else { price_of(a) < price_of(b) },
    ensures better(bid, a, b),
{
    lemma_split_id(a);
    lemma_split_id(b);
}
proof fn lemma_split_id(k: u128)
    ensures k == price_of(k) * 0x1_0000_0000_0000_0000 + low_of(k),
{
    assert((k >> 64u128) <= 0xffff_ffff_ffff_ffffu128 && k & 0xffff_ffff_ffff_ffffu128 <= 0xffff_ffff_ffff_ffffu128 && k == add(mul(k >> 64u128, 0x1_0000_0000_0000_0000u128), k & 0xffff_ffff_ffff_ffffu128)
        && mul(k >> 64u128, 0x1_0000_0000_0000_0000u128) <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) by (bit_vector);
    let p = k >> 64u128;
    assert(p * 0x1_0000_0000_0000_0000u128 <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) by (nonlinear_arith) requires p <= 0xffff_ffff_ffff_ffffu128;
}
pub proof fn lemma_new_id(side: Side, price: u64, seq: u64)
    requires seq < 0x8000_0000_0000_0000u64,
    ensures
        price_of(new_id(side, price, seq)) == price,
        bid_flag(new_id(side, price, seq)) == is_bid(side),
        seq_of(new_id(side, price, seq), is_bid(side)) == seq,
{
    lemma_mk_id(price, if side is Bid { (0xffff_ffff_ffff_ffff - seq) as u64 } else { seq });
}

// ---- fixed point facts
/// spending at most floor(q/p) base costs at most q quote
pub proof fn lemma_afford(b: int, qr: int, p: int)
    requires 0 <= b, 0 <= qr < e64(), 0 <= p < e64(), b < e64(), p > 0 ==> (match qdiv(qr, p) { Some(x) => b <= x, None => true }),
    ensures
        0 <= mul_floor(b, p) <= mul_ceil(b, p) <= qr,
{
    if p == 0 {
        assert(b * p == 0) by (nonlinear_arith) requires p == 0;
    } else {
        let d = (qr * e32()) / p;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(qr * e32(), p);
        vstd::arithmetic::div_mod::lemma_mod_bound(qr * e32(), p);
        assert(b <= d);
        assert(b * p <= d * p) by (nonlinear_arith) requires b <= d, p > 0;
        assert(d * p <= qr * e32()) by (nonlinear_arith) requires qr * e32() == p * d + (qr * e32()) % p, (qr * e32()) % p >= 0;
        assert(b * p >= 0) by (nonlinear_arith) requires b >= 0, p > 0;
    }
    let x = b * p;
    assert(0 <= x <= qr * e32());
    assert((x + e32() - 1) / e32() <= qr) by {
        assert((x + e32() - 1) / e32() < qr + 1) by (nonlinear_arith) requires x <= qr * e32(), e32() == 0x1_0000_0000;
    }
    assert(x / e32() <= (x + e32() - 1) / e32() && 0 <= x / e32()) by (nonlinear_arith) requires x >= 0, e32() == 0x1_0000_0000;
}

/// the queue only grew
pub open spec fn grown<C>(o: EqV<C>, s: EqV<C>) -> bool {
    q(s).len() >= q(o).len() && q(s).take(q(o).len() as int) == q(o) && s.ev.len() == o.ev.len()
}
pub open spec fn nev<C>(o: EqV<C>, s: EqV<C>) -> Seq<Ent<C>> { evs(q(o).len() as int, s) }
/// one or two more events in the queue are one or two more events of this order
pub proof fn lemma_grow<C>(q0: EqV<C>, m: Map<u128, OrdV<C>>, o: EqV<C>, s: EqV<C>)
    requires
        grown(q0, o), s.ev.len() == o.ev.len(),
        q(s) == q(o) || (q(s).len() == q(o).len() + 1 && q(s).drop_last() == q(o))
            || (q(s).len() == q(o).len() + 2 && q(s).drop_last().drop_last() == q(o)),
    ensures
        grown(q0, s),
        q(s).len() == q(o).len() + 1 ==> nev(q0, s) == nev(q0, o).push(q(s).last()),
        q(s).len() == q(o).len() + 2 ==> nev(q0, s) == nev(q0, o).push(q(s).drop_last().last()).push(q(s).last()),
        forall|i: int| 0 <= i <= nev(q0, o).len() ==> #[trigger] book_at(m, nev(q0, s), i) == book_at(m, nev(q0, o), i),
        forall|i: int| 0 <= i <= nev(q0, o).len() ==> #[trigger] bsum(nev(q0, s), i) == bsum(nev(q0, o), i),
        forall|i: int| 0 <= i <= nev(q0, o).len() ==> #[trigger] qsum(nev(q0, s), i) == qsum(nev(q0, o), i),
        ({
            let es = nev(q0, o);
            let n = es.len() as int;
            let fs = nev(q0, s);
            &&& q(s).len() == q(o).len() + 1 ==> book_at(m, fs, n + 1) == step(book_at(m, es, n), fs[n])
                && bsum(fs, n + 1) == bsum(es, n) + fbase(fs[n]) && qsum(fs, n + 1) == qsum(es, n) + fquote(fs[n])
            &&& q(s).len() == q(o).len() + 2 ==> book_at(m, fs, n + 1) == step(book_at(m, es, n), fs[n]) && book_at(m, fs, n + 2) == step(step(book_at(m, es, n), fs[n]), fs[n + 1])
                && bsum(fs, n + 1) == bsum(es, n) + fbase(fs[n]) && qsum(fs, n + 1) == qsum(es, n) + fquote(fs[n])
                && bsum(fs, n + 2) == bsum(es, n) + fbase(fs[n]) + fbase(fs[n + 1]) && qsum(fs, n + 2) == qsum(es, n) + fquote(fs[n]) + fquote(fs[n + 1])
        }),
{
    let es = nev(q0, o);
    let n = es.len() as int;
    let fs = nev(q0, s);
    if q(s).len() == q(o).len() + 1 {
        let e = q(s).last();
        assert(fs =~= es.push(e));
        lemma_ev_push(m, es, e);
        assert(q(s).take(q(q0).len() as int) =~= q(s).drop_last().take(q(q0).len() as int));
    } else if q(s).len() == q(o).len() + 2 {
        let e = q(s).drop_last().last();
        let f = q(s).last();
        assert(q(s)[q(o).len() as int] == e);
        assert forall|i: int| 0 <= i < q(o).len() implies q(s)[i] == q(o)[i] by { assert(q(s)[i] == q(s).drop_last().drop_last()[i]); }
        assert(fs =~= es.push(e).push(f));
        lemma_ev_push(m, es, e);
        lemma_ev_push(m, es.push(e), f);
        assert(q(s).take(q(q0).len() as int) =~= q(s).drop_last().drop_last().take(q(q0).len() as int));
    } else {
        assert(q(s).take(q(q0).len() as int) == q(o).take(q(q0).len() as int));
        assert(fs == es);
    }
}
/// comparing callback identities with `==` is comparing them mathematically
pub open spec fn id_cmp<C: CallbackInfo>() -> bool where C::CallbackId: PartialEq { <C::CallbackId as PartialEqSpec>::obeys_eq_spec() }

pub broadcast proof fn bl_qlen<C>(v: EqV<C>)
    ensures #[trigger] q(v).len() == v.count,
{}
pub proof fn lemma_none<C>(v: EqV<C>, m: Map<u128, OrdV<C>>)
    ensures nev(v, v).len() == 0, q(v).take(q(v).len() as int) == q(v), book_at(m, nev(v, v), 0) == m, bsum(nev(v, v), 0) == 0, qsum(nev(v, v), 0) == 0,
{
    assert(nev(v, v) =~= Seq::<Ent<C>>::empty());
    assert(q(v).take(q(v).len() as int) =~= q(v));
}

pub broadcast proof fn bl_out_gen(o: OutEvent)
    ensures (#[trigger] out_gen(o)).tag == 1, reinterpret::<FillEvent, OutEvent>(out_gen(o)) == (OutEvent { tag: 1, ..o }),
{ lemma_out_gen(o); }

/// drawing a sequence number leaves the events alone
pub proof fn lemma_seq<C>(o: EqV<C>, s: EqV<C>)
    requires s == (EqV { seq: s.seq, ..o }),
    ensures q(s) == q(o), eq_wf(o) ==> eq_wf(s), forall|v: EqV<C>| #[trigger] nev(v, s) == nev(v, o),
{
    assert forall|i: int| phys(s, i) == phys(o, i) by {}
    assert(q(s) =~= q(o));
}
/// a new order's id is not on the book
pub proof fn lemma_fresh<C>(m: Map<u128, OrdV<C>>, side: Side, price: u64, seq: u64)
    requires seq < 0x8000_0000_0000_0000u64, ids_ok(m, is_bid(side), seq),
    ensures
        !m.contains_key(new_id(side, price, seq)),
        price_of(new_id(side, price, seq)) == price,
        bid_flag(new_id(side, price, seq)) == is_bid(side),
        seq_of(new_id(side, price, seq), is_bid(side)) == seq,
{
    lemma_new_id(side, price, seq);
}

pub broadcast proof fn bl_lkey(l: LeafNode)
    ensures #[trigger] lkey(l) == oid(l.key),
{}

pub proof fn lemma_steps_grow<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, q0: EqV<C>, o: EqV<C>, s: EqV<C>) where C::CallbackId: PartialEq
    requires
        grown(q0, o), s.ev.len() == o.ev.len(),
        q(s) == q(o) || (q(s).len() == q(o).len() + 1 && q(s).drop_last() == q(o))
            || (q(s).len() == q(o).len() + 2 && q(s).drop_last().drop_last() == q(o)),
    ensures
        ({
            let es = nev(q0, o);
            let n = es.len() as int;
            let fs = nev(q0, s);
            &&& q(s) == q(o) ==> fs == es
            &&& steps(stb, cb, fs, n) == steps(stb, cb, es, n)
            &&& q(s).len() == q(o).len() + 1 ==> fs.len() == n + 1 && steps(stb, cb, fs, n + 1) == steps(stb, cb, es, n) + weight(stb, cb, fs[n])
            &&& q(s).len() == q(o).len() + 2 ==> fs.len() == n + 2 && steps(stb, cb, fs, n + 2) == steps(stb, cb, es, n) + weight(stb, cb, fs[n]) + weight(stb, cb, fs[n + 1])
        }),
{
    let es = nev(q0, o);
    let n = es.len() as int;
    let fs = nev(q0, s);
    lemma_grow::<C>(q0, Map::empty(), o, s);
    if q(s).len() == q(o).len() + 1 {
        lemma_steps_push(stb, cb, es, fs[n]);
        lemma_steps_pre(stb, cb, es, fs[n], n);
    } else if q(s).len() == q(o).len() + 2 {
        lemma_steps_push(stb, cb, es, fs[n]);
        lemma_steps_push(stb, cb, es.push(fs[n]), fs[n + 1]);
        lemma_steps_pre(stb, cb, es, fs[n], n);
        lemma_steps_pre(stb, cb, es.push(fs[n]), fs[n + 1], n);
        lemma_steps_pre(stb, cb, es.push(fs[n]), fs[n + 1], n + 1);
    } else {
        assert(fs =~= es);
    }
}
// ---- after the matching
/// the last event is the eviction of the worst order of the taker's own side
pub open spec fn evicted<C>(side: Side, es: Seq<Ent<C>>) -> bool { es.len() > 0 && !is_fill(es.last()) && outv(es.last()).side == side_u8(side) }
/// how many of the events come from matching
pub open spec fn nm<C>(side: Side, es: Seq<Ent<C>>) -> int { if evicted(side, es) { es.len() - 1 } else { es.len() as int } }
/// an order that was not cancelled for self trading leaves right after a fill
pub open spec fn ok_after<C: CallbackInfo>(stb: SelfTradeBehavior, cb: C, es: Seq<Ent<C>>, i: int) -> bool where C::CallbackId: PartialEq {
    !is_fill(es[i]) && !is_cancel(stb, cb, es[i]) ==> i > 0 && is_fill(es[i - 1]) && eid(es[i - 1]) == eid(es[i])
}
/// matching reached an own order that could be filled
pub open spec fn meets_own<C: CallbackInfo>(taker: Side, limit: u64, cb: C, m: Map<u128, OrdV<C>>, br: int, qr: int) -> bool where C::CallbackId: PartialEq {
    exists|k: u128| #[trigger] best(m, is_bid(opp(taker)), k) && same_owner(cb, m[k].cb) && crosses(taker, limit, price_of(k))
        && fillq(m[k].qty as int, br, qr, price_of(k)) > 0 && quote_of(taker, fillq(m[k].qty as int, br, qr, price_of(k)), price_of(k)) > 0
}
/// what is left to post
pub open spec fn rest_qty(br: int, qr: int, limit: u64) -> int { fillq(br, br, qr, limit) }
pub open spec fn worst<C>(m: Map<u128, OrdV<C>>, bid: bool, k: u128) -> bool { best(m, !bid, k) }
pub open spec fn worse_price(side: Side, a: u64, b: u64) -> bool { if side is Bid { a < b } else { a > b } }
pub open spec fn has_worse<C>(m: Map<u128, OrdV<C>>, side: Side, limit: u64) -> bool {
    exists|k: u128| #[trigger] worst(m, is_bid(side), k) && worse_price(side, price_of(k), limit)
}
/// the side after an order was posted, with or without an eviction
pub open spec fn own_after<C>(m: Map<u128, OrdV<C>>, side: Side, es: Seq<Ent<C>>, k: u128, o: OrdV<C>) -> Map<u128, OrdV<C>> {
    (if evicted(side, es) { m.remove(eid(es.last())) } else { m }).insert(k, o)
}
/// a book only shrinks during matching
pub proof fn lemma_shrinks<C>(taker: Side, cb: C, m: Map<u128, OrdV<C>>, es: Seq<Ent<C>>, n: int)
    requires 0 <= n <= es.len(), forall|i: int| #![trigger es[i]] 0 <= i < n ==> ok_cons(taker, cb, book_at(m, es, i), es[i]),
    ensures forall|k: u128| #[trigger] book_at(m, es, n).contains_key(k) ==> m.contains_key(k),
    decreases n,
{
    if n > 0 {
        lemma_shrinks(taker, cb, m, es, n - 1);
        assert(ok_cons(taker, cb, book_at(m, es, n - 1), es[n - 1]));
    }
}

/// the events at the end of the order: those of the matching, then possibly one eviction
pub proof fn lemma_exit<C>(sd: Side, cb: C, m: Map<u128, OrdV<C>>, q0: EqV<C>, o: EqV<C>, s: EqV<C>)
    requires
        grown(q0, o), s.ev.len() == o.ev.len(),
        q(s) == q(o) || (q(s).len() == q(o).len() + 1 && q(s).drop_last() == q(o)),
        forall|i: int| #![trigger nev(q0, o)[i]] 0 <= i < nev(q0, o).len() ==> ok_cons(sd, cb, book_at(m, nev(q0, o), i), nev(q0, o)[i]),
    ensures
        grown(q0, s),
        !evicted(sd, nev(q0, o)), nm(sd, nev(q0, o)) == nev(q0, o).len(),
        q(s) == q(o) ==> nev(q0, s) == nev(q0, o),
        q(s) != q(o) ==> nev(q0, s) == nev(q0, o).push(q(s).last()) && nev(q0, s).last() == q(s).last()
            && forall|i: int| 0 <= i < nev(q0, o).len() ==> #[trigger] nev(q0, s)[i] == nev(q0, o)[i],
        q(s) != q(o) && !is_fill(q(s).last()) && outv(q(s).last()).side == side_u8(sd) ==> evicted(sd, nev(q0, s)) && nm(sd, nev(q0, s)) == nev(q0, o).len(),
{
    lemma_grow(q0, m, o, s);
    let es = nev(q0, o);
    if es.len() > 0 { assert(ok_cons(sd, cb, book_at(m, es, es.len() - 1), es[es.len() - 1])); }
    if q(s).len() == q(o).len() { assert(nev(q0, s) =~= nev(q0, o)); }
}

/// nothing is worth nothing
pub proof fn lemma_quote_zero(sd: crate::state::Side, p: u64)
    ensures quote_of(sd, 0, p) == 0,
{
    assert(0 * (p as int) == 0);
    assert((e32() - 1) / e32() == 0) by (compute);
}
