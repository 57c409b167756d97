// Ghost view of account data: a tag, then the parts of each account at fixed offsets.
use crate::critbit_spec::*;
use crate::event_queue_spec::*;
use crate::book_spec::*;
use crate::state::AccountTag;
use crate::state::market_state::MarketState;
use crate::state::critbit::{Slab, SlabHeader, LeafNode, InnerNode};
use crate::state::event_queue::{EventQueue, FillEvent, EventQueueHeader};
use crate::stubs::bytemuck::{pod_from, pod_slice};

/// the tag of an account: its first eight bytes, little endian
pub open spec fn tag64(b: Seq<u8>) -> u64 { pod_from::<u64>(b.subrange(0, 8)) }
pub open spec fn tag8(b: Seq<u8>) -> u8 { b[0] }
pub open spec fn market_of(b: Seq<u8>) -> MarketState { pod_from::<MarketState>(b.subrange(8, b.len() as int)) }
pub open spec fn market_len() -> int { 120 }
pub broadcast proof fn bl_cut<T>(a: Seq<T>, b: Seq<T>, i: int, j: int)
    requires 0 <= i <= j <= a.len() + b.len(),
    ensures
        j <= a.len() ==> #[trigger] (a + b).subrange(i, j) == a.subrange(i, j),
        i >= a.len() ==> (a + b).subrange(i, j) == b.subrange(i - a.len(), j - a.len()),
{
    if j <= a.len() { assert((a + b).subrange(i, j) =~= a.subrange(i, j)); }
    if i >= a.len() { assert((a + b).subrange(i, j) =~= b.subrange(i - a.len(), j - a.len())); }
}
pub broadcast proof fn bl_tag<T>(a: Seq<T>, i: int)
    requires 0 < i <= a.len(),
    ensures #[trigger] a.subrange(0, i)[0] == a[0],
{ }
pub broadcast proof fn bl_all<T>(a: Seq<T>, j: int)
    requires j == a.len(),
    ensures #[trigger] a.subrange(0, j) == a,
{
    assert(a.subrange(0, j) =~= a);
}
pub broadcast proof fn bl_sub<T>(a: Seq<T>, i: int, j: int, k: int, l: int)
    requires 0 <= i <= j <= a.len(), 0 <= k <= l <= j - i,
    ensures #[trigger] a.subrange(i, j).subrange(k, l) == a.subrange(i + k, i + l),
{
    assert(a.subrange(i, j).subrange(k, l) =~= a.subrange(i + k, i + l));
}
/// the four parts of an account: tag, header, slots, callback infos
pub broadcast proof fn bl_cut4<T>(a: Seq<T>, h: Seq<T>, e: Seq<T>, c: Seq<T>)
    ensures
        (#[trigger] (a + (h + (e + c)))).len() == a.len() + h.len() + e.len() + c.len(),
        (a + (h + (e + c))).subrange(0, a.len() as int) == a,
        (a + (h + (e + c))).subrange(a.len() as int, (a.len() + h.len()) as int) == h,
        (a + (h + (e + c))).subrange((a.len() + h.len()) as int, (a.len() + h.len() + e.len()) as int) == e,
        (a + (h + (e + c))).subrange((a.len() + h.len() + e.len()) as int, (a.len() + h.len() + e.len() + c.len()) as int) == c,
{
    let s = a + (h + (e + c));
    assert(s.subrange(0, a.len() as int) =~= a);
    assert(s.subrange(a.len() as int, (a.len() + h.len()) as int) =~= h);
    assert(s.subrange((a.len() + h.len()) as int, (a.len() + h.len() + e.len()) as int) =~= e);
    assert(s.subrange((a.len() + h.len() + e.len()) as int, (a.len() + h.len() + e.len() + c.len()) as int) =~= c);
}
pub broadcast group cut4_facts { bl_cut4, bl_all, bl_sub, crate::stubs::axiom_mut_ref_eq, crate::stubs::axiom_mut_ref_obeys }
pub broadcast group cut_facts { bl_cut, bl_tag, bl_all, bl_sub, crate::stubs::axiom_mut_ref_eq, crate::stubs::axiom_mut_ref_obeys }
// ---- book sides
pub open spec fn csz<C>() -> int { vstd::layout::size_of::<C>() as int }
/// bytes of a book side made for n orders
pub open spec fn slab_size<C>(n: int) -> int { 40 + (24 + csz::<C>()) + (n - 1) * (56 + csz::<C>()) }
/// orders that fit in a book side of the given length
pub open spec fn slab_n<C>(len: int) -> int { (len - 40 - (24 + csz::<C>())) / (56 + csz::<C>()) + 1 }
pub open spec fn slab_sized<C>(b: Seq<u8>) -> bool { csz::<C>() > 0 && b.len() >= 64 + csz::<C>() && b.len() == slab_size::<C>(slab_n::<C>(b.len() as int)) }
/// tag 0..8, header 8..40, n leaves, n - 1 inner nodes, n callback infos up to the end
pub open spec fn slab_of<C>(b: Seq<u8>) -> SlabV<C> {
    let n = slab_n::<C>(b.len() as int);
    SlabV {
        h: pod_from::<SlabHeader>(b.subrange(8, 40)),
        lv: pod_slice::<LeafNode>(b.subrange(40, 40 + 24 * n)),
        inn: pod_slice::<InnerNode>(b.subrange(40 + 24 * n, 40 + 24 * n + 32 * (n - 1))),
        cb: pod_slice::<C>(b.subrange(40 + 24 * n + 32 * (n - 1), b.len() as int)),
    }
}
#[verifier::prophetic]
pub open spec fn slab_fin<'a, C>(s: Slab<'a, C>) -> SlabV<C> {
    SlabV { h: *final(s.header), lv: final(s.leaf_nodes)@, inn: final(s.inner_nodes)@, cb: final(s.callback_infos)@ }
}
pub proof fn lemma_sized<C>(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(),
    ensures slab_sized::<C>(a) == slab_sized::<C>(b), eq_sized::<C>(a) == eq_sized::<C>(b),
{ }
pub proof fn lemma_slab_n<C>(n: int)
    requires n >= 1, csz::<C>() > 0,
    ensures
        slab_n::<C>(slab_size::<C>(n)) == n,
        slab_size::<C>(n) == 40 + 24 * n + 32 * (n - 1) + csz::<C>() * n,
        slab_size::<C>(n) >= 64 + csz::<C>(),
{
    let c = csz::<C>();
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n - 1, 56 + c);
    assert((56 + c) * (n - 1) == (n - 1) * (56 + c) && (n - 1) * (56 + c) == 56 * (n - 1) + c * (n - 1) && c * n == c * (n - 1) + c && (n - 1) * (56 + c) >= 0) by (nonlinear_arith) requires n >= 1, c > 0;
}
pub proof fn lemma_mul_div(k: int, z: int)
    requires z > 0, k >= 0,
    ensures (k * z) / z == k, (k * z) % z == 0, (z * k) / z == k, (z * k) % z == 0, k * z >= 0,
{
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(k, z);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, z);
    assert(k * z == z * k && k * z >= 0) by (nonlinear_arith) requires z > 0, k >= 0;
}
pub proof fn lemma_slab_cap<C>(len: int)
    requires csz::<C>() > 0, len >= 64 + csz::<C>(),
    ensures
        ({
            let k = slab_n::<C>(len) - 1;
            &&& k == (len - 32 - 8 - (24 + csz::<C>())) / (24 + csz::<C>() + 32)
            &&& k >= 0
            &&& k * (56 + csz::<C>()) + 64 + csz::<C>() <= len
            &&& (k + 1) * 24 + k * 32 + (k + 1) * csz::<C>() + 40 <= len
            &&& len == slab_size::<C>(k + 1) ==> (k + 1) * 24 + k * 32 + (k + 1) * csz::<C>() + 40 == len
            &&& ((k + 1) * 24) / 24 == k + 1 && ((k + 1) * 24) % 24 == 0
            &&& (k * 32) / 32 == k && (k * 32) % 32 == 0
            &&& ((k + 1) * csz::<C>()) / csz::<C>() == k + 1 && ((k + 1) * csz::<C>()) % csz::<C>() == 0
        }),
{
    let c = csz::<C>();
    let x = len - 64 - c;
    let k = slab_n::<C>(len) - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, 56 + c);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, 56 + c);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, 56 + c);
    assert(k * (56 + c) == (56 + c) * k && k * (56 + c) == 56 * k + k * c && (k + 1) * c == k * c + c) by (nonlinear_arith);
    lemma_mul_div(k + 1, 24);
    lemma_mul_div(k, 32);
    lemma_mul_div(k + 1, c);
}
// ---- the event queue
pub open spec fn eq_slot<C>() -> int { 40 + 2 * csz::<C>() }
/// bytes of a queue made for n events
pub open spec fn eq_size<C>(n: int) -> int { n * eq_slot::<C>() + 24 + 8 }
pub open spec fn eq_n<C>(len: int) -> int { (len - 8 - 24) / eq_slot::<C>() }
pub open spec fn eq_sized<C>(b: Seq<u8>) -> bool { csz::<C>() > 0 && b.len() >= 32 && b.len() == eq_size::<C>(eq_n::<C>(b.len() as int)) }
pub open spec fn eqv<C>(h: EventQueueHeader, ev: Seq<FillEvent>, cb: Seq<C>) -> EqV<C> {
    EqV { head: h.head, count: h.count, seq: h.seq_num, ev, cb }
}
/// tag 0..8, header 8..32, n events, 2 n callback infos up to the end
pub open spec fn eq_of<C>(b: Seq<u8>) -> EqV<C> {
    let n = eq_n::<C>(b.len() as int);
    eqv(pod_from::<EventQueueHeader>(b.subrange(8, 32)), pod_slice::<FillEvent>(b.subrange(32, 32 + 40 * n)), pod_slice::<C>(b.subrange(32 + 40 * n, b.len() as int)))
}
#[verifier::prophetic]
pub open spec fn eq_fin<'a, C>(s: EventQueue<'a, C>) -> EqV<C> {
    eqv(*final(s.header), final(s.events)@, final(s.callback_infos)@)
}
pub proof fn lemma_eq_n<C>(n: int)
    requires n >= 0, csz::<C>() > 0,
    ensures eq_n::<C>(eq_size::<C>(n)) == n, eq_size::<C>(n) >= 32,
{
    lemma_mul_div(n, eq_slot::<C>());
}
pub proof fn lemma_eq_cap<C>(len: int)
    requires csz::<C>() > 0, len >= 32,
    ensures
        ({
            let k = eq_n::<C>(len);
            &&& k >= 0
            &&& k * eq_slot::<C>() + 32 <= len
            &&& k * 40 + (2 * k) * csz::<C>() + 32 == k * eq_slot::<C>() + 32
            &&& (k * 40) / 40 == k && (k * 40) % 40 == 0
            &&& ((2 * k) * csz::<C>()) / csz::<C>() == 2 * k && ((2 * k) * csz::<C>()) % csz::<C>() == 0
        }),
{
    let c = csz::<C>();
    let x = len - 32;
    let k = eq_n::<C>(len);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, eq_slot::<C>());
    vstd::arithmetic::div_mod::lemma_mod_bound(x, eq_slot::<C>());
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, eq_slot::<C>());
    assert(k * (40 + 2 * c) == (40 + 2 * c) * k && k * (40 + 2 * c) == 40 * k + (2 * k) * c) by (nonlinear_arith);
    lemma_mul_div(k, 40);
    lemma_mul_div(2 * k, c);
}
pub proof fn lemma_eq_check<C>(len: int)
    requires csz::<C>() > 0, len >= 0,
    ensures
        len >= 32 + 5 * eq_slot::<C>() && (len - 32) % eq_slot::<C>() == 0
            <==> len >= 32 && len == eq_size::<C>(eq_n::<C>(len)) && eq_n::<C>(len) >= 5,
{
    if len >= 32 {
        let z = eq_slot::<C>();
        let k = eq_n::<C>(len);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len - 32, z);
        vstd::arithmetic::div_mod::lemma_mod_bound(len - 32, z);
        assert(k * z == z * k) by (nonlinear_arith);
        assert(k >= 5 ==> k * z >= 5 * z) by (nonlinear_arith) requires z > 0;
        assert(k < 5 ==> k * z <= 4 * z) by (nonlinear_arith) requires z > 0;
    }
}
/// the sizes in the ways they can be added up
pub proof fn lemma_eq_forms<C>(n: int)
    requires n >= 0,
    ensures
        n * eq_slot::<C>() >= 0, eq_slot::<C>() * n == n * eq_slot::<C>(),
        n * 40 >= 0, n * csz::<C>() >= 0, csz::<C>() * n == n * csz::<C>(), n * eq_slot::<C>() == n * 40 + 2 * (n * csz::<C>()),
        (2 * n) * csz::<C>() == 2 * (n * csz::<C>()), csz::<C>() * (2 * n) == 2 * (n * csz::<C>()), n * (2 * csz::<C>()) == 2 * (n * csz::<C>()), (2 * csz::<C>()) * n == 2 * (n * csz::<C>()),
        n >= 1 ==> eq_slot::<C>() <= eq_size::<C>(n),
{
    let c = csz::<C>();
    let z = eq_slot::<C>();
    assert(n * z >= 0 && z * n == n * z && n * c >= 0 && c * n == n * c && n * (40 + 2 * c) == n * 40 + 2 * (n * c) && (2 * n) * c == 2 * (n * c) && c * (2 * n) == 2 * (n * c) && n * (2 * c) == 2 * (n * c) && (2 * c) * n == 2 * (n * c) && (n >= 1 ==> n * z >= z)) by (nonlinear_arith) requires n >= 0, c >= 0, z == 40 + 2 * c;
}
pub proof fn lemma_slab_forms<C>(n: int)
    requires n >= 1,
    ensures
        (n - 1) * (56 + csz::<C>()) >= 0, (56 + csz::<C>()) * (n - 1) == (n - 1) * (56 + csz::<C>()),
        slab_size::<C>(n) >= 64 + csz::<C>(), (n - 1) * (56 + csz::<C>()) <= slab_size::<C>(n), n >= 2 ==> 56 + csz::<C>() <= slab_size::<C>(n),
        n * csz::<C>() >= csz::<C>(), csz::<C>() * n == n * csz::<C>(), (n - 1) * csz::<C>() == n * csz::<C>() - csz::<C>(), csz::<C>() * (n - 1) == n * csz::<C>() - csz::<C>(),
        n * (24 + csz::<C>()) == 24 * n + n * csz::<C>(), (24 + csz::<C>()) * n == 24 * n + n * csz::<C>(),
        n * (56 + csz::<C>()) == 56 * n + n * csz::<C>(), (56 + csz::<C>()) * n == 56 * n + n * csz::<C>(),
        (n - 1) * (56 + csz::<C>()) == 56 * (n - 1) + n * csz::<C>() - csz::<C>(),
        slab_size::<C>(n) == 40 + 24 * n + 32 * (n - 1) + n * csz::<C>(),
{
    let c = csz::<C>();
    assert((n - 1) * (56 + c) >= 0 && (56 + c) * (n - 1) == (n - 1) * (56 + c) && n * c >= c && c * n == n * c && (n - 1) * c == n * c - c && c * (n - 1) == n * c - c
        && n * (24 + c) == 24 * n + n * c && (24 + c) * n == 24 * n + n * c && n * (56 + c) == 56 * n + n * c && (56 + c) * n == 56 * n + n * c
        && (n - 1) * (56 + c) == 56 * (n - 1) + n * c - c) by (nonlinear_arith) requires n >= 1, c >= 0;
    assert(n >= 2 ==> (n - 1) * (56 + c) >= 56 + c) by (nonlinear_arith) requires c >= 0;
}
pub open spec fn slab_openable<C>(b: Seq<u8>, t: AccountTag) -> bool {
    &&& csz::<C>() > 0
    &&& b.len() >= 64 + csz::<C>()
    &&& tag8(b) == t as u8 ==> slab_sized::<C>(b)
}
pub open spec fn is_best_price<C>(m: Map<u128, OrdV<C>>, bid: bool, p: Option<u64>) -> bool {
    match p {
        None => m =~= Map::empty(),
        Some(p) => exists|k: u128| #[trigger] best(m, bid, k) && price_of(k) == p,
    }
}
pub open spec fn is_spread<C>(bids: Map<u128, OrdV<C>>, asks: Map<u128, OrdV<C>>, r: (Option<u64>, Option<u64>)) -> bool {
    is_best_price(bids, true, r.0) && is_best_price(asks, false, r.1)
}
pub open spec fn t_uninitialized() -> AccountTag { AccountTag::Uninitialized }
pub open spec fn t_market() -> AccountTag { AccountTag::Market }
pub open spec fn t_eventqueue() -> AccountTag { AccountTag::EventQueue }
pub open spec fn t_bids() -> AccountTag { AccountTag::Bids }
pub open spec fn t_asks() -> AccountTag { AccountTag::Asks }
pub open spec fn t_disabled() -> AccountTag { AccountTag::Disabled }
