use crate::stubs::*;
use crate::critbit::*;

// ------------------------------------------------------------ the bytes
// A book is a 65 byte header followed by slots.  Header: tag, bump index, length and head
// of the free list, root slot [21, 25), number of orders [25, 33), market address.
// A slot starts with its kind: 1 is an inner node (prefix length, key, two children),
// 2 is an order (key, callback information, quantity).
pub open spec fn fits(b: Seq<u8>, slot: nat, h: u32) -> bool {
    slot >= 1 && 65 + h * slot + slot <= b.len() <= usize::MAX
}
pub open spec fn slot_of(b: Seq<u8>, slot: nat, h: u32) -> Seq<u8> {
    b.subrange(65 + h * slot, 65 + h * slot + slot)
}
pub open spec fn kind(b: Seq<u8>, slot: nat, h: u32) -> u8 { slot_of(b, slot, h)[0] }
pub open spec fn child(b: Seq<u8>, slot: nat, h: u32, right: bool) -> u32 {
    if right { le(slot_of(b, slot, h).subrange(25, 29)) as u32 } else { le(slot_of(b, slot, h).subrange(21, 25)) as u32 }
}
pub open spec fn key_of(b: Seq<u8>, slot: nat, h: u32) -> u128 { le(slot_of(b, slot, h).subrange(1, 17)) as u128 }
pub open spec fn price_of(k: u128) -> u64 { (k / 0x1_0000_0000_0000_0000u128) as u64 }
pub open spec fn qty_of(b: Seq<u8>, cb: nat, slot: nat, h: u32) -> u64 {
    le(slot_of(b, slot, h).subrange(17 + cb as int, 25 + cb as int)) as u64
}
pub open spec fn root_of(b: Seq<u8>) -> u32 { le(b.subrange(21, 25)) as u32 }
pub open spec fn count_of(b: Seq<u8>) -> u64 { le(b.subrange(25, 33)) as u64 }

// ------------------------------------------------------------ the tree
pub enum Tr { L { h: u32 }, I { h: u32, l: Box<Tr>, r: Box<Tr> } }
pub open spec fn hnd(t: Tr) -> u32 { match t { Tr::L { h } => h, Tr::I { h, .. } => h } }
pub open spec fn rep(b: Seq<u8>, cb: nat, slot: nat, t: Tr) -> bool
    decreases t,
{
    fits(b, slot, hnd(t)) && match t {
        Tr::L { h } => kind(b, slot, h) == 2 && cb + 25 <= slot,
        Tr::I { h, l, r } => kind(b, slot, h) == 1 && 29 <= slot && child(b, slot, h, false) == hnd(*l) && child(b, slot, h, true) == hnd(*r)
            && rep(b, cb, slot, *l) && rep(b, cb, slot, *r),
    }
}
pub open spec fn ord(t: Tr, inc: bool) -> Seq<u32>
    decreases t,
{
    match t {
        Tr::L { h } => seq![h],
        Tr::I { h, l, r } => if inc { ord(*l, inc) + ord(*r, inc) } else { ord(*r, inc) + ord(*l, inc) },
    }
}
pub open spec fn sorted(b: Seq<u8>, slot: nat, s: Seq<u32>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> key_of(b, slot, #[trigger] s[i]) < key_of(b, slot, #[trigger] s[j])
}
pub open spec fn tree(b: Seq<u8>, cb: nat, slot: nat, t: Tr) -> bool {
    rep(b, cb, slot, t) && hnd(t) == root_of(b) && sorted(b, slot, ord(t, true))
}
// a well-formed book
pub open spec fn book(b: Seq<u8>, cb: nat, slot: nat) -> bool {
    65 <= b.len() <= usize::MAX && b[0] < 5 && (count_of(b) != 0 ==> exists|t: Tr| tree(b, cb, slot, t))
}
pub open spec fn wit(b: Seq<u8>, cb: nat, slot: nat) -> Tr { choose|t: Tr| tree(b, cb, slot, t) }
// its orders, by increasing or decreasing key
pub open spec fn orders(b: Seq<u8>, cb: nat, slot: nat, inc: bool) -> Seq<u32> {
    if count_of(b) == 0 { seq![] } else { ord(wit(b, cb, slot), inc) }
}
pub open spec fn best(b: Seq<u8>, cb: nat, slot: nat, max: bool, r: Option<u32>) -> bool {
    let s = orders(b, cb, slot, true);
    match r {
        None => s.len() == 0,
        Some(h) => s.contains(h) && forall|i: int| 0 <= i < s.len() ==>
            if max { key_of(b, slot, #[trigger] s[i]) <= key_of(b, slot, h) } else { key_of(b, slot, h) <= key_of(b, slot, s[i]) },
    }
}

// ------------------------------------------------------------ price levels: quantity, price, quantity, price, ...
pub open spec fn level(b: Seq<u8>, cb: nat, slot: nat, p: Seq<int>, h: u32) -> Seq<int> {
    let q = qty_of(b, cb, slot, h) as int;
    let c = price_of(key_of(b, slot, h)) as int;
    if p.len() >= 2 && p.last() == c { p.update(p.len() - 2, p[p.len() - 2] + q) } else { p.push(q).push(c) }
}
#[verifier::opaque]
pub open spec fn levels(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { level(b, cb, slot, levels(b, cb, slot, s.drop_last()), s.last()) }
}
pub open spec fn first(s: Seq<int>, n: nat) -> Seq<int> { if s.len() <= n { s } else { s.take(n as int) } }
pub open spec fn ints(s: Seq<u64>) -> Seq<int> { s.map_values(|x: u64| x as int) }
pub open spec fn fit64(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= u64::MAX }

pub proof fn lemma_levels_grow(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, rest: Seq<u32>)
    ensures
        levels(b, cb, slot, s).len() <= levels(b, cb, slot, s + rest).len(),
        forall|i: int| 0 <= i < levels(b, cb, slot, s).len() ==> 0 <= #[trigger] levels(b, cb, slot, s)[i] <= levels(b, cb, slot, s + rest)[i],
        levels(b, cb, slot, s).len() % 2 == 0,
    decreases rest.len(), s.len(),
{
    reveal_with_fuel(levels, 2);
    if rest.len() == 0 {
        assert(s + rest =~= s);
        if s.len() > 0 {
            lemma_levels_grow(b, cb, slot, s.drop_last(), seq![]);
            assert(s.drop_last() + Seq::<u32>::empty() =~= s.drop_last());
        }
    } else {
        lemma_levels_grow(b, cb, slot, s, rest.drop_last());
        assert((s + rest).drop_last() =~= s + rest.drop_last());
        assert((s + rest).last() == rest.last());
        let m = levels(b, cb, slot, s + rest.drop_last());
        lemma_levels_grow(b, cb, slot, s + rest.drop_last(), seq![]);
    }
}
pub proof fn lemma_levels_done(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, rest: Seq<u32>)
    requires
        rest.len() > 0,
        levels(b, cb, slot, s).len() > 0 ==> levels(b, cb, slot, s).last() != price_of(key_of(b, slot, rest[0])) as int,
    ensures
        levels(b, cb, slot, s + rest).len() >= levels(b, cb, slot, s).len() + 2,
        levels(b, cb, slot, s + rest).take(levels(b, cb, slot, s).len() as int) == levels(b, cb, slot, s),
    decreases rest.len(),
{
    reveal_with_fuel(levels, 2);
    let p = levels(b, cb, slot, s);
    assert((s + rest).drop_last() =~= s + rest.drop_last());
    assert((s + rest).last() == rest.last());
    if rest.len() == 1 {
        assert(s + rest.drop_last() =~= s);
        assert(levels(b, cb, slot, s + rest).take(p.len() as int) =~= p);
    } else {
        lemma_levels_done(b, cb, slot, s, rest.drop_last());
        let m = levels(b, cb, slot, s + rest.drop_last());
        assert(levels(b, cb, slot, s + rest).take(p.len() as int) =~= m.take(p.len() as int));
    }
}
pub proof fn lemma_levels_push(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, h: u32)
    ensures levels(b, cb, slot, s.push(h)) == level(b, cb, slot, levels(b, cb, slot, s), h),
{
    reveal_with_fuel(levels, 2);
    assert(s.push(h).drop_last() =~= s);
}

// one more order
pub proof fn lemma_level(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, h: u32, rest: Seq<u32>)
    requires fit64(levels(b, cb, slot, s + (seq![h] + rest))),
    ensures
        levels(b, cb, slot, s.push(h)) == level(b, cb, slot, levels(b, cb, slot, s), h),
        levels(b, cb, slot, s).len() % 2 == 0,
        ({
            let p = levels(b, cb, slot, s);
            let all = levels(b, cb, slot, s + (seq![h] + rest));
            if p.len() > 0 && p.last() == price_of(key_of(b, slot, h)) as int {
                p[p.len() - 2] + qty_of(b, cb, slot, h) <= u64::MAX
            } else {
                p.len() + 2 <= all.len() && all.take(p.len() as int) == p
            }
        }),
{
    let w = s + (seq![h] + rest);
    assert(w =~= s.push(h) + rest);
    lemma_levels_grow(b, cb, slot, s, seq![]);
    lemma_levels_grow(b, cb, slot, s.push(h), rest);
    lemma_levels_push(b, cb, slot, s, h);
    let p = levels(b, cb, slot, s);
    if p.len() > 0 && p.last() == price_of(key_of(b, slot, h)) as int {
        assert(levels(b, cb, slot, s.push(h))[p.len() - 2] <= levels(b, cb, slot, w)[p.len() - 2]);
    } else {
        lemma_levels_done(b, cb, slot, s, seq![h] + rest);
    }
}

// ------------------------------------------------------------ the depth first walk
pub open spec fn flat(ts: Seq<Tr>, inc: bool) -> Seq<u32>
    decreases ts.len(),
{
    if ts.len() == 0 { seq![] } else { ord(ts.last(), inc) + flat(ts.drop_last(), inc) }
}
pub open spec fn size(t: Tr) -> nat
    decreases t,
{
    match t { Tr::L { .. } => 1, Tr::I { l, r, .. } => 1 + size(*l) + size(*r) }
}
pub open spec fn tsz(ts: Seq<Tr>) -> nat
    decreases ts.len(),
{
    if ts.len() == 0 { 0 } else { size(ts.last()) + tsz(ts.drop_last()) }
}
pub open spec fn stack_ok(b: Seq<u8>, cb: nat, slot: nat, st: Seq<u32>, ts: Seq<Tr>) -> bool {
    st.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> rep(b, cb, slot, #[trigger] ts[i]) && hnd(ts[i]) == st[i]
}
pub open spec fn first_of(r: Seq<u32>, all: Seq<u32>, n: nat) -> bool {
    r.len() == (if all.len() <= n { all.len() } else { n }) && r =~= all.subrange(0, r.len() as int)
}
pub proof fn lemma_flat_push(ts: Seq<Tr>, t: Tr, inc: bool)
    ensures flat(ts.push(t), inc) == ord(t, inc) + flat(ts, inc), tsz(ts.push(t)) == size(t) + tsz(ts),
{
    assert(ts.push(t).drop_last() =~= ts);
}
pub proof fn lemma_ord(t: Tr)
    ensures ord(t, true).len() > 0, ord(t, false) == ord(t, true).reverse(),
    decreases t,
{
    match t {
        Tr::L { .. } => { assert(ord(t, false) =~= ord(t, true).reverse()); }
        Tr::I { l, r, .. } => {
            lemma_ord(*l);
            lemma_ord(*r);
            assert(ord(t, false) =~= ord(t, true).reverse());
        }
    }
}

// ------------------------------------------------------------ what the levels are
pub open spec fn sum_at(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, price: int) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        sum_at(b, cb, slot, s.drop_last(), price) + if price_of(key_of(b, slot, s.last())) == price { qty_of(b, cb, slot, s.last()) as int } else { 0 }
    }
}
pub open spec fn price_at(b: Seq<u8>, slot: nat, s: Seq<u32>, k: int) -> int { price_of(key_of(b, slot, s[k])) as int }
pub open spec fn dir(b: Seq<u8>, slot: nat, s: Seq<u32>, inc: bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> if inc { #[trigger] price_at(b, slot, s, i) <= #[trigger] price_at(b, slot, s, j) } else { price_at(b, slot, s, i) >= price_at(b, slot, s, j) }
}
pub open spec fn lp(l: Seq<int>, i: int) -> int { l[2 * i + 1] }
pub open spec fn lq(l: Seq<int>, i: int) -> int { l[2 * i] }
// every price that occurs is one level, best first, with the total quantity of the orders at that price
pub open spec fn by_price(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, inc: bool, l: Seq<int>) -> bool {
    let n = l.len() as int / 2;
    &&& l.len() == 2 * n
    &&& forall|i: int| 0 <= i < n ==> lq(l, i) == sum_at(b, cb, slot, s, #[trigger] lp(l, i))
    &&& forall|i: int, j: int| 0 <= i < j < n ==> if inc { #[trigger] lp(l, i) < #[trigger] lp(l, j) } else { lp(l, i) > lp(l, j) }
    &&& forall|i: int| 0 <= i < n ==> has_order(b, slot, s, #[trigger] lp(l, i))
    &&& forall|k: int| 0 <= k < s.len() ==> has_level(l, #[trigger] price_at(b, slot, s, k))
}
#[verifier::opaque]
pub open spec fn has_order(b: Seq<u8>, slot: nat, s: Seq<u32>, price: int) -> bool {
    exists|k: int| 0 <= k < s.len() && #[trigger] price_at(b, slot, s, k) == price
}
#[verifier::opaque]
pub open spec fn has_level(l: Seq<int>, price: int) -> bool {
    exists|i: int| 0 <= i < l.len() as int / 2 && #[trigger] lp(l, i) == price
}
pub proof fn lemma_has_order(b: Seq<u8>, slot: nat, s: Seq<u32>, k: int)
    requires 0 <= k < s.len(),
    ensures has_order(b, slot, s, price_at(b, slot, s, k)),
{
    reveal(has_order);
}
pub proof fn lemma_has_level(l: Seq<int>, i: int)
    requires 0 <= i < l.len() as int / 2,
    ensures has_level(l, lp(l, i)),
{
    reveal(has_level);
}
pub proof fn order_at(b: Seq<u8>, slot: nat, s: Seq<u32>, price: int) -> (k: int)
    requires has_order(b, slot, s, price),
    ensures 0 <= k < s.len(), price_at(b, slot, s, k) == price,
{
    reveal(has_order);
    choose|k: int| 0 <= k < s.len() && #[trigger] price_at(b, slot, s, k) == price
}
pub proof fn level_at(l: Seq<int>, price: int) -> (i: int)
    requires has_level(l, price),
    ensures 0 <= i < l.len() as int / 2, lp(l, i) == price,
{
    reveal(has_level);
    choose|i: int| 0 <= i < l.len() as int / 2 && #[trigger] lp(l, i) == price
}
pub proof fn lemma_sum_none(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, price: int)
    requires forall|k: int| 0 <= k < s.len() ==> #[trigger] price_at(b, slot, s, k) != price,
    ensures sum_at(b, cb, slot, s, price) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies #[trigger] price_at(b, slot, d, k) != price by { assert(price_at(b, slot, s, k) != price); }
        assert(price_at(b, slot, s, s.len() - 1) != price);
        lemma_sum_none(b, cb, slot, d, price);
    }
}
// the levels so far are no better than the price of a later order
pub proof fn lemma_bound(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, inc: bool, p: Seq<int>)
    requires s.len() > 0, dir(b, slot, s, inc), by_price(b, cb, slot, s.drop_last(), inc, p),
    ensures
        ({
            let c = price_of(key_of(b, slot, s.last())) as int;
            &&& forall|i: int| 0 <= i < p.len() as int / 2 ==> if inc { #[trigger] lp(p, i) <= c } else { lp(p, i) >= c }
            &&& forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] price_at(b, slot, s.drop_last(), k) == price_at(b, slot, s, k)
            &&& price_at(b, slot, s, s.len() - 1) == c
        }),
{
    let d = s.drop_last();
    let c = price_of(key_of(b, slot, s.last())) as int;
    let last = s.len() - 1;
    assert(price_at(b, slot, s, last) == c);
    assert forall|i: int| 0 <= i < p.len() as int / 2 implies (if inc { #[trigger] lp(p, i) <= c } else { lp(p, i) >= c }) by {
        let k = order_at(b, slot, d, lp(p, i));
        assert(price_at(b, slot, d, k) == price_at(b, slot, s, k));
        assert(if inc { price_at(b, slot, s, k) <= price_at(b, slot, s, last) } else { price_at(b, slot, s, k) >= price_at(b, slot, s, last) });
    }
}
pub proof fn lemma_same(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, inc: bool, p: Seq<int>)
    requires
        s.len() > 0, dir(b, slot, s, inc), by_price(b, cb, slot, s.drop_last(), inc, p),
        p.len() >= 2, p.last() == price_of(key_of(b, slot, s.last())) as int,
    ensures by_price(b, cb, slot, s, inc, level(b, cb, slot, p, s.last())),
{
    let d = s.drop_last();
    let h = s.last();
    let l = level(b, cb, slot, p, h);
    let m = p.len() as int / 2;
    let n = l.len() as int / 2;
    let c = price_of(key_of(b, slot, h)) as int;
    let last = s.len() - 1;
    lemma_bound(b, cb, slot, s, inc, p);
    assert(n == m);
    assert(lp(p, m - 1) == c);
    assert forall|i: int| 0 <= i < m implies #[trigger] lp(l, i) == lp(p, i) by {}
    assert forall|i: int| 0 <= i < n implies lq(l, i) == sum_at(b, cb, slot, s, #[trigger] lp(l, i)) by {
        assert(lp(l, i) == lp(p, i));
        if i < m - 1 { assert(lp(p, i) != lp(p, m - 1)); }
        assert(lq(p, i) == sum_at(b, cb, slot, d, lp(p, i)));
    }
    assert forall|k: int| 0 <= k < s.len() implies has_level(l, #[trigger] price_at(b, slot, s, k)) by {
        if k == last { assert(lp(l, m - 1) == c); lemma_has_level(l, m - 1); } else {
            let i = level_at(p, price_at(b, slot, d, k));
            assert(price_at(b, slot, d, k) == price_at(b, slot, s, k));
            assert(lp(l, i) == price_at(b, slot, s, k)); lemma_has_level(l, i);
        }
    }
    assert forall|i: int| 0 <= i < n implies has_order(b, slot, s, #[trigger] lp(l, i)) by {
        assert(lp(l, i) == lp(p, i));
        let k = order_at(b, slot, d, lp(p, i));
        assert(price_at(b, slot, d, k) == price_at(b, slot, s, k));
        assert(price_at(b, slot, s, k) == lp(l, i)); lemma_has_order(b, slot, s, k);
    }
}
pub proof fn lemma_new(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, inc: bool, p: Seq<int>)
    requires
        s.len() > 0, dir(b, slot, s, inc), by_price(b, cb, slot, s.drop_last(), inc, p),
        p.len() == 0 || p.last() != price_of(key_of(b, slot, s.last())) as int,
    ensures by_price(b, cb, slot, s, inc, level(b, cb, slot, p, s.last())),
{
    let d = s.drop_last();
    let h = s.last();
    let l = level(b, cb, slot, p, h);
    let m = p.len() as int / 2;
    let n = l.len() as int / 2;
    let c = price_of(key_of(b, slot, h)) as int;
    let last = s.len() - 1;
    lemma_bound(b, cb, slot, s, inc, p);
    assert(n == m + 1 && lp(l, m) == c);
    if m > 0 { assert(lp(p, m - 1) != c); }
    assert forall|i: int| 0 <= i < m implies #[trigger] lp(l, i) == lp(p, i) && lp(p, i) != c by {
        if i < m - 1 { assert(if inc { lp(p, i) < lp(p, m - 1) } else { lp(p, i) > lp(p, m - 1) }); assert(if inc { lp(p, m - 1) <= c } else { lp(p, m - 1) >= c }); }
    }
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] price_at(b, slot, d, k) != c by {
        let i = level_at(p, price_at(b, slot, d, k));
        assert(lp(l, i) == lp(p, i));
    }
    lemma_sum_none(b, cb, slot, d, c);
    assert forall|i: int| 0 <= i < n implies lq(l, i) == sum_at(b, cb, slot, s, #[trigger] lp(l, i)) by {
        if i < m {
            assert(lp(l, i) == lp(p, i));
            assert(lq(p, i) == sum_at(b, cb, slot, d, lp(p, i)));
            assert(lq(l, i) == lq(p, i));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < n implies if inc { #[trigger] lp(l, i) < #[trigger] lp(l, j) } else { lp(l, i) > lp(l, j) } by {
        assert(lp(l, i) == lp(p, i));
        if j < m { assert(lp(l, j) == lp(p, j)); }
    }
    assert forall|k: int| 0 <= k < s.len() implies has_level(l, #[trigger] price_at(b, slot, s, k)) by {
        if k == last { assert(lp(l, m) == c); lemma_has_level(l, m); } else {
            let i = level_at(p, price_at(b, slot, d, k));
            assert(price_at(b, slot, d, k) == price_at(b, slot, s, k));
            assert(lp(l, i) == price_at(b, slot, s, k)); lemma_has_level(l, i);
        }
    }
    assert forall|i: int| 0 <= i < n implies has_order(b, slot, s, #[trigger] lp(l, i)) by {
        if i < m {
            assert(lp(l, i) == lp(p, i));
            let k = order_at(b, slot, d, lp(p, i));
            assert(price_at(b, slot, d, k) == price_at(b, slot, s, k));
            assert(price_at(b, slot, s, k) == lp(l, i)); lemma_has_order(b, slot, s, k);
        } else {
            assert(price_at(b, slot, s, last) == lp(l, i)); lemma_has_order(b, slot, s, last);
        }
    }
}
pub proof fn lemma_by_price(b: Seq<u8>, cb: nat, slot: nat, s: Seq<u32>, inc: bool)
    requires dir(b, slot, s, inc),
    ensures by_price(b, cb, slot, s, inc, levels(b, cb, slot, s)),
    decreases s.len(),
{
    reveal(levels);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies if inc { #[trigger] price_at(b, slot, d, i) <= #[trigger] price_at(b, slot, d, j) } else { price_at(b, slot, d, i) >= price_at(b, slot, d, j) } by {
            assert(price_at(b, slot, d, i) == price_at(b, slot, s, i) && price_at(b, slot, d, j) == price_at(b, slot, s, j));
        }
        lemma_by_price(b, cb, slot, d, inc);
        let p = levels(b, cb, slot, d);
        if p.len() >= 2 && p.last() == price_of(key_of(b, slot, s.last())) as int {
            lemma_same(b, cb, slot, s, inc, p);
        } else {
            lemma_new(b, cb, slot, s, inc, p);
        }
    }
}
// the orders of a book in either direction
pub proof fn lemma_dir(b: Seq<u8>, cb: nat, slot: nat, inc: bool)
    requires book(b, cb, slot),
    ensures dir(b, slot, orders(b, cb, slot, inc), inc),
{
    if count_of(b) != 0 {
        let t = wit(b, cb, slot);
        assert(tree(b, cb, slot, t));
        lemma_ord(t);
        let s = orders(b, cb, slot, inc);
        let u = ord(t, true);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies if inc { #[trigger] price_at(b, slot, s, i) <= #[trigger] price_at(b, slot, s, j) } else { price_at(b, slot, s, i) >= price_at(b, slot, s, j) } by {
            let (x, y) = if inc { (i, j) } else { (s.len() - 1 - j, s.len() - 1 - i) };
            assert(key_of(b, slot, u[x]) < key_of(b, slot, u[y]));
            lemma_price_mono(key_of(b, slot, u[x]), key_of(b, slot, u[y]));
        }
    }
}
pub proof fn lemma_price_mono(x: u128, y: u128)
    requires x < y,
    ensures price_of(x) <= price_of(y),
{
    assert(x / 0x1_0000_0000_0000_0000u128 <= y / 0x1_0000_0000_0000_0000u128 <= 0xffff_ffff_ffff_ffffu128) by (bit_vector)
        requires x < y;
}
