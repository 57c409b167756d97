// The order-book side as a map: order id -> (quantity, callback info).
use crate::critbit_spec::*;
use crate::state::critbit::{LeafNode};

pub ghost struct OrdV<C> { pub qty: u64, pub cb: C }
pub open spec fn bk<C>(s: SlabV<C>) -> Map<u128, OrdV<C>> {
    Map::new(slots(s).dom(), |k: u128| OrdV { qty: s.lv[slots(s)[k] as int].base_quantity, cb: s.cb[slots(s)[k] as int] })
}
/// a has strictly better priority than b on the given side
pub open spec fn better(bid: bool, a: u128, b: u128) -> bool { if bid { a > b } else { a < b } }
pub open spec fn best<C>(m: Map<u128, OrdV<C>>, bid: bool, k: u128) -> bool {
    m.contains_key(k) && forall|j: u128| #[trigger] m.contains_key(j) ==> j == k || better(bid, k, j)
}
pub open spec fn with_lv<C>(s: SlabV<C>, lv: Seq<LeafNode>) -> SlabV<C> { SlabV { h: s.h, lv: lv, inn: s.inn, cb: s.cb } }
pub open spec fn with_cb<C>(s: SlabV<C>, cb: Seq<C>) -> SlabV<C> { SlabV { h: s.h, lv: s.lv, inn: s.inn, cb: cb } }

pub proof fn lemma_bk_same<C>(s: SlabV<C>)
    requires wf(s),
    ensures
        bk(s).dom() == slots(s).dom(),
        bk(s).len() == s.h.leaf_count,
        s.h.leaf_count <= s.lv.len(), s.lv.len() > 0, s.cb.len() == s.lv.len(),
        forall|k: u128| #[trigger] bk(s).contains_key(k) ==> slots(s).contains_key(k) && lkey(s.lv[slots(s)[k] as int]) == k && slots(s)[k] < s.lv.len()
            && bk(s)[k] == (OrdV { qty: s.lv[slots(s)[k] as int].base_quantity, cb: s.cb[slots(s)[k] as int] }),
{
    lemma_slots_dom(s);
    assert(bk(s).dom() =~= slots(s).dom());
}
/// writing the quantity of a resting order touches that order only
pub proof fn lemma_bk_qty<C>(s: SlabV<C>, h: nat, k: u128, x: LeafNode)
    requires wf(s), slots(s).contains_key(k), slots(s)[k] == h, lkey(x) == k,
    ensures
        wf(with_lv(s, s.lv.update(h as int, x))),
        slots(with_lv(s, s.lv.update(h as int, x))) == slots(s),
        bk(with_lv(s, s.lv.update(h as int, x))) == bk(s).insert(k, OrdV { qty: x.base_quantity, cb: s.cb[h as int] }),
{
    let n = with_lv(s, s.lv.update(h as int, x));
    lemma_slots_dom(s);
    lemma_same_key(s, n, k);
    assert(bk(n) =~= bk(s).insert(k, OrdV { qty: x.base_quantity, cb: s.cb[h as int] })) by {
        assert forall|j: u128| slots(s).contains_key(j) && j != k implies slots(s)[j] != h by {}
    }
}
/// writing the callback info of a resting order touches that order only
pub proof fn lemma_bk_cb<C>(s: SlabV<C>, h: nat, k: u128, c: C)
    requires wf(s), slots(s).contains_key(k), slots(s)[k] == h, h < s.cb.len(),
    ensures
        wf(with_cb(s, s.cb.update(h as int, c))),
        slots(with_cb(s, s.cb.update(h as int, c))) == slots(s),
        bk(with_cb(s, s.cb.update(h as int, c))) == bk(s).insert(k, OrdV { qty: s.lv[h as int].base_quantity, cb: c }),
{
    let n = with_cb(s, s.cb.update(h as int, c));
    lemma_slots_dom(s);
    lemma_same_key(s, n, k);
    assert(bk(n) =~= bk(s).insert(k, OrdV { qty: s.lv[h as int].base_quantity, cb: c })) by {
        assert forall|j: u128| slots(s).contains_key(j) && j != k implies slots(s)[j] != h by {}
    }
}
pub broadcast proof fn bl_rem<C>(o: SlabV<C>, s: SlabV<C>, k: u128)
    requires wf(o), wf(s), #[trigger] rem_post(o, s, k),
    ensures
        bk(s) == bk(o).remove(k),
        bk(o).contains_key(k),
        bk(o)[k] == (OrdV { qty: o.lv[slots(o)[k] as int].base_quantity, cb: o.cb[slots(o)[k] as int] }),
        lkey(o.lv[slots(o)[k] as int]) == k,
        bk(s).len() == s.h.leaf_count, bk(o).len() == o.h.leaf_count,
{
    lemma_bk_same(o);
    lemma_bk_same(s);
    assert(bk(s) =~= bk(o).remove(k)) by {
        assert forall|j: u128| slots(s).contains_key(j) implies bk(s)[j] == bk(o)[j] by { assert(slots(s)[j] == slots(o)[j]); }
    }
}
pub broadcast proof fn bl_ins<C>(o: SlabV<C>, s: SlabV<C>, h: nat, l: LeafNode)
    requires wf(o), wf(s), #[trigger] ins_new(o, s, h, l),
    ensures
        !bk(o).contains_key(lkey(l)),
        slots(s).contains_key(lkey(l)), slots(s)[lkey(l)] == h, h < s.lv.len(), h < s.cb.len(),
        bk(s) == bk(o).insert(lkey(l), OrdV { qty: l.base_quantity, cb: s.cb[h as int] }),
        forall|c: C| #![trigger s.cb.update(h as int, c)] wf(with_cb(s, s.cb.update(h as int, c)))
            && slots(with_cb(s, s.cb.update(h as int, c))) == slots(s)
            && bk(with_cb(s, s.cb.update(h as int, c))) == bk(o).insert(lkey(l), OrdV { qty: l.base_quantity, cb: c }),
{
    lemma_bk_same(o);
    lemma_bk_same(s);
    let k = lkey(l);
    assert(bk(s) =~= bk(o).insert(k, OrdV { qty: l.base_quantity, cb: s.cb[h as int] })) by {
        assert forall|j: u128| slots(o).contains_key(j) implies #[trigger] bk(s)[j] == bk(o)[j] by { assert(slots(s)[j] == slots(o)[j]); }
    }
    assert forall|c: C| #![trigger s.cb.update(h as int, c)] wf(with_cb(s, s.cb.update(h as int, c)))
            && slots(with_cb(s, s.cb.update(h as int, c))) == slots(s)
            && bk(with_cb(s, s.cb.update(h as int, c))) == bk(o).insert(lkey(l), OrdV { qty: l.base_quantity, cb: c }) by {
        lemma_bk_cb(s, h, k, c);
        assert(bk(s).insert(k, OrdV { qty: l.base_quantity, cb: c }) =~= bk(o).insert(k, OrdV { qty: l.base_quantity, cb: c }));
    }
}
pub broadcast proof fn bl_ext<C>(s: SlabV<C>, max: bool, r: Option<u32>)
    requires wf(s), #[trigger] extreme(s, max, r),
    ensures
        r is None ==> bk(s) == Map::<u128, OrdV<C>>::empty(),
        r is Some ==> ({
            let h = r->Some_0 as nat;
            let k = lkey(s.lv[h as int]);
            &&& best(bk(s), max, k)
            &&& slots(s).contains_key(k) && slots(s)[k] == h
            &&& bk(s)[k] == (OrdV { qty: s.lv[h as int].base_quantity, cb: s.cb[h as int] })
            &&& forall|x: LeafNode| #![trigger s.lv.update(h as int, x)] lkey(x) == k ==> wf(with_lv(s, s.lv.update(h as int, x)))
                && slots(with_lv(s, s.lv.update(h as int, x))) == slots(s)
                && bk(with_lv(s, s.lv.update(h as int, x))) == bk(s).insert(k, OrdV { qty: x.base_quantity, cb: s.cb[h as int] })
        }),
{
    lemma_bk_same(s);
    lemma_wf(s, wit(s));
    let ls = ordered(s);
    match r {
        None => { assert(bk(s).dom() =~= Set::<u128>::empty()) by { assert(slots(s).dom().len() == 0); }
            assert(bk(s) =~= Map::<u128, OrdV<C>>::empty()); }
        Some(hh) => {
            let h = hh as nat;
            let k = kat(s.lv, h);
            assert(ls.contains(h));
            assert(slots(s).contains_key(kat(s.lv, h)));
            assert forall|j: u128| #[trigger] bk(s).contains_key(j) implies j == k || better(max, k, j) by {
                let g = slots(s)[j];
                assert(ls.contains(g));
                let i = choose|i: int| 0 <= i < ls.len() && ls[i] == g;
                assert(kat(s.lv, g) == j);
                if max { if i < ls.len() - 1 { assert(kat(s.lv, ls[i]) < kat(s.lv, ls[ls.len() - 1])); } }
                else { if i > 0 { assert(kat(s.lv, ls[0]) < kat(s.lv, ls[i])); } }
            }
            assert forall|x: LeafNode| #![trigger s.lv.update(h as int, x)] lkey(x) == k implies wf(with_lv(s, s.lv.update(h as int, x)))
                && slots(with_lv(s, s.lv.update(h as int, x))) == slots(s)
                && bk(with_lv(s, s.lv.update(h as int, x))) == bk(s).insert(k, OrdV { qty: x.base_quantity, cb: s.cb[h as int] }) by {
                lemma_bk_qty(s, h, k, x);
            }
        }
    }
}
pub broadcast proof fn bl_dup<C>(o: SlabV<C>, s: SlabV<C>, h: nat, l: LeafNode, x: LeafNode)
    requires wf(o), #[trigger] ins_dup(o, s, h, l, x),
    ensures bk(o).contains_key(lkey(l)),
{
    lemma_bk_same(o);
}
pub broadcast proof fn bl_dom<C>(s: SlabV<C>, k: u128)
    ensures (#[trigger] bk(s).contains_key(k)) == slots(s).contains_key(k),
{ }
pub broadcast group book_facts { bl_rem, bl_ins, bl_ext, bl_dup }
