// Ghost view of a slab: critbit tree over two arrays, with free lists.
use crate::state::critbit::{SlabHeader, LeafNode, InnerNode, Slab, SlabIterator};
use crate::stubs::lz128;

// ---------------------------------------------------------------- keys and bits
//@only host
pub open spec fn lkey(l: LeafNode) -> u128 { ((l.key@[0] as u128) + ((l.key@[1] as u128) * 0x1_0000_0000_0000_0000u128)) as u128 }
pub open spec fn key_eq_raw(a: LeafNode, b: LeafNode) -> bool { a.key@[0] == b.key@[0] && a.key@[1] == b.key@[1] }
pub proof fn lemma_lkey_inj(a: LeafNode, b: LeafNode)
    ensures (lkey(a) == lkey(b)) <==> (a.key == b.key),
{
    let (a0, a1, b0, b1) = (a.key@[0], a.key@[1], b.key@[0], b.key@[1]);
    assert(a.key@.len() == 2 && b.key@.len() == 2);
    assert((a0 as u128) + (a1 as u128) * 0x1_0000_0000_0000_0000u128 <= u128::MAX) by (nonlinear_arith)
        requires a0 <= u64::MAX, a1 <= u64::MAX;
    assert((b0 as u128) + (b1 as u128) * 0x1_0000_0000_0000_0000u128 <= u128::MAX) by (nonlinear_arith)
        requires b0 <= u64::MAX, b1 <= u64::MAX;
    if lkey(a) == lkey(b) {
        assert(a0 == b0 && a1 == b1);
        assert(a.key@ =~= b.key@);
        assert(a.key == b.key);
    }
}
//@only solana
pub open spec fn lkey(l: LeafNode) -> u128 { l.key }
pub open spec fn key_eq_raw(a: LeafNode, b: LeafNode) -> bool { a.key == b.key }
pub proof fn lemma_lkey_inj(a: LeafNode, b: LeafNode)
    ensures (lkey(a) == lkey(b)) <==> (a.key == b.key),
{ }
//@only both

pub open spec fn price_of(k: u128) -> u64 { (k >> 64u128) as u64 }

/// bit number n from the top
pub open spec fn bit(k: u128, n: u64) -> bool { k & ((1u128 << 127u128) >> n) != 0 }

/// other ways to read the bit
pub proof fn lemma_bit(k: u128, n: u64)
    requires n < 128,
    ensures
        (((1u128 << 127u128) >> n) & k != 0) == bit(k, n),
        (k & (1u128 << ((127 - n) as u64)) != 0) == bit(k, n),
        ((k >> ((127 - n) as u64)) & 1 == 1) == bit(k, n), ((k >> ((127 - n) as u64)) & 1 != 0) == bit(k, n),
        ((k << n) >> 127u128 == 1) == bit(k, n), ((k << n) & (1u128 << 127u128) != 0) == bit(k, n),
        (k & ((1u128 << 127u128) >> n) == ((1u128 << 127u128) >> n)) == bit(k, n),
{
    let m: u64 = (127 - n) as u64;
    assert(((((1u128 << 127u128) >> n) & k != 0) == (k & ((1u128 << 127u128) >> n) != 0))
        && ((k & (1u128 << m) != 0) == (k & ((1u128 << 127u128) >> n) != 0))
        && (((k >> m) & 1 == 1) == (k & ((1u128 << 127u128) >> n) != 0)) && (((k >> m) & 1 != 0) == (k & ((1u128 << 127u128) >> n) != 0))
        && (((k << n) >> 127u128 == 1) == (k & ((1u128 << 127u128) >> n) != 0))
        && (((k << n) & (1u128 << 127u128) != 0) == (k & ((1u128 << 127u128) >> n) != 0))
        && ((k & ((1u128 << 127u128) >> n) == ((1u128 << 127u128) >> n)) == (k & ((1u128 << 127u128) >> n) != 0))) by (bit_vector) requires n < 128, m == sub(127, n);
}
/// a and b agree on their first n bits
pub open spec fn pfx(a: u128, b: u128, n: u64) -> bool { n == 0 || ((a ^ b) >> ((128 - n) as u128)) == 0 }

pub proof fn lemma_lz_split(a: u128, b: u128, n: u64)
    requires n < 128, (a ^ b) >> ((127 - n) as u128) == 1u128,
    ensures pfx(a, b, n), bit(a, n) != bit(b, n),
{
    let m = (127 - n) as u128;
    let k = (128 - n) as u128;
    let nn = n as u128;
    assert(bit(a, n) != bit(b, n)) by {
        assert((1u128 << 127u128) >> n == (1u128 << 127u128) >> nn);
        assert(((a ^ b) >> m == 1u128 && m == 127 - nn && nn < 128) ==>
            ((a & ((1u128 << 127u128) >> nn) != 0) != (b & ((1u128 << 127u128) >> nn) != 0))) by (bit_vector);
    }
    if n != 0 {
        assert(((a ^ b) >> m == 1u128 && m == sub(127, nn) && k == sub(128, nn) && 0 < nn && nn < 128) ==> (a ^ b) >> k == 0) by (bit_vector);
    }
}

pub proof fn lemma_pfx_refl(a: u128, n: u64)
    requires n <= 128,
    ensures pfx(a, a, n),
{
    let k = (128 - n) as u128;
    assert((a ^ a) >> k == 0) by (bit_vector);
}
pub proof fn lemma_pfx_sym(a: u128, b: u128, n: u64)
    ensures pfx(a, b, n) == pfx(b, a, n),
{
    assert(a ^ b == b ^ a) by (bit_vector);
}
pub proof fn lemma_pfx_trans(a: u128, b: u128, c: u128, n: u64)
    requires n <= 128, pfx(a, b, n), pfx(b, c, n),
    ensures pfx(a, c, n),
{
    if n != 0 {
        let k = (128 - n) as u128;
        assert(((a ^ b) >> k == 0 && (b ^ c) >> k == 0) ==> (a ^ c) >> k == 0) by (bit_vector);
    }
}
/// agreement on n bits implies agreement on fewer bits and on bit m < n
pub proof fn lemma_pfx_shorten(a: u128, b: u128, n: u64, m: u64)
    requires pfx(a, b, n), m < n <= 128,
    ensures pfx(a, b, m), bit(a, m) == bit(b, m),
{
    let k = (128 - n) as u128;
    let j = (128 - m) as u128;
    let mm = m as u128;
    let nn = n as u128;
    if m != 0 {
        assert(((a ^ b) >> k == 0 && k < j && j < 128) ==> (a ^ b) >> j == 0) by (bit_vector);
    }
    assert((1u128 << 127u128) >> m == (1u128 << 127u128) >> mm);
    assert(((a ^ b) >> k == 0 && mm < nn && nn <= 128 && k == sub(128, nn)) ==>
        ((a & ((1u128 << 127u128) >> mm) != 0) == (b & ((1u128 << 127u128) >> mm) != 0))) by (bit_vector);
}
/// equal prefix and a differing next bit decide the order
pub proof fn lemma_bit_order(a: u128, b: u128, n: u64)
    requires n < 128, pfx(a, b, n), !bit(a, n), bit(b, n),
    ensures a < b,
{
    let k = (128 - n) as u128;
    let nn = n as u128;
    assert((1u128 << 127u128) >> n == (1u128 << 127u128) >> nn);
    if n == 0 {
        assert(nn == 0);
        assert((a & ((1u128 << 127u128) >> 0u128) == 0 && b & ((1u128 << 127u128) >> 0u128) != 0) ==> a < b) by (bit_vector);
    } else {
        assert(((a ^ b) >> k == 0 && k == sub(128, nn) && 0 < nn && nn < 128
            && a & ((1u128 << 127u128) >> nn) == 0 && b & ((1u128 << 127u128) >> nn) != 0) ==> a < b) by (bit_vector);
    }
}
/// leading_zeros decides prefix agreement
pub proof fn lemma_lz_pfx(a: u128, b: u128, r: u32, n: u64)
    requires
        n < 128, r <= 128,
        (a ^ b == 0) <==> (r == 128),
        a ^ b != 0 ==> ((a ^ b) >> ((127 - r) as u128)) == 1u128,
    ensures
        r as u64 >= n <==> pfx(a, b, n),
        r == 128 <==> a == b,
{
    assert((a ^ b == 0) <==> (a == b)) by (bit_vector);
    if r == 128 {
        lemma_pfx_refl(a, n);
    } else {
        lemma_lz_split(a, b, r as u64);
        if r as u64 >= n {
            if (r as u64) > n { lemma_pfx_shorten(a, b, r as u64, n); }
        } else {
            if pfx(a, b, n) { lemma_pfx_shorten(a, b, n, r as u64); }
        }
    }
}

// ---------------------------------------------------------------- handles
pub proof fn lemma_handle(h: u32)
    ensures
        (h & (1u32 << 31u32) == 0) <==> h < 0x8000_0000u32,
        h < 0x8000_0000u32 ==> !h >= 0x8000_0000u32,
        h >= 0x8000_0000u32 ==> !h < 0x8000_0000u32,
        !(!h) == h,
        (h & (1u32 << 31u32) == (1u32 << 31u32)) <==> h >= 0x8000_0000u32,
        ((1u32 << 31u32) & h == 0) <==> h < 0x8000_0000u32,
        (h >> 31u32 == 0) <==> h < 0x8000_0000u32, (h >> 31u32 == 1) <==> h >= 0x8000_0000u32,
        1u32 << 31u32 == 0x8000_0000u32,
{
    assert(((h & (1u32 << 31u32) == (1u32 << 31u32)) <==> h >= 0x8000_0000u32) && (((1u32 << 31u32) & h == 0) <==> h < 0x8000_0000u32)
        && ((h >> 31u32 == 0) <==> h < 0x8000_0000u32) && ((h >> 31u32 == 1) <==> h >= 0x8000_0000u32) && 1u32 << 31u32 == 0x8000_0000u32) by (bit_vector);
    assert((h & (1u32 << 31u32) == 0) <==> h < 0x8000_0000u32) by (bit_vector);
    assert(h < 0x8000_0000u32 ==> !h >= 0x8000_0000u32) by (bit_vector);
    assert(h >= 0x8000_0000u32 ==> !h < 0x8000_0000u32) by (bit_vector);
    assert(!(!h) == h) by (bit_vector);
}
pub open spec fn neg(h: u32) -> u32 { (0xffff_ffffu32 - h) as u32 }
pub proof fn lemma_neg(h: u32)
    ensures !h == neg(h), neg(neg(h)) == h,
{
    assert(!h == sub(0xffff_ffffu32, h)) by (bit_vector);
}

// ---------------------------------------------------------------- trees
pub enum Tree {
    L(nat),
    N(nat, Box<Tree>, Box<Tree>),
}

pub open spec fn hnd(t: Tree) -> u32 {
    match t {
        Tree::L(h) => h as u32,
        Tree::N(h, _, _) => neg(h as u32),
    }
}
/// leaves from left to right
pub open spec fn lvs(t: Tree) -> Seq<nat>
    decreases t,
{
    match t {
        Tree::L(h) => seq![h],
        Tree::N(h, l, r) => lvs(*l) + lvs(*r),
    }
}
pub open spec fn inns(t: Tree) -> Set<nat>
    decreases t,
{
    match t {
        Tree::L(h) => Set::empty(),
        Tree::N(h, l, r) => inns(*l).union(inns(*r)).insert(h),
    }
}
pub open spec fn size(t: Tree) -> nat
    decreases t,
{
    match t {
        Tree::L(h) => 1,
        Tree::N(h, l, r) => size(*l) + size(*r),
    }
}
pub open spec fn kat(lv: Seq<LeafNode>, h: nat) -> u128 { lkey(lv[h as int]) }

/// every leaf of t agrees with k on n bits and has bit n equal to b
pub open spec fn side_ok(lv: Seq<LeafNode>, t: Tree, k: u128, n: u64, b: bool) -> bool {
    forall|j: int| 0 <= j < lvs(t).len() ==> pfx(#[trigger] kat(lv, lvs(t)[j]), k, n) && bit(kat(lv, lvs(t)[j]), n) == b
}

pub open spec fn wft(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::L(h) => h < lv.len(),
        Tree::N(h, l, r) => {
            &&& h < inn.len()
            &&& inn[h as int].prefix_len < 128
            &&& inn[h as int].children@[0] == hnd(*l)
            &&& inn[h as int].children@[1] == hnd(*r)
            &&& wft(lv, inn, *l)
            &&& wft(lv, inn, *r)
            &&& side_ok(lv, *l, inn[h as int].key, inn[h as int].prefix_len, false)
            &&& side_ok(lv, *r, inn[h as int].key, inn[h as int].prefix_len, true)
            &&& !inns(*l).contains(h)
            &&& !inns(*r).contains(h)
            &&& inns(*l).disjoint(inns(*r))
        },
    }
}
pub open spec fn has(t: Tree, h: nat) -> bool { lvs(t).contains(h) }
pub open spec fn has_key(lv: Seq<LeafNode>, t: Tree, k: u128) -> bool {
    exists|j: int| 0 <= j < lvs(t).len() && #[trigger] kat(lv, lvs(t)[j]) == k
}

pub proof fn lemma_size(t: Tree)
    ensures lvs(t).len() == size(t), size(t) >= 1, lvs(t).len() >= 1,
    decreases t,
{
    if let Tree::N(h, l, r) = t { lemma_size(*l); lemma_size(*r); }
}
pub proof fn lemma_inns_count(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree)
    requires wft(lv, inn, t),
    ensures inns(t).len() == size(t) - 1,
    decreases t,
{
    lemma_size(t);
    if let Tree::N(h, l, r) = t {
        lemma_inns_count(lv, inn, *l);
        lemma_inns_count(lv, inn, *r);
        lemma_size(*l); lemma_size(*r);
        vstd::set_lib::lemma_set_disjoint_lens(inns(*l), inns(*r));
    }
}
pub proof fn lemma_bounds(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree)
    requires wft(lv, inn, t),
    ensures
        forall|j: int| 0 <= j < lvs(t).len() ==> #[trigger] lvs(t)[j] < lv.len(),
        forall|i: nat| #[trigger] inns(t).contains(i) ==> i < inn.len(),
    decreases t,
{
    if let Tree::N(h, l, r) = t {
        lemma_bounds(lv, inn, *l);
        lemma_bounds(lv, inn, *r);
        assert forall|j: int| 0 <= j < lvs(t).len() implies #[trigger] lvs(t)[j] < lv.len() by {
            if j < lvs(*l).len() { assert(lvs(t)[j] == lvs(*l)[j]); } else { assert(lvs(t)[j] == lvs(*r)[j - lvs(*l).len()]); }
        }
        assert forall|i: nat| #[trigger] inns(t).contains(i) implies i < inn.len() by {
            assert(i == h || inns(*l).contains(i) || inns(*r).contains(i));
        }
    }
}
/// only the cells of the tree matter
pub proof fn lemma_frame(lv: Seq<LeafNode>, inn: Seq<InnerNode>, lv2: Seq<LeafNode>, inn2: Seq<InnerNode>, t: Tree)
    requires
        wft(lv, inn, t), lv2.len() == lv.len(), inn2.len() == inn.len(),
        forall|j: int| 0 <= j < lvs(t).len() ==> kat(lv2, #[trigger] lvs(t)[j]) == kat(lv, lvs(t)[j]),
        forall|i: nat| #[trigger] inns(t).contains(i) ==> inn2[i as int] == inn[i as int],
    ensures wft(lv2, inn2, t),
    decreases t,
{
    if let Tree::N(h, l, r) = t {
        assert forall|j: int| 0 <= j < lvs(*l).len() implies kat(lv2, #[trigger] lvs(*l)[j]) == kat(lv, lvs(*l)[j]) by {
            assert(lvs(t)[j] == lvs(*l)[j]);
        }
        assert forall|j: int| 0 <= j < lvs(*r).len() implies kat(lv2, #[trigger] lvs(*r)[j]) == kat(lv, lvs(*r)[j]) by {
            assert(lvs(t)[j + lvs(*l).len()] == lvs(*r)[j]);
        }
        assert forall|i: nat| #[trigger] inns(*l).contains(i) implies inn2[i as int] == inn[i as int] by { assert(inns(t).contains(i)); }
        assert forall|i: nat| #[trigger] inns(*r).contains(i) implies inn2[i as int] == inn[i as int] by { assert(inns(t).contains(i)); }
        lemma_frame(lv, inn, lv2, inn2, *l);
        lemma_frame(lv, inn, lv2, inn2, *r);
        assert(inns(t).contains(h));
    }
}
/// keys are strictly increasing from left to right
pub proof fn lemma_sorted(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree)
    requires wft(lv, inn, t),
    ensures forall|i: int, j: int| 0 <= i < j < lvs(t).len() ==> kat(lv, #[trigger] lvs(t)[i]) < kat(lv, #[trigger] lvs(t)[j]),
    decreases t,
{
    if let Tree::N(h, l, r) = t {
        lemma_sorted(lv, inn, *l);
        lemma_sorted(lv, inn, *r);
        let n = inn[h as int].prefix_len;
        let nk = inn[h as int].key;
        assert forall|i: int, j: int| 0 <= i < j < lvs(t).len() implies kat(lv, #[trigger] lvs(t)[i]) < kat(lv, #[trigger] lvs(t)[j]) by {
            let ll = lvs(*l).len();
            if i < ll && j >= ll {
                let a = kat(lv, lvs(*l)[i]);
                let b = kat(lv, lvs(*r)[j - ll]);
                assert(pfx(a, nk, n) && pfx(b, nk, n));
                lemma_pfx_sym(b, nk, n);
                lemma_pfx_trans(a, nk, b, n);
                lemma_bit_order(a, b, n);
            } else if j < ll {
                assert(lvs(t)[i] == lvs(*l)[i] && lvs(t)[j] == lvs(*l)[j]);
            } else {
                assert(lvs(t)[i] == lvs(*r)[i - ll] && lvs(t)[j] == lvs(*r)[j - ll]);
            }
        }
    }
}
/// the arrays and the root handle determine the tree
pub proof fn lemma_unique(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, u: Tree)
    requires wft(lv, inn, t), wft(lv, inn, u), hnd(t) == hnd(u), lv.len() <= 0x8000_0000, inn.len() <= 0x8000_0000,
    ensures t == u,
    decreases t,
{
    match (t, u) {
        (Tree::N(h, l, r), Tree::N(h2, l2, r2)) => {
            assert(h == h2);
            lemma_unique(lv, inn, *l, *l2);
            lemma_unique(lv, inn, *r, *r2);
        },
        _ => {},
    }
}

// ---------------------------------------------------------------- paths
pub open spec fn child(t: Tree, d: bool) -> Tree {
    match t {
        Tree::L(_) => t,
        Tree::N(_, l, r) => if d { *r } else { *l },
    }
}
/// walk down along p (empty path: t itself)
pub open spec fn sub_at(t: Tree, p: Seq<bool>) -> Tree
    decreases p.len(),
{
    if p.len() == 0 { t } else { sub_at(child(t, p[0]), p.skip(1)) }
}
pub open spec fn valid(t: Tree, p: Seq<bool>) -> bool
    decreases p.len(),
{
    p.len() == 0 || (t is N && valid(child(t, p[0]), p.skip(1)))
}
pub open spec fn repl(t: Tree, p: Seq<bool>, s: Tree) -> Tree
    decreases p.len(),
{
    if p.len() == 0 { s } else {
        match t {
            Tree::L(_) => t,
            Tree::N(h, l, r) => if p[0] { Tree::N(h, l, Box::new(repl(*r, p.skip(1), s))) } else { Tree::N(h, Box::new(repl(*l, p.skip(1), s)), r) },
        }
    }
}
/// k follows the path: at each node on it k takes the branch
pub open spec fn follows(inn: Seq<InnerNode>, t: Tree, p: Seq<bool>, k: u128) -> bool
    decreases p.len(),
{
    p.len() == 0 || match t {
        Tree::L(_) => false,
        Tree::N(h, l, r) => bit(k, inn[h as int].prefix_len) == p[0] && follows(inn, child(t, p[0]), p.skip(1), k),
    }
}
/// and agrees with each node's prefix
pub open spec fn agrees(inn: Seq<InnerNode>, t: Tree, p: Seq<bool>, k: u128) -> bool
    decreases p.len(),
{
    p.len() == 0 || match t {
        Tree::L(_) => false,
        Tree::N(h, l, r) => pfx(k, inn[h as int].key, inn[h as int].prefix_len) && agrees(inn, child(t, p[0]), p.skip(1), k),
    }
}
pub open spec fn node_of(t: Tree) -> nat {
    match t { Tree::L(h) => h, Tree::N(h, _, _) => h }
}

/// extending a path by one step
pub proof fn lemma_push(inn: Seq<InnerNode>, t: Tree, p: Seq<bool>, d: bool, k: u128)
    requires valid(t, p), sub_at(t, p) is N,
    ensures
        valid(t, p.push(d)),
        sub_at(t, p.push(d)) == child(sub_at(t, p), d),
        follows(inn, t, p, k) && bit(k, inn[node_of(sub_at(t, p)) as int].prefix_len) == d ==> follows(inn, t, p.push(d), k),
        agrees(inn, t, p, k) && pfx(k, inn[node_of(sub_at(t, p)) as int].key, inn[node_of(sub_at(t, p)) as int].prefix_len) ==> agrees(inn, t, p.push(d), k),
    decreases p.len(),
{
    let q = p.push(d);
    assert(q.len() == p.len() + 1);
    if p.len() == 0 {
        assert(q.skip(1) =~= Seq::<bool>::empty());
        assert(q[0] == d);
        assert(sub_at(child(t, d), q.skip(1)) == child(t, d));
        assert(valid(child(t, d), q.skip(1)));
        assert(follows(inn, child(t, d), q.skip(1), k));
        assert(agrees(inn, child(t, d), q.skip(1), k));
    } else {
        assert(q.skip(1) =~= p.skip(1).push(d));
        assert(q[0] == p[0]);
        lemma_push(inn, child(t, p[0]), p.skip(1), d, k);
    }
}
/// the last step of a path
pub proof fn lemma_pop(t: Tree, p: Seq<bool>)
    requires valid(t, p), p.len() > 0,
    ensures
        valid(t, p.drop_last()),
        sub_at(t, p.drop_last()) is N,
        sub_at(t, p) == child(sub_at(t, p.drop_last()), p.last()),
    decreases p.len(),
{
    let q = p.drop_last();
    if p.len() == 1 {
        assert(p.skip(1) =~= Seq::<bool>::empty());
        assert(sub_at(child(t, p[0]), p.skip(1)) == child(t, p[0]));
    } else {
        assert(q.skip(1) =~= p.skip(1).drop_last());
        assert(q[0] == p[0]);
        lemma_pop(child(t, p[0]), p.skip(1));
        assert(p.skip(1).last() == p.last());
    }
}
/// a subtree reached by a valid path is well formed, its cells belong to the tree
pub proof fn lemma_sub(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>)
    requires wft(lv, inn, t), valid(t, p),
    ensures
        wft(lv, inn, sub_at(t, p)),
        inns(sub_at(t, p)).subset_of(inns(t)),
        forall|j: int| 0 <= j < lvs(sub_at(t, p)).len() ==> lvs(t).contains(#[trigger] lvs(sub_at(t, p))[j]),
        size(sub_at(t, p)) <= size(t),
    decreases p.len(),
{
    if p.len() > 0 {
        if let Tree::N(h, l, r) = t {
            let c = child(t, p[0]);
            lemma_sub(lv, inn, c, p.skip(1));
            let s = sub_at(t, p);
            assert forall|j: int| 0 <= j < lvs(s).len() implies lvs(t).contains(#[trigger] lvs(s)[j]) by {
                assert(lvs(c).contains(lvs(s)[j]));
                let i = choose|i: int| 0 <= i < lvs(c).len() && lvs(c)[i] == lvs(s)[j];
                if p[0] { assert(lvs(t)[i + lvs(*l).len()] == lvs(s)[j]); } else { assert(lvs(t)[i] == lvs(s)[j]); }
            }
            lemma_size(*l); lemma_size(*r);
        }
    } else {
        assert(lvs(t) == lvs(sub_at(t, p)));
    }
}
/// a key that is in the tree is in every subtree it is led to
pub proof fn lemma_search(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>, k: u128)
    requires wft(lv, inn, t), valid(t, p), follows(inn, t, p, k),
    ensures has_key(lv, t, k) == has_key(lv, sub_at(t, p), k),
    decreases p.len(),
{
    if p.len() > 0 {
        if let Tree::N(h, l, r) = t {
            let d = p[0];
            let c = child(t, d);
            lemma_search(lv, inn, c, p.skip(1), k);
            assert(has_key(lv, t, k) == has_key(lv, c, k)) by {
                if has_key(lv, t, k) {
                    let j = choose|j: int| 0 <= j < lvs(t).len() && #[trigger] kat(lv, lvs(t)[j]) == k;
                    if j < lvs(*l).len() {
                        assert(kat(lv, lvs(*l)[j]) == k);
                    } else {
                        assert(kat(lv, lvs(*r)[j - lvs(*l).len()]) == k);
                    }
                }
                if has_key(lv, c, k) {
                    let j = choose|j: int| 0 <= j < lvs(c).len() && #[trigger] kat(lv, lvs(c)[j]) == k;
                    let jj = if d { j + lvs(*l).len() } else { j };
                    assert(kat(lv, lvs(t)[jj]) == k);
                }
            }
        }
    }
}

/// leaves before and after the subtree reached by p
pub open spec fn pre_of(t: Tree, p: Seq<bool>) -> Seq<nat>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else {
        match t {
            Tree::L(_) => Seq::empty(),
            Tree::N(h, l, r) => if p[0] { lvs(*l) + pre_of(*r, p.skip(1)) } else { pre_of(*l, p.skip(1)) },
        }
    }
}
pub open spec fn post_of(t: Tree, p: Seq<bool>) -> Seq<nat>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else {
        match t {
            Tree::L(_) => Seq::empty(),
            Tree::N(h, l, r) => if p[0] { post_of(*r, p.skip(1)) } else { post_of(*l, p.skip(1)) + lvs(*r) },
        }
    }
}
pub proof fn lemma_split(t: Tree, p: Seq<bool>, s: Tree)
    requires valid(t, p),
    ensures
        lvs(t) =~= pre_of(t, p) + lvs(sub_at(t, p)) + post_of(t, p),
        lvs(repl(t, p, s)) =~= pre_of(t, p) + lvs(s) + post_of(t, p),
    decreases p.len(),
{
    if p.len() > 0 {
        if let Tree::N(h, l, r) = t {
            lemma_split(child(t, p[0]), p.skip(1), s);
        }
    }
}
pub open spec fn inns_out(t: Tree, p: Seq<bool>) -> Set<nat>
    decreases p.len(),
{
    if p.len() == 0 { Set::empty() } else {
        match t {
            Tree::L(_) => Set::empty(),
            Tree::N(h, l, r) => if p[0] { inns(*l).union(inns_out(*r, p.skip(1))).insert(h) } else { inns_out(*l, p.skip(1)).union(inns(*r)).insert(h) },
        }
    }
}
pub proof fn lemma_inns_out(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>)
    requires valid(t, p), wft(lv, inn, t),
    ensures
        inns_out(t, p).disjoint(inns(sub_at(t, p))),
        inns(t) =~= inns_out(t, p).union(inns(sub_at(t, p))),
        p.len() > 0 ==> inns_out(t, p).contains(node_of(sub_at(t, p.drop_last()))),
    decreases p.len(),
{
    if p.len() > 0 {
        if let Tree::N(h, l, r) = t {
            let c = child(t, p[0]);
            lemma_inns_out(lv, inn, c, p.skip(1));
            lemma_sub(lv, inn, c, p.skip(1));
            if p.len() > 1 {
                assert(p.drop_last().skip(1) =~= p.skip(1).drop_last());
            } else {
                assert(p.drop_last() =~= Seq::<bool>::empty());
            }
        }
    }
}
/// replacing the subtree at p: the parent's child pointer is redirected, everything
/// else outside the subtree is unchanged
pub proof fn lemma_repl(lv: Seq<LeafNode>, inn: Seq<InnerNode>, lv2: Seq<LeafNode>, inn2: Seq<InnerNode>, t: Tree, p: Seq<bool>, s: Tree)
    requires
        wft(lv, inn, t), valid(t, p), wft(lv2, inn2, s),
        lv2.len() == lv.len(), inn2.len() == inn.len(),
        forall|j: int| 0 <= j < pre_of(t, p).len() ==> kat(lv2, #[trigger] pre_of(t, p)[j]) == kat(lv, pre_of(t, p)[j]),
        forall|j: int| 0 <= j < post_of(t, p).len() ==> kat(lv2, #[trigger] post_of(t, p)[j]) == kat(lv, post_of(t, p)[j]),
        forall|i: nat| #[trigger] inns_out(t, p).contains(i) ==> inn2[i as int].key == inn[i as int].key && inn2[i as int].prefix_len == inn[i as int].prefix_len,
        forall|i: nat| #[trigger] inns_out(t, p).contains(i) && (p.len() > 0 ==> i != node_of(sub_at(t, p.drop_last()))) ==> inn2[i as int] == inn[i as int],
        p.len() > 0 ==> ({
            let ph = node_of(sub_at(t, p.drop_last())) as int;
            &&& inn2[ph].children@[if p.last() { 1int } else { 0int }] == hnd(s)
            &&& inn2[ph].children@[if p.last() { 0int } else { 1int }] == inn[ph].children@[if p.last() { 0int } else { 1int }]
        }),
        inns_out(t, p).disjoint(inns(s)),
        // the new leaves belong where they are put
        forall|j: int| 0 <= j < lvs(s).len() ==> agrees(inn, t, p, kat(lv2, #[trigger] lvs(s)[j])) && follows(inn, t, p, kat(lv2, lvs(s)[j])),
    ensures
        wft(lv2, inn2, repl(t, p, s)),
        inns(repl(t, p, s)) =~= inns_out(t, p).union(inns(s)),
        p.len() > 0 ==> hnd(repl(t, p, s)) == hnd(t),
    decreases p.len(),
{
    if p.len() > 0 {
        if let Tree::N(h, l, r) = t {
            let d = p[0];
            let c = child(t, d);
            let o = child(t, !d);
            let q = p.skip(1);
            let c2 = repl(c, q, s);
            lemma_split(c, q, s);
            lemma_split(t, p, s);
            lemma_inns_out(lv, inn, c, q);
            lemma_inns_out(lv, inn, t, p);
            assert forall|j: int| 0 <= j < pre_of(c, q).len() implies kat(lv2, #[trigger] pre_of(c, q)[j]) == kat(lv, pre_of(c, q)[j]) by {
                let jj = if d { j + lvs(*l).len() } else { j };
                assert(pre_of(t, p)[jj] == pre_of(c, q)[j]);
            }
            assert forall|j: int| 0 <= j < post_of(c, q).len() implies kat(lv2, #[trigger] post_of(c, q)[j]) == kat(lv, post_of(c, q)[j]) by {
                assert(post_of(t, p)[j] == post_of(c, q)[j]);
            }
            if p.len() > 1 {
                assert(p.drop_last().skip(1) =~= q.drop_last());
                assert(sub_at(t, p.drop_last()) == sub_at(c, q.drop_last()));
                assert(q.last() == p.last());
                lemma_pop(c, q);
                let ph = node_of(sub_at(c, q.drop_last()));
                assert(inns_out(c, q).contains(ph));
                assert(inns(c).contains(ph));
                assert(ph != h);
                assert(inn2[h as int] == inn[h as int]) by { assert(inns_out(t, p).contains(h)); }
            } else {
                assert(q =~= Seq::<bool>::empty());
                assert(p.drop_last() =~= Seq::<bool>::empty());
                assert(sub_at(t, p.drop_last()) == t);
                assert(c2 == s);
            }
            assert forall|i: nat| #[trigger] inns_out(c, q).contains(i) implies inn2[i as int].key == inn[i as int].key && inn2[i as int].prefix_len == inn[i as int].prefix_len by {
                assert(inns_out(t, p).contains(i));
            }
            assert forall|i: nat| #[trigger] inns_out(c, q).contains(i) && (q.len() > 0 ==> i != node_of(sub_at(c, q.drop_last()))) implies inn2[i as int] == inn[i as int] by {
                assert(inns_out(t, p).contains(i));
                if p.len() == 1 { assert(false); }
            }
            lemma_repl(lv, inn, lv2, inn2, c, q, s);
            // the other child is untouched
            assert forall|j: int| 0 <= j < lvs(o).len() implies kat(lv2, #[trigger] lvs(o)[j]) == kat(lv, lvs(o)[j]) by {
                if d { assert(pre_of(t, p)[j] == lvs(o)[j]); } else {
                    assert(post_of(t, p)[j + post_of(c, q).len()] == lvs(o)[j]);
                }
            }
            assert forall|i: nat| #[trigger] inns(o).contains(i) implies inn2[i as int] == inn[i as int] by {
                assert(inns_out(t, p).contains(i));
                if p.len() > 1 { assert(inns(c).contains(node_of(sub_at(c, q.drop_last())))); }
            }
            lemma_frame(lv, inn, lv2, inn2, o);
            let n = inn[h as int].prefix_len;
            let nk = inn[h as int].key;
            assert(inns_out(t, p).contains(h));
            // the replaced child keeps this node's prefix and side
            assert(side_ok(lv2, c2, nk, n, d)) by {
                assert forall|j: int| 0 <= j < lvs(c2).len() implies pfx(#[trigger] kat(lv2, lvs(c2)[j]), nk, n) && bit(kat(lv2, lvs(c2)[j]), n) == d by {
                    let a = pre_of(c, q).len();
                    let b = a + lvs(s).len();
                    if j < a {
                        assert(lvs(c2)[j] == pre_of(c, q)[j]);
                        assert(lvs(c)[j] == pre_of(c, q)[j]);
                        assert(pfx(kat(lv, lvs(c)[j]), nk, n));
                    } else if j < b {
                        assert(lvs(c2)[j] == lvs(s)[j - a]);
                        assert(agrees(inn, t, p, kat(lv2, lvs(s)[j - a])));
                    } else {
                        assert(lvs(c2)[j] == post_of(c, q)[j - b]);
                        let jj = j - b + a + lvs(sub_at(c, q)).len();
                        assert(lvs(c)[jj] == post_of(c, q)[j - b]);
                        assert(pfx(kat(lv, lvs(c)[jj]), nk, n));
                    }
                }
            }
            assert(side_ok(lv2, o, nk, n, !d)) by {
                assert forall|j: int| 0 <= j < lvs(o).len() implies pfx(#[trigger] kat(lv2, lvs(o)[j]), nk, n) && bit(kat(lv2, lvs(o)[j]), n) == !d by {
                    assert(pfx(kat(lv, lvs(o)[j]), nk, n));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the slab
pub ghost struct SlabV<C> {
    pub h: SlabHeader,
    pub lv: Seq<LeafNode>,
    pub inn: Seq<InnerNode>,
    pub cb: Seq<C>,
}
pub ghost struct Wit {
    pub t: Option<Tree>,
    pub fl: Seq<nat>,
    pub ifl: Seq<nat>,
}
pub open spec fn leaves(t: Option<Tree>) -> Seq<nat> { match t { None => Seq::empty(), Some(t) => lvs(t) } }
pub open spec fn inner(t: Option<Tree>) -> Set<nat> { match t { None => Set::empty(), Some(t) => inns(t) } }

/// the leaf free list
pub open spec fn lfl_ok(h: SlabHeader, lv: Seq<LeafNode>, fl: Seq<nat>) -> bool {
    &&& fl.len() == h.leaf_free_list_len
    &&& fl.len() > 0 ==> fl[0] == h.leaf_free_list_head
    &&& forall|i: int| 0 <= i < fl.len() - 1 ==> lv[(#[trigger] fl[i]) as int].base_quantity == fl[i + 1]
    &&& forall|i: int| 0 <= i < fl.len() ==> #[trigger] fl[i] < h.leaf_bump_index
    &&& forall|i: int, j: int| 0 <= i < j < fl.len() ==> fl[i] != fl[j]
    &&& h.leaf_bump_index <= lv.len()
    &&& lv.len() <= 0x8000_0000
}
/// the inner node free list
pub open spec fn ifl_ok(h: SlabHeader, inn: Seq<InnerNode>, fl: Seq<nat>) -> bool {
    &&& fl.len() == h.inner_node_free_list_len
    &&& fl.len() > 0 ==> fl[0] == h.inner_node_free_list_head
    &&& forall|i: int| 0 <= i < fl.len() - 1 ==> inn[(#[trigger] fl[i]) as int].prefix_len == fl[i + 1]
    &&& forall|i: int| 0 <= i < fl.len() ==> #[trigger] fl[i] < h.inner_node_bump_index
    &&& forall|i: int, j: int| 0 <= i < j < fl.len() ==> fl[i] != fl[j]
    &&& h.inner_node_bump_index <= inn.len()
    &&& inn.len() <= 0x8000_0000
}
pub open spec fn tree_ok<C>(s: SlabV<C>, t: Option<Tree>) -> bool {
    match t {
        None => s.h.leaf_count == 0,
        Some(t) => wft(s.lv, s.inn, t) && s.h.root_node == hnd(t) && s.h.leaf_count == size(t),
    }
}
pub open spec fn lens_ok<C>(s: SlabV<C>) -> bool {
    &&& s.lv.len() == s.inn.len() + 1
    &&& s.cb.len() == s.lv.len()
    &&& s.lv.len() <= 0x8000_0000
}
pub open spec fn wfw<C>(s: SlabV<C>, w: Wit) -> bool {
    &&& lens_ok(s)
    &&& tree_ok(s, w.t)
    &&& lfl_ok(s.h, s.lv, w.fl)
    &&& ifl_ok(s.h, s.inn, w.ifl)
    &&& forall|j: int| 0 <= j < leaves(w.t).len() ==> #[trigger] leaves(w.t)[j] < s.h.leaf_bump_index
    &&& forall|j: int, i: int| 0 <= j < leaves(w.t).len() && 0 <= i < w.fl.len() ==> #[trigger] leaves(w.t)[j] != #[trigger] w.fl[i]
    &&& forall|i: nat| #[trigger] inner(w.t).contains(i) ==> i < s.h.inner_node_bump_index
    &&& forall|i: int| 0 <= i < w.ifl.len() ==> !inner(w.t).contains(#[trigger] w.ifl[i])
    &&& s.h.leaf_count + w.fl.len() == s.h.leaf_bump_index
    &&& (if s.h.leaf_count == 0 { 0 } else { s.h.leaf_count - 1 }) + w.ifl.len() == s.h.inner_node_bump_index
}
pub open spec fn wf<C>(s: SlabV<C>) -> bool { exists|w: Wit| wfw(s, w) }
pub open spec fn wit<C>(s: SlabV<C>) -> Wit { choose|w: Wit| wfw(s, w) }

pub open spec fn keys_of(lv: Seq<LeafNode>, ls: Seq<nat>) -> Seq<u128> { Seq::new(ls.len(), |j: int| kat(lv, ls[j])) }
pub open spec fn kmap(lv: Seq<LeafNode>, ls: Seq<nat>) -> Map<u128, nat> {
    Map::new(
        keys_of(lv, ls).to_set(),
        |k: u128| ls[choose|j: int| 0 <= j < ls.len() && kat(lv, #[trigger] ls[j]) == k],
    )
}
/// order id -> leaf handle, for every resting order
pub open spec fn slots<C>(s: SlabV<C>) -> Map<u128, nat> { kmap(s.lv, leaves(wit(s).t)) }
/// leaf handles in increasing key order
pub open spec fn ordered<C>(s: SlabV<C>) -> Seq<nat> { leaves(wit(s).t) }

pub proof fn lemma_tree_unique<C>(s: SlabV<C>, w: Wit, v: Wit)
    requires wfw(s, w), wfw(s, v),
    ensures w.t == v.t,
{
    if let Some(t) = w.t { lemma_size(t); }
    if let Some(t) = v.t { lemma_size(t); }
    if let (Some(t), Some(u)) = (w.t, v.t) { lemma_unique(s.lv, s.inn, t, u); }
}
pub proof fn lemma_kmap(lv: Seq<LeafNode>, ls: Seq<nat>)
    requires forall|i: int, j: int| 0 <= i < j < ls.len() ==> kat(lv, #[trigger] ls[i]) < kat(lv, #[trigger] ls[j]),
    ensures
        forall|k: u128| #[trigger] kmap(lv, ls).contains_key(k) ==> kat(lv, kmap(lv, ls)[k]) == k && ls.contains(kmap(lv, ls)[k]),
        forall|j: int| 0 <= j < ls.len() ==> kmap(lv, ls).contains_key(kat(lv, #[trigger] ls[j])) && kmap(lv, ls)[kat(lv, ls[j])] == ls[j],
        forall|h: nat| ls.contains(h) ==> #[trigger] kmap(lv, ls).contains_key(kat(lv, h)) && kmap(lv, ls)[kat(lv, h)] == h,
{
    let m = kmap(lv, ls);
    let ks = keys_of(lv, ls);
    assert forall|k: u128| m.contains_key(k) <==> exists|j: int| 0 <= j < ls.len() && kat(lv, #[trigger] ls[j]) == k by {
        if m.contains_key(k) { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(kat(lv, ls[j]) == k); }
        if exists|j: int| 0 <= j < ls.len() && kat(lv, #[trigger] ls[j]) == k {
            let j = choose|j: int| 0 <= j < ls.len() && kat(lv, #[trigger] ls[j]) == k;
            assert(ks[j] == k);
            assert(ks.to_set().contains(k));
        }
    }
    assert forall|k: u128| #[trigger] m.contains_key(k) implies kat(lv, m[k]) == k && ls.contains(m[k]) by {
        let j = choose|j: int| 0 <= j < ls.len() && kat(lv, #[trigger] ls[j]) == k;
        assert(ls[j] == m[k]);
    }
    assert forall|j: int| 0 <= j < ls.len() implies m.contains_key(kat(lv, #[trigger] ls[j])) && m[kat(lv, ls[j])] == ls[j] by {
        let k = kat(lv, ls[j]);
        assert(m.contains_key(k));
        let i = choose|i: int| 0 <= i < ls.len() && kat(lv, #[trigger] ls[i]) == k;
        assert(i == j) by { if i < j {} else if j < i {} }
    }
    assert forall|h: nat| ls.contains(h) implies #[trigger] m.contains_key(kat(lv, h)) && m[kat(lv, h)] == h by {
        let j = choose|j: int| 0 <= j < ls.len() && ls[j] == h;
        assert(kat(lv, ls[j]) == kat(lv, h));
    }
}
/// everything one needs to know about a well-formed slab and its witness
pub proof fn lemma_wf<C>(s: SlabV<C>, w: Wit)
    requires wfw(s, w),
    ensures
        wf(s),
        wit(s).t == w.t,
        ordered(s) == leaves(w.t),
        slots(s) == kmap(s.lv, leaves(w.t)),
        leaves(w.t).len() == s.h.leaf_count,
        s.h.leaf_count <= s.lv.len(),
        w.t is None <==> s.h.leaf_count == 0,
        forall|i: int, j: int| 0 <= i < j < leaves(w.t).len() ==> kat(s.lv, #[trigger] leaves(w.t)[i]) < kat(s.lv, #[trigger] leaves(w.t)[j]),
        forall|k: u128| #[trigger] slots(s).contains_key(k) ==> kat(s.lv, slots(s)[k]) == k && leaves(w.t).contains(slots(s)[k]) && slots(s)[k] < s.lv.len(),
        forall|j: int| 0 <= j < leaves(w.t).len() ==> slots(s).contains_key(kat(s.lv, #[trigger] leaves(w.t)[j])) && slots(s)[kat(s.lv, leaves(w.t)[j])] == leaves(w.t)[j],
        forall|h: nat| leaves(w.t).contains(h) ==> #[trigger] slots(s).contains_key(kat(s.lv, h)) && slots(s)[kat(s.lv, h)] == h,
{
    lemma_tree_unique(s, w, wit(s));
    if let Some(t) = w.t {
        lemma_size(t);
        lemma_sorted(s.lv, s.inn, t);
        lemma_bounds(s.lv, s.inn, t);
    }
    lemma_kmap(s.lv, leaves(w.t));
    assert forall|k: u128| #[trigger] slots(s).contains_key(k) implies slots(s)[k] < s.lv.len() by {
        let j = choose|j: int| 0 <= j < leaves(w.t).len() && leaves(w.t)[j] == slots(s)[k];
        assert(leaves(w.t)[j] < s.h.leaf_bump_index);
    }
}
pub proof fn lemma_slots_dom<C>(s: SlabV<C>)
    requires wf(s),
    ensures
        slots(s).len() == s.h.leaf_count,
        s.h.leaf_count <= s.lv.len(),
        forall|k: u128| #[trigger] slots(s).contains_key(k) ==> kat(s.lv, slots(s)[k]) == k && slots(s)[k] < s.lv.len(),
{
    let w = wit(s);
    lemma_wf(s, w);
    let ls = leaves(w.t);
    let ks = Seq::new(ls.len(), |j: int| kat(s.lv, ls[j]));
    assert(ks.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by {
            if i < j { assert(kat(s.lv, ls[i]) < kat(s.lv, ls[j])); } else { assert(kat(s.lv, ls[j]) < kat(s.lv, ls[i])); }
        }
    }
    ks.unique_seq_to_set();
    assert(ks.to_set() =~= slots(s).dom()) by {
        assert forall|k: u128| ks.to_set().contains(k) <==> slots(s).dom().contains(k) by {
            if ks.to_set().contains(k) {
                let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
                assert(kat(s.lv, ls[j]) == k);
            }
            if slots(s).dom().contains(k) {
                let j = choose|j: int| 0 <= j < ls.len() && ls[j] == slots(s)[k];
                assert(ks[j] == k);
            }
        }
    }
}

// ---------------------------------------------------------------- insertion
pub open spec fn same_but_child(a: InnerNode, b: InnerNode, d: bool, h: u32) -> bool {
    &&& b.key == a.key
    &&& b.prefix_len == a.prefix_len
    &&& b.children@[if d { 1int } else { 0int }] == h
    &&& b.children@[if d { 0int } else { 1int }] == a.children@[if d { 0int } else { 1int }]
}
pub open spec fn new_node(cur: Tree, nh: nat, ni: nat, b: bool) -> Tree {
    if b { Tree::N(ni, Box::new(cur), Box::new(Tree::L(nh))) } else { Tree::N(ni, Box::new(Tree::L(nh)), Box::new(cur)) }
}
pub proof fn lemma_new_node(lv: Seq<LeafNode>, lv2: Seq<LeafNode>, inn2: Seq<InnerNode>, cur: Tree, nh: nat, ni: nat, k: u128, n: u64)
    requires
        wft(lv2, inn2, cur), n < 128, lv2.len() == lv.len(),
        forall|j: int| 0 <= j < lvs(cur).len() ==> kat(lv2, #[trigger] lvs(cur)[j]) == kat(lv, lvs(cur)[j]),
        side_ok(lv, cur, k, n, !bit(k, n)),
        nh < lv.len(), ni < inn2.len(), !inns(cur).contains(ni), kat(lv2, nh) == k,
        inn2[ni as int].key == k,
        inn2[ni as int].prefix_len == n,
        inn2[ni as int].children@[if bit(k, n) { 1int } else { 0int }] == nh,
        inn2[ni as int].children@[if bit(k, n) { 0int } else { 1int }] == hnd(cur),
        lv.len() <= 0x8000_0000,
    ensures
        wft(lv2, inn2, new_node(cur, nh, ni, bit(k, n))),
        lvs(new_node(cur, nh, ni, bit(k, n))) =~= (if bit(k, n) { lvs(cur).push(nh) } else { seq![nh] + lvs(cur) }),
        inns(new_node(cur, nh, ni, bit(k, n))) =~= inns(cur).insert(ni),
        hnd(new_node(cur, nh, ni, bit(k, n))) == neg(ni as u32),
        size(new_node(cur, nh, ni, bit(k, n))) == size(cur) + 1,
{
    let b = bit(k, n);
    lemma_pfx_refl(k, n);
    let leaf = Tree::L(nh);
    assert(lvs(leaf) =~= seq![nh]);
    assert(size(leaf) == 1);
    assert(side_ok(lv2, leaf, k, n, b)) by {
        assert forall|j: int| 0 <= j < lvs(leaf).len() implies pfx(#[trigger] kat(lv2, lvs(leaf)[j]), k, n) && bit(kat(lv2, lvs(leaf)[j]), n) == b by {
            assert(lvs(leaf)[j] == nh);
        }
    }
    assert(side_ok(lv2, cur, k, n, !b)) by {
        assert forall|j: int| 0 <= j < lvs(cur).len() implies pfx(#[trigger] kat(lv2, lvs(cur)[j]), k, n) && bit(kat(lv2, lvs(cur)[j]), n) == !b by {
            assert(pfx(kat(lv, lvs(cur)[j]), k, n));
        }
    }
    assert(inns(leaf) =~= Set::<nat>::empty());
    assert(wft(lv2, inn2, leaf));
    assert(hnd(leaf) == nh as u32);
    let s = new_node(cur, nh, ni, b);
    if b {
        assert(s == Tree::N(ni, Box::new(cur), Box::new(leaf)));
    } else {
        assert(s == Tree::N(ni, Box::new(leaf), Box::new(cur)));
    }
}
pub proof fn lemma_ins_members(lt: Seq<nat>, lt2: Seq<nat>, lc: Seq<nat>, ls: Seq<nat>, a: int, b: bool, nh: nat)
    requires
        0 <= a, a + lc.len() <= lt.len(), lt2.len() == lt.len() + 1,
        ls == if b { lc.push(nh) } else { seq![nh] + lc },
        forall|i: int| 0 <= i < a ==> lt2[i] == #[trigger] lt[i],
        forall|i: int| 0 <= i < lc.len() ==> lt[a + i] == #[trigger] lc[i],
        forall|i: int| 0 <= i < ls.len() ==> lt2[a + i] == #[trigger] ls[i],
        forall|i: int| a + lc.len() <= i < lt.len() ==> lt2[i + 1] == #[trigger] lt[i],
    ensures forall|h: nat| #![trigger lt2.contains(h)] #![trigger lt.contains(h)] lt2.contains(h) <==> (lt.contains(h) || h == nh),
{
    let c = a + lc.len();
    let np = if b { c } else { a };
    assert(lt2[np] == nh) by { assert(lt2[a + (np - a)] == ls[np - a]); }
    assert forall|i: int| 0 <= i < lt.len() implies #[trigger] lt[i] == lt2[if i < np { i } else { i + 1 }] by {
        if i < a {}
        else if i < c {
            assert(lt[a + (i - a)] == lc[i - a]);
            if b { assert(lt2[a + (i - a)] == ls[i - a]); } else { assert(lt2[a + (i - a + 1)] == ls[i - a + 1]); }
        } else {}
    }
    assert forall|h: nat| #![trigger lt2.contains(h)] #![trigger lt.contains(h)] lt2.contains(h) <==> (lt.contains(h) || h == nh) by {
        if lt2.contains(h) {
            let i = choose|i: int| 0 <= i < lt2.len() && lt2[i] == h;
            if i != np { assert(lt[if i < np { i } else { i - 1 }] == h); }
        }
        if lt.contains(h) {
            let i = choose|i: int| 0 <= i < lt.len() && lt[i] == h;
            assert(lt2[if i < np { i } else { i + 1 }] == h);
        }
    }
}
pub open spec fn ins_tree(t: Tree, p: Seq<bool>, nh: nat, ni: nat, b: bool) -> Tree {
    let cur = sub_at(t, p);
    repl(t, p, new_node(cur, nh, ni, b))
}
pub proof fn lemma_diverge(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, k: u128, n: u64)
    requires
        wft(lv, inn, t), n < 128,
        match t {
            Tree::L(h) => pfx(kat(lv, h), k, n) && bit(kat(lv, h), n) != bit(k, n),
            Tree::N(h, _, _) => n < inn[h as int].prefix_len && pfx(inn[h as int].key, k, n) && bit(inn[h as int].key, n) != bit(k, n),
        },
    ensures side_ok(lv, t, k, n, !bit(k, n)),
{
    if let Tree::N(h, l, r) = t {
        let nk = inn[h as int].key;
        assert forall|j: int| 0 <= j < lvs(t).len() implies pfx(#[trigger] kat(lv, lvs(t)[j]), k, n) && bit(kat(lv, lvs(t)[j]), n) == !bit(k, n) by {
            let a = kat(lv, lvs(t)[j]);
            if j < lvs(*l).len() { assert(kat(lv, lvs(*l)[j]) == a); } else { assert(kat(lv, lvs(*r)[j - lvs(*l).len()]) == a); }
            assert(pfx(a, nk, inn[h as int].prefix_len));
            lemma_pfx_shorten(a, nk, inn[h as int].prefix_len, n);
            lemma_pfx_trans(a, nk, k, n);
        }
    }
}
pub proof fn lemma_follow_all(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>)
    requires wft(lv, inn, t), valid(t, p),
    ensures forall|j: int| 0 <= j < lvs(sub_at(t, p)).len() ==>
        agrees(inn, t, p, kat(lv, #[trigger] lvs(sub_at(t, p))[j])) && follows(inn, t, p, kat(lv, lvs(sub_at(t, p))[j])),
    decreases p.len(),
{
    if p.len() > 0 {
        if let Tree::N(h, l, r) = t {
            let c = child(t, p[0]);
            lemma_follow_all(lv, inn, c, p.skip(1));
            lemma_sub(lv, inn, c, p.skip(1));
            let s = sub_at(t, p);
            assert forall|j: int| 0 <= j < lvs(s).len() implies
                agrees(inn, t, p, kat(lv, #[trigger] lvs(s)[j])) && follows(inn, t, p, kat(lv, lvs(s)[j])) by {
                assert(lvs(c).contains(lvs(s)[j]));
                let i = choose|i: int| 0 <= i < lvs(c).len() && lvs(c)[i] == lvs(s)[j];
                assert(pfx(kat(lv, lvs(c)[i]), inn[h as int].key, inn[h as int].prefix_len));
            }
        }
    }
}
pub proof fn lemma_insert(
    lv: Seq<LeafNode>, inn: Seq<InnerNode>, lv2: Seq<LeafNode>, inn2: Seq<InnerNode>,
    t: Tree, p: Seq<bool>, nh: nat, ni: nat, k: u128, n: u64,
)
    requires
        wft(lv, inn, t), valid(t, p), agrees(inn, t, p, k), follows(inn, t, p, k),
        !lvs(t).contains(nh), nh < lv.len(), ni < inn.len(), !inns(t).contains(ni),
        lv2.len() == lv.len(), inn2.len() == inn.len(), n < 128,
        lv.len() <= 0x8000_0000, inn.len() <= 0x8000_0000,
        kat(lv2, nh) == k,
        forall|h: nat| h < lv.len() && h != nh ==> #[trigger] kat(lv2, h) == kat(lv, h),
        inn2[ni as int].key == k,
        inn2[ni as int].prefix_len == n,
        inn2[ni as int].children@[if bit(k, n) { 1int } else { 0int }] == nh,
        inn2[ni as int].children@[if bit(k, n) { 0int } else { 1int }] == hnd(sub_at(t, p)),
        forall|i: nat| i < inn.len() && i != ni && (p.len() > 0 ==> i != node_of(sub_at(t, p.drop_last()))) ==> #[trigger] inn2[i as int] == inn[i as int],
        p.len() > 0 ==> same_but_child(inn[node_of(sub_at(t, p.drop_last())) as int], inn2[node_of(sub_at(t, p.drop_last())) as int], p.last(), neg(ni as u32)),
        side_ok(lv, sub_at(t, p), k, n, !bit(k, n)),
    ensures
        wft(lv2, inn2, ins_tree(t, p, nh, ni, bit(k, n))),
        forall|h: nat| #![trigger lvs(ins_tree(t, p, nh, ni, bit(k, n))).contains(h)] #![trigger lvs(t).contains(h)] lvs(ins_tree(t, p, nh, ni, bit(k, n))).contains(h) <==> (lvs(t).contains(h) || h == nh),
        size(ins_tree(t, p, nh, ni, bit(k, n))) == size(t) + 1,
        inns(ins_tree(t, p, nh, ni, bit(k, n))) =~= inns(t).insert(ni),
        p.len() > 0 ==> hnd(ins_tree(t, p, nh, ni, bit(k, n))) == hnd(t),
        p.len() == 0 ==> hnd(ins_tree(t, p, nh, ni, bit(k, n))) == neg(ni as u32),
{
    let cur = sub_at(t, p);
    let b = bit(k, n);
    let s = new_node(cur, nh, ni, b);
    let t2 = ins_tree(t, p, nh, ni, b);
    lemma_sub(lv, inn, t, p);
    lemma_inns_out(lv, inn, t, p);
    lemma_split(t, p, s);
    lemma_bounds(lv, inn, t);
    assert forall|j: int| 0 <= j < lvs(t).len() implies kat(lv2, #[trigger] lvs(t)[j]) == kat(lv, lvs(t)[j]) by {
        assert(lvs(t).contains(lvs(t)[j]));
        assert(lvs(t)[j] != nh);
    }
    let ph = node_of(sub_at(t, p.drop_last()));
    if p.len() > 0 {
        lemma_pop(t, p);
        assert(inns_out(t, p).contains(ph));
        assert(inns(t).contains(ph));
    }
    // cur is untouched
    assert forall|j: int| 0 <= j < lvs(cur).len() implies kat(lv2, #[trigger] lvs(cur)[j]) == kat(lv, lvs(cur)[j]) by {
        assert(lvs(t).contains(lvs(cur)[j]));
        let i = choose|i: int| 0 <= i < lvs(t).len() && lvs(t)[i] == lvs(cur)[j];
        assert(kat(lv2, lvs(t)[i]) == kat(lv, lvs(t)[i]));
    }
    assert forall|i: nat| #[trigger] inns(cur).contains(i) implies inn2[i as int] == inn[i as int] by {
        assert(inns(t).contains(i));
    }
    lemma_frame(lv, inn, lv2, inn2, cur);
    assert(!inns(cur).contains(ni));
    lemma_new_node(lv, lv2, inn2, cur, nh, ni, k, n);
    let a = pre_of(t, p).len() as int;
    let c = a + lvs(cur).len();
    assert forall|j: int| 0 <= j < pre_of(t, p).len() implies kat(lv2, #[trigger] pre_of(t, p)[j]) == kat(lv, pre_of(t, p)[j]) by {
        assert(lvs(t)[j] == pre_of(t, p)[j]);
    }
    assert forall|j: int| 0 <= j < post_of(t, p).len() implies kat(lv2, #[trigger] post_of(t, p)[j]) == kat(lv, post_of(t, p)[j]) by {
        assert(lvs(t)[j + c] == post_of(t, p)[j]);
    }
    assert forall|i: nat| #[trigger] inns_out(t, p).contains(i) implies inn2[i as int].key == inn[i as int].key && inn2[i as int].prefix_len == inn[i as int].prefix_len by {
        assert(inns(t).contains(i));
        assert(i < inn.len() && i != ni);
    }
    assert forall|i: nat| #[trigger] inns_out(t, p).contains(i) && (p.len() > 0 ==> i != ph) implies inn2[i as int] == inn[i as int] by {
        assert(inns(t).contains(i));
    }
    lemma_follow_all(lv, inn, t, p);
    assert forall|j: int| 0 <= j < lvs(s).len() implies agrees(inn, t, p, kat(lv2, #[trigger] lvs(s)[j])) && follows(inn, t, p, kat(lv2, lvs(s)[j])) by {
        if b {
            if j < lvs(cur).len() { assert(lvs(s)[j] == lvs(cur)[j]); } else { assert(lvs(s)[j] == nh); }
        } else {
            if j == 0 { assert(lvs(s)[j] == nh); } else { assert(lvs(s)[j] == lvs(cur)[j - 1]); }
        }
    }
    lemma_repl(lv, inn, lv2, inn2, t, p, s);
    lemma_size(t); lemma_size(t2); lemma_size(s); lemma_size(cur);
    lemma_ins_members(lvs(t), lvs(t2), lvs(cur), lvs(s), a, b, nh);
}

// ---------------------------------------------------------------- removal
pub open spec fn rem_tree(t: Tree, p: Seq<bool>) -> Tree {
    repl(t, p.drop_last(), child(sub_at(t, p.drop_last()), !p.last()))
}
/// dropping one element of a duplicate-free sequence
pub proof fn lemma_rem_members(lt: Seq<nat>, lt2: Seq<nat>, lp: Seq<nat>, ls: Seq<nat>, a: int, dl: bool, dh: nat)
    requires
        0 <= a, a + lp.len() <= lt.len(), lt2.len() == lt.len() - 1, lp.len() == ls.len() + 1,
        forall|i: int, j: int| 0 <= i < j < lt.len() ==> lt[i] != lt[j],
        forall|i: int| 0 <= i < a ==> lt2[i] == lt[i],
        forall|i: int| 0 <= i < lp.len() ==> lt[a + i] == #[trigger] lp[i],
        forall|i: int| 0 <= i < ls.len() ==> lt2[a + i] == #[trigger] ls[i],
        forall|i: int| a + lp.len() <= i < lt.len() ==> lt2[i - 1] == #[trigger] lt[i],
        dl ==> forall|i: int| 0 <= i < ls.len() ==> #[trigger] lp[i] == ls[i],
        !dl ==> forall|i: int| 0 <= i < ls.len() ==> lp[i + 1] == #[trigger] ls[i],
        lp[if dl { ls.len() as int } else { 0 }] == dh,
    ensures forall|h: nat| #![trigger lt2.contains(h)] #![trigger lt.contains(h)] lt2.contains(h) <==> (lt.contains(h) && h != dh),
{
    let ns = ls.len() as int;
    let np = lp.len() as int;
    let dp = if dl { a + ns } else { a };
    assert(lt[dp] == dh) by { assert(lt[a + (dp - a)] == lp[dp - a]); }
    assert forall|i: int| 0 <= i < lt2.len() implies lt2[i] == lt[if i < dp { i } else { i + 1 }] by {
        if i < a {}
        else if i < a + ns {
            assert(lt2[a + (i - a)] == ls[i - a]);
            if dl { assert(lt[a + (i - a)] == lp[i - a]); } else { assert(lt[a + (i - a + 1)] == lp[i - a + 1]); }
        } else { assert(lt2[i + 1 - 1] == lt[i + 1]); }
    }
    assert forall|h: nat| #![trigger lt2.contains(h)] #![trigger lt.contains(h)] lt2.contains(h) <==> (lt.contains(h) && h != dh) by {
        if lt2.contains(h) {
            let i = choose|i: int| 0 <= i < lt2.len() && lt2[i] == h;
            let ii = if i < dp { i } else { i + 1 };
            assert(lt[ii] == h);
            assert(h != dh);
        }
        if lt.contains(h) && h != dh {
            let i = choose|i: int| 0 <= i < lt.len() && lt[i] == h;
            assert(lt2[if i < dp { i } else { i - 1 }] == h);
        }
    }
}
pub proof fn lemma_remove(
    lv: Seq<LeafNode>, inn: Seq<InnerNode>, inn2: Seq<InnerNode>,
    t: Tree, p: Seq<bool>, dh: nat,
)
    requires
        wft(lv, inn, t), valid(t, p), p.len() > 0, sub_at(t, p) == Tree::L(dh),
        inn2.len() == inn.len(),
        lv.len() <= 0x8000_0000, inn.len() <= 0x8000_0000,
        p.len() > 1 ==> same_but_child(
            inn[node_of(sub_at(t, p.drop_last().drop_last())) as int],
            inn2[node_of(sub_at(t, p.drop_last().drop_last())) as int],
            p.drop_last().last(), hnd(child(sub_at(t, p.drop_last()), !p.last()))),
        forall|i: nat| i < inn.len() && (p.len() > 1 ==> i != node_of(sub_at(t, p.drop_last().drop_last()))) ==> #[trigger] inn2[i as int] == inn[i as int],
    ensures
        wft(lv, inn2, rem_tree(t, p)),
        forall|h: nat| #![trigger lvs(rem_tree(t, p)).contains(h)] #![trigger lvs(t).contains(h)] lvs(rem_tree(t, p)).contains(h) <==> (lvs(t).contains(h) && h != dh),
        size(rem_tree(t, p)) == size(t) - 1,
        inns(rem_tree(t, p)) =~= inns(t).remove(node_of(sub_at(t, p.drop_last()))),
        inns(t).contains(node_of(sub_at(t, p.drop_last()))),
        p.len() > 1 ==> inns(t).contains(node_of(sub_at(t, p.drop_last().drop_last()))) && node_of(sub_at(t, p.drop_last().drop_last())) != node_of(sub_at(t, p.drop_last())),
        p.len() > 1 ==> hnd(rem_tree(t, p)) == hnd(t),
        p.len() == 1 ==> hnd(rem_tree(t, p)) == hnd(child(t, !p.last())),
{
    let q = p.drop_last();
    lemma_pop(t, p);
    let par = sub_at(t, q);
    let dl = p.last();
    let sib = child(par, !dl);
    let t2 = rem_tree(t, p);
    lemma_sub(lv, inn, t, q);
    lemma_inns_out(lv, inn, t, q);
    lemma_split(t, q, sib);
    lemma_bounds(lv, inn, t);
    lemma_sorted(lv, inn, t);
    let ph = node_of(par);
    let gh = node_of(sub_at(t, q.drop_last()));
    lemma_par(lv, inn, par, dl, dh);
    assert(inns(par).contains(ph));
    if q.len() > 0 {
        lemma_pop(t, q);
        assert(inns_out(t, q).contains(gh));
        assert(gh != ph);
    }
    assert forall|i: nat| #[trigger] inns(sib).contains(i) implies inn2[i as int] == inn[i as int] by {
        assert(inns(par).contains(i));
        assert(inns(t).contains(i));
    }
    lemma_frame(lv, inn, lv, inn2, sib);
    lemma_follow_all(lv, inn, t, q);
    assert forall|j: int| 0 <= j < lvs(sib).len() implies agrees(inn, t, q, kat(lv, #[trigger] lvs(sib)[j])) && follows(inn, t, q, kat(lv, lvs(sib)[j])) by {
        assert(lvs(par)[if dl { j } else { j + 1 }] == lvs(sib)[j]);
    }
    lemma_remove_repl(lv, inn, inn2, t, q, sib);
    let a = pre_of(t, q).len() as int;
    let lt = lvs(t);
    let lt2 = lvs(t2);
    assert(t2 == repl(t, q, sib));
    lemma_size(t); lemma_size(t2); lemma_size(sib); lemma_size(par);
    assert forall|i: int, j: int| 0 <= i < j < lt.len() implies lt[i] != lt[j] by { assert(kat(lv, lt[i]) < kat(lv, lt[j])); }
    lemma_rem_members(lt, lt2, lvs(par), lvs(sib), a, dl, dh);
    assert(inns(t2) =~= inns(t).remove(ph));
    if q.len() == 0 { assert(t2 == sib); assert(par == t); }
}
pub proof fn lemma_par(lv: Seq<LeafNode>, inn: Seq<InnerNode>, par: Tree, dl: bool, dh: nat)
    requires wft(lv, inn, par), par is N, child(par, dl) == Tree::L(dh),
    ensures
        lvs(par) =~= (if dl { lvs(child(par, !dl)).push(dh) } else { seq![dh] + lvs(child(par, !dl)) }),
        inns(par) =~= inns(child(par, !dl)).insert(node_of(par)),
        !inns(child(par, !dl)).contains(node_of(par)),
        wft(lv, inn, child(par, !dl)),
        size(par) == size(child(par, !dl)) + 1,
{
    let leaf = Tree::L(dh);
    assert(lvs(leaf) =~= seq![dh]);
    assert(inns(leaf) =~= Set::<nat>::empty());
    assert(size(leaf) == 1);
    if let Tree::N(h, l, r) = par {
        assert(lvs(par) =~= lvs(*l) + lvs(*r));
    }
}
pub proof fn lemma_remove_repl(lv: Seq<LeafNode>, inn: Seq<InnerNode>, inn2: Seq<InnerNode>, t: Tree, q: Seq<bool>, sib: Tree)
    requires
        wft(lv, inn, t), valid(t, q), wft(lv, inn2, sib), inns(sib).subset_of(inns(sub_at(t, q))),
        inn2.len() == inn.len(),
        q.len() > 0 ==> same_but_child(
            inn[node_of(sub_at(t, q.drop_last())) as int],
            inn2[node_of(sub_at(t, q.drop_last())) as int],
            q.last(), hnd(sib)),
        forall|i: nat| i < inn.len() && (q.len() > 0 ==> i != node_of(sub_at(t, q.drop_last()))) ==> #[trigger] inn2[i as int] == inn[i as int],
        forall|j: int| 0 <= j < lvs(sib).len() ==> agrees(inn, t, q, kat(lv, #[trigger] lvs(sib)[j])) && follows(inn, t, q, kat(lv, lvs(sib)[j])),
    ensures
        wft(lv, inn2, repl(t, q, sib)),
        inns(repl(t, q, sib)) =~= inns_out(t, q).union(inns(sib)),
        q.len() > 0 ==> hnd(repl(t, q, sib)) == hnd(t),
{
    lemma_inns_out(lv, inn, t, q);
    lemma_bounds(lv, inn, t);
    let gh = node_of(sub_at(t, q.drop_last()));
    assert forall|i: nat| #[trigger] inns_out(t, q).contains(i) implies inn2[i as int].key == inn[i as int].key && inn2[i as int].prefix_len == inn[i as int].prefix_len by {
        assert(inns(t).contains(i));
        assert(i < inn.len());
    }
    assert forall|i: nat| #[trigger] inns_out(t, q).contains(i) && (q.len() > 0 ==> i != gh) implies inn2[i as int] == inn[i as int] by {
        assert(inns(t).contains(i));
    }
    assert(inns_out(t, q).disjoint(inns(sib)));
    lemma_repl(lv, inn, lv, inn2, t, q, sib);
}

// ---------------------------------------------------------------- operations
//@only host
pub proof fn lemma_order_id(l: LeafNode)
    ensures
        lkey(l) == (l.key@[0] as u128) + ((l.key@[1] as u128) << 64),
        (l.key@[0] as u128) + ((l.key@[1] as u128) << 64) <= u128::MAX,
        lkey(l) >> 64 == l.key@[1] as u128, lkey(l) >> 64u128 == l.key@[1] as u128, price_of(lkey(l)) == l.key@[1],
        (l.key@[0] as u128) | ((l.key@[1] as u128) << 64) == lkey(l), ((l.key@[1] as u128) << 64) | (l.key@[0] as u128) == lkey(l),
{
    let a = l.key@[0];
    let b = l.key@[1];
    assert(((a as u128) | ((b as u128) << 64)) == add(a as u128, (b as u128) << 64) && (((b as u128) << 64) | (a as u128)) == add(a as u128, (b as u128) << 64)
        && add(a as u128, (b as u128) << 64) >> 64u128 == b as u128) by (bit_vector);
    assert((b as u128) << 64 == (b as u128) * 0x1_0000_0000_0000_0000u128) by (bit_vector);
    assert(add(a as u128, (b as u128) << 64) >> 64 == b as u128) by (bit_vector);
    assert((b as u128) << 64 <= 0xffff_ffff_ffff_ffff_0000_0000_0000_0000u128) by (bit_vector);
}
//@only solana
pub proof fn lemma_order_id(l: LeafNode) { }
//@only both

pub open spec fn same_inner_hdr(a: SlabHeader, b: SlabHeader) -> bool {
    &&& a.inner_node_free_list_len == b.inner_node_free_list_len
    &&& a.inner_node_free_list_head == b.inner_node_free_list_head
    &&& a.inner_node_bump_index == b.inner_node_bump_index
}
pub open spec fn same_leaf_hdr(a: SlabHeader, b: SlabHeader) -> bool {
    &&& a.leaf_free_list_len == b.leaf_free_list_len
    &&& a.leaf_free_list_head == b.leaf_free_list_head
    &&& a.leaf_bump_index == b.leaf_bump_index
}
pub open spec fn alloc_leaf_post<C>(o: SlabV<C>, s: SlabV<C>, h: nat) -> bool {
    &&& s.lv == o.lv && s.inn == o.inn && s.cb == o.cb
    &&& same_inner_hdr(o.h, s.h)
    &&& s.h.root_node == o.h.root_node && s.h.leaf_count == o.h.leaf_count
    &&& h < s.h.leaf_bump_index <= s.lv.len()
    &&& forall|fl: Seq<nat>| #[trigger] lfl_ok(o.h, o.lv, fl) ==>
            if fl.len() == 0 { lfl_ok(s.h, s.lv, fl) && h == o.h.leaf_bump_index && s.h.leaf_bump_index == h + 1 }
            else { lfl_ok(s.h, s.lv, fl.skip(1)) && h == fl[0] && s.h.leaf_bump_index == o.h.leaf_bump_index }
}
pub open spec fn alloc_inner_post<C>(o: SlabV<C>, s: SlabV<C>, h: nat) -> bool {
    &&& s.lv == o.lv && s.inn == o.inn && s.cb == o.cb
    &&& same_leaf_hdr(o.h, s.h)
    &&& s.h.root_node == o.h.root_node && s.h.leaf_count == o.h.leaf_count
    &&& h < s.h.inner_node_bump_index <= s.inn.len()
    &&& forall|fl: Seq<nat>| #[trigger] ifl_ok(o.h, o.inn, fl) ==>
            if fl.len() == 0 { ifl_ok(s.h, s.inn, fl) && h == o.h.inner_node_bump_index && s.h.inner_node_bump_index == h + 1 }
            else { ifl_ok(s.h, s.inn, fl.skip(1)) && h == fl[0] && s.h.inner_node_bump_index == o.h.inner_node_bump_index }
}
pub open spec fn free_leaf_post<C>(o: SlabV<C>, s: SlabV<C>, h: nat) -> bool {
    &&& s.inn == o.inn && s.cb == o.cb
    &&& s.lv.len() == o.lv.len()
    &&& forall|i: nat| i < o.lv.len() && i != h ==> #[trigger] s.lv[i as int] == o.lv[i as int]
    &&& same_inner_hdr(o.h, s.h)
    &&& s.h.root_node == o.h.root_node && s.h.leaf_count == o.h.leaf_count
    &&& s.h.leaf_bump_index == o.h.leaf_bump_index
    &&& forall|fl: Seq<nat>| #[trigger] lfl_ok(o.h, o.lv, fl) && !fl.contains(h) ==> lfl_ok(s.h, s.lv, seq![h] + fl)
}
pub open spec fn free_inner_post<C>(o: SlabV<C>, s: SlabV<C>, h: nat) -> bool {
    &&& s.lv == o.lv && s.cb == o.cb
    &&& s.inn.len() == o.inn.len()
    &&& forall|i: nat| i < o.inn.len() && i != h ==> #[trigger] s.inn[i as int] == o.inn[i as int]
    &&& same_leaf_hdr(o.h, s.h)
    &&& s.h.root_node == o.h.root_node && s.h.leaf_count == o.h.leaf_count
    &&& s.h.inner_node_bump_index == o.h.inner_node_bump_index
    &&& forall|fl: Seq<nat>| #[trigger] ifl_ok(o.h, o.inn, fl) && !fl.contains(h) ==> ifl_ok(s.h, s.inn, seq![h] + fl)
}
pub proof fn lemma_free_list_push(h0: SlabHeader, lv0: Seq<LeafNode>, h: SlabHeader, lv: Seq<LeafNode>, fl: Seq<nat>, x: nat)
    requires
        lfl_ok(h0, lv0, fl), !fl.contains(x), x < h0.leaf_bump_index,
        lv.len() == lv0.len(),
        forall|i: nat| i < lv0.len() && i != x ==> #[trigger] lv[i as int] == lv0[i as int],
        h0.leaf_free_list_len != 0 ==> lv[x as int].base_quantity == h0.leaf_free_list_head,
        h.leaf_free_list_len == h0.leaf_free_list_len + 1, h.leaf_free_list_head == x, h.leaf_bump_index == h0.leaf_bump_index,
    ensures lfl_ok(h, lv, seq![x] + fl),
{
    let g = seq![x] + fl;
    assert forall|i: int| 0 <= i < g.len() - 1 implies lv[(#[trigger] g[i]) as int].base_quantity == g[i + 1] by {
        if i > 0 { assert(g[i] == fl[i - 1] && g[i + 1] == fl[i]); assert(fl[i - 1] != x) by { assert(fl.contains(fl[i - 1])); } }
        else { assert(g[1] == fl[0]); }
    }
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] < h.leaf_bump_index by { if i > 0 { assert(g[i] == fl[i - 1]); } }
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] != g[j] by {
        assert(g[j] == fl[j - 1]); assert(fl.contains(fl[j - 1]));
        if i > 0 { assert(g[i] == fl[i - 1]); }
    }
}
pub proof fn lemma_inner_list_push(h0: SlabHeader, inn0: Seq<InnerNode>, h: SlabHeader, inn: Seq<InnerNode>, fl: Seq<nat>, x: nat)
    requires
        ifl_ok(h0, inn0, fl), !fl.contains(x), x < h0.inner_node_bump_index,
        inn.len() == inn0.len(),
        forall|i: nat| i < inn0.len() && i != x ==> #[trigger] inn[i as int] == inn0[i as int],
        h0.inner_node_free_list_len != 0 ==> inn[x as int].prefix_len == h0.inner_node_free_list_head,
        h.inner_node_free_list_len == h0.inner_node_free_list_len + 1, h.inner_node_free_list_head == x, h.inner_node_bump_index == h0.inner_node_bump_index,
    ensures ifl_ok(h, inn, seq![x] + fl),
{
    let g = seq![x] + fl;
    assert forall|i: int| 0 <= i < g.len() - 1 implies inn[(#[trigger] g[i]) as int].prefix_len == g[i + 1] by {
        if i > 0 { assert(g[i] == fl[i - 1] && g[i + 1] == fl[i]); assert(fl[i - 1] != x) by { assert(fl.contains(fl[i - 1])); } }
        else { assert(g[1] == fl[0]); }
    }
    assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] < h.inner_node_bump_index by { if i > 0 { assert(g[i] == fl[i - 1]); } }
    assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] != g[j] by {
        assert(g[j] == fl[j - 1]); assert(fl.contains(fl[j - 1]));
        if i > 0 { assert(g[i] == fl[i - 1]); }
    }
}

/// a new order id was added and nothing else changed
pub open spec fn ins_new<C>(o: SlabV<C>, s: SlabV<C>, h: nat, l: LeafNode) -> bool {
    &&& !slots(o).contains_key(lkey(l))
    &&& slots(s) == slots(o).insert(lkey(l), h)
    &&& h < s.lv.len() && s.lv[h as int] == l
    &&& s.lv.len() == o.lv.len() && s.cb == o.cb
    &&& s.h.leaf_count == o.h.leaf_count + 1
    &&& forall|k: u128| #[trigger] slots(o).contains_key(k) ==> slots(o)[k] != h && s.lv[slots(o)[k] as int] == o.lv[slots(o)[k] as int]
}
/// the order id was there: its leaf is replaced in place
pub open spec fn ins_dup<C>(o: SlabV<C>, s: SlabV<C>, h: nat, l: LeafNode, old: LeafNode) -> bool {
    &&& slots(o).contains_key(lkey(l))
    &&& h == slots(o)[lkey(l)]
    &&& old == o.lv[h as int]
    &&& slots(s) == slots(o)
    &&& s.lv == o.lv.update(h as int, l)
    &&& s.cb == o.cb
    &&& s.h.leaf_count == o.h.leaf_count
}
pub proof fn lemma_insert_first<C>(o: SlabV<C>, a: SlabV<C>, s: SlabV<C>, h: nat, l: LeafNode)
    requires
        wf(o), o.h.leaf_count == 0, alloc_leaf_post(o, a, h), s.lv == a.lv.update(h as int, l), s.inn == a.inn, s.cb == a.cb,
        s.h.root_node == h, s.h.leaf_count == 1, same_leaf_hdr(a.h, s.h), same_inner_hdr(a.h, s.h),
    ensures wf(s), ins_new(o, s, h, l),
{
    let w = wit(o);
    lemma_wf(o, w);
    let t = Tree::L(h);
    let w2 = Wit { t: Some(t), fl: if w.fl.len() == 0 { w.fl } else { w.fl.skip(1) }, ifl: w.ifl };
    assert(inns(t) =~= Set::<nat>::empty());
    assert(lvs(t) =~= seq![h]);
    lemma_update_free(a.h, s.h, a.lv, s.lv, w2.fl, w.fl, h);
    assert(ifl_ok(s.h, s.inn, w2.ifl));
    assert(wfw(s, w2));
    lemma_wf(s, w2);
    assert(slots(o) =~= Map::<u128, nat>::empty());
    assert(slots(s) =~= Map::<u128, nat>::empty().insert(lkey(l), h)) by {
        assert(leaves(w2.t)[0] == h);
        assert forall|k: u128| slots(s).contains_key(k) implies k == lkey(l) && slots(s)[k] == h by { assert(leaves(w2.t).contains(slots(s)[k])); }
    }
}
/// writing the allocated cell keeps the rest of the free list
pub proof fn lemma_update_free(h0: SlabHeader, h1: SlabHeader, lv0: Seq<LeafNode>, lv1: Seq<LeafNode>, fl: Seq<nat>, full: Seq<nat>, h: nat)
    requires
        lfl_ok(h0, lv0, fl), same_leaf_hdr(h0, h1), lv1.len() == lv0.len(),
        fl == (if full.len() == 0 { full } else { full.skip(1) }),
        full.len() > 0 ==> full[0] == h,
        forall|i: int, j: int| 0 <= i < j < full.len() ==> full[i] != full[j],
        forall|i: nat| i < lv0.len() && i != h ==> #[trigger] lv1[i as int] == lv0[i as int],
    ensures lfl_ok(h1, lv1, fl), !fl.contains(h),
{
    assert forall|i: int| 0 <= i < fl.len() implies #[trigger] fl[i] != h by { assert(fl[i] == full[i + 1]); assert(full[0] != full[i + 1]); }
    assert forall|i: int| 0 <= i < fl.len() - 1 implies lv1[(#[trigger] fl[i]) as int].base_quantity == fl[i + 1] by {
        assert(fl[i] != h);
        assert(fl[i] < h0.leaf_bump_index);
        assert(lv0[fl[i] as int].base_quantity == fl[i + 1]);
    }
}
pub proof fn lemma_update_inner_free(h0: SlabHeader, h1: SlabHeader, inn0: Seq<InnerNode>, inn1: Seq<InnerNode>, fl: Seq<nat>, full: Seq<nat>, h: nat, g: Set<nat>)
    requires
        ifl_ok(h0, inn0, fl), same_inner_hdr(h0, h1), inn1.len() == inn0.len(),
        fl == (if full.len() == 0 { full } else { full.skip(1) }),
        full.len() > 0 ==> full[0] == h,
        forall|i: int, j: int| 0 <= i < j < full.len() ==> full[i] != full[j],
        forall|i: int| 0 <= i < full.len() ==> !g.contains(#[trigger] full[i]),
        forall|i: nat| i < inn0.len() && i != h && !g.contains(i) ==> #[trigger] inn1[i as int] == inn0[i as int],
    ensures ifl_ok(h1, inn1, fl), !fl.contains(h), forall|i: int| 0 <= i < fl.len() ==> !g.contains(#[trigger] fl[i]),
{
    assert forall|i: int| 0 <= i < fl.len() implies #[trigger] fl[i] != h && !g.contains(fl[i]) by { assert(fl[i] == full[i + 1]); assert(full[0] != full[i + 1]); }
    assert forall|i: int| 0 <= i < fl.len() - 1 implies inn1[(#[trigger] fl[i]) as int].prefix_len == fl[i + 1] by {
        assert(fl[i] != h);
        assert(fl[i] < h0.inner_node_bump_index);
        assert(inn0[fl[i] as int].prefix_len == fl[i + 1]);
    }
}
/// replacing a live leaf by one with the same key (any quantity)
pub proof fn lemma_same_key<C>(o: SlabV<C>, s: SlabV<C>, k: u128)
    requires
        wf(o), slots(o).contains_key(k), s.h == o.h, s.inn == o.inn, s.cb.len() == o.cb.len(), s.lv.len() == o.lv.len(),
        lkey(s.lv[slots(o)[k] as int]) == k,
        forall|i: nat| i < o.lv.len() && i != slots(o)[k] ==> #[trigger] s.lv[i as int] == o.lv[i as int],
    ensures wf(s), slots(s) == slots(o), ordered(s) == ordered(o),
{
    let w = wit(o);
    lemma_wf(o, w);
    let h = slots(o)[k];
    let ls = leaves(w.t);
    let j0 = choose|j: int| 0 <= j < ls.len() && ls[j] == h;
    if let Some(t) = w.t {
        lemma_bounds(o.lv, o.inn, t);
        assert forall|j: int| 0 <= j < lvs(t).len() implies kat(s.lv, #[trigger] lvs(t)[j]) == kat(o.lv, lvs(t)[j]) by {
            assert(lvs(t)[j] < o.lv.len());
        }
        lemma_frame(o.lv, o.inn, s.lv, s.inn, t);
    }
    assert(lfl_ok(s.h, s.lv, w.fl)) by {
        assert forall|i: int| 0 <= i < w.fl.len() - 1 implies s.lv[(#[trigger] w.fl[i]) as int].base_quantity == w.fl[i + 1] by {
            assert(ls[j0] != w.fl[i]);
            assert(w.fl[i] < o.h.leaf_bump_index);
            assert(o.lv[w.fl[i] as int].base_quantity == w.fl[i + 1]);
        }
    }
    assert(wfw(s, w));
    lemma_wf(s, w);
    assert(keys_of(s.lv, ls) =~= keys_of(o.lv, ls)) by {
        assert forall|j: int| 0 <= j < ls.len() implies kat(s.lv, ls[j]) == kat(o.lv, ls[j]) by { assert(ls[j] < o.h.leaf_bump_index); }
    }
    assert(slots(s) =~= slots(o)) by {
        assert forall|k2: u128| slots(s).contains_key(k2) implies slots(s)[k2] == slots(o)[k2] by {
            assert(slots(o).contains_key(k2));
            let h2 = slots(o)[k2];
            assert(ls.contains(h2));
            assert(kat(s.lv, h2) == k2);
        }
    }
}
pub proof fn lemma_insert_dup<C>(o: SlabV<C>, s: SlabV<C>, h: nat, l: LeafNode)
    requires
        wf(o), ordered(o).contains(h), lkey(o.lv[h as int]) == lkey(l),
        s.h == o.h, s.inn == o.inn, s.cb == o.cb, s.lv == o.lv.update(h as int, l),
    ensures wf(s), ins_dup(o, s, h, l, o.lv[h as int]),
{
    lemma_wf(o, wit(o));
    let k = lkey(l);
    assert(kat(o.lv, h) == k);
    assert(slots(o).contains_key(k) && slots(o)[k] == h);
    lemma_same_key(o, s, k);
}
pub open spec fn parent_of(t: Tree, p: Seq<bool>) -> nat { node_of(sub_at(t, p.drop_last())) }
pub proof fn lemma_insert_new<C>(o: SlabV<C>, a: SlabV<C>, b: SlabV<C>, s: SlabV<C>, t: Tree, p: Seq<bool>, nh: nat, ni: nat, l: LeafNode, n: u64)
    requires
        wf(o), wit(o).t == Some(t), o.h.leaf_count > 0, n < 128,
        alloc_leaf_post(o, a, nh),
        alloc_inner_post(SlabV { lv: a.lv.update(nh as int, l), ..a }, b, ni),
        valid(t, p), agrees(o.inn, t, p, lkey(l)), follows(o.inn, t, p, lkey(l)),
        side_ok(o.lv, sub_at(t, p), lkey(l), n, !bit(lkey(l), n)),
        s.lv == b.lv, s.cb == b.cb, s.inn.len() == b.inn.len(),
        same_leaf_hdr(b.h, s.h), same_inner_hdr(b.h, s.h), s.h.leaf_count == b.h.leaf_count + 1,
        s.h.root_node == (if p.len() == 0 { neg(ni as u32) } else { b.h.root_node }),
        s.inn[ni as int].key == lkey(l),
        s.inn[ni as int].prefix_len == n,
        s.inn[ni as int].children@[if bit(lkey(l), n) { 1int } else { 0int }] == nh,
        s.inn[ni as int].children@[if bit(lkey(l), n) { 0int } else { 1int }] == hnd(sub_at(t, p)),
        forall|i: nat| i < b.inn.len() && i != ni && (p.len() > 0 ==> i != parent_of(t, p)) ==> #[trigger] s.inn[i as int] == b.inn[i as int],
        p.len() > 0 ==> same_but_child(b.inn[parent_of(t, p) as int], s.inn[parent_of(t, p) as int], p.last(), neg(ni as u32)),
    ensures wf(s), ins_new(o, s, nh, l),
{
    let w = wit(o);
    let k = lkey(l);
    lemma_wf(o, w);
    lemma_bounds(o.lv, o.inn, t);
    let t2 = ins_tree(t, p, nh, ni, bit(k, n));
    let fl2 = if w.fl.len() == 0 { w.fl } else { w.fl.skip(1) };
    let ifl2 = if w.ifl.len() == 0 { w.ifl } else { w.ifl.skip(1) };
    let w2 = Wit { t: Some(t2), fl: fl2, ifl: ifl2 };
    assert(ifl_ok(a.h, a.inn, w.ifl));
    lemma_update_free(a.h, s.h, a.lv, s.lv, fl2, w.fl, nh);
    let g = inns(t);
    if p.len() > 0 { lemma_pop(t, p); lemma_inns_out(o.lv, o.inn, t, p); }
    assert(forall|i: int| 0 <= i < w.ifl.len() ==> !g.contains(#[trigger] w.ifl[i]));
    lemma_update_inner_free(b.h, s.h, b.inn, s.inn, ifl2, w.ifl, ni, g);
    assert(!lvs(t).contains(nh)) by {
        if lvs(t).contains(nh) {
            let j = choose|j: int| 0 <= j < lvs(t).len() && lvs(t)[j] == nh;
            assert(leaves(w.t)[j] < o.h.leaf_bump_index);
            if w.fl.len() > 0 { assert(leaves(w.t)[j] != w.fl[0]); }
        }
    }
    assert(!inns(t).contains(ni)) by {
        if inns(t).contains(ni) {
            assert(inner(w.t).contains(ni));
            assert(ni < o.h.inner_node_bump_index);
            if w.ifl.len() > 0 { assert(!inner(w.t).contains(w.ifl[0])); }
        }
    }
    lemma_insert(o.lv, o.inn, s.lv, s.inn, t, p, nh, ni, k, n);
    lemma_size(t); lemma_size(t2);
    assert forall|j: int| 0 <= j < leaves(w2.t).len() implies #[trigger] leaves(w2.t)[j] < s.h.leaf_bump_index by {
        let h = leaves(w2.t)[j];
        assert(lvs(t2).contains(h));
        if h != nh { let i = choose|i: int| 0 <= i < lvs(t).len() && lvs(t)[i] == h; assert(leaves(w.t)[i] < o.h.leaf_bump_index); }
    }
    assert forall|j: int, i: int| 0 <= j < leaves(w2.t).len() && 0 <= i < w2.fl.len() implies #[trigger] leaves(w2.t)[j] != #[trigger] w2.fl[i] by {
        let h = leaves(w2.t)[j];
        assert(lvs(t2).contains(h));
        assert(w2.fl.contains(w2.fl[i]));
        if h != nh { let m = choose|m: int| 0 <= m < lvs(t).len() && lvs(t)[m] == h; assert(leaves(w.t)[m] != w.fl[i + 1]); }
    }
    assert forall|i: nat| #[trigger] inner(w2.t).contains(i) implies i < s.h.inner_node_bump_index by {
        if i != ni { assert(inner(w.t).contains(i)); }
    }
    assert forall|i: int| 0 <= i < w2.ifl.len() implies !inner(w2.t).contains(#[trigger] w2.ifl[i]) by {
        assert(w2.ifl.contains(w2.ifl[i]));
    }
    lemma_inns_count(o.lv, o.inn, t);
    assert(tree_ok(s, w2.t));
    assert(wfw(s, w2));
    lemma_wf(s, w2);
    assert(!has_key(o.lv, sub_at(t, p), k));
    lemma_absent(o.lv, o.inn, t, p, k);
    assert(!slots(o).contains_key(k)) by {
        if slots(o).contains_key(k) {
            let j = choose|j: int| 0 <= j < lvs(t).len() && lvs(t)[j] == slots(o)[k];
            assert(kat(o.lv, lvs(t)[j]) == k);
        }
    }
    lemma_slots_upd(o, s, t, t2, nh, k);
}
pub proof fn lemma_slots_upd<C>(o: SlabV<C>, s: SlabV<C>, t: Tree, t2: Tree, nh: nat, k: u128)
    requires
        wf(o), wf(s), wit(o).t == Some(t), wit(s).t == Some(t2), s.lv.len() == o.lv.len(), nh < s.lv.len(),
        forall|h: nat| #![trigger lvs(t2).contains(h)] #![trigger lvs(t).contains(h)] lvs(t2).contains(h) <==> (lvs(t).contains(h) || h == nh),
        !lvs(t).contains(nh), kat(s.lv, nh) == k,
        forall|h: nat| h < o.lv.len() && h != nh ==> #[trigger] s.lv[h as int] == o.lv[h as int],
        !slots(o).contains_key(k),
    ensures
        slots(s) == slots(o).insert(k, nh),
        forall|k2: u128| #[trigger] slots(o).contains_key(k2) ==> slots(o)[k2] != nh && s.lv[slots(o)[k2] as int] == o.lv[slots(o)[k2] as int],
{
    lemma_wf(o, wit(o));
    lemma_wf(s, wit(s));
    assert forall|k2: u128| #[trigger] slots(o).contains_key(k2) implies slots(o)[k2] != nh && s.lv[slots(o)[k2] as int] == o.lv[slots(o)[k2] as int] by {
        assert(lvs(t).contains(slots(o)[k2]));
    }
    assert forall|k2: u128| slots(s).contains_key(k2) <==> slots(o).insert(k, nh).contains_key(k2) by {
        if slots(s).contains_key(k2) {
            let h = slots(s)[k2];
            assert(lvs(t2).contains(h));
            if h != nh { assert(lvs(t).contains(h)); assert(kat(o.lv, h) == k2); }
        }
        if slots(o).contains_key(k2) {
            let h = slots(o)[k2];
            assert(lvs(t2).contains(h));
            assert(kat(s.lv, h) == k2);
        }
        if k2 == k { assert(lvs(t2).contains(nh)); }
    }
    assert forall|k2: u128| slots(s).contains_key(k2) implies slots(s)[k2] == slots(o).insert(k, nh)[k2] by {
        let h = slots(s)[k2];
        assert(lvs(t2).contains(h));
        if h == nh { } else { assert(lvs(t).contains(h)); assert(kat(o.lv, h) == k2); }
    }
    assert(slots(s) =~= slots(o).insert(k, nh));
}
/// a key that follows the path and is not in the subtree there is nowhere in the tree
pub proof fn lemma_absent(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>, k: u128)
    requires wft(lv, inn, t), valid(t, p), follows(inn, t, p, k), !has_key(lv, sub_at(t, p), k),
    ensures !has_key(lv, t, k),
{
    if has_key(lv, t, k) { lemma_search(lv, inn, t, p, k); }
}

/// a leaf reached by a path is one of the leaves
pub proof fn lemma_leaf_in(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>)
    requires wft(lv, inn, t), valid(t, p), sub_at(t, p) is L,
    ensures lvs(t).contains(node_of(sub_at(t, p))), inns(t) =~= inns_out(t, p),
{
    lemma_sub(lv, inn, t, p);
    let s = sub_at(t, p);
    assert(lvs(s)[0] == node_of(s));
    lemma_inns_out(lv, inn, t, p);
    assert(inns(s) =~= Set::<nat>::empty());
}

pub open spec fn rem_post<C>(o: SlabV<C>, s: SlabV<C>, k: u128) -> bool {
    &&& slots(o).contains_key(k)
    &&& slots(s) == slots(o).remove(k)
    &&& s.cb == o.cb && s.lv.len() == o.lv.len()
    &&& s.h.leaf_count == o.h.leaf_count - 1
    &&& forall|k2: u128| #[trigger] slots(s).contains_key(k2) ==> s.lv[slots(s)[k2] as int] == o.lv[slots(s)[k2] as int]
}
pub proof fn lemma_remove_root<C>(o: SlabV<C>, s: SlabV<C>, dh: nat, k: u128)
    requires
        wf(o), wit(o).t == Some(Tree::L(dh)), lkey(o.lv[dh as int]) == k,
        s.lv.len() == o.lv.len(), s.inn == o.inn, s.cb == o.cb,
        forall|i: nat| i < o.lv.len() && i != dh ==> #[trigger] s.lv[i as int] == o.lv[i as int],
        same_inner_hdr(o.h, s.h), s.h.leaf_bump_index == o.h.leaf_bump_index, s.h.leaf_count == 0,
        lfl_ok(s.h, s.lv, seq![dh] + wit(o).fl),
    ensures wf(s), rem_post(o, s, k), slots(o).contains_key(k), slots(o)[k] == dh,
{
    let w = wit(o);
    lemma_wf(o, w);
    let t = Tree::L(dh);
    assert(lvs(t) =~= seq![dh]);
    let w2 = Wit { t: None, fl: seq![dh] + w.fl, ifl: w.ifl };
    assert(leaves(w.t)[0] == dh);
    assert(!w.fl.contains(dh));
    assert(wfw(s, w2));
    lemma_wf(s, w2);
    assert(slots(o).contains_key(kat(o.lv, dh)));
    assert(slots(s) =~= slots(o).remove(k)) by {
        assert forall|k2: u128| slots(o).contains_key(k2) implies k2 == k by { assert(leaves(w.t).contains(slots(o)[k2])); }
    }
}
pub open spec fn mid_nodes(inn: Seq<InnerNode>, inn2: Seq<InnerNode>, t: Tree, p: Seq<bool>) -> Seq<InnerNode> {
    if p.len() > 1 {
        let g = node_of(sub_at(t, p.drop_last().drop_last())) as int;
        inn.update(g, inn2[g])
    } else { inn }
}
pub proof fn lemma_mid(lv: Seq<LeafNode>, inn: Seq<InnerNode>, inn2: Seq<InnerNode>, t: Tree, p: Seq<bool>)
    requires
        wft(lv, inn, t), valid(t, p), p.len() > 0,
    ensures
        mid_nodes(inn, inn2, t, p).len() == inn.len(),
        p.len() > 1 ==> node_of(sub_at(t, p.drop_last().drop_last())) < inn.len(),
        p.len() > 1 ==> mid_nodes(inn, inn2, t, p)[node_of(sub_at(t, p.drop_last().drop_last())) as int] == inn2[node_of(sub_at(t, p.drop_last().drop_last())) as int],
        forall|i: nat| i < inn.len() && (p.len() > 1 ==> i != node_of(sub_at(t, p.drop_last().drop_last()))) ==> #[trigger] mid_nodes(inn, inn2, t, p)[i as int] == inn[i as int],
        forall|i: nat| i < inn.len() && i != parent_of(t, p) && (p.len() > 1 ==> i != node_of(sub_at(t, p.drop_last().drop_last()))) ==> #[trigger] mid_nodes(inn, inn2, t, p)[i as int] == inn[i as int],
{
    if p.len() > 1 {
        let q = p.drop_last();
        lemma_pop(t, p);
        lemma_pop(t, q);
        lemma_sub(lv, inn, t, q.drop_last());
    }
}
pub proof fn lemma_remove_done<C>(o: SlabV<C>, s: SlabV<C>, t: Tree, p: Seq<bool>, dh: nat, k: u128)
    requires
        wf(o), wit(o).t == Some(t), o.h.leaf_count > 0,
        valid(t, p), p.len() > 0, sub_at(t, p) == Tree::L(dh), lkey(o.lv[dh as int]) == k,
        s.lv.len() == o.lv.len(), s.inn.len() == o.inn.len(), s.cb == o.cb,
        s.h.leaf_bump_index == o.h.leaf_bump_index, s.h.inner_node_bump_index == o.h.inner_node_bump_index,
        s.h.leaf_count == o.h.leaf_count - 1,
        s.h.root_node == (if p.len() == 1 { hnd(child(t, !p.last())) } else { o.h.root_node }),
        p.len() > 1 ==> same_but_child(
            o.inn[node_of(sub_at(t, p.drop_last().drop_last())) as int],
            s.inn[node_of(sub_at(t, p.drop_last().drop_last())) as int],
            p.drop_last().last(), hnd(child(sub_at(t, p.drop_last()), !p.last()))),
        forall|i: nat| i < o.inn.len() && i != parent_of(t, p) && (p.len() > 1 ==> i != node_of(sub_at(t, p.drop_last().drop_last()))) ==> #[trigger] s.inn[i as int] == o.inn[i as int],
        forall|i: nat| i < o.lv.len() && i != dh ==> #[trigger] s.lv[i as int] == o.lv[i as int],
        lfl_ok(s.h, s.lv, seq![dh] + wit(o).fl),
        ifl_ok(s.h, s.inn, seq![parent_of(t, p)] + wit(o).ifl),
    ensures wf(s), rem_post(o, s, k), slots(o)[k] == dh,
{
    let w = wit(o);
    lemma_wf(o, w);
    lemma_bounds(o.lv, o.inn, t);
    lemma_pop(t, p);
    let ph = parent_of(t, p);
    // the tree after the pointer update, before the freed node is reused as a list cell
    let mid = mid_nodes(o.inn, s.inn, t, p);
    lemma_mid(o.lv, o.inn, s.inn, t, p);
    lemma_remove(o.lv, o.inn, mid, t, p, dh);
    let t2 = rem_tree(t, p);
    lemma_leaf_in(o.lv, o.inn, t, p);
    let dj = choose|j: int| 0 <= j < lvs(t).len() && lvs(t)[j] == dh;
    assert(leaves(w.t)[dj] == dh);
    assert(!w.fl.contains(dh));
    assert(inner(w.t).contains(ph));
    assert(!w.ifl.contains(ph));
    let w2 = Wit { t: Some(t2), fl: seq![dh] + w.fl, ifl: seq![ph] + w.ifl };
    assert forall|h: nat| #[trigger] lvs(t2).contains(h) implies lvs(t).contains(h) && h != dh by {}
    assert forall|j: int| 0 <= j < lvs(t2).len() implies kat(s.lv, #[trigger] lvs(t2)[j]) == kat(o.lv, lvs(t2)[j]) by {
        assert(lvs(t2).contains(lvs(t2)[j]));
        assert(lvs(t).contains(lvs(t2)[j]));
    }
    assert forall|i: nat| #[trigger] inns(t2).contains(i) implies s.inn[i as int] == mid[i as int] by {
        assert(inns(t).contains(i) && i != ph);
    }
    lemma_frame(o.lv, mid, s.lv, s.inn, t2);
    lemma_size(t); lemma_size(t2);
    assert forall|j: int| 0 <= j < leaves(w2.t).len() implies #[trigger] leaves(w2.t)[j] < s.h.leaf_bump_index by {
        let h = leaves(w2.t)[j];
        assert(lvs(t2).contains(h));
        let i = choose|i: int| 0 <= i < lvs(t).len() && lvs(t)[i] == h;
        assert(leaves(w.t)[i] < o.h.leaf_bump_index);
    }
    assert forall|j: int, i: int| 0 <= j < leaves(w2.t).len() && 0 <= i < w2.fl.len() implies #[trigger] leaves(w2.t)[j] != #[trigger] w2.fl[i] by {
        let h = leaves(w2.t)[j];
        assert(lvs(t2).contains(h));
        let n = choose|n: int| 0 <= n < lvs(t).len() && lvs(t)[n] == h;
        if i > 0 { assert(w2.fl[i] == w.fl[i - 1]); assert(leaves(w.t)[n] != w.fl[i - 1]); }
    }
    assert forall|i: nat| #[trigger] inner(w2.t).contains(i) implies i < s.h.inner_node_bump_index by { assert(inner(w.t).contains(i)); }
    assert forall|i: int| 0 <= i < w2.ifl.len() implies !inner(w2.t).contains(#[trigger] w2.ifl[i]) by {
        if i > 0 { assert(w2.ifl[i] == w.ifl[i - 1]); assert(!inner(w.t).contains(w.ifl[i - 1])); }
    }
    lemma_inns_count(o.lv, o.inn, t);
    assert(wfw(s, w2));
    lemma_wf(s, w2);
    assert(leaves(w.t).contains(dh));
    assert(slots(o).contains_key(kat(o.lv, dh)));
    lemma_slots_rem(o, s, t, t2, dh, k);
}
pub proof fn lemma_slots_rem<C>(o: SlabV<C>, s: SlabV<C>, t: Tree, t2: Tree, dh: nat, k: u128)
    requires
        wf(o), wf(s), wit(o).t == Some(t), wit(s).t == Some(t2), s.lv.len() == o.lv.len(), dh < s.lv.len(),
        forall|h: nat| #![trigger lvs(t2).contains(h)] #![trigger lvs(t).contains(h)] lvs(t2).contains(h) <==> (lvs(t).contains(h) && h != dh),
        lvs(t).contains(dh), kat(o.lv, dh) == k,
        forall|h: nat| h < o.lv.len() && h != dh ==> #[trigger] s.lv[h as int] == o.lv[h as int],
    ensures
        slots(s) == slots(o).remove(k),
        forall|k2: u128| #[trigger] slots(s).contains_key(k2) ==> s.lv[slots(s)[k2] as int] == o.lv[slots(s)[k2] as int],
{
    lemma_wf(o, wit(o));
    lemma_wf(s, wit(s));
    assert forall|k2: u128| #[trigger] slots(s).contains_key(k2) implies s.lv[slots(s)[k2] as int] == o.lv[slots(s)[k2] as int] by {
        assert(lvs(t2).contains(slots(s)[k2]));
    }
    assert(slots(o).contains_key(kat(o.lv, dh)) && slots(o)[k] == dh);
    assert forall|k2: u128| slots(s).contains_key(k2) <==> slots(o).remove(k).contains_key(k2) by {
        if slots(s).contains_key(k2) {
            let h = slots(s)[k2];
            assert(lvs(t2).contains(h));
            assert(lvs(t).contains(h));
            assert(kat(o.lv, h) == k2);
            assert(slots(o).contains_key(kat(o.lv, h)) && slots(o)[kat(o.lv, h)] == h);
        }
        if slots(o).contains_key(k2) && k2 != k {
            let h = slots(o)[k2];
            assert(lvs(t).contains(h));
            assert(h != dh);
            assert(lvs(t2).contains(h));
            assert(kat(s.lv, h) == k2);
        }
    }
    assert forall|k2: u128| slots(s).contains_key(k2) implies slots(s)[k2] == slots(o).remove(k)[k2] by {
        let h = slots(s)[k2];
        assert(lvs(t2).contains(h));
        assert(lvs(t).contains(h));
        assert(kat(o.lv, h) == k2);
        assert(slots(o)[kat(o.lv, h)] == h);
    }
    assert(slots(s) =~= slots(o).remove(k));
}
/// the search ended in a leaf with another key
pub proof fn lemma_not_there<C>(o: SlabV<C>, t: Tree, p: Seq<bool>, k: u128)
    requires
        wf(o), wit(o).t == Some(t), valid(t, p), follows(o.inn, t, p, k), sub_at(t, p) is L,
        lkey(o.lv[node_of(sub_at(t, p)) as int]) != k,
    ensures !slots(o).contains_key(k),
{
    lemma_wf(o, wit(o));
    let s = sub_at(t, p);
    assert(lvs(s) =~= seq![node_of(s)]);
    assert(!has_key(o.lv, s, k));
    lemma_absent(o.lv, o.inn, t, p, k);
    if slots(o).contains_key(k) {
        let j = choose|j: int| 0 <= j < lvs(t).len() && lvs(t)[j] == slots(o)[k];
        assert(kat(o.lv, lvs(t)[j]) == k);
    }
}
pub proof fn lemma_not_below<C>(o: SlabV<C>, t: Tree, p: Seq<bool>, k: u128, n: u64)
    requires
        wf(o), wit(o).t == Some(t), valid(t, p), follows(o.inn, t, p, k),
        side_ok(o.lv, sub_at(t, p), k, n, !bit(k, n)),
    ensures !slots(o).contains_key(k),
{
    lemma_wf(o, wit(o));
    assert(!has_key(o.lv, sub_at(t, p), k));
    lemma_absent(o.lv, o.inn, t, p, k);
    if slots(o).contains_key(k) {
        let j = choose|j: int| 0 <= j < lvs(t).len() && lvs(t)[j] == slots(o)[k];
        assert(kat(o.lv, lvs(t)[j]) == k);
    }
}
/// one of the two ends of a tree
pub proof fn lemma_extreme(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>, d: bool)
    requires wft(lv, inn, t), valid(t, p), forall|i: int| 0 <= i < p.len() ==> p[i] == d,
    ensures
        d ==> post_of(t, p) =~= Seq::<nat>::empty(),
        !d ==> pre_of(t, p) =~= Seq::<nat>::empty(),
    decreases p.len(),
{
    if p.len() > 0 {
        if let Tree::N(h, l, r) = t {
            lemma_extreme(lv, inn, child(t, p[0]), p.skip(1), d);
        }
    }
}
pub proof fn lemma_extreme_leaf(lv: Seq<LeafNode>, inn: Seq<InnerNode>, t: Tree, p: Seq<bool>, d: bool)
    requires wft(lv, inn, t), valid(t, p), forall|i: int| 0 <= i < p.len() ==> p[i] == d, sub_at(t, p) is L,
    ensures node_of(sub_at(t, p)) == (if d { lvs(t).last() } else { lvs(t)[0] }), lvs(t).len() > 0,
{
    lemma_extreme(lv, inn, t, p, d);
    lemma_split(t, p, t);
    let s = sub_at(t, p);
    assert(lvs(s) =~= seq![node_of(s)]);
}

// ---------------------------------------------------------------- iteration
pub open spec fn nodes(t: Tree) -> nat
    decreases t,
{
    match t { Tree::L(_) => 1, Tree::N(_, l, r) => 1 + nodes(*l) + nodes(*r) }
}
pub open spec fn rlv(t: Tree, asc: bool) -> Seq<nat> { if asc { lvs(t) } else { lvs(t).reverse() } }
pub open spec fn flat(ts: Seq<Tree>, asc: bool) -> Seq<nat>
    decreases ts.len(),
{
    if ts.len() == 0 { Seq::empty() } else { rlv(ts.last(), asc) + flat(ts.drop_last(), asc) }
}
pub open spec fn tsz(ts: Seq<Tree>) -> nat
    decreases ts.len(),
{
    if ts.len() == 0 { 0 } else { nodes(ts.last()) + tsz(ts.drop_last()) }
}
pub open spec fn stack_ok<C>(s: SlabV<C>, st: Seq<u32>, ts: Seq<Tree>) -> bool {
    &&& st.len() == ts.len()
    &&& forall|i: int| 0 <= i < ts.len() ==> wft(s.lv, s.inn, #[trigger] ts[i]) && st[i] == hnd(ts[i])
}
pub open spec fn it_wf<C>(s: SlabV<C>, st: Seq<u32>) -> bool { lens_ok(s) && exists|ts: Seq<Tree>| stack_ok(s, st, ts) }
pub open spec fn it_trees<C>(s: SlabV<C>, st: Seq<u32>) -> Seq<Tree> { choose|ts: Seq<Tree>| stack_ok(s, st, ts) }
/// the leaves an iterator has yet to give, in the order it will give them
pub open spec fn it_rem<C>(s: SlabV<C>, st: Seq<u32>, asc: bool) -> Seq<nat> { flat(it_trees(s, st), asc) }
pub proof fn lemma_it_unique<C>(s: SlabV<C>, st: Seq<u32>, a: Seq<Tree>, b: Seq<Tree>)
    requires stack_ok(s, st, a), stack_ok(s, st, b), lens_ok(s),
    ensures a == b,
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { lemma_unique(s.lv, s.inn, a[i], b[i]); }
    assert(a =~= b);
}
pub proof fn lemma_it<C>(s: SlabV<C>, st: Seq<u32>, ts: Seq<Tree>)
    requires stack_ok(s, st, ts), lens_ok(s),
    ensures it_wf(s, st), it_trees(s, st) == ts,
{
    lemma_it_unique(s, st, ts, it_trees(s, st));
}
pub proof fn lemma_it_expand(t: Tree, rest: Seq<Tree>, asc: bool)
    requires t is N,
    ensures
        flat(rest.push(t), asc) == flat(rest.push(child(t, asc)).push(child(t, !asc)), asc),
        tsz(rest.push(child(t, asc)).push(child(t, !asc))) < tsz(rest.push(t)),
{
    let a = rest.push(t);
    let c = rest.push(child(t, asc));
    let b = c.push(child(t, !asc));
    assert(a.drop_last() =~= rest);
    assert(b.drop_last() =~= c);
    assert(c.drop_last() =~= rest);
    if let Tree::N(h, l, r) = t {
        if !asc { assert((lvs(*l) + lvs(*r)).reverse() =~= lvs(*r).reverse() + lvs(*l).reverse()); }
        assert(b.last() == child(t, !asc) && c.last() == child(t, asc) && a.last() == t);
        assert(flat(b, asc) == rlv(child(t, !asc), asc) + flat(c, asc));
        assert(flat(c, asc) == rlv(child(t, asc), asc) + flat(rest, asc));
        assert(flat(a, asc) == rlv(t, asc) + flat(rest, asc));
        assert(rlv(t, asc) =~= rlv(child(t, !asc), asc) + rlv(child(t, asc), asc));
        assert(flat(a, asc) =~= flat(b, asc));
        assert(tsz(b) == nodes(child(t, !asc)) + tsz(c));
        assert(tsz(c) == nodes(child(t, asc)) + tsz(rest));
        assert(tsz(a) == nodes(t) + tsz(rest));
    }
}
pub proof fn lemma_it_leaf(t: Tree, rest: Seq<Tree>, asc: bool)
    requires t is L,
    ensures flat(rest.push(t), asc) == seq![node_of(t)] + flat(rest, asc),
{
    assert(rest.push(t).drop_last() =~= rest);
    assert(lvs(t) =~= seq![node_of(t)]);
    assert(lvs(t).reverse() =~= lvs(t));
}

/// r is the handle of the order with the largest (smallest) id
pub open spec fn extreme<C>(s: SlabV<C>, max: bool, r: Option<u32>) -> bool {
    match r {
        None => s.h.leaf_count == 0,
        Some(h) => s.h.leaf_count > 0 && ordered(s).len() > 0 && h == (if max { ordered(s).last() } else { ordered(s)[0] })
            && h < s.lv.len() && h < s.cb.len(),
    }
}
/// a key that disagrees with the prefix of the node it reached is nowhere
pub proof fn lemma_prefix_miss<C>(o: SlabV<C>, t: Tree, p: Seq<bool>, k: u128)
    requires
        wf(o), wit(o).t == Some(t), valid(t, p), follows(o.inn, t, p, k), sub_at(t, p) is N,
        !pfx(k, o.inn[node_of(sub_at(t, p)) as int].key, o.inn[node_of(sub_at(t, p)) as int].prefix_len),
    ensures !slots(o).contains_key(k),
{
    lemma_wf(o, wit(o));
    lemma_sub(o.lv, o.inn, t, p);
    let s = sub_at(t, p);
    assert(!has_key(o.lv, s, k)) by {
        if has_key(o.lv, s, k) {
            let j = choose|j: int| 0 <= j < lvs(s).len() && #[trigger] kat(o.lv, lvs(s)[j]) == k;
            if let Tree::N(h, l, r) = s {
                if j < lvs(*l).len() { assert(kat(o.lv, lvs(*l)[j]) == k); } else { assert(kat(o.lv, lvs(*r)[j - lvs(*l).len()]) == k); }
            }
        }
    }
    lemma_absent(o.lv, o.inn, t, p, k);
    if slots(o).contains_key(k) {
        let j = choose|j: int| 0 <= j < lvs(t).len() && lvs(t)[j] == slots(o)[k];
        assert(kat(o.lv, lvs(t)[j]) == k);
    }
}
