//! Cases that exercise one part directly.
use crate::oracle::{self, Issues};
use crate::world::*;
use asset_agnostic_orderbook::error::AoError;
use asset_agnostic_orderbook::instruction as ix;
use asset_agnostic_orderbook::instruction::*;
use asset_agnostic_orderbook::state::critbit::{InnerNode, LeafNode, Slab, SlabHeader};
use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventQueueHeader, FillEvent, OutEvent};
use asset_agnostic_orderbook::state::market_state::MarketState;
use asset_agnostic_orderbook::state::{AccountTag, SelfTradeBehavior, Side};
use asset_agnostic_orderbook::utils::round_price;
use borsh::BorshSerialize;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guard(props: &[&'static str], issues: &mut Issues, f: impl FnOnce(&mut Issues)) {
    let mut found: Issues = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut found)));
    issues.append(&mut found);
    if let Err(e) = r {
        let m = panic_text(e);
        for p in props {
            issues.push((p, format!("panics: {m}")));
        }
    }
}
fn leaf(key: u128, qty: u64) -> LeafNode {
    LeafNode { key: [key as u64, (key >> 64) as u64], base_quantity: qty }
}
fn buf(len: usize) -> Vec<u64> {
    vec![0; len / 8 + 1]
}
fn bytes(b: &mut [u64], len: usize) -> &mut [u8] {
    &mut bytemuck::cast_slice_mut::<u64, u8>(b)[..len]
}

/// arbitrary keys in one slab against an ordered map
pub fn slab(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    guard(&["B01", "B02", "B03", "R01"], issues, |is| slab_inner(r, log, is, ops));
}
fn slab_inner(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    // `deep`: one long path, the tree as deep as keys of 128 bits can make it
    let deep = r.chance(1, 40);
    let cap = if deep { 150 } else { 1 + r.below(r.clone().pick(&[1, 2, 3, 6, 12, 40])) as usize };
    let len = Slab::<Cb16>::compute_allocation_size(cap);
    let (mut a, mut b) = (buf(len), buf(len));
    Slab::<Cb16>::initialize(bytes(&mut a, len), bytes(&mut b, len)).unwrap();
    let style = r.below(5);
    let pool: Vec<u128> = (0..4 + r.below(40))
        .map(|i| match style {
            0 => i as u128,
            1 => ((r.next() as u128) << 64) | r.next() as u128,
            2 => 1u128 << r.below(128),
            3 => ((1 + r.below(3)) as u128) << 64 | r.below(6) as u128,
            _ => {
                let hi = r.below(3) as u128;
                let lo = r.pick(&[0u64, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 62, 3]) as u128;
                hi << 64 | lo
            }
        })
        .collect();
    let any = (r.next() as u128) << 64 | r.next() as u128;
    let along = r.pick(&[0, u128::MAX, any]);
    let pool = if deep { (0..128).map(|i| along ^ (1 << i)).chain([along]).collect() } else { pool };
    let mut model: BTreeMap<u128, (u64, Cb16)> = BTreeMap::new();
    log.push(format!("slab with {cap} slots"));
    for step in 0..if deep { 200 } else { 10 + r.below(80) } {
        *ops += 1;
        let k = if deep && step < pool.len() as u64 { pool[step as usize] } else { r.pick(&pool) };
        let before = bytes(&mut a, len).to_vec();
        let mut s = Slab::<Cb16>::from_buffer(bytes(&mut a, len), AccountTag::Asks).unwrap();
        if s.leaf_nodes.len() != cap {
            issues.push(("B03", format!("{} slots instead of {cap}", s.leaf_nodes.len())));
            issues.push(("Y01", format!("{} slots instead of {cap}", s.leaf_nodes.len())));
            return;
        }
        if (r.chance(3, 5) || deep && step < 129) && cfg!(feature = "hook") {
            #[cfg(feature = "hook")]
            {
                let l = leaf(k, 1 + r.below(1000));
                let res = s.verif_insert_leaf(&l);
                log.push(format!("insert {k:#x} qty {} -> {}", l.base_quantity, match &res { Ok((h, o)) => format!("slot {h} replaced {o:?}"), Err(e) => format!("{e:?}") }));
                let c = Cb16 { nonce: step, user: k as u64 };
                match res {
                    Ok((h, old)) => {
                        if model.len() == cap && !model.contains_key(&k) {
                            issues.push(("B03", "insertion into a full slab succeeds".into()));
                        }
                        if old != model.get(&k).map(|m| leaf(k, m.0)) {
                            issues.push(("B01", format!("insert reports {old:?} replaced, was {:?}", model.get(&k))));
                        }
                        *s.get_callback_info_mut(h) = c;
                        model.insert(k, (l.base_quantity, c));
                    }
                    Err(e) => {
                        if model.len() < cap || model.contains_key(&k) {
                            issues.push(("B03", format!("insertion with {} of {cap} slots used: {e:?}", model.len())));
                        }
                        if before != bytes(&mut a, len) {
                            issues.push(("B03", "a refused insertion changes the slab".into()));
                        }
                    }
                }
            }
        } else {
            let res = s.remove_by_key(k).map(|(l, c)| (l, *c));
            log.push(format!("remove {k:#x} -> {res:?}"));
            let want = model.remove(&k).map(|m| (leaf(k, m.0), m.1));
            if res != want {
                issues.push(("B01", format!("remove {k:#x} returns {res:?}, should be {want:?}")));
            }
            if want.is_none() && before != bytes(&mut a, len) {
                issues.push(("B01", "removing an absent key changes the slab".into()));
            }
        }
        let b = bytes(&mut a, len);
        let up: Vec<_> = Slab::<Cb16>::from_buffer(b, AccountTag::Asks).unwrap().into_iter(true).take(1000).map(|l| (l.order_id(), l.base_quantity)).collect();
        let mut down: Vec<_> = Slab::<Cb16>::from_buffer(b, AccountTag::Asks).unwrap().into_iter(false).take(1000).map(|l| (l.order_id(), l.base_quantity)).collect();
        down.reverse();
        let want: Vec<_> = model.iter().map(|(k, m)| (*k, m.0)).collect();
        if up != want || down != want {
            issues.push(("B02", format!("iteration gives {up:x?} and reversed {down:x?}, content is {want:x?}")));
        }
        let s = Slab::<Cb16>::from_buffer(b, AccountTag::Asks).unwrap();
        let at = |h: Option<u32>| h.map(|h| s.leaf_nodes[h as usize].order_id());
        if at(s.find_min()) != model.keys().next().copied() || at(s.find_max()) != model.keys().next_back().copied() {
            issues.push(("B02", format!("find_min {:x?} find_max {:x?} of {want:x?}", at(s.find_min()), at(s.find_max()))));
        }
        if s.header.leaf_count as usize != model.len() {
            issues.push(("B03", format!("leaf_count {} for {} orders", s.header.leaf_count, model.len())));
        }
        let mut used = std::collections::BTreeSet::new();
        for k in pool.iter().chain(model.keys()) {
            let h = s.find_by_key(*k);
            let got = h.map(|h| (s.leaf_nodes[h as usize], *s.get_callback_info(h)));
            let want = model.get(k).map(|m| (leaf(*k, m.0), m.1));
            if got != want {
                issues.push(("B01", format!("lookup of {k:#x} gives {got:?}, should be {want:?}")));
            }
            if let Some(h) = h {
                used.insert(h);
            }
        }
        if used.len() != model.len() || used.iter().any(|h| *h as usize >= cap) {
            issues.push(("B03", format!("{} orders use slots {used:?}", model.len())));
        }
        if !issues.is_empty() {
            return;
        }
    }
}

#[allow(dead_code)]
fn mk_fill(side: u8, id: [u64; 2], base: u64, quote: u64) -> FillEvent {
    let mut e: FillEvent = bytemuck::Zeroable::zeroed();
    e.taker_side = side;
    e.maker_order_id = id;
    e.base_size = base;
    e.quote_size = quote;
    e
}
#[allow(dead_code)]
fn mk_out(side: u8, id: [u64; 2], base: u64) -> OutEvent {
    let mut e: OutEvent = bytemuck::Zeroable::zeroed();
    e.side = side;
    e.order_id = id;
    e.base_size = base;
    e
}
/// the event queue against a double ended queue
pub fn queue(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    guard(&["E01", "R01"], issues, |is| queue_inner(r, log, is, ops));
}
fn queue_inner(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    let cap = 1 + r.below(r.clone().pick(&[1, 2, 4, 9, 30])) as usize;
    let len = EventQueue::<Cb16>::compute_allocation_size(cap);
    let mut a = buf(len);
    EventQueue::<Cb16>::from_buffer(bytes(&mut a, len), AccountTag::Uninitialized).unwrap();
    let mut model: VecDeque<Ev> = VecDeque::new();
    log.push(format!("queue with {cap} slots"));
    let mut n = 0u64;
    for _ in 0..10 + r.below(100) {
        *ops += 1;
        let mut q = EventQueue::<Cb16>::from_buffer(bytes(&mut a, len), AccountTag::EventQueue).unwrap();
        n += 1;
        let id = ((r.next() as u128) << 64) | n as u128;
        match r.below(5) {
            0 => {
                let k = r.pick(&[0, 1, 2, 3, cap as u64, u64::MAX, n % 7]);
                q.pop_n(k);
                for _ in 0..k.min(model.len() as u64) {
                    model.pop_front();
                }
                log.push(format!("pop_n({k})"));
            }
            #[cfg(feature = "hook")]
            1 | 2 => {
                let (m, t) = (Cb16 { nonce: n, user: 3 }, Cb16 { nonce: n, user: 4 });
                let ok = q.verif_push_fill(mk_fill((n % 2) as u8, [id as u64, (id >> 64) as u64], n, n + 1), &m, &t);
                push(&mut model, cap, ok, Ev::Fill { side: (n % 2) as u8, id, base: n, quote: n + 1, mcb: (3, n), tcb: (4, n) }, issues);
                log.push(format!("push fill {n}: {ok}"));
            }
            #[cfg(feature = "hook")]
            3 | 4 => {
                let ok = q.verif_push_out(mk_out((n % 2) as u8, [id as u64, (id >> 64) as u64], n), &Cb16 { nonce: n, user: 5 });
                push(&mut model, cap, ok, Ev::Out { side: (n % 2) as u8, id, base: n, cb: (5, n) }, issues);
                log.push(format!("push out {n}: {ok}"));
            }
            _ => {
                let _ = id;
            }
        }
        let got = read_events::<Cb16>(bytes(&mut a, len), issues);
        if got != model.iter().cloned().collect::<Vec<_>>() {
            issues.push(("E01", format!("queue holds {got:?}, should be {model:?}")));
        }
        if !issues.is_empty() {
            return;
        }
    }
}
#[allow(dead_code)]
fn push(model: &mut VecDeque<Ev>, cap: usize, ok: bool, e: Ev, issues: &mut Issues) {
    if ok != (model.len() < cap) {
        issues.push(("E01", format!("push with {} of {cap} slots used: {ok}", model.len())));
    }
    if ok {
        model.push_back(e);
    }
}

pub fn ids(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    let _ = (&log, &ops);
    #[cfg(feature = "hook")]
    guard(&["B04", "R01"], issues, |is| {
        let len = EventQueue::<Cb16>::compute_allocation_size(5);
        let mut a = buf(len);
        EventQueue::<Cb16>::from_buffer(bytes(&mut a, len), AccountTag::Uninitialized).unwrap();
        let seq = r.pick(&[0, 1, 2, (1 << 32) - 1, 1 << 32, (1 << 63) - 20, r.clone().next() >> 1]).min((1 << 63) - 20);
        bytes(&mut a, len)[24..32].copy_from_slice(&seq.to_le_bytes());
        let mut last: [Option<u128>; 2] = [None, None];
        let price = r.pick(&[0, 1, u64::MAX, 1 << 32, 1 << 63, r.clone().next()]);
        for i in 0..12 {
            *ops += 1;
            let side = if r.chance(1, 2) { Side::Bid } else { Side::Ask };
            let mut q = EventQueue::<Cb16>::from_buffer(bytes(&mut a, len), AccountTag::EventQueue).unwrap();
            let id = q.verif_gen_order_id(price, side);
            log.push(format!("id {id:#x} for {side:?} at {price}, sequence {}", seq + i));
            if oracle::price_of(id) != price || oracle::side_of(id) != side {
                is.push(("B04", format!("id {id:#x} does not tell price {price} and side {side:?}")));
            }
            if let Some(l) = last[side as usize] {
                let later = match side {
                    Side::Bid => id < l,
                    Side::Ask => id > l,
                };
                if !later {
                    is.push(("B04", format!("id {id:#x} does not come after {l:#x}")));
                }
            }
            last[side as usize] = Some(id);
        }
    });
    let _ = (r, issues);
}

pub fn round(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    for _ in 0..200 {
        *ops += 1;
        let tick = r.pick(&[1, 2, 3, 7, 10, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX, u64::MAX - 1, 1 + r.clone().below(100), r.clone().next() | 1]);
        let k = r.below(20);
        let p = r.pick(&[
            0,
            1,
            tick,
            tick - 1,
            tick.saturating_add(1),
            tick.saturating_mul(k),
            tick.saturating_mul(k).saturating_add(r.clone().below(tick)),
            tick.saturating_mul(k).saturating_sub(1),
            u64::MAX,
            u64::MAX - r.clone().below(100),
            u64::MAX / tick * tick,
            (u64::MAX / tick * tick).saturating_sub(1),
            (u64::MAX / tick * tick).saturating_add(1),
            r.clone().next(),
            r.clone().next() >> r.clone().below(64),
        ]);
        for side in [Side::Bid, Side::Ask] {
            let res = catch_unwind(|| round_price(tick, p, side)).map_err(panic_text);
            let down = p / tick * tick;
            let up = (p as u128 + tick as u128 - 1) / tick as u128 * tick as u128;
            let ok = match (&res, side) {
                // no multiple of the tick size above the price fits
                (_, Side::Ask) if up > u64::MAX as u128 => true,
                (Err(_), _) => false,
                (Ok(x), Side::Bid) => *x == down,
                (Ok(x), Side::Ask) => *x as u128 == up,
            };
            if !ok {
                log.push(format!("round_price({tick}, {p}, {side:?}) = {res:?}"));
                issues.push(("T01", format!("round_price({tick}, {p}, {side:?}) = {res:?}, multiples around it: {down}, {up}")));
                return;
            }
        }
    }
}

fn some_order(r: &mut Rng, n: u64, side: Side, price: u64) -> Op {
    Op::New(NewOrder {
        base: 1000 + r.below(1000),
        quote: u64::MAX,
        price,
        side,
        limit: 10,
        cb: (n, n),
        post_only: false,
        post_allowed: true,
        stb: SelfTradeBehavior::DecrementTake,
    })
}
/// a market with a few orders and events
fn market(r: &mut Rng) -> (World, Vec<u128>) {
    let mut w = World::new::<[u8; 32]>(4 + r.below(4) as usize, 5 + r.below(6) as usize);
    assert_eq!(w.tx::<[u8; 32]>(&Op::Create { min: 1 + r.below(10), tick: 1 << 20 }), Res::Ok(None));
    let mut ids = vec![];
    for i in 0..3 + r.below(4) {
        let (side, price) = if i % 2 == 0 { (Side::Bid, (9 << 32) - (r.below(4) << 31)) } else { (Side::Ask, (11 << 32) + (r.below(4) << 31)) };
        let op = some_order(r, i, side, price);
        if let Res::Ok(Some(s)) = w.tx::<[u8; 32]>(&op) {
            ids.extend(s.id);
        }
    }
    (w, ids)
}
fn any_op(r: &mut Rng, ids: &[u128], k: u64) -> Op {
    match k {
        0 => some_order(r, 9, Side::Bid, 12 << 32),
        1 => Op::Cancel(*ids.first().unwrap_or(&1)),
        2 => Op::Mass(ids.iter().take(2).copied().collect()),
        3 => Op::Consume(1 + r.below(3)),
        4 => Op::Close,
        _ => Op::Create { min: 1, tick: 1 },
    }
}
fn empty(w: &mut World) -> bool {
    let st = match w.observe::<[u8; 32]>(&mut vec![]) {
        Some(s) => s,
        None => return false,
    };
    let ids: Vec<u128> = st.bids.keys().chain(st.asks.keys()).copied().collect();
    w.tx::<[u8; 32]>(&Op::Mass(ids)).ok() && w.tx::<[u8; 32]>(&Op::Consume(u64::MAX)).ok()
}
fn run_either(r: &mut Rng, w: &mut World, op: &Op) -> Res {
    if r.chance(1, 2) { w.entry::<[u8; 32]>(op) } else { w.direct::<[u8; 32]>(op) }
}

pub fn life(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    guard(&["L01"], issues, |is| life_inner(r, log, is, ops));
}
fn life_inner(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    type C = [u8; 32];
    let mlen = 8 + std::mem::size_of::<MarketState>();
    // ---- creation
    {
        let slots = 1 + r.below(6) as usize;
        let events = 1 + r.below(8) as usize;
        let mut w = World::new::<C>(slots, events);
        let (min, tick) = (r.pick(&[0, 1, 1, 5, 5, 100, u64::MAX]), r.pick(&[0, 1, 1, 3, 1 << 32, 1 << 32, u64::MAX]));
        let mut bad = vec![];
        if min == 0 || tick == 0 {
            bad.push("zero parameter".to_string());
        }
        if events < 5 {
            bad.push(format!("only {events} events"));
        }
        match r.below(6) {
            0 => {
                let k = r.below(4) as usize;
                let t = 128 + r.below(5) as u8;
                w.acc[k].bytes_mut()[0] = t;
                bad.push(format!("account {k} already carries tag {t}"));
            }
            1 => {
                let l = r.pick(&[mlen - 1, mlen + 1, mlen + 8, mlen - 8, 8, mlen * 2]);
                w.acc[MARKET].resize(l);
                bad.push(format!("market of {l} bytes"));
            }
            2 => {
                let ev = std::mem::size_of::<FillEvent>() as u64 + 64;
                let l = w.acc[QUEUE].len as u64 + 1 + r.below(ev - 1);
                w.acc[QUEUE].resize(l as usize);
                bad.push(format!("queue of {l} bytes"));
            }
            3 => {
                let k = r.below(4) as usize;
                w.acc[k].lamports = r.below(1_000_000);
                bad.push(format!("account {k} is not rent exempt"));
            }
            _ => {}
        }
        let op = Op::Create { min, tick };
        let res = run_either(r, &mut w, &op);
        *ops += 1;
        log.push(format!("{op:?}, {slots} order slots, {events} events, {bad:?} -> {res:?}"));
        if bad.is_empty() != res.ok() {
            issues.push(("L01", format!("create_market with min {min} tick {tick}, {events} events, {bad:?}: {res:?}")));
            return;
        }
        if res.ok() {
            let st = w.observe::<C>(issues);
            let keys: Vec<Pubkey> = w.acc.iter().map(|a| a.key).collect();
            let m = *MarketState::from_buffer(w.acc[MARKET].bytes_mut(), AccountTag::Market).unwrap();
            if m.event_queue != keys[QUEUE] || m.bids != keys[BIDS] || m.asks != keys[ASKS] || m.min_base_order_size != min || m.tick_size != tick {
                issues.push(("L01", format!("market records {m:?}")));
            }
            match st {
                Some(s) if s.bids.is_empty() && s.asks.is_empty() && s.evs.is_empty() => {}
                s => issues.push(("L01", format!("a new market is not empty: {s:?}"))),
            }
            let again = run_either(r, &mut w, &Op::Create { min: 1, tick: 1 });
            if again.ok() {
                issues.push(("L01", "a market is created twice".into()));
            }
        }
    }
    // ---- closing
    let (mut w, ids) = market(r);
    *ops += 4;
    if r.chance(1, 2) {
        let op = some_order(r, 9, Side::Bid, 14 << 32);
        w.tx::<C>(&op);
    }
    let mode = r.below(5);
    match mode {
        0 => {}
        1 => {
            w.tx::<C>(&Op::Consume(u64::MAX));
        }
        2 => {
            let st = w.observe::<C>(&mut vec![]).unwrap();
            let side = if r.chance(1, 2) { &st.bids } else { &st.asks };
            let ids: Vec<u128> = side.keys().copied().collect();
            w.tx::<C>(&Op::Mass(ids));
            w.tx::<C>(&Op::Consume(u64::MAX));
        }
        3 => {
            let st = w.observe::<C>(&mut vec![]).unwrap();
            let ids: Vec<u128> = st.bids.keys().chain(st.asks.keys()).copied().collect();
            w.tx::<C>(&Op::Mass(ids));
        }
        _ => {
            empty(&mut w);
        }
    }
    let st = w.observe::<C>(&mut vec![]).unwrap();
    let active = !st.bids.is_empty() || !st.asks.is_empty() || !st.evs.is_empty();
    let lam: Vec<u64> = (0..5).map(|i| { let l = 1_000_000 + r.below(1 << 40); w.acc[i].lamports = l; l }).collect();
    let saved = w.clone();
    let res = run_either(r, &mut w, &Op::Close);
    log.push(format!("close with {} bids {} asks {} events -> {res:?}", st.bids.len(), st.asks.len(), st.evs.len()));
    if active == res.ok() {
        issues.push(("L01", format!("close_market with {} bids, {} asks, {} events: {res:?}", st.bids.len(), st.asks.len(), st.evs.len())));
        return;
    }
    if active {
        if !res.is(AoError::MarketStillActive) {
            issues.push(("L01", format!("close_market of an active market: {res:?}")));
        }
        return;
    }
    if w.acc[..4].iter().any(|a| a.lamports != 0) || w.acc[TARGET].lamports as u128 != lam.iter().map(|x| *x as u128).sum::<u128>() {
        issues.push(("L01", format!("lamports after closing: {:?}, before {lam:?}", w.acc.iter().map(|a| a.lamports).collect::<Vec<_>>())));
    }
    let _ = saved;
    for a in w.acc.iter_mut() {
        a.lamports = 10_000_000_000;
    }
    for k in 0..6 {
        let op = any_op(r, &ids, k);
        let mut v = w.clone();
        let res = run_either(r, &mut v, &op);
        *ops += 1;
        if res.ok() {
            issues.push(("L01", format!("{op:?} succeeds on a closed market")));
        }
    }
    for k in 0..4 {
        if w.acc[k].bytes()[0] != AccountTag::Disabled as u8 {
            issues.push(("L01", format!("account {k} of a closed market keeps tag {}", w.acc[k].bytes()[0])));
        }
    }
}

/// every instruction with one account exchanged for a forged one
pub fn auth(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    guard(&["L02"], issues, |is| auth_inner(r, log, is, ops));
}
fn auth_inner(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    type C = [u8; 32];
    let (mut w, mut ids) = market(r);
    w.tx::<C>(&Op::New(NewOrder { base: 10, quote: u64::MAX, price: 20 << 32, side: Side::Bid, limit: 1, cb: (5, 5), post_only: false, post_allowed: false, stb: SelfTradeBehavior::DecrementTake }));
    let k = r.below(5);
    if k == 4 {
        empty(&mut w);
        ids.clear();
    }
    let op = if k == 0 && r.chance(1, 2) { some_order(r, 9, Side::Ask, 8 << 32) } else { any_op(r, &ids, k) };
    let accounts: &[usize] = if k == 3 { &[MARKET, QUEUE] } else { &[MARKET, QUEUE, BIDS, ASKS] };
    let mut control = w.clone();
    let res = run_either(r, &mut control, &op);
    *ops += 1;
    if !res.ok() {
        issues.push(("L02", format!("{op:?} with the right accounts: {res:?}")));
        return;
    }
    for &a in accounts {
        for what in 0..5 {
            let mut v = w.clone();
            let mut mutation = String::new();
            match what {
                0 => {
                    // an account of another program; the market accounts of close_market are told by key
                    if k == 4 && a != MARKET {
                        continue;
                    }
                    v.acc[a].owner = if r.chance(1, 2) { Pubkey::new_from_array([0; 32]) } else { let mut x = v.program.to_bytes(); x[r.below(32) as usize] ^= 1 << r.below(8); Pubkey::new_from_array(x) };
                    mutation += "owner";
                }
                1 => {
                    // a look-alike owned by the program, but not the market's
                    if a == MARKET {
                        continue;
                    }
                    let mut x = v.acc[a].key.to_bytes();
                    x[r.below(32) as usize] ^= 1 << r.below(8);
                    v.acc[a].key = Pubkey::new_from_array(x);
                    mutation += "key";
                }
                2 => {
                    let t = v.acc[a].bytes()[0];
                    let n = r.pick(&[0u8, 128, 129, 130, 131, 132, 1, 255]);
                    // cancellations never look into the queue
                    if n == t || (a == QUEUE && (k == 1 || k == 2)) {
                        continue;
                    }
                    v.acc[a].bytes_mut()[0] = n;
                    mutation += &format!("tag {n}");
                }
                3 => {
                    // two accounts exchanged
                    let b = accounts[r.below(accounts.len() as u64) as usize];
                    if a == b {
                        continue;
                    }
                    v.acc.swap(a, b);
                    mutation += &format!("exchanged with {b}");
                }
                _ => {
                    // accounts of another, equally valid market
                    if a == MARKET {
                        continue;
                    }
                    let mut other = w.clone();
                    for x in other.acc.iter_mut() {
                        let mut b = x.key.to_bytes();
                        b[31] ^= 0x80;
                        x.key = Pubkey::new_from_array(b);
                    }
                    let keys: Vec<Pubkey> = other.acc.iter().map(|x| x.key).collect();
                    {
                        let m = MarketState::from_buffer(other.acc[MARKET].bytes_mut(), AccountTag::Market).unwrap();
                        m.event_queue = keys[QUEUE];
                        m.bids = keys[BIDS];
                        m.asks = keys[ASKS];
                    }
                    v.acc[a] = other.acc[a].clone();
                    mutation += "account of another market";
                }
            }
            let res = run_either(r, &mut v, &op);
            *ops += 1;
            if res.ok() {
                log.push(format!("{op:?} with account {a} changed ({mutation}) -> {res:?}"));
                issues.push(("L02", format!("{op:?} accepts account {a} ({mutation})")));
                return;
            }
        }
    }
    // creation: queue and books must belong to the program
    for a in [QUEUE, BIDS, ASKS] {
        let mut v = World::new::<C>(3, 6);
        v.acc[a].owner = Pubkey::new_from_array([0; 32]);
        let res = run_either(r, &mut v, &Op::Create { min: 1, tick: 1 });
        *ops += 1;
        if res.ok() {
            issues.push(("L02", format!("create_market accepts account {a} of another owner")));
        }
    }
}

fn ser<T: BorshSerialize>(tag: u8, t: &T) -> Vec<u8> {
    let mut v = vec![tag];
    t.serialize(&mut v).unwrap();
    v
}
/// the client side builders against the dispatcher
pub fn builders(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    guard(&["I01"], issues, |is| builders_inner(r, log, is, ops));
}
fn builders_inner(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    type C = [u8; 32];
    let key = |r: &mut Rng| { let mut b = [0u8; 32]; for c in b.chunks_mut(8) { c.copy_from_slice(&r.next().to_le_bytes()); } Pubkey::new_from_array(b) };
    let k: Vec<Pubkey> = (0..6).map(|_| key(r)).collect();
    let o = NewOrder {
        base: r.next(),
        quote: r.next(),
        price: r.next(),
        side: if r.chance(1, 2) { Side::Bid } else { Side::Ask },
        limit: r.next(),
        cb: (r.next(), 0),
        post_only: r.chance(1, 2),
        post_allowed: r.chance(1, 2),
        stb: match r.below(3) { 0 => SelfTradeBehavior::DecrementTake, 1 => SelfTradeBehavior::CancelProvide, _ => SelfTradeBehavior::AbortTransaction },
    };
    let cp = create_market::Params { min_base_order_size: r.next(), tick_size: r.next() };
    let ids: Vec<u128> = (0..r.below(5)).map(|_| ((r.next() as u128) << 64) | r.next() as u128).collect();
    let (mp, xp, ep) = (mass_cancel_orders::Params { order_ids: ids.clone() }, cancel_order::Params { order_id: r.next() as u128 + ((r.next() as u128) << 64) }, consume_events::Params { number_of_entries_to_consume: r.next() });
    // encoding written out independently of the crate's serialisation
    let mut nd = vec![1u8];
    for x in [o.base, o.quote, o.price] { nd.extend(x.to_le_bytes()); }
    nd.push(o.side as u8);
    nd.extend(o.limit.to_le_bytes());
    nd.extend(C::mk(o.cb.0, 0));
    nd.push(o.post_only as u8);
    nd.push(o.post_allowed as u8);
    nd.push(match o.stb { SelfTradeBehavior::DecrementTake => 0, SelfTradeBehavior::CancelProvide => 1, SelfTradeBehavior::AbortTransaction => 2 });
    let mut md = vec![5u8];
    md.extend((ids.len() as u32).to_le_bytes());
    for x in &ids { md.extend(x.to_le_bytes()); }
    let mut xd = vec![3u8];
    xd.extend(xp.order_id.to_le_bytes());
    let mut ed = vec![2u8];
    ed.extend(ep.number_of_entries_to_consume.to_le_bytes());
    let mut cd = vec![0u8];
    cd.extend(cp.min_base_order_size.to_le_bytes());
    cd.extend(cp.tick_size.to_le_bytes());
    let _ = ser::<u8>;
    let four = |w0: bool| vec![(k[0], w0), (k[1], true), (k[2], true), (k[3], true), (k[5], true)];
    let all = vec![
        ("create_market", ix::create_market(create_market::Accounts { market: &k[0], event_queue: &k[1], bids: &k[2], asks: &k[3] }, k[5], cp), cd, four(true)),
        ("new_order", ix::new_order(new_order::Accounts { market: &k[0], event_queue: &k[1], bids: &k[2], asks: &k[3] }, k[5], o.params_with(Wrap(C::mk(o.cb.0, 0)))), nd, four(false)),
        ("consume_events", ix::consume_events(consume_events::Accounts { market: &k[0], event_queue: &k[1] }, k[5], ep), ed, vec![(k[0], false), (k[1], true), (k[5], true)]),
        ("cancel_order", ix::cancel_order(cancel_order::Accounts { market: &k[0], event_queue: &k[1], bids: &k[2], asks: &k[3] }, k[5], xp), xd, four(false)),
        (
            "close_market",
            ix::close_market(close_market::Accounts { market: &k[0], event_queue: &k[1], bids: &k[2], asks: &k[3], lamports_target_account: &k[4] }, k[5], close_market::Params {}),
            vec![4u8],
            vec![(k[0], true), (k[1], true), (k[2], true), (k[3], true), (k[4], true), (k[5], true)],
        ),
        ("mass_cancel_orders", ix::mass_cancel_orders(mass_cancel_orders::Accounts { market: &k[0], event_queue: &k[1], bids: &k[2], asks: &k[3] }, k[5], mp), md, four(false)),
    ];
    for (n, i, data, metas) in all {
        *ops += 1;
        let got: Vec<(Pubkey, bool)> = i.accounts.iter().map(|m| (m.pubkey, m.is_writable)).collect();
        if i.data != data || got != metas || i.accounts.iter().any(|m| m.is_signer) || i.program_id != asset_agnostic_orderbook::id() {
            log.push(format!("{n}: {i:?}"));
            issues.push(("I01", format!("{n} builds data {:x?} with accounts {:?}; expected data {data:x?}", i.data, i.accounts)));
            return;
        }
    }
    // the dispatcher does what the instruction's function does
    let (mut w, ids) = market(r);
    let kk = r.below(6);
    if kk == 4 {
        empty(&mut w);
    }
    if kk == 5 {
        w = World::new::<C>(4, 6);
    }
    let op = any_op(r, &ids, kk);
    let mut v = w.clone();
    let (a, b) = (w.entry::<C>(&op), v.direct::<C>(&op));
    *ops += 2;
    log.push(format!("{op:?}: entry point {a:?}, direct {b:?}"));
    if a != b || w.acc[..5].iter().zip(&v.acc[..5]).any(|(x, y)| x.bytes() != y.bytes() || x.lamports != y.lamports) {
        issues.push(("I01", format!("{op:?}: entry point gives {a:?}, the instruction itself {b:?}, or they leave different accounts")));
    }
    let mut bad = data_of::<C>(&op).0;
    bad[0] = 6 + r.below(250) as u8;
    let _ = bad;
}

/// account sizes and the views into them
pub fn layout(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    guard(&["Y01"], issues, |is| {
        layout_inner::<Cb16>(r, log, is, ops);
        layout_inner::<[u8; 32]>(r, log, is, ops);
        match r.below(7) {
            0 => layout_inner::<C1>(r, log, is, ops),
            1 => layout_inner::<C4>(r, log, is, ops),
            2 => layout_inner::<C8>(r, log, is, ops),
            3 => layout_inner::<C9>(r, log, is, ops),
            4 => layout_inner::<C24>(r, log, is, ops),
            5 => layout_inner::<C31>(r, log, is, ops),
            _ => layout_inner::<C64>(r, log, is, ops),
        }
    });
}
fn layout_inner<C: Cbk>(r: &mut Rng, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    let n = 1 + r.below(r.clone().pick(&[1, 2, 10, 100])) as usize;
    let cs = std::mem::size_of::<C>();
    log.push(format!("{n} slots, callback info of {cs} bytes"));
    *ops += 2;
    let want = 8 + 32 + n * (24 + cs) + (n - 1) * 32;
    let len = Slab::<C>::compute_allocation_size(n);
    if len != want || SlabHeader::LEN != 32 || LeafNode::LEN != 24 || InnerNode::LEN != 32 {
        issues.push(("Y01", format!("a book of {n} orders takes {len} bytes, the layout needs {want}")));
        return;
    }
    // sizes only, for accounts of any size
    for _ in 0..8 {
        let bytes = r.pick(&[10 * 1024 * 1024, 10_000_000, 10 * 1024, 65_536, 1 << 24, 1 << 30, 1 << 32]);
        let m = match r.below(3) {
            0 => bytes / (40 + 2 * cs as u64) + r.below(5),
            1 => bytes / (56 + cs as u64) + r.below(5),
            _ => 1 + r.below(r.clone().pick(&[300, 70_000, 1 << 20, 1 << 32])),
        } as usize;
        *ops += 2;
        let (q, s) = (EventQueue::<C>::compute_allocation_size(m), Slab::<C>::compute_allocation_size(m));
        if q != 32 + m * (40 + 2 * cs) || s != 40 + m * (24 + cs) + (m - 1) * 32 {
            issues.push(("Y01", format!("sizes of a queue and of a book of {m}: {q} and {s}")));
            return;
        }
    }
    let (mut a, mut b) = (buf(len), buf(len));
    Slab::<C>::initialize(bytes(&mut a, len), bytes(&mut b, len)).unwrap();
    if Slab::<C>::from_buffer(bytes(&mut a, len), AccountTag::Bids).is_ok() || Slab::<C>::from_buffer(bytes(&mut b, len), AccountTag::Asks).is_ok() {
        issues.push(("Y01", "bids and asks accounts are not told apart".into()));
    }
    {
        let s = Slab::<C>::from_buffer(bytes(&mut a, len), AccountTag::Asks).unwrap();
        if s.leaf_nodes.len() != n || s.inner_nodes.len() != n - 1 || s.callback_infos.len() != n {
            issues.push(("Y01", format!("{} leaves, {} inner nodes, {} callback infos for {n} orders", s.leaf_nodes.len(), s.inner_nodes.len(), s.callback_infos.len())));
            return;
        }
        s.header.leaf_count = 0x0102_0304;
        for i in 0..n {
            s.leaf_nodes[i] = leaf(i as u128, 1_000_000 + i as u64);
            s.callback_infos[i] = C::mk(7 + i as u64, i as u64);
        }
        for i in 0..n - 1 {
            s.inner_nodes[i].children = [i as u32, !(i as u32)];
        }
    }
    let raw = bytes(&mut a, len).to_vec();
    let u = |o: usize| u64::from_le_bytes(raw[o..o + 8].try_into().unwrap());
    let i = r.below(n as u64) as usize;
    let lo = 40 + 24 * i;
    if u(lo) != i as u64 || u(lo + 16) != 1_000_000 + i as u64 || raw[36..40] != [4, 3, 2, 1] || raw[0] != AccountTag::Asks as u8 {
        issues.push(("Y01", format!("leaf {i} is not at byte {lo}")));
    }
    let co = 40 + 24 * n + 32 * (n - 1) + cs * i;
    if raw[co..co + cs] != *bytemuck::bytes_of(&C::mk(7 + i as u64, i as u64)) {
        issues.push(("Y01", format!("callback info {i} is not at byte {co}")));
    }
    let s = Slab::<C>::from_buffer(bytes(&mut a, len), AccountTag::Asks).unwrap();
    for i in 0..n {
        if s.leaf_nodes[i] != leaf(i as u128, 1_000_000 + i as u64) || s.callback_infos[i] != C::mk(7 + i as u64, i as u64) || (i + 1 < n && s.inner_nodes[i].children != [i as u32, !(i as u32)]) {
            issues.push(("Y01", format!("slot {i} is overwritten by another part of the account")));
        }
    }
    // ---- queue
    let ev = std::mem::size_of::<FillEvent>();
    let qlen = EventQueue::<C>::compute_allocation_size(n);
    let want = 8 + EventQueueHeader::LEN + n * (ev + 2 * cs);
    if qlen != want || ev != 40 || std::mem::size_of::<OutEvent>() != 40 || EventQueueHeader::LEN != 24 {
        issues.push(("Y01", format!("a queue of {n} events takes {qlen} bytes, the layout needs {want}")));
        return;
    }
    let mut q = buf(qlen);
    EventQueue::<C>::from_buffer(bytes(&mut q, qlen), AccountTag::Uninitialized).unwrap();
    if EventQueue::<C>::from_buffer(bytes(&mut q, qlen), AccountTag::Uninitialized).is_ok() {
        issues.push(("Y01", "an initialised queue can be initialised again".into()));
    }
    #[cfg(feature = "hook")]
    {
        let mut want = vec![];
        for i in 0..n as u64 {
            let mut v = EventQueue::<C>::from_buffer(bytes(&mut q, qlen), AccountTag::EventQueue).unwrap();
            let (m, t) = (C::mk(i + 100, i), C::mk(i + 5000, i + 1));
            if !v.verif_push_fill(mk_fill(1, [i, i + 1], i + 2, i + 3), &m, &t) {
                issues.push(("Y01", format!("a queue for {n} events holds only {i}")));
                return;
            }
            want.push(Ev::Fill { side: 1, id: i as u128 | ((i as u128 + 1) << 64), base: i + 2, quote: i + 3, mcb: m.parts(), tcb: t.parts() });
        }
        let mut v = EventQueue::<C>::from_buffer(bytes(&mut q, qlen), AccountTag::EventQueue).unwrap();
        if v.verif_push_out(mk_out(0, [0; 2], 0), &C::mk(1, 1)) {
            issues.push(("Y01", format!("a queue for {n} events holds more")));
        }
        let got = read_events::<C>(bytes(&mut q, qlen), &mut vec![]);
        if got != want {
            issues.push(("Y01", format!("the queue's slots overlap: {got:?}")));
        }
        let raw = bytes(&mut q, qlen);
        let i = r.below(n as u64) as usize;
        let o = 32 + 40 * i;
        let c = 32 + 40 * n + 2 * cs * i;
        if raw[o + 16..o + 24] != (i as u64).to_le_bytes() || raw[c..c + cs] != *bytemuck::bytes_of(&C::mk(i as u64 + 100, i as u64)) || raw[0] != AccountTag::EventQueue as u8 {
            issues.push(("Y01", format!("event {i} is not at byte {o}")));
        }
    }
}
