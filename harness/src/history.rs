//! Random histories of instructions on one market, checked step by step.
use crate::oracle::{self, Ctx, Issues};
use crate::world::*;
use asset_agnostic_orderbook::state::{SelfTradeBehavior, Side};
use std::collections::BTreeSet;

struct Gen {
    tick: u64,
    min: u64,
    p0: u64,
    step: u64,
    levels: u64,
    unit: u64,
    users: u64,
    huge: bool,
    /// books of hundreds of orders, sweeps across many of them
    big: bool,
    nonce: u64,
}
/// numbers that occur in the source under test
pub static DICT: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
fn listed(r: &mut Rng) -> Option<u64> {
    let d = DICT.get()?;
    if d.is_empty() {
        return None;
    }
    let v = d[r.below(d.len() as u64) as usize];
    Some(match r.below(4) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        _ => v,
    })
}
impl Gen {
    fn new(r: &mut Rng, big: bool) -> Gen {
        let tick = r.pick(&[1u64, 1, 1, 2, 3, 10, 1 << 20, 1 << 31, 1 << 32, 5 << 30]);
        let p0 = r.pick(&[1, 2, 1 << 30, 1 << 31, 1 << 32, 1 << 32, (1 << 32) + 1, 10 << 32, 15 << 32, 3 << 40, 1 << 48, 1 << 62, u64::MAX / 2, u64::MAX - 40, u64::MAX - (8 << 32)]);
        let step = r.pick(&[1, 1, tick, tick, tick.saturating_mul(2), 1 << 32, p0 / 64 + 1]);
        Gen {
            tick,
            min: r.pick(&[1, 1, 2, 3, 5, 10, 10, 100, 1000]),
            p0,
            step,
            levels: if big { 1 + r.below(120) } else { 1 + r.below(6) },
            unit: r.pick(&[1, 1, 1, 3, 10, 100, 1000, 1_000_000, 1 << 31, 1 << 33, 1 << 40, u64::MAX / 40]),
            users: 1 + r.below(4),
            huge: r.chance(1, 8),
            big,
            nonce: 0,
        }
    }
    fn price(&self, r: &mut Rng) -> u64 {
        if r.chance(1, 60) {
            if let Some(v) = listed(r) {
                return v;
            }
        }
        let p = self.p0.saturating_add(self.step.saturating_mul(r.below(self.levels)));
        let p = if r.chance(1, 60) { r.pick(&[0, 1, self.tick, u64::MAX, u64::MAX - 1, 1 << 32, p.wrapping_add(1)]) } else { p };
        if r.chance(1, 50) { p } else { p / self.tick * self.tick }
    }
    fn qty(&self, r: &mut Rng) -> u64 {
        if r.chance(1, 40) {
            if let Some(v) = listed(r) {
                return v;
            }
        }
        let q = match r.below(10) {
            0 => r.below(4),
            1 => self.min.saturating_add(r.below(3)).saturating_sub(1),
            2 => self.unit.saturating_mul(1 + r.below(40)),
            3 if self.huge => u64::MAX - r.below(3),
            4 => self.unit.saturating_mul(r.below(20)).saturating_add(r.below(2 * self.min + 1)),
            _ => self.unit.saturating_mul(1 + r.below(12)),
        };
        q
    }
    fn order(&mut self, r: &mut Rng, st: &St, scan: u64) -> NewOrder {
        let side = if r.chance(1, 2) { Side::Bid } else { Side::Ask };
        let mut price = self.price(r);
        // aim at existing orders now and then
        let b = st.book(oracle::opp(side));
        if !b.is_empty() && r.chance(1, 4) {
            price = oracle::price_of(*b.keys().nth(r.below(b.len() as u64) as usize).unwrap());
        }
        let own = st.book(side);
        if !own.is_empty() && r.chance(1, 6) {
            price = oracle::price_of(*own.keys().nth(r.below(own.len() as u64) as usize).unwrap());
        }
        let mut base = self.qty(r);
        if !b.is_empty() && r.chance(1, 5) {
            // exactly the size of the first few makers, give or take one
            let k = if self.big && r.chance(1, 2) { 1 + r.below(b.len() as u64) } else { 1 + r.below(3) } as usize;
            let it: Vec<u64> = match side {
                Side::Bid => b.values().take(k).map(|o| o.qty).collect(),
                Side::Ask => b.values().rev().take(k).map(|o| o.qty).collect(),
            };
            base = it.iter().fold(0u64, |a, x| a.saturating_add(*x));
            base = match r.below(6) {
                0 => base.saturating_sub(1),
                1 => base.saturating_add(1),
                2 => base.saturating_sub(self.min),
                3 => base.saturating_sub(self.min).saturating_add(1),
                _ => base,
            };
        }
        let exact = oracle::quote_of(side, base, price).min(u64::MAX as u128) as u64;
        let quote = match r.below(10) {
            0 => r.below(10),
            1 => exact,
            2 => exact.saturating_sub(1 + r.below(3)),
            3 => exact.saturating_add(1 + r.below(3)),
            4 => r.below(exact.saturating_add(1)),
            5 => exact / 2,
            _ => u64::MAX,
        };
        self.nonce += 1;
        NewOrder {
            base,
            quote,
            price,
            side,
            limit: match r.below(10) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 3,
                4 => scan,
                5 => r.below(scan + 2),
                _ => u64::MAX,
            },
            cb: (1 + r.below(self.users), self.nonce),
            post_only: r.chance(1, 8),
            post_allowed: !r.chance(1, 6),
            stb: match r.below(4) {
                0 | 1 => SelfTradeBehavior::DecrementTake,
                2 => SelfTradeBehavior::CancelProvide,
                _ => SelfTradeBehavior::AbortTransaction,
            },
        }
    }
}

pub fn run<C: Cbk>(r: &mut Rng, prop: &str, log: &mut Vec<String>, issues: &mut Issues, ops: &mut u64) {
    let big = r.chance(1, 30);
    let mut g = Gen::new(r, big);
    let cap = match r.below(8) {
        _ if big => 20 + r.below(300) as usize,
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 4,
        4 => 40,
        _ => 2 + r.below(8) as usize,
    };
    let qcap = match r.below(5) {
        _ if big => 30 + r.below(600) as usize,
        0 => 5,
        1 => 6,
        2 => 7 + r.below(8) as usize,
        _ => 64,
    };
    if C::ENTRY {
        // the whole callback info is the identity there
        g.users = g.users.min(3);
    }
    let mut w = World::new::<C>(cap, qcap);
    let op = Op::Create { min: g.min, tick: g.tick };
    log.push(format!("{op:?} on {cap} order slots, {qcap} event slots, entry point: {}", C::ENTRY));
    let res = w.tx::<C>(&op);
    if res != Res::Ok(None) {
        for p in ["L01", "R01"] {
            issues.push((p, format!("create_market fails on fresh accounts: {res:?}")));
        }
        return;
    }
    let seq0 = match r.below(6) {
        _ if big => r.pick(&[0, (1 << 32) - 100, 0x7fff_ffff_ffff_e000]),
        0 => r.pick(&[1, (1 << 32) - 3, (1 << 40) - 2, 0x7fff_ffff_ffff_ff00, 0x00ff_ffff_ffff_fff0, 1 << 62]),
        _ => 0,
    };
    if seq0 != 0 && w.seq() == 0 {
        w.set_seq(seq0);
        log.push(format!("sequence number set to {seq0}"));
    }
    let mut seen: BTreeSet<u128> = BTreeSet::new();
    let mut old: Vec<u128> = vec![];
    let len = 5 + if big { 40 + r.below(2 * cap as u64) } else { r.below(if cap > 10 { 120 } else { 50 }) };
    let mut pre = match w.observe::<C>(issues) {
        Some(s) => s,
        None => return,
    };
    let posty = r.chance(1, 3) || big;
    let fill = if big { len * 2 / 3 } else { 0 };
    for at in 0..len {
        let all: Vec<u128> = pre.bids.keys().chain(pre.asks.keys()).copied().collect();
        let op = match r.below(if at < fill { 200 } else { 20 }) {
            0 | 1 => Op::Consume(match r.below(4) {
                0 => 0,
                1 => u64::MAX,
                2 => pre.evs.len() as u64,
                _ => r.below(pre.evs.len() as u64 + 2),
            }),
            2 | 3 => Op::Cancel(pick_id(r, &all, &old)),
            4 => {
                let k = if big { r.below(30) } else { r.below(4) } as usize;
                let mut ids: Vec<u128> = vec![];
                for _ in 0..k {
                    let id = if r.chance(1, 12) { pick_id(r, &all, &old) } else { any(r, &all) };
                    if !ids.contains(&id) || r.chance(1, 8) {
                        ids.push(id);
                    }
                }
                Op::Mass(ids)
            }
            _ => {
                let mut o = g.order(r, &pre, all.len() as u64);
                if posty && r.chance(if at < fill { 29 } else { 20 }, 30) {
                    // fill the books: passive orders
                    o.post_only = true;
                    o.post_allowed = true;
                    o.limit = u64::MAX;
                    o.quote = u64::MAX;
                    if r.chance(9, 10) {
                        let lv = r.below(g.levels);
                        let d = g.step.saturating_mul(lv);
                        o.price = match o.side {
                            Side::Bid => g.p0.saturating_sub(d),
                            Side::Ask => g.p0.saturating_add(g.step).saturating_add(d),
                        } / g.tick
                            * g.tick;
                    }
                }
                o.cb = C::mk(o.cb.0, o.cb.1).parts();
                Op::New(o)
            }
        };
        let seq = w.seq();
        log.push(format!("{op:?}"));
        let res = w.tx::<C>(&op);
        log.push(format!("  -> {res:?}"));
        *ops += 1;
        let post = match w.observe::<C>(issues) {
            Some(s) => s,
            None => return,
        };
        let c = Ctx { pre: &pre, post: &post, res: &res, min: g.min, tick: g.tick, qcap, seq, seen: &seen };
        match &op {
            Op::New(o) => oracle::new_order(&c, o, issues),
            _ => oracle::other(&c, &op, issues),
        }
        if !issues.is_empty() && (prop == "all" || issues.iter().any(|i| i.0 == prop)) {
            log.push(format!("  books {:?} {:?} events {:?}", post.bids, post.asks, post.evs));
            return;
        }
        if issues.len() > 50 {
            return;
        }
        if let (Op::New(_), Res::Ok(Some(s))) = (&op, &res) {
            if let Some(id) = s.id {
                seen.insert(id);
                old.push(id);
            }
        }
        pre = post;
    }
}
fn any(r: &mut Rng, xs: &[u128]) -> u128 {
    if xs.is_empty() { r.next() as u128 } else { xs[r.below(xs.len() as u64) as usize] }
}
fn pick_id(r: &mut Rng, all: &[u128], old: &[u128]) -> u128 {
    match r.below(8) {
        0 => any(r, old),
        1 => any(r, all) ^ 1,
        2 => any(r, all) ^ (1 << r.below(128)),
        3 => ((r.next() as u128) << 64) | r.next() as u128,
        _ => any(r, all),
    }
}
