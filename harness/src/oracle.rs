//! What must hold between the state before and after an instruction, per property.
use crate::world::*;
use asset_agnostic_orderbook::error::AoError;
use asset_agnostic_orderbook::state::{SelfTradeBehavior, Side};

pub type Issues = Vec<(&'static str, String)>;

pub fn price_of(id: u128) -> u64 {
    (id >> 64) as u64
}
pub fn opp(s: Side) -> Side {
    match s {
        Side::Bid => Side::Ask,
        Side::Ask => Side::Bid,
    }
}
pub fn side_of(id: u128) -> Side {
    if id & (1 << 63) != 0 { Side::Bid } else { Side::Ask }
}
pub fn crosses(taker: Side, limit: u64, price: u64) -> bool {
    match taker {
        Side::Bid => limit >= price,
        Side::Ask => limit <= price,
    }
}
pub fn best(b: &Book, s: Side) -> Option<u128> {
    match s {
        Side::Bid => b.keys().next_back().copied(),
        Side::Ask => b.keys().next().copied(),
    }
}
pub fn worst(b: &Book, s: Side) -> Option<u128> {
    best(b, opp(s))
}
/// floor(q * 2^32 / p), None when it does not fit or p is 0
pub fn div(q: u64, p: u64) -> Option<u64> {
    if p == 0 { None } else { u64::try_from(((q as u128) << 32) / p as u128).ok() }
}
pub fn mul_floor(b: u64, p: u64) -> u128 {
    (b as u128 * p as u128) >> 32
}
pub fn mul_ceil(b: u64, p: u64) -> u128 {
    (b as u128 * p as u128 + 0xffff_ffff) >> 32
}
pub fn quote_of(taker: Side, b: u64, p: u64) -> u128 {
    match taker {
        Side::Bid => mul_ceil(b, p),
        Side::Ask => mul_floor(b, p),
    }
}
pub fn seq_of(id: u128) -> u64 {
    match side_of(id) {
        Side::Bid => !(id as u64),
        Side::Ask => id as u64,
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Want {
    Ok { st: St, sum: Sum, evicted: bool, room: bool },
    QueueFull,
    SelfTrade,
    BadPrice,
}
/// straightforward reference behaviour of new_order
pub fn model(pre: &St, o: &NewOrder, min: u64, tick: u64, qcap: usize, seq: u64) -> Want {
    if o.price % tick != 0 || (o.post_allowed && o.price < tick) {
        return Want::BadPrice;
    }
    let mut st = pre.clone();
    let (mut b, mut q, mut limit) = (o.base, o.quote, o.limit);
    let mut may_post = true;
    let os = opp(o.side);
    let push = |st: &mut St, e: Ev| {
        st.evs.push(e);
        st.evs.len() <= qcap
    };
    loop {
        if limit == 0 {
            may_post = false;
            break;
        }
        let id = match best(st.book(os), os) {
            None => break,
            Some(k) => k,
        };
        let p = price_of(id);
        if !crosses(o.side, o.price, p) {
            break;
        }
        may_post = false;
        if o.post_only {
            break;
        }
        may_post = true;
        let m = st.book(os)[&id].clone();
        let t = m.qty.min(b).min(div(q, p).unwrap_or(u64::MAX));
        let tq = quote_of(o.side, t, p);
        if t == 0 || tq == 0 {
            may_post = false;
            break;
        }
        let tq = (tq as u64).min(q);
        if o.stb != SelfTradeBehavior::DecrementTake && m.cb.0 == o.cb.0 {
            if o.stb == SelfTradeBehavior::AbortTransaction {
                return Want::SelfTrade;
            }
            if !push(&mut st, Ev::Out { side: os as u8, id, base: m.qty, cb: m.cb }) {
                return Want::QueueFull;
            }
            st.book_mut(os).remove(&id);
            limit -= 1;
            if limit == 0 {
                may_post = false;
            }
            continue;
        }
        if !push(&mut st, Ev::Fill { side: o.side as u8, id, base: t, quote: tq, mcb: m.cb, tcb: o.cb }) {
            return Want::QueueFull;
        }
        b -= t;
        q -= tq;
        let left = m.qty - t;
        if left < min {
            st.book_mut(os).remove(&id);
            if !push(&mut st, Ev::Out { side: os as u8, id, base: left, cb: m.cb }) {
                return Want::QueueFull;
            }
        } else {
            st.book_mut(os).get_mut(&id).unwrap().qty = left;
        }
        limit -= 1;
    }
    let post = b.min(div(q, o.price).unwrap_or(u64::MAX));
    let room = pre.book(o.side).len() < pre.cap[o.side as usize];
    let nothing = |st: St| Want::Ok { st, sum: Sum { id: None, base: o.base - b, quote: o.quote - q, posted: 0 }, evicted: false, room };
    if !may_post || !o.post_allowed || post < min {
        return nothing(st);
    }
    let mut evicted = false;
    if !room {
        let w = worst(st.book(o.side), o.side).unwrap();
        let better = match o.side {
            Side::Bid => price_of(w) < o.price,
            Side::Ask => price_of(w) > o.price,
        };
        if !better {
            return nothing(st);
        }
        let m = st.book_mut(o.side).remove(&w).unwrap();
        if !push(&mut st, Ev::Out { side: o.side as u8, id: w, base: m.qty, cb: m.cb }) {
            return Want::QueueFull;
        }
        evicted = true;
    }
    let id = ((o.price as u128) << 64)
        | match o.side {
            Side::Bid => !seq,
            Side::Ask => seq,
        } as u128;
    st.book_mut(o.side).insert(id, Order { qty: post, cb: o.cb });
    let pq = quote_of(o.side, post, o.price) as u64;
    Want::Ok { st, sum: Sum { id: Some(id), base: o.base - b + post, quote: o.quote - q + pq, posted: post }, evicted, room }
}

pub struct Ctx<'a> {
    pub pre: &'a St,
    pub post: &'a St,
    pub res: &'a Res,
    pub min: u64,
    pub tick: u64,
    pub qcap: usize,
    pub seq: u64,
    pub seen: &'a std::collections::BTreeSet<u128>,
}

pub fn new_order(c: &Ctx, o: &NewOrder, out: &mut Issues) {
    let want = model(c.pre, o, c.min, c.tick, c.qcap, c.seq);
    let say = |out: &mut Issues, p: &'static str, m: String| out.push((p, m));
    // ---- failing orders
    if let Res::Panic(m) = c.res {
        say(out, "R01", format!("new_order panics: {m}"));
        return;
    }
    match (&want, c.res) {
        (Want::BadPrice, r) => {
            if r.ok() {
                say(out, "T01", format!("price {} accepted with tick size {}", o.price, c.tick));
            }
            return;
        }
        (_, r) if r.is(AoError::InvalidLimitPrice) => {
            say(out, "T01", format!("price {} refused with tick size {}", o.price, c.tick));
            return;
        }
        (Want::QueueFull, r) if r.ok() => {
            say(out, "E01", "the event queue cannot hold the events of this order, yet it succeeds".into());
        }
        (Want::QueueFull, r) if r.is(AoError::EventQueueFull) => return,
        (w, r) if r.is(AoError::EventQueueFull) => {
            if *w == Want::SelfTrade {
                say(out, "M06", "the order hits the user's own order, but is not refused for it".into());
            } else {
                say(out, "E01", "the queue has room for all events of this order, yet it is refused".into());
            }
            return;
        }
        (Want::SelfTrade, r) => {
            if !r.is(AoError::WouldSelfTrade) {
                say(out, "M06", format!("AbortTransaction order reaches the user's own order: {r:?}"));
            }
            if !r.ok() {
                return;
            }
        }
        (_, r) if r.is(AoError::WouldSelfTrade) => {
            say(out, "M06", "refused as a self trade, but no self trade would happen".into());
            return;
        }
        (_, Res::Err(e)) => {
            say(out, "R01", format!("new_order fails: {e:?}"));
            return;
        }
        _ => {}
    }
    let sum = match c.res {
        Res::Ok(Some(s)) => s,
        r => {
            say(out, "M02", format!("no order summary: {r:?}"));
            return;
        }
    };
    let (pre, post) = (c.pre, c.post);
    let os = opp(o.side);
    // ---- the queue only grows at its end
    if post.evs.len() < pre.evs.len() || post.evs[..pre.evs.len()] != pre.evs[..] {
        say(out, "E01", format!("waiting events changed: {:?} -> {:?}", pre.evs, post.evs));
        return;
    }
    let evs = &post.evs[pre.evs.len()..];
    let mut evict: Option<&Ev> = None;
    let mut book = pre.book(os).clone();
    let mut last_cancel = false;
    let (mut fb, mut fq) = (0u128, 0u128);
    let mut steps = 0u64;
    for (i, e) in evs.iter().enumerate() {
        let is_evict = |e: &Ev| matches!(e, Ev::Out { side, .. } if *side == o.side as u8);
        if is_evict(e) && i + 1 == evs.len() {
            evict = Some(e);
            break;
        }
        let id = e.id();
        let m = match book.get(&id).cloned() {
            None => {
                say(out, "M04", format!("event for an order that is not on the book: {e:?}"));
                return;
            }
            Some(m) => m,
        };
        // M01
        if best(&book, os) != Some(id) {
            say(out, "M01", format!("{e:?} while {:#x} has priority", best(&book, os).unwrap()));
        }
        if !crosses(o.side, o.price, price_of(id)) {
            say(out, "M01", format!("{e:?}: price {} is outside the limit {}", price_of(id), o.price));
        }
        let own = m.cb.0 == o.cb.0;
        match e {
            Ev::Fill { side, base, quote, mcb, tcb, .. } => {
                steps += 1;
                last_cancel = false;
                if *side != o.side as u8 || *mcb != m.cb || *tcb != o.cb {
                    say(out, "M04", format!("wrong side or parties in {e:?}, maker {m:?}"));
                }
                if *base > m.qty {
                    say(out, "M04", format!("{e:?} takes more than the maker's {}", m.qty));
                    return;
                }
                let rest = (o.quote as u128).saturating_sub(fq) as u64;
                let restb = (o.base as u128).saturating_sub(fb) as u64;
                let wantq = quote_of(o.side, *base, price_of(id));
                if *quote as u128 != wantq {
                    say(out, "M03", format!("{e:?}: quote size should be {wantq}"));
                }
                let t = m.qty.min(restb).min(div(rest, price_of(id)).unwrap_or(u64::MAX));
                if *base != t || *base == 0 {
                    say(out, "M10", format!("{e:?} should trade {t}"));
                }
                if *base == 0 || *quote == 0 {
                    say(out, "M10", format!("empty fill {e:?}"));
                }
                fb += *base as u128;
                fq += *quote as u128;
                if own && o.stb != SelfTradeBehavior::DecrementTake {
                    say(out, "M06", format!("self trade {e:?} under {:?}", stb(&o.stb)));
                }
                let left = m.qty - *base;
                if left < c.min {
                    // must be followed by its Out event
                    if !matches!(evs.get(i + 1), Some(Ev::Out { id: j, .. }) if *j == id) {
                        say(out, "M08", format!("{id:#x} is left with {left} < {} on the book", c.min));
                    }
                }
                book.get_mut(&id).unwrap().qty = left;
            }
            Ev::Out { side, base, cb, .. } => {
                if *side != os as u8 || *cb != m.cb {
                    say(out, "M04", format!("wrong side or owner in {e:?}, order {m:?}"));
                }
                if *base != m.qty {
                    say(out, "M04", format!("{e:?}: {} were left", m.qty));
                }
                let after_fill = i > 0 && matches!(&evs[i - 1], Ev::Fill { id: j, .. } if *j == id);
                last_cancel = !after_fill && own && o.stb == SelfTradeBehavior::CancelProvide;
                if !after_fill {
                    steps += 1;
                    if !(own && o.stb == SelfTradeBehavior::CancelProvide) {
                        say(out, if own { "M06" } else { "M08" }, format!("{e:?} is thrown off the book"));
                        say(out, "M08", format!("{e:?} is thrown off the book"));
                    }
                } else if *base >= c.min {
                    say(out, "M08", format!("{e:?} is large enough to stay"));
                }
                book.remove(&id);
            }
        }
    }
    // ---- accounting
    let newid = sum.id;
    let posted_qty = newid.and_then(|k| post.book(o.side).get(&k)).map(|m| m.qty);
    let pb = posted_qty.unwrap_or(0);
    let pq = if newid.is_some() { quote_of(o.side, pb, o.price) } else { 0 };
    if sum.posted != pb || (newid.is_none() && sum.posted != 0) {
        say(out, "M02", format!("posted quantity {} reported, {pb} on the book", sum.posted));
    }
    if sum.base as u128 != fb + pb as u128 || sum.quote as u128 != fq + pq {
        say(out, "M02", format!("{sum:?}: matched {fb}/{fq}, posted {pb}/{pq}"));
    }
    if fb + pb as u128 > o.base as u128 || fq + pq > o.quote as u128 {
        say(out, "M02", format!("limits {}/{} exceeded: matched {fb}/{fq}, posted {pb}/{pq}", o.base, o.quote));
    }
    // ---- both books
    if *post.book(os) != book {
        say(out, "M04", format!("the opposing book is {:?}, the events explain {:?}", post.book(os), book));
    }
    let mut own = pre.book(o.side).clone();
    if let Some(Ev::Out { id, base, cb, .. }) = evict {
        match own.remove(id) {
            None => say(out, "M09", format!("evicted {id:#x} was not on the book")),
            Some(m) => {
                if m.qty != *base || m.cb != *cb {
                    say(out, "M04", format!("eviction event {evict:?} of {m:?}"));
                }
                if worst(pre.book(o.side), o.side) != Some(*id) {
                    say(out, "M09", format!("evicted {id:#x} is not the worst order"));
                }
                let better = match o.side {
                    Side::Bid => price_of(*id) < o.price,
                    Side::Ask => price_of(*id) > o.price,
                };
                if !better {
                    say(out, "M09", format!("{id:#x} evicted for an order at {}", o.price));
                }
                if pre.book(o.side).len() < pre.cap[o.side as usize] {
                    say(out, "M09", format!("{id:#x} evicted from a book that was not full"));
                }
                if newid.is_none() {
                    say(out, "M09", format!("{id:#x} evicted for nothing"));
                }
            }
        }
    }
    if let Some(k) = newid {
        match post.book(o.side).get(&k) {
            None => say(out, "M04", format!("posted order {k:#x} is not on the book")),
            Some(m) => {
                if m.cb != o.cb {
                    say(out, "M04", format!("posted order has callback info {:?}", m.cb));
                }
            }
        }
        own.insert(k, Order { qty: pb, cb: o.cb });
        // B04
        if c.seen.contains(&k) || pre.bids.contains_key(&k) || pre.asks.contains_key(&k) {
            say(out, "B04", format!("order id {k:#x} is used again"));
        }
        if price_of(k) != o.price || side_of(k) != o.side {
            say(out, "B04", format!("id {k:#x} does not tell price {} and side {:?}", o.price, o.side));
        }
        for j in pre.book(o.side).keys().filter(|j| price_of(**j) == o.price) {
            let first = match o.side {
                Side::Bid => *j > k,
                Side::Ask => *j < k,
            };
            if !first {
                say(out, "B04", format!("{j:#x} is older than {k:#x} at the same price, but comes later"));
            }
        }
    }
    if *post.book(o.side) != own {
        let p = if own.iter().all(|(k, v)| post.book(o.side).get(k) == Some(v)) || evict.is_some() { "M09" } else { "M04" };
        say(out, p, format!("the own book is {:?}, should be {:?}", post.book(o.side), own));
        if pre.book(o.side).len() >= pre.cap[o.side as usize] {
            say(out, "M09", format!("full book: it is {:?}, should be {:?}", post.book(o.side), own));
        }
    }
    // ---- options
    if o.post_only && evs.len() > evict.is_some() as usize {
        say(out, "M05", format!("post_only order matched: {evs:?}"));
    }
    if !o.post_allowed && newid.is_some() {
        say(out, "M05", "posted although posting is not allowed".into());
    }
    if steps > o.limit {
        say(out, "M05", format!("{steps} makers hit, limit {}", o.limit));
    }
    if o.post_only && newid.is_some() && pre.book(os).keys().any(|k| crosses(o.side, o.price, price_of(*k))) {
        say(out, "M05", "post_only order that crosses was posted".into());
    }
    // ---- book wide
    let uncrossed = |s: &St| match (s.bids.keys().next_back(), s.asks.keys().next()) {
        (Some(b), Some(a)) => price_of(*b) < price_of(*a),
        _ => true,
    };
    if uncrossed(pre) && !uncrossed(post) {
        say(out, "M07", format!("crossed book: {:?} {:?}", post.bids, post.asks));
    }
    for (k, m) in post.bids.iter().chain(post.asks.iter()) {
        if m.qty < c.min && !(pre.bids.get(k) == Some(m) || pre.asks.get(k) == Some(m)) {
            say(out, "M08", format!("{k:#x} rests with {} < {}", m.qty, c.min));
        }
    }
    // ---- matching goes on as long as it can
    if !o.post_only && steps < o.limit {
        if let Some(k) = best(&book, os) {
            let p = price_of(k);
            if crosses(o.side, o.price, p) {
                let t = book[&k].qty.min((o.base as u128 - fb.min(o.base as u128)) as u64).min(div((o.quote as u128 - fq.min(o.quote as u128)) as u64, p).unwrap_or(u64::MAX));
                if t > 0 && quote_of(o.side, t, p) > 0 {
                    say(out, "M10", format!("matching stops, yet {k:#x} could still trade {t}"));
                    if o.stb != SelfTradeBehavior::DecrementTake && book[&k].cb.0 == o.cb.0 || last_cancel {
                        say(out, "M06", format!("{:?}: matching stops, yet {k:#x} could still trade {t} or be cancelled", stb(&o.stb)));
                    }
                }
            }
        }
    }
    if let Want::Ok { st, sum: wsum, evicted, room } = &want {
        if wsum.posted != sum.posted || wsum.id.is_some() != sum.id.is_some() {
            if *room {
                if wsum.id.is_some() && sum.id.is_none() {
                    say(out, "B03", "posting is refused although the book has room".into());
                }
                say(out, "M10", format!("posted {} ({:?}), should be {}", sum.posted, sum.id, wsum.posted));
            } else {
                say(out, "M09", format!("full book: posted {} ({:?}), should be {}", sum.posted, sum.id, wsum.posted));
            }
        }
        if *evicted != evict.is_some() {
            say(out, "M09", format!("evicted: {evict:?}, expected {evicted}"));
        }
        if wsum.id != sum.id && wsum.id.is_some() && sum.id.is_some() {
            say(out, "B04", format!("id {:#x}, sequence number and price give {:#x}", sum.id.unwrap(), wsum.id.unwrap()));
        }
        let _ = st;
    }
}
pub fn stb(s: &SelfTradeBehavior) -> &'static str {
    match s {
        SelfTradeBehavior::DecrementTake => "DecrementTake",
        SelfTradeBehavior::CancelProvide => "CancelProvide",
        SelfTradeBehavior::AbortTransaction => "AbortTransaction",
    }
}

pub fn other(c: &Ctx, op: &Op, out: &mut Issues) {
    let (pre, post) = (c.pre, c.post);
    let mut want = pre.clone();
    match op {
        Op::Cancel(id) => {
            let m = want.book_mut(side_of(*id)).remove(id);
            match (&m, c.res) {
                (_, Res::Panic(p)) => {
                    out.push(("X01", format!("cancel panics: {p}")));
                    out.push(("R01", format!("cancel panics: {p}")));
                }
                (None, r) => {
                    if r.ok() {
                        out.push(("X01", format!("cancel of the absent {id:#x} succeeds")));
                    } else if !r.is(AoError::OrderNotFound) {
                        out.push(("X01", format!("cancel of the absent {id:#x}: {r:?}")));
                    }
                    return;
                }
                (Some(m), r) => {
                    let w = Sum { id: None, base: m.qty, quote: mul_floor(m.qty, price_of(*id)) as u64, posted: 0 };
                    if *r != Res::Ok(Some(w.clone())) {
                        out.push(("X01", format!("cancel of {id:#x}: {r:?}, should report {w:?}")));
                    }
                    if !r.ok() {
                        return;
                    }
                }
            }
            cmp_books("X01", &want, post, out);
            if post.evs != pre.evs {
                out.push(("X01", "cancel changes the event queue".into()));
                out.push(("E01", "cancel changes the event queue".into()));
            }
        }
        Op::Mass(ids) => {
            let (mut b, mut q, mut all) = (0u128, 0u128, true);
            for id in ids {
                match want.book_mut(side_of(*id)).remove(id) {
                    Some(m) => {
                        b += m.qty as u128;
                        q += mul_floor(m.qty, price_of(*id));
                    }
                    None => all = false,
                }
            }
            if !all {
                if c.res.ok() {
                    out.push(("X01", format!("mass cancel with an absent order succeeds: {ids:x?}")));
                }
                return;
            }
            if b > u64::MAX as u128 || q > u64::MAX as u128 {
                if c.res.ok() {
                    out.push(("X01", "mass cancel totals overflow silently".into()));
                }
                return;
            }
            let w = Sum { id: None, base: b as u64, quote: q as u64, posted: 0 };
            if *c.res != Res::Ok(Some(w.clone())) {
                out.push(("X01", format!("mass cancel of {ids:x?}: {:?}, should report {w:?}", c.res)));
            }
            if let Res::Panic(p) = c.res {
                out.push(("R01", format!("mass cancel panics: {p}")));
            }
            if !c.res.ok() {
                return;
            }
            cmp_books("X01", &want, post, out);
            if post.evs != pre.evs {
                out.push(("X01", "mass cancel changes the event queue".into()));
                out.push(("E01", "mass cancel changes the event queue".into()));
            }
        }
        Op::Consume(n) => {
            let k = (*n).min(pre.evs.len() as u64) as usize;
            if *c.res != Res::Ok(None) {
                out.push(("X02", format!("consume_events({n}): {:?}", c.res)));
                if let Res::Panic(p) = c.res {
                    out.push(("R01", format!("consume_events panics: {p}")));
                }
                return;
            }
            if post.evs[..] != pre.evs[k..] {
                out.push(("X02", format!("consume_events({n}) of {:?} leaves {:?}", pre.evs, post.evs)));
                out.push(("E01", format!("consume_events({n}) of {:?} leaves {:?}", pre.evs, post.evs)));
            }
            cmp_books("X02", &want, post, out);
        }
        _ => {}
    }
}
fn cmp_books(p: &'static str, want: &St, post: &St, out: &mut Issues) {
    for s in [Side::Bid, Side::Ask] {
        if want.book(s) != post.book(s) {
            out.push((p, format!("{s:?} book is {:?}, should be {:?}", post.book(s), want.book(s))));
            out.push(("B01", format!("{s:?} book is {:?}, should be {:?}", post.book(s), want.book(s))));
        }
    }
}
