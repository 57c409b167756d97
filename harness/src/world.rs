//! A market with its accounts, driven through the program's public instruction interface.
use asset_agnostic_orderbook::entrypoint;
use asset_agnostic_orderbook::error::AoError;
use asset_agnostic_orderbook::instruction as ix;
use asset_agnostic_orderbook::instruction::{cancel_order, close_market, consume_events, create_market, mass_cancel_orders, new_order};
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventRef};
use asset_agnostic_orderbook::state::orderbook::{CallbackInfo, OrderSummary};
use asset_agnostic_orderbook::state::{AccountTag, SelfTradeBehavior, Side};
use bonfida_utils::BorshSize;
use borsh::{BorshDeserialize, BorshSerialize};
use bytemuck::{Pod, Zeroable};
use solana_program::account_info::AccountInfo;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

/// Callback info types used by the worlds
pub trait HasId {
    type Id: PartialEq;
}
impl HasId for [u8; 32] {
    type Id = [u8; 32];
}
impl HasId for Cb16 {
    type Id = u64;
}
pub trait Cbk: HasId + CallbackInfo<CallbackId = <Self as HasId>::Id> + Pod + PartialEq + BorshSerialize + BorshDeserialize + 'static {
    fn mk(user: u64, nonce: u64) -> Self;
    fn parts(&self) -> (u64, u64);
    const ENTRY: bool;
}
impl Cbk for [u8; 32] {
    fn mk(user: u64, _nonce: u64) -> Self {
        let mut r = [7u8; 32];
        r[24..32].copy_from_slice(&user.to_le_bytes());
        r
    }
    fn parts(&self) -> (u64, u64) {
        (u64::from_le_bytes(self[24..32].try_into().unwrap()), 0)
    }
    const ENTRY: bool = true;
}
/// user identity followed by a per-order nonce: the identity is only a part of the callback info
#[derive(Clone, Copy, PartialEq, Debug, BorshSerialize, BorshDeserialize)]
#[repr(C)]
pub struct Cb16 {
    pub nonce: u64,
    pub user: u64,
}
unsafe impl Zeroable for Cb16 {}
unsafe impl Pod for Cb16 {}
/// what a client hands to the instruction builder: a callback info with a known encoded size
#[derive(Clone, Copy, BorshSerialize, BorshDeserialize)]
pub struct Wrap<C: BorshSerialize + BorshDeserialize>(pub C);
impl<C: BorshSerialize + BorshDeserialize> BorshSize for Wrap<C> {
    fn borsh_len(&self) -> usize {
        std::mem::size_of::<C>()
    }
}
impl CallbackInfo for Cb16 {
    type CallbackId = u64;
    fn as_callback_id(&self) -> &u64 {
        &self.user
    }
}
impl Cbk for Cb16 {
    fn mk(user: u64, nonce: u64) -> Self {
        Cb16 { nonce, user }
    }
    fn parts(&self) -> (u64, u64) {
        (self.user, self.nonce)
    }
    const ENTRY: bool = false;
}

/// callback infos of other sizes: the user's low bytes, then padding
macro_rules! sized_callback {
    ($($name:ident $n:literal)*) => {$(
        #[derive(Clone, Copy, PartialEq, Debug, BorshSerialize, BorshDeserialize)]
        #[repr(C)]
        pub struct $name(pub [u8; $n]);
        unsafe impl Zeroable for $name {}
        unsafe impl Pod for $name {}
        impl HasId for $name {
            type Id = [u8; $n];
        }
        impl CallbackInfo for $name {
            type CallbackId = [u8; $n];
            fn as_callback_id(&self) -> &[u8; $n] {
                &self.0
            }
        }
        impl Cbk for $name {
            fn mk(user: u64, _nonce: u64) -> Self {
                let mut r = [3u8; $n];
                let k = std::cmp::min(8, $n);
                r[..k].copy_from_slice(&user.to_le_bytes()[..k]);
                $name(r)
            }
            fn parts(&self) -> (u64, u64) {
                let k = std::cmp::min(8, $n);
                let mut b = [0u8; 8];
                b[..k].copy_from_slice(&self.0[..k]);
                (u64::from_le_bytes(b), 0)
            }
            const ENTRY: bool = false;
        }
    )*};
}
sized_callback! { C1 1 C4 4 C8 8 C9 9 C24 24 C31 31 C64 64 }

#[derive(Clone)]
pub struct Acc {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    buf: Vec<u64>,
    pub len: usize,
}
impl Acc {
    pub fn new(key: Pubkey, owner: Pubkey, len: usize) -> Self {
        Acc { key, owner, lamports: 10_000_000_000, buf: vec![0; len / 8 + 1], len }
    }
    pub fn bytes(&self) -> &[u8] {
        &bytemuck::cast_slice::<u64, u8>(&self.buf)[..self.len]
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.buf)[..self.len]
    }
    pub fn resize(&mut self, len: usize) {
        self.len = len;
        self.buf.resize(len / 8 + 1, 0);
    }
    fn info(&mut self) -> AccountInfo<'_> {
        let len = self.len;
        AccountInfo::new(&self.key, false, true, &mut self.lamports, &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.buf)[..len], &self.owner, false, 0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    pub qty: u64,
    pub cb: (u64, u64),
}
pub type Book = BTreeMap<u128, Order>;
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill { side: u8, id: u128, base: u64, quote: u64, mcb: (u64, u64), tcb: (u64, u64) },
    Out { side: u8, id: u128, base: u64, cb: (u64, u64) },
}
impl Ev {
    pub fn id(&self) -> u128 {
        match self {
            Ev::Fill { id, .. } | Ev::Out { id, .. } => *id,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct St {
    pub bids: Book,
    pub asks: Book,
    pub evs: Vec<Ev>,
    pub cap: [usize; 2],
}
impl St {
    pub fn book(&self, s: Side) -> &Book {
        match s {
            Side::Bid => &self.bids,
            Side::Ask => &self.asks,
        }
    }
    pub fn book_mut(&mut self, s: Side) -> &mut Book {
        match s {
            Side::Bid => &mut self.bids,
            Side::Ask => &mut self.asks,
        }
    }
}
#[derive(Clone)]
pub struct NewOrder {
    pub base: u64,
    pub quote: u64,
    pub price: u64,
    pub side: Side,
    pub limit: u64,
    pub cb: (u64, u64),
    pub post_only: bool,
    pub post_allowed: bool,
    pub stb: SelfTradeBehavior,
}
impl std::fmt::Debug for NewOrder {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(
            f,
            "NewOrder {{ {:?} base {} quote {} price {} match_limit {} cb {:?} post_only {} post_allowed {} {} }}",
            self.side,
            self.base,
            self.quote,
            self.price,
            self.limit,
            self.cb,
            self.post_only,
            self.post_allowed,
            crate::oracle::stb(&self.stb)
        )
    }
}
impl NewOrder {
    pub fn params<C: Cbk>(&self) -> new_order::Params<C> {
        self.params_with(C::mk(self.cb.0, self.cb.1))
    }
    pub fn params_with<C>(&self, callback_info: C) -> new_order::Params<C> {
        new_order::Params {
            max_base_qty: self.base,
            max_quote_qty: self.quote,
            limit_price: self.price,
            side: self.side,
            match_limit: self.limit,
            callback_info,
            post_only: self.post_only,
            post_allowed: self.post_allowed,
            self_trade_behavior: self.stb.clone(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Op {
    Create { min: u64, tick: u64 },
    New(NewOrder),
    Cancel(u128),
    Mass(Vec<u128>),
    Consume(u64),
    Close,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sum {
    pub id: Option<u128>,
    pub base: u64,
    pub quote: u64,
    pub posted: u64,
}
impl From<OrderSummary> for Sum {
    fn from(s: OrderSummary) -> Self {
        Sum { id: s.posted_order_id, base: s.total_base_qty, quote: s.total_quote_qty, posted: s.total_base_qty_posted }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Option<Sum>),
    Err(ProgramError),
    Panic(String),
}
impl Res {
    pub fn ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn is(&self, e: AoError) -> bool {
        matches!(self, Res::Err(ProgramError::Custom(c)) if *c == e as u32)
    }
}

pub const MARKET: usize = 0;
pub const QUEUE: usize = 1;
pub const BIDS: usize = 2;
pub const ASKS: usize = 3;
pub const TARGET: usize = 4;
pub const REGISTER: usize = 5;

#[derive(Clone)]
pub struct World {
    pub program: Pubkey,
    /// market, event queue, bids, asks, lamports target, register
    pub acc: Vec<Acc>,
}

pub fn data_of<C: Cbk>(op: &Op) -> (Vec<u8>, Vec<usize>) {
    let d = Pubkey::default();
    let i = match op {
        Op::Create { min, tick } => ix::create_market(
            create_market::Accounts { market: &d, event_queue: &d, bids: &d, asks: &d },
            d,
            create_market::Params { min_base_order_size: *min, tick_size: *tick },
        ),
        Op::New(o) => ix::new_order(new_order::Accounts { market: &d, event_queue: &d, bids: &d, asks: &d }, d, o.params_with(Wrap(C::mk(o.cb.0, o.cb.1)))),
        Op::Cancel(id) => ix::cancel_order(cancel_order::Accounts { market: &d, event_queue: &d, bids: &d, asks: &d }, d, cancel_order::Params { order_id: *id }),
        Op::Mass(ids) => ix::mass_cancel_orders(
            mass_cancel_orders::Accounts { market: &d, event_queue: &d, bids: &d, asks: &d },
            d,
            mass_cancel_orders::Params { order_ids: ids.clone() },
        ),
        Op::Consume(n) => ix::consume_events(consume_events::Accounts { market: &d, event_queue: &d }, d, consume_events::Params { number_of_entries_to_consume: *n }),
        Op::Close => ix::close_market(
            close_market::Accounts { market: &d, event_queue: &d, bids: &d, asks: &d, lamports_target_account: &d },
            d,
            close_market::Params {},
        ),
    };
    let order = match op {
        Op::Consume(_) => vec![MARKET, QUEUE, REGISTER],
        Op::Close => vec![MARKET, QUEUE, BIDS, ASKS, TARGET, REGISTER],
        _ => vec![MARKET, QUEUE, BIDS, ASKS, REGISTER],
    };
    (i.data, order)
}

impl World {
    pub fn new<C: Cbk>(cap_orders: usize, cap_events: usize) -> World {
        let k = |n: u8| Pubkey::new_from_array([n; 32]);
        let program = k(9);
        let slab = Slab::<C>::compute_allocation_size(cap_orders);
        World {
            program,
            acc: vec![
                Acc::new(k(1), program, 8 + std::mem::size_of::<asset_agnostic_orderbook::state::market_state::MarketState>()),
                Acc::new(k(2), program, EventQueue::<C>::compute_allocation_size(cap_events)),
                Acc::new(k(3), program, slab),
                Acc::new(k(4), program, slab),
                Acc::new(k(5), program, 0),
                Acc::new(k(6), program, 64),
            ],
        }
    }
    fn infos(&mut self) -> Vec<AccountInfo<'_>> {
        self.acc.iter_mut().map(|a| a.info()).collect()
    }
    /// the instruction through the per-instruction library functions
    pub fn direct<C: Cbk>(&mut self, op: &Op) -> Res {
        let program = self.program;
        let i = self.infos();
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<Option<Sum>, ProgramError> {
            Ok(match op {
                Op::Create { min, tick } => {
                    create_market::process::<C>(
                        &program,
                        create_market::Accounts { market: &i[0], event_queue: &i[1], bids: &i[2], asks: &i[3] },
                        create_market::Params { min_base_order_size: *min, tick_size: *tick },
                    )?;
                    None
                }
                Op::New(o) => Some(new_order::process::<C>(&program, new_order::Accounts { market: &i[0], event_queue: &i[1], bids: &i[2], asks: &i[3] }, o.params::<C>())?.into()),
                Op::Cancel(id) => Some(
                    cancel_order::process::<C>(&program, cancel_order::Accounts { market: &i[0], event_queue: &i[1], bids: &i[2], asks: &i[3] }, cancel_order::Params { order_id: *id })?.into(),
                ),
                Op::Mass(ids) => Some(
                    mass_cancel_orders::process::<C>(
                        &program,
                        mass_cancel_orders::Accounts { market: &i[0], event_queue: &i[1], bids: &i[2], asks: &i[3] },
                        mass_cancel_orders::Params { order_ids: ids.clone() },
                    )?
                    .into(),
                ),
                Op::Consume(n) => {
                    consume_events::process::<C>(&program, consume_events::Accounts { market: &i[0], event_queue: &i[1] }, consume_events::Params { number_of_entries_to_consume: *n })?;
                    None
                }
                Op::Close => {
                    close_market::process::<C>(
                        &program,
                        close_market::Accounts { market: &i[0], event_queue: &i[1], bids: &i[2], asks: &i[3], lamports_target_account: &i[4] },
                        close_market::Params {},
                    )?;
                    None
                }
            })
        }));
        to_res(r)
    }
    /// the instruction built by the client side builder and run through the program's entry point
    pub fn entry<C: Cbk>(&mut self, op: &Op) -> Res {
        let (data, order) = match catch_unwind(AssertUnwindSafe(|| data_of::<C>(op))) {
            Ok(x) => x,
            Err(e) => return Res::Panic(panic_text(e)),
        };
        let program = self.program;
        self.acc[REGISTER].bytes_mut().fill(0xEE);
        let r = {
            let i = self.infos();
            let list: Vec<AccountInfo> = order.iter().map(|k| i[*k].clone()).collect();
            catch_unwind(AssertUnwindSafe(|| entrypoint::process_instruction(&program, &list, &data)))
        };
        match r {
            Err(e) => Res::Panic(panic_text(e)),
            Ok(Err(e)) => Res::Err(e),
            Ok(Ok(())) => {
                let mut b: &[u8] = self.acc[REGISTER].bytes();
                match Option::<OrderSummary>::deserialize(&mut b) {
                    Ok(s) => Res::Ok(s.map(|s| s.into())),
                    Err(e) => Res::Panic(format!("register unreadable: {e}")),
                }
            }
        }
    }
    /// one transaction: on failure the accounts are as before
    pub fn tx<C: Cbk>(&mut self, op: &Op) -> Res {
        let saved = self.clone();
        let r = if C::ENTRY { self.entry::<C>(op) } else { self.direct::<C>(op) };
        if !r.ok() {
            *self = saved;
        }
        r
    }
    pub fn spread<C: Cbk>(&mut self) -> (Option<u64>, Option<u64>) {
        let i = self.infos();
        asset_agnostic_orderbook::utils::get_spread::<C>(&i[BIDS], &i[ASKS])
    }
    /// the state as a reader of the accounts sees it; disagreements between the readers are reported
    pub fn observe<C: Cbk>(&self, issues: &mut Vec<(&'static str, String)>) -> Option<St> {
        let mut w = self.clone();
        let mut found: Vec<(&'static str, String)> = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| w.observe_inner::<C>(&mut found)));
        issues.append(&mut found);
        match r {
            Ok(s) => Some(s),
            Err(e) => {
                let m = panic_text(e);
                for p in ["B01", "B02", "B03", "E01", "R01"] {
                    issues.push((p, format!("reading the accounts panics: {m}")));
                }
                None
            }
        }
    }
    fn observe_inner<C: Cbk>(&mut self, issues: &mut Vec<(&'static str, String)>) -> St {
        let mut st = St::default();
        for (k, tag, side) in [(BIDS, AccountTag::Bids, Side::Bid), (ASKS, AccountTag::Asks, Side::Ask)] {
            let b = self.acc[k].bytes_mut();
            let up: Vec<_> = Slab::<C>::from_buffer(b, tag).unwrap().into_iter(true).take(100_000).map(|l| (l.order_id(), l.base_quantity, l.price())).collect();
            let mut down: Vec<_> = Slab::<C>::from_buffer(b, tag).unwrap().into_iter(false).take(100_000).map(|l| (l.order_id(), l.base_quantity, l.price())).collect();
            down.reverse();
            let s = Slab::<C>::from_buffer(b, tag).unwrap();
            if up != down {
                issues.push(("B02", format!("{side:?}: ascending and descending iteration disagree: {up:?} / {down:?}")));
            }
            if up.windows(2).any(|w| w[0].0 >= w[1].0) {
                issues.push(("B02", format!("{side:?}: iteration is not in order: {up:?}")));
            }
            if up.len() != s.header.leaf_count as usize {
                issues.push(("B02", format!("{side:?}: iteration yields {} orders, the count is {}", up.len(), s.header.leaf_count)));
                issues.push(("B03", format!("{side:?}: {} orders, the count is {}", up.len(), s.header.leaf_count)));
            }
            let mn = s.find_min().map(|h| s.leaf_nodes[h as usize].order_id());
            let mx = s.find_max().map(|h| s.leaf_nodes[h as usize].order_id());
            if mn != up.iter().map(|x| x.0).min() || mx != up.iter().map(|x| x.0).max() {
                issues.push(("B02", format!("{side:?}: find_min {mn:?} find_max {mx:?} of {up:?}")));
            }
            let mut book = Book::new();
            let mut handles = std::collections::BTreeSet::new();
            for (id, q, p) in &up {
                if *p != (*id >> 64) as u64 {
                    issues.push(("B04", format!("{side:?}: price {p} of order {id:#x}")));
                }
                match s.find_by_key(*id) {
                    None => issues.push(("B01", format!("{side:?}: listed order {id:#x} is not found by its id"))),
                    Some(h) => {
                        if s.leaf_nodes[h as usize].order_id() != *id || s.leaf_nodes[h as usize].base_quantity != *q {
                            issues.push(("B01", format!("{side:?}: looking up {id:#x} gives another order")));
                        }
                        if !handles.insert(h) {
                            issues.push(("B03", format!("{side:?}: slot {h} is used twice")));
                        }
                        let cb = s.get_callback_info(h).parts();
                        if book.insert(*id, Order { qty: *q, cb }).is_some() {
                            issues.push(("B02", format!("{side:?}: {id:#x} is listed twice")));
                        }
                    }
                }
            }
            st.cap[side as usize] = s.leaf_nodes.len();
            if up.len() > s.leaf_nodes.len() {
                issues.push(("B03", format!("{side:?}: more orders than slots")));
            }
            *st.book_mut(side) = book;
        }
        let sp = self.spread::<C>();
        let want = (st.bids.keys().map(|k| (*k >> 64) as u64).max(), st.asks.keys().map(|k| (*k >> 64) as u64).min());
        if sp != want {
            issues.push(("B02", format!("spread {sp:?}, best prices are {want:?}")));
        }
        st.evs = read_events::<C>(self.acc[QUEUE].bytes_mut(), issues);
        st
    }
    pub fn seq(&self) -> u64 {
        u64::from_le_bytes(self.acc[QUEUE].bytes()[24..32].try_into().unwrap())
    }
    pub fn set_seq(&mut self, v: u64) {
        self.acc[QUEUE].bytes_mut()[24..32].copy_from_slice(&v.to_le_bytes());
    }
}
pub fn read_events<C: Cbk>(b: &mut [u8], issues: &mut Vec<(&'static str, String)>) -> Vec<Ev> {
    let id = |x: [u64; 2]| x[0] as u128 | ((x[1] as u128) << 64);
    let conv = |e: EventRef<C>| match e {
        EventRef::Fill(f) => Ev::Fill {
            side: f.event.taker_side,
            id: id(f.event.maker_order_id),
            base: f.event.base_size,
            quote: f.event.quote_size,
            mcb: f.maker_callback_info.parts(),
            tcb: f.taker_callback_info.parts(),
        },
        EventRef::Out(o) => Ev::Out { side: o.event.side, id: id(o.event.order_id), base: o.event.base_size, cb: o.callback_info.parts() },
    };
    let q = EventQueue::<C>::from_buffer(b, AccountTag::EventQueue).unwrap();
    let evs: Vec<Ev> = q.iter().take(1_000_000).map(conv).collect();
    let peeked: Vec<Ev> = (0..q.len().min(1_000_000)).filter_map(|i| q.peek_at(i).map(conv)).collect();
    if evs != peeked || q.peek_at(q.len()).is_some() || q.is_empty() != evs.is_empty() {
        issues.push(("E01", format!("iteration and peek_at disagree: {evs:?} / {peeked:?}, len {}", q.len())));
    }
    evs
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}
fn to_res(r: Result<Result<Option<Sum>, ProgramError>, Box<dyn std::any::Any + Send>>) -> Res {
    match r {
        Err(e) => Res::Panic(panic_text(e)),
        Ok(Err(e)) => Res::Err(e),
        Ok(Ok(s)) => Res::Ok(s),
    }
}
