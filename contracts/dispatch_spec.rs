// Entry points: which instruction a byte string asks for, with which accounts and parameters.
use crate::market_spec::*;
use crate::buffers_spec::*;
use crate::orderbook_spec::*;
use crate::book_spec::*;
use crate::fp_math_spec::*;
use crate::event_queue_spec::*;
use crate::critbit_spec::*;
use crate::stubs::borsh::{borsh_de, borsh_ser};
use crate::stubs::solana_program::account_info::{AccountInfo, may_write, may_pay};
use crate::stubs::solana_program::pubkey::Pubkey;
use crate::stubs::solana_program::program_error::ProgramError;
use crate::stubs::solana_program::instruction::AccountMeta;
use crate::instruction::AgnosticOrderbookInstruction;
use crate::state::orderbook::OrderSummary;
use crate::processor::{cancel_order, close_market, consume_events, create_market, mass_cancel_orders, new_order};

/// the instruction named by the first byte
pub open spec fn which(d: Seq<u8>) -> Option<AgnosticOrderbookInstruction> {
    <AgnosticOrderbookInstruction as crate::stubs::num_traits::FromPrimitive>::spec_from_u8(d[0])
}
pub open spec fn tail(d: Seq<u8>) -> Seq<u8> { d.subrange(1, d.len() as int) }
/// data produced by a builder is read back as the same instruction and the same parameters
pub open spec fn decodes<P>(d: Seq<u8>, w: AgnosticOrderbookInstruction, p: P) -> bool {
    d.len() >= 1 && which(d) == Some(w) && borsh_de::<P>(tail(d)) == Ok::<P, crate::stubs::borsh::Error>(p)
}
pub open spec fn passes(m: AccountMeta, k: Pubkey, writable: bool) -> bool {
    m.pubkey == k && !m.is_signer && (writable ==> m.is_writable)
}

pub open spec fn cancel_accounts<'a, 'b>(s: Seq<AccountInfo<'b>>) -> cancel_order::Accounts<'a, AccountInfo<'b>> {
    cancel_order::Accounts { market: &s[0], event_queue: &s[1], bids: &s[2], asks: &s[3] }
}
pub open spec fn mass_accounts<'a, 'b>(s: Seq<AccountInfo<'b>>) -> mass_cancel_orders::Accounts<'a, AccountInfo<'b>> {
    mass_cancel_orders::Accounts { market: &s[0], event_queue: &s[1], bids: &s[2], asks: &s[3] }
}
pub open spec fn order_accounts<'a, 'b>(s: Seq<AccountInfo<'b>>) -> new_order::Accounts<'a, AccountInfo<'b>> {
    new_order::Accounts { market: &s[0], event_queue: &s[1], bids: &s[2], asks: &s[3] }
}
pub open spec fn create_accounts<'a, 'b>(s: Seq<AccountInfo<'b>>) -> create_market::Accounts<'a, AccountInfo<'b>> {
    create_market::Accounts { market: &s[0], event_queue: &s[1], bids: &s[2], asks: &s[3] }
}
pub open spec fn close_accounts<'a, 'b>(s: Seq<AccountInfo<'b>>) -> close_market::Accounts<'a, AccountInfo<'b>> {
    close_market::Accounts { market: &s[0], event_queue: &s[1], bids: &s[2], asks: &s[3], lamports_target_account: &s[4] }
}
pub open spec fn consume_accounts<'a, 'b>(s: Seq<AccountInfo<'b>>) -> consume_events::Accounts<'a, AccountInfo<'b>> {
    consume_events::Accounts { market: &s[0], event_queue: &s[1] }
}

// `the handler was called with these arguments and answered r`: recorded at each call, never assumed otherwise
pub uninterp spec fn ran_cancel<C>(pid: Pubkey, a: cancel_order::Accounts<AccountInfo>, p: cancel_order::Params, r: Result<OrderSummary, ProgramError>) -> bool;
pub uninterp spec fn ran_mass<C>(pid: Pubkey, a: mass_cancel_orders::Accounts<AccountInfo>, p: mass_cancel_orders::Params, r: Result<OrderSummary, ProgramError>) -> bool;
pub uninterp spec fn ran_order<C>(pid: Pubkey, a: new_order::Accounts<AccountInfo>, p: new_order::Params<C>, r: Result<OrderSummary, ProgramError>) -> bool;
pub uninterp spec fn ran_create<C>(pid: Pubkey, a: create_market::Accounts<AccountInfo>, p: create_market::Params, r: Result<(), ProgramError>) -> bool;
pub uninterp spec fn ran_close<C>(pid: Pubkey, a: close_market::Accounts<AccountInfo>, p: close_market::Params, r: Result<(), ProgramError>) -> bool;
pub uninterp spec fn ran_consume<C>(pid: Pubkey, a: consume_events::Accounts<AccountInfo>, p: consume_events::Params, r: Result<(), ProgramError>) -> bool;
pub uninterp spec fn ran_any<C>(pid: Pubkey, s: Seq<AccountInfo>, d: Seq<u8>, r: Result<Option<OrderSummary>, ProgramError>) -> bool;

/// the answer of an instruction that returns an order summary, and of one that does not
pub open spec fn summed(r: Result<OrderSummary, ProgramError>) -> Result<Option<OrderSummary>, ProgramError> {
    match r { Ok(s) => Ok(Some(s)), Err(e) => Err(e) }
}
pub open spec fn plain(r: Result<(), ProgramError>) -> Result<Option<OrderSummary>, ProgramError> {
    match r { Ok(_) => Ok(None), Err(e) => Err(e) }
}
/// what a handler may assume about the accounts it is given
pub open spec fn writable4(s: Seq<AccountInfo>) -> bool {
    may_write(&s[0].data) && may_write(&s[1].data) && may_write(&s[2].data) && may_write(&s[3].data)
}
pub open spec fn ready_cancel<C>(pid: &Pubkey, s: Seq<AccountInfo>) -> bool {
    writable4(s) && laid_market(pid, &s[0]) && laid_books::<C>(pid, &s[0], &s[1], &s[2], &s[3])
}
pub open spec fn ready_mass<C>(pid: &Pubkey, s: Seq<AccountInfo>, ids: Seq<u128>) -> bool {
    ready_cancel::<C>(pid, s)
        && sum_base(book_of::<C>(d0(&s[2])), book_of::<C>(d0(&s[3])), ids, ids.len() as int) < e64()
        && sum_value(book_of::<C>(d0(&s[2])), book_of::<C>(d0(&s[3])), ids, ids.len() as int) < e64()
}
pub open spec fn ready_order<C: crate::state::orderbook::CallbackInfo>(pid: &Pubkey, s: Seq<AccountInfo>) -> bool {
    ready_cancel::<C>(pid, s) && laid_queue::<C>(pid, &s[0], &s[1])
        && (genuine(pid, &s[0], &s[1], &s[2], &s[3]) ==> live::<C>(d0(&s[0]), d0(&s[1]), d0(&s[2]), d0(&s[3])) && eq_of::<C>(d0(&s[1])).seq < 0x8000_0000_0000_0000u64)
}
pub open spec fn ready_create<C>(s: Seq<AccountInfo>) -> bool {
    writable4(s) && d0(&s[2]).len() > 0 && d0(&s[3]).len() > 0 && d0(&s[1]).len() <= usize::MAX
}
pub open spec fn ready_close<C>(pid: &Pubkey, s: Seq<AccountInfo>) -> bool {
    &&& writable4(s)
    &&& may_pay(&s[0].lamports) && may_pay(&s[1].lamports) && may_pay(&s[2].lamports) && may_pay(&s[3].lamports) && may_pay(&s[4].lamports)
    &&& lamports0(&s[0]) + lamports0(&s[1]) + lamports0(&s[2]) + lamports0(&s[3]) + lamports0(&s[4]) < e64()
    &&& laid_market(pid, &s[0])
    &&& d0(&s[1]).len() >= 32 && d0(&s[2]).len() >= 64 + csz::<C>() && d0(&s[3]).len() >= 64 + csz::<C>()
    &&& real_market(pid, &s[0]) && recorded(&s[0], &s[1], &s[2], &s[3]) ==>
        (bids_tagged(&s[2]) ==> side_ok_bytes::<C>(d0(&s[2]))) && (asks_tagged(&s[3]) ==> side_ok_bytes::<C>(d0(&s[3])))
        && (queue_tagged(&s[1]) ==> queue_ok::<C>(d0(&s[1])))
}
pub open spec fn ready_consume<C>(pid: &Pubkey, s: Seq<AccountInfo>) -> bool {
    may_write(&s[0].data) && may_write(&s[1].data) && laid_market(pid, &s[0]) && laid_queue::<C>(pid, &s[0], &s[1])
}
/// the accounts are fit for the instruction the data asks for
pub open spec fn ready<C: crate::state::orderbook::CallbackInfo>(pid: &Pubkey, s: Seq<AccountInfo>, d: Seq<u8>) -> bool {
    match which(d) {
        None => true,
        Some(AgnosticOrderbookInstruction::CreateMarket) => s.len() >= 4 ==> ready_create::<C>(s),
        Some(AgnosticOrderbookInstruction::NewOrder) => s.len() >= 4 ==> ready_order::<C>(pid, s),
        Some(AgnosticOrderbookInstruction::ConsumeEvents) => s.len() >= 2 ==> ready_consume::<C>(pid, s),
        Some(AgnosticOrderbookInstruction::CancelOrder) => s.len() >= 4 ==> ready_cancel::<C>(pid, s),
        Some(AgnosticOrderbookInstruction::CloseMarket) => s.len() >= 5 ==> ready_close::<C>(pid, s),
        Some(AgnosticOrderbookInstruction::MassCancelOrders) => s.len() >= 4 ==>
            (match borsh_de::<mass_cancel_orders::Params>(tail(d)) { Ok(p) => ready_mass::<C>(pid, s, p.order_ids@), Err(_) => writable4(s) }),
    }
}
/// the handler named by the data ran exactly as a direct call with the decoded accounts and parameters would, and r is its answer
pub open spec fn dispatched<C>(pid: Pubkey, s: Seq<AccountInfo>, d: Seq<u8>, r: Result<Option<OrderSummary>, ProgramError>) -> bool {
    match which(d) {
        None => r is Err,
        Some(AgnosticOrderbookInstruction::CreateMarket) => match borsh_de::<create_market::Params>(tail(d)) {
            Err(_) => r is Err,
            Ok(p) => (r is Err && s.len() != 4) || (s.len() >= 4 && exists|x: Result<(), ProgramError>| #[trigger] ran_create::<C>(pid, create_accounts(s), p, x) && r == plain(x)),
        },
        Some(AgnosticOrderbookInstruction::NewOrder) => match borsh_de::<new_order::Params<C>>(tail(d)) {
            Err(_) => r is Err,
            Ok(p) => (r is Err && s.len() != 4) || (s.len() >= 4 && exists|x: Result<OrderSummary, ProgramError>| #[trigger] ran_order::<C>(pid, order_accounts(s), p, x) && r == summed(x)),
        },
        Some(AgnosticOrderbookInstruction::ConsumeEvents) => match borsh_de::<consume_events::Params>(tail(d)) {
            Err(_) => r is Err,
            Ok(p) => (r is Err && s.len() != 2) || (s.len() >= 2 && exists|x: Result<(), ProgramError>| #[trigger] ran_consume::<C>(pid, consume_accounts(s), p, x) && r == plain(x)),
        },
        Some(AgnosticOrderbookInstruction::CancelOrder) => match borsh_de::<cancel_order::Params>(tail(d)) {
            Err(_) => r is Err,
            Ok(p) => (r is Err && s.len() != 4) || (s.len() >= 4 && exists|x: Result<OrderSummary, ProgramError>| #[trigger] ran_cancel::<C>(pid, cancel_accounts(s), p, x) && r == summed(x)),
        },
        Some(AgnosticOrderbookInstruction::CloseMarket) =>
            (r is Err && s.len() != 5) || (s.len() >= 5 && exists|x: Result<(), ProgramError>| #[trigger] ran_close::<C>(pid, close_accounts(s), close_market::Params {}, x) && r == plain(x)),
        Some(AgnosticOrderbookInstruction::MassCancelOrders) => match borsh_de::<mass_cancel_orders::Params>(tail(d)) {
            Err(_) => r is Err,
            Ok(p) => (r is Err && s.len() != 4) || (s.len() >= 4 && exists|x: Result<OrderSummary, ProgramError>| #[trigger] ran_mass::<C>(pid, mass_accounts(s), p, x) && r == summed(x)),
        },
    }
}

/// the return register holds the answer
pub open spec fn registered(o: Seq<u8>, n: Seq<u8>, s: Option<OrderSummary>) -> bool {
    borsh_ser(s).len() <= o.len() && n == borsh_ser(s) + o.skip(borsh_ser(s).len() as int)
}
/// the entry point answers what the dispatcher answers, and leaves it in the register
#[verifier::prophetic]
pub open spec fn entered(pid: Pubkey, s: Seq<AccountInfo>, reg: &AccountInfo, d: Seq<u8>, r: Result<(), ProgramError>) -> bool {
    exists|x: Result<Option<OrderSummary>, ProgramError>| #[trigger] ran_any::<[u8; 32]>(pid, s, d, x) && (match x {
        Ok(v) => r is Ok && registered(d0(reg), d1(reg), v),
        Err(e) => r == Err::<(), ProgramError>(e),
    })
}
/// the data asks for a new order (or a cancellation), with enough accounts
pub open spec fn ordering(d: Seq<u8>, s: Seq<AccountInfo>) -> bool { which(d) == Some(AgnosticOrderbookInstruction::NewOrder) && s.len() >= 4 }
pub open spec fn ordering_or_cancelling(d: Seq<u8>, s: Seq<AccountInfo>) -> bool {
    (which(d) == Some(AgnosticOrderbookInstruction::NewOrder) || which(d) == Some(AgnosticOrderbookInstruction::CancelOrder)) && s.len() >= 4
}
