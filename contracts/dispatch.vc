%file processor.rs
%fn process_instruction
%own I01
%abortok
%ret r
%mark [I01]
    ran_any::<C>(*program_id, accounts@, instruction_data@, r),
%req
    instruction_data@.len() > 0,
    room::<C>(), clone_id::<C>(), id_cmp::<C>(), 5 * eq_slot::<C>() + 32 <= usize::MAX,
    ready::<C>(program_id, accounts@, instruction_data@),
%req [M07]
    ordering(instruction_data@, accounts@) && genuine(program_id, &accounts@[0], &accounts@[1], &accounts@[2], &accounts@[3]) ==> live_uncrossed::<C>(d0(&accounts@[2]), d0(&accounts@[3])),
%req [M08]
    ordering(instruction_data@, accounts@) && genuine(program_id, &accounts@[0], &accounts@[1], &accounts@[2], &accounts@[3]) ==> live_min::<C>(d0(&accounts@[0]), d0(&accounts@[2]), d0(&accounts@[3])),
%req [T01]
    ordering(instruction_data@, accounts@) && genuine(program_id, &accounts@[0], &accounts@[1], &accounts@[2], &accounts@[3]) ==> live_prices::<C>(d0(&accounts@[0]), d0(&accounts@[2]), d0(&accounts@[3])),
%req [R01]
    ordering_or_cancelling(instruction_data@, accounts@) && genuine_books(program_id, &accounts@[0], &accounts@[1], &accounts@[2], &accounts@[3]) ==> live_valued::<C>(d0(&accounts@[2]), d0(&accounts@[3])),
%ens [I01]
    dispatched::<C>(*program_id, accounts@, instruction_data@, r),

%file instruction.rs
%fn create_market
%own I01
%ret r
%req
    borsh_ser(params).len() < usize::MAX,
%ens
    r.program_id == crate::program_key(),
    decodes::<create_market::Params>(r.data@, AgnosticOrderbookInstruction::CreateMarket, params),
    r.accounts@.len() == 5 && passes(r.accounts@[4], register_account, true),
    passes(r.accounts@[0], *accounts.market, true),
    passes(r.accounts@[1], *accounts.event_queue, true),
    passes(r.accounts@[2], *accounts.bids, true),
    passes(r.accounts@[3], *accounts.asks, true),
%at start
    proof { create_market::borsh_params(params); }
%tail vx_i
    proof { assert(tail(vx_i.data@) =~= borsh_ser(params)); }

%fn new_order
%own I01
%ret r
%req
    borsh_ser(params).len() < usize::MAX,
%ens
    r.program_id == crate::program_key(),
    decodes::<new_order::Params<C>>(r.data@, AgnosticOrderbookInstruction::NewOrder, params),
    r.accounts@.len() == 5 && passes(r.accounts@[4], register_account, true),
    passes(r.accounts@[0], *accounts.market, false),
    passes(r.accounts@[1], *accounts.event_queue, true),
    passes(r.accounts@[2], *accounts.bids, true),
    passes(r.accounts@[3], *accounts.asks, true),
%at start
    proof { new_order::borsh_params(params); }
%tail vx_i
    proof { assert(tail(vx_i.data@) =~= borsh_ser(params)); }

%fn cancel_order
%own I01
%ret r
%req
    borsh_ser(params).len() < usize::MAX,
%ens
    r.program_id == crate::program_key(),
    decodes::<cancel_order::Params>(r.data@, AgnosticOrderbookInstruction::CancelOrder, params),
    r.accounts@.len() == 5 && passes(r.accounts@[4], register_account, true),
    passes(r.accounts@[0], *accounts.market, false),
    passes(r.accounts@[1], *accounts.event_queue, false),
    passes(r.accounts@[2], *accounts.bids, true),
    passes(r.accounts@[3], *accounts.asks, true),
%at start
    proof { cancel_order::borsh_params(params); }
%tail vx_i
    proof { assert(tail(vx_i.data@) =~= borsh_ser(params)); }

%fn consume_events
%own I01
%ret r
%req
    borsh_ser(params).len() < usize::MAX,
%ens
    r.program_id == crate::program_key(),
    decodes::<consume_events::Params>(r.data@, AgnosticOrderbookInstruction::ConsumeEvents, params),
    r.accounts@.len() == 3 && passes(r.accounts@[2], register_account, true),
    passes(r.accounts@[0], *accounts.market, false),
    passes(r.accounts@[1], *accounts.event_queue, true),
%at start
    proof { consume_events::borsh_params(params); }
%tail vx_i
    proof { assert(tail(vx_i.data@) =~= borsh_ser(params)); }

%fn close_market
%own I01
%ret r
%req
    borsh_ser(params).len() < usize::MAX,
%ens
    r.program_id == crate::program_key(),
    decodes::<close_market::Params>(r.data@, AgnosticOrderbookInstruction::CloseMarket, params),
    r.accounts@.len() == 6 && passes(r.accounts@[5], register_account, true),
    passes(r.accounts@[0], *accounts.market, true),
    passes(r.accounts@[1], *accounts.event_queue, true),
    passes(r.accounts@[2], *accounts.bids, true),
    passes(r.accounts@[3], *accounts.asks, true),
    passes(r.accounts@[4], *accounts.lamports_target_account, true),
%at start
    proof { close_market::borsh_params(params); }
%tail vx_i
    proof { assert(tail(vx_i.data@) =~= borsh_ser(params)); }

%fn mass_cancel_orders
%own I01
%ret r
%req
    borsh_ser(params).len() < usize::MAX,
%ens
    r.program_id == crate::program_key(),
    decodes::<mass_cancel_orders::Params>(r.data@, AgnosticOrderbookInstruction::MassCancelOrders, params),
    r.accounts@.len() == 5 && passes(r.accounts@[4], register_account, true),
    passes(r.accounts@[0], *accounts.market, false),
    passes(r.accounts@[1], *accounts.event_queue, false),
    passes(r.accounts@[2], *accounts.bids, true),
    passes(r.accounts@[3], *accounts.asks, true),
%at start
    proof { mass_cancel_orders::borsh_params(params); }
%tail vx_i
    proof { assert(tail(vx_i.data@) =~= borsh_ser(params)); }

%file processor/new_order.rs
%fn Params::borsh_len
%own I01
%at start
    proof { borsh_params(*self); }

%file entrypoint.rs
%fn process_instruction
%own I01
%cells fn:processor::process_instruction! register_account.data!
%abortok
%ret r
%req
    instruction_data@.len() > 0,
    room::<[u8; 32]>(), clone_id::<[u8; 32]>(), id_cmp::<[u8; 32]>(), 5 * eq_slot::<[u8; 32]>() + 32 <= usize::MAX,
    accounts@.len() > 0 ==> may_write(&accounts@.last().data) && ready::<[u8; 32]>(program_id, accounts@.drop_last(), instruction_data@),
%req [M07]
    accounts@.len() > 0 && ordering(instruction_data@, accounts@.drop_last()) && genuine(program_id, &accounts@.drop_last()[0], &accounts@.drop_last()[1], &accounts@.drop_last()[2], &accounts@.drop_last()[3]) ==> live_uncrossed::<[u8; 32]>(d0(&accounts@.drop_last()[2]), d0(&accounts@.drop_last()[3])),
%req [M08]
    accounts@.len() > 0 && ordering(instruction_data@, accounts@.drop_last()) && genuine(program_id, &accounts@.drop_last()[0], &accounts@.drop_last()[1], &accounts@.drop_last()[2], &accounts@.drop_last()[3]) ==> live_min::<[u8; 32]>(d0(&accounts@.drop_last()[0]), d0(&accounts@.drop_last()[2]), d0(&accounts@.drop_last()[3])),
%req [T01]
    accounts@.len() > 0 && ordering(instruction_data@, accounts@.drop_last()) && genuine(program_id, &accounts@.drop_last()[0], &accounts@.drop_last()[1], &accounts@.drop_last()[2], &accounts@.drop_last()[3]) ==> live_prices::<[u8; 32]>(d0(&accounts@.drop_last()[0]), d0(&accounts@.drop_last()[2]), d0(&accounts@.drop_last()[3])),
%req [R01]
    accounts@.len() > 0 && ordering_or_cancelling(instruction_data@, accounts@.drop_last()) && genuine_books(program_id, &accounts@.drop_last()[0], &accounts@.drop_last()[1], &accounts@.drop_last()[2], &accounts@.drop_last()[3]) ==> live_valued::<[u8; 32]>(d0(&accounts@.drop_last()[2]), d0(&accounts@.drop_last()[3])),
%ens [I01]
    accounts@.len() > 0 && entered(*program_id, accounts@.drop_last(), &accounts@.last(), instruction_data@, r),
