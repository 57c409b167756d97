%file state.rs
%fn Side::opposite
%own M01 X01
%ret r
%ens
    r == opp(*self),

%fn get_side_from_order_id
%own B04 X01
%ret r
%ens
    r == (if bid_flag(order_id) { Side::Bid } else { Side::Ask }),
%at start
    proof { lemma_side_flag(order_id); }

%file utils.rs
%fn round_price
%own T01
%ret r
%req
    tick_size > 0,
    side is Ask ==> up(tick_size as int, limit_price as int) < e64(),
%ens
    side is Bid ==> is_round_down(tick_size as int, limit_price as int, r as int),
    side is Ask ==> is_round_up(tick_size as int, limit_price as int, r as int),
%at start
    proof { lemma_round(tick_size as int, limit_price as int); }

%fn check_account_key
%own L02
%ret r
%ens
    match r { Ok(()) => *account.key == *key, Err(e) => e == error && *account.key != *key },

%fn check_account_owner
%own L02
%ret r
%ens
    match r { Ok(()) => account.owner.0@ == owner@, Err(e) => e == error && account.owner.0@ != owner@ },
