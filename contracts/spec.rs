pub use crate::stubs::borsh::{borsh_de, borsh_ser}; pub use crate::critbit_spec::*; pub use crate::event_queue_spec::*; pub use crate::fp_math_spec::*; pub use crate::state_spec::*; pub use crate::book_spec::*; pub use crate::orderbook_spec::*; pub use crate::buffers_spec::*; pub use crate::market_spec::*; pub use crate::dispatch_spec::*; pub use crate::stubs::solana_program::account_info::{may_write, may_pay}; pub use crate::stubs::bonfida_utils::checks::rent_exempt; pub use crate::stubs::*;
