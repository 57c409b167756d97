pub use crate::critbit_spec::*; pub use crate::stubs::*;
