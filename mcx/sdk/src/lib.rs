//! The SDK as the example contracts see it, except for `#[entrypoint]`: the
//! real one exports the fixed symbol `user_entrypoint`, so two examples could
//! not live in one program.
pub use real::*;
pub mod prelude {
    pub use real::prelude::*;
    pub use sdk_shim_proc::entrypoint;
}
