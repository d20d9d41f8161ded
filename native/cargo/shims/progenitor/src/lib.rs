pub use progenitor_client;
pub use progenitor_impl::*;
