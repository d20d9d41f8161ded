pub use futures_util::*;
