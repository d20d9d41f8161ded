//! stand-in for rand: fresh, but not random, values
use std::sync::atomic::{AtomicU64, Ordering};
static N: AtomicU64 = AtomicU64::new(1);
pub trait Fresh {
    fn fresh(n: u64) -> Self;
}
impl Fresh for [u8; 16] {
    fn fresh(n: u64) -> Self {
        let mut a = [7; 16];
        a[..8].copy_from_slice(&n.to_le_bytes());
        a
    }
}
pub fn random<T: Fresh>() -> T {
    T::fresh(N.fetch_add(1, Ordering::SeqCst))
}
