//! `rand` whose generators draw from the explorer.
pub use real_rand::*;

/// The only source of randomness.
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;

/// See rand.
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
/// See rand.
pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    Rng::gen(&mut ThreadRng)
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (vstd::rt::draw() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        vstd::rt::draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = vstd::rt::draw().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}

/// See rand.
pub mod rngs {
    pub use super::ThreadRng;
    pub use real_rand::rngs::*;
}
/// See rand.
pub mod prelude {
    pub use super::{random, thread_rng, ThreadRng};
    pub use real_rand::prelude::*;
}
