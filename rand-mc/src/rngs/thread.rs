// Thread-local random number generator of the model checker: every raw word is a choice of the explorer.

use crate::{CryptoRng, Error, RngCore};
use std::marker::PhantomData;

/// The type returned by [`thread_rng`]; all handles of a thread share the explorer's controller.
#[derive(Copy, Clone, Debug)]
pub struct ThreadRng {
    // neither Send nor Sync, as the original
    rng: PhantomData<*mut ()>,
}

/// Retrieve the thread-local generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { rng: PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        crate::prelude::thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        crate::mc::raw(32) as u32
    }

    fn next_u64(&mut self) -> u64 {
        crate::mc::raw(64)
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let w = crate::mc::raw(64).to_le_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&w[..n]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
