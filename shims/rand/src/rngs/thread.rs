//! Thread-local random number generator: the checker's stand-in.
//!
//! Every thread starts from a fixed seed; `rand::mc` chooses the values the code under test draws.
use crate::{CryptoRng, Error, RngCore};
use std::cell::RefCell;
use std::collections::VecDeque;

struct St {
    script: VecDeque<u64>,
    state: u64,
    draws: u64,
}

std::thread_local!(static ST: RefCell<St> = RefCell::new(St { script: VecDeque::new(), state: 1, draws: 0 }));

/// Control of the values drawn by the current thread.
pub mod control {
    use super::*;
    /// Continue with the pseudo-random stream of `seed`; drops any script.
    pub fn seed(seed: u64) {
        ST.with(|s| *s.borrow_mut() = St { script: VecDeque::new(), state: seed, draws: 0 });
    }
    /// The next 64-bit draws return these values, then the stream continues.
    pub fn script<I: IntoIterator<Item = u64>>(v: I) {
        ST.with(|s| s.borrow_mut().script = v.into_iter().collect());
    }
    /// Scripted draws not yet consumed.
    pub fn left() -> usize {
        ST.with(|s| s.borrow().script.len())
    }
    /// 64-bit draws since the last `seed`.
    pub fn draws() -> u64 {
        ST.with(|s| s.borrow().draws)
    }
}

fn next() -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.draws += 1;
        if let Some(v) = s.script.pop_front() {
            return v;
        }
        s.state = s.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}

/// A reference to the thread-local generator.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: std::marker::PhantomData<std::rc::Rc<()>>,
}

/// The thread-local generator of the current thread.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: std::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
