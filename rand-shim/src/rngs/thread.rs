// Replaced for /verif: the thread generator of this copy of `rand` is *scripted*.
//
// The model checker owns every random choice: it installs, per thread, a list of choices (each a
// number in [0, 1)) followed by a default that is repeated for ever, and can read how many draws
// were made. Everything else of `rand` is as published.

use core::cell::RefCell;
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use std::thread_local;

use rand_core::{CryptoRng, RngCore};

/// Control of the scripted generator.
pub mod script {
    use super::SCRIPT;

    /// Per-thread script.
    #[derive(Debug, Default)]
    pub struct Script {
        pub(super) choices: std::vec::Vec<u64>,
        pub(super) default: u64,
        pub(super) draws: usize,
    }

    fn word(c: f64) -> u64 {
        let m = (c * (1u64 << 53) as f64) as u64;
        m.min((1u64 << 53) - 1) << 11
    }

    /// Install a script on this thread: `choices` first, then `default` for ever.
    pub fn set(choices: &[f64], default: f64) {
        SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            s.choices = choices.iter().map(|c| word(*c)).collect();
            s.default = word(default);
            s.draws = 0;
        })
    }

    /// Number of draws made since the last `set`.
    pub fn draws() -> usize {
        SCRIPT.with(|s| s.borrow().draws)
    }
}

thread_local!(
    static SCRIPT: RefCell<script::Script> = RefCell::new(script::Script {
        choices: std::vec::Vec::new(),
        default: 1u64 << 63,
        draws: 0,
    });
);

/// The scripted stand-in of the thread generator.
#[derive(Clone)]
pub struct ThreadRng {
    _not_send: PhantomData<Rc<()>>,
}

impl ThreadRng {
    /// No-op: the script decides.
    pub fn reseed(&mut self) -> Result<(), rand_core::OsError> {
        Ok(())
    }
}

impl fmt::Debug for ThreadRng {
    fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
        write!(fmt, "ThreadRng {{ .. }}")
    }
}

/// Access the thread-local scripted generator.
pub fn rng() -> ThreadRng {
    ThreadRng { _not_send: PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }

    fn next_u64(&mut self) -> u64 {
        SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.draws;
            s.draws += 1;
            s.choices.get(i).copied().unwrap_or(s.default)
        })
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            chunk.copy_from_slice(&w[..chunk.len()]);
        }
    }
}

impl CryptoRng for ThreadRng {}
