//! A stand-in for the `getrandom` crate (0.2 API), so that the harness can
//! observe and seed what the library under test draws from the system random
//! source (through `rand::rngs::OsRng`) without any hook in the library.
//!
//! By default it reads /dev/urandom, as the real crate would. A thread can
//! switch to a seeded stream; every draw is counted, and recorded in a fixed
//! buffer (no allocation, so that it can be used under the allocation monitor).

use std::cell::RefCell;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom stand-in: error {}", self.0)
    }
}
impl std::error::Error for Error {}

const REC: usize = 4096;

struct St {
    seeded: bool,
    state: u64,
    rec: [u8; REC],
    rec_len: usize,
    drawn: u64,
}

thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { seeded: false, state: 0, rec: [0; REC], rec_len: 0, drawn: 0 }) };
}

fn next(state: &mut u64) -> u64 {
    // splitmix64
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    ST.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.seeded {
            for c in dest.chunks_mut(8) {
                let v = next(&mut s.state).to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
        } else {
            use std::io::Read;
            let mut f = std::fs::File::open("/dev/urandom").map_err(|_| Error::UNSUPPORTED)?;
            f.read_exact(dest).map_err(|_| Error::UNSUPPORTED)?;
        }
        for b in dest.iter() {
            if s.rec_len < REC {
                s.rec[s.rec_len] = *b;
                s.rec_len += 1;
            }
        }
        s.drawn += dest.len() as u64;
        Ok(())
    })
}

pub fn getrandom_uninit(dest: &mut [core::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    let d = unsafe { &mut *(dest as *mut [core::mem::MaybeUninit<u8>] as *mut [u8]) };
    for b in d.iter_mut() {
        *b = 0;
    }
    getrandom(d)?;
    Ok(d)
}

/// Control of this thread's stream; only the harness uses it.
pub mod control {
    use super::ST;

    pub fn seed(seed: u64) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.seeded = true;
            s.state = seed;
            s.rec_len = 0;
        })
    }
    pub fn unseed() {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.seeded = false;
            s.rec_len = 0;
        })
    }
    /// The bytes drawn on this thread since the last call or `seed`.
    pub fn take() -> Vec<u8> {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let v = s.rec[..s.rec_len].to_vec();
            s.rec_len = 0;
            v
        })
    }
    pub fn drawn() -> u64 {
        ST.with(|s| s.borrow().drawn)
    }
}
