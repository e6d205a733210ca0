//! SHA-2 by an implementation independent of the one the library uses.
use sha2::Digest;

pub fn sha(algo: u32, data: &[u8]) -> Vec<u8> {
    match algo {
        1 => sha2::Sha256::digest(data).to_vec(),
        2 => sha2::Sha384::digest(data).to_vec(),
        4 => sha2::Sha512::digest(data).to_vec(),
        _ => panic!("no such hash"),
    }
}
pub fn size(algo: u32) -> usize {
    match algo {
        1 | 8 => 32,
        2 | 16 => 48,
        4 | 32 => 64,
        _ => panic!("no such hash"),
    }
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
