//! The one source of choice. In search mode values come from a PRNG seeded by
//! (VERIF_SEED, property, run) and are recorded; in replay mode they come from the recording.
//! Zero is always the simplest choice, so that shrinking the tape simplifies the run.

use crate::shm::{sh, TAPE_MAX};

static mut STATE: [u64; 4] = [0; 4];
static mut REPLAY: bool = false;
static mut POS: usize = 0;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn init() {
    let s = sh();
    let mut x = s.seed;
    unsafe {
        for i in 0..4 {
            STATE[i] = splitmix(&mut x);
        }
        REPLAY = s.replay != 0;
        POS = 0;
    }
    s.tape_out_len = 0;
    s.overflow = 0;
}

fn raw() -> u64 {
    // xoshiro256**
    unsafe {
        let s = &mut *std::ptr::addr_of_mut!(STATE);
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

/// A choice in 0..n (any u64 when n == 0).
pub fn below(n: u64) -> u64 {
    if n == 1 {
        return 0;
    }
    let s = sh();
    unsafe {
        if POS >= TAPE_MAX {
            s.overflow = 1;
            return 0;
        }
        let v = if REPLAY {
            let v = if POS < s.tape_in_len as usize { s.tape_in[POS] } else { 0 };
            if n == 0 { v } else { v % n }
        } else if n == 0 {
            raw()
        } else {
            ((raw() as u128 * n as u128) >> 64) as u64
        };
        s.tape_out[POS] = v;
        POS += 1;
        s.tape_out_len = POS as u64;
        v
    }
}

pub fn u64_() -> u64 {
    below(0)
}
pub fn us(n: usize) -> usize {
    below(n as u64) as usize
}
/// lo..=hi
pub fn range(lo: usize, hi: usize) -> usize {
    lo + us(hi - lo + 1)
}
/// True with probability a/b; zero on the tape means false.
pub fn chance(a: u64, b: u64) -> bool {
    let v = below(b);
    v >= b - a
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[us(xs.len())]
}
/// Index drawn by weight.
pub fn weighted(ws: &[u64]) -> usize {
    let t: u64 = ws.iter().sum();
    let mut v = below(t);
    for (i, w) in ws.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    0
}
/// A count with a heavy tail: mostly 0..=small, sometimes up to big.
pub fn count(small: usize, big: usize) -> usize {
    if chance(1, 12) {
        range(0, big)
    } else {
        range(0, small)
    }
}

/// Bulk content from one tape entry.
pub fn fill(n: usize) -> Vec<u8> {
    let mut x = u64_();
    if x == 0 {
        return vec![0; n];
    }
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        out.extend_from_slice(&splitmix(&mut x).to_le_bytes());
    }
    out.truncate(n);
    out
}
