//! Where the inputs of a contract come from.
//! Under Kani every draw is a symbolic value. In the native build a draw is answered by
//!   * replay: the values of a recorded case (a Kani counterexample or an earlier native case),
//!   * enumerate: depth-first enumeration of all `below`/`flag` choices (wide draws are boundary
//!     biased pseudo-random values of the case's own seed),
//!   * random: pseudo-random values of the case's own seed.
#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn u128() -> u128 {
        kani::any()
    }
    pub fn flag() -> bool {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// a value in 0..n
    pub fn below(n: u32) -> u32 {
        let v: u32 = kani::any();
        kani::assume(v < n);
        v
    }
    pub fn reached(_what: &'static str) {
        kani::cover!(true, "reached");
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub enum Mode {
        Replay(Vec<u128>),
        Enumerate,
        Random,
    }
    pub struct St {
        pub mode: Mode,
        pub pos: usize,
        pub rng: u64,
        // enumerate: (choice, number of choices); the prefix given is kept, the rest is filled
        pub path: Vec<(u32, u32)>,
        pub depth: usize,
        // only cases whose first two choices hash to this shard are run
        pub shard: (u32, u32),
        pub trace: Vec<u128>,
        pub reached: Vec<&'static str>,
    }
    thread_local! {
        pub static ST: RefCell<St> = RefCell::new(St { mode: Mode::Random, pos: 0, rng: 1, path: vec![], depth: 0, shard: (0, 1), trace: vec![], reached: vec![] });
    }
    pub struct Reject;
    fn next(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn wide(bits: u32) -> u128 {
        ST.with(|st| {
            let mut st = st.borrow_mut();
            let mask = if bits == 128 { u128::max_value() } else { (1u128 << bits) - 1 };
            let v = match &st.mode {
                Mode::Replay(vals) => vals.get(st.pos).cloned().unwrap_or(0) & mask,
                _ => {
                    let mut r = st.rng;
                    let k = next(&mut r) % 8;
                    let a = next(&mut r) as u128 | ((next(&mut r) as u128) << 64);
                    let sh = (next(&mut r) % bits as u64) as u32;
                    let d = (next(&mut r) % 3) as u128;
                    st.rng = r;
                    mask & match k {
                        0 => d,
                        1 => mask - d,
                        2 => (1u128 << sh).wrapping_add(d).wrapping_sub(1),
                        3 => (a & mask) >> sh,
                        _ => a,
                    }
                }
            };
            st.pos += 1;
            st.trace.push(v);
            v
        })
    }
    pub fn u8() -> u8 {
        wide(8) as u8
    }
    pub fn u16() -> u16 {
        wide(16) as u16
    }
    pub fn u32() -> u32 {
        wide(32) as u32
    }
    pub fn u64() -> u64 {
        wide(64) as u64
    }
    pub fn u128() -> u128 {
        wide(128)
    }
    pub fn flag() -> bool {
        below(2) == 1
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Reject)
        }
    }
    pub fn below(n: u32) -> u32 {
        let skip = ST.with(|st| {
            let mut st = st.borrow_mut();
            let st = &mut *st;
            let v = match &st.mode {
                Mode::Replay(vals) => (vals.get(st.pos).cloned().unwrap_or(0) % (n as u128)) as u32,
                Mode::Random => (next(&mut st.rng) % n as u64) as u32,
                Mode::Enumerate => {
                    if st.depth == st.path.len() {
                        st.path.push((0, n));
                    }
                    assert_eq!(st.path[st.depth].1, n, "the case is not a function of its choices");
                    st.path[st.depth].0
                }
            };
            st.depth += 1;
            st.pos += 1;
            st.trace.push(v as u128);
            if let Mode::Enumerate = st.mode {
                if st.depth == 3 && st.shard.1 > 1 {
                    let h = st.path[0].0.wrapping_mul(31) + st.path[1].0.wrapping_mul(7) + st.path[2].0;
                    return h % st.shard.1 != st.shard.0;
                }
            }
            false
        });
        if skip {
            std::panic::panic_any(Reject)
        }
        ST.with(|st| st.borrow().trace.last().cloned().unwrap() as u32)
    }
    pub fn reached(what: &'static str) {
        ST.with(|st| {
            let mut st = st.borrow_mut();
            if !st.reached.contains(&what) {
                st.reached.push(what)
            }
        })
    }
}
pub use imp::*;

pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[below(xs.len() as u32) as usize]
}
