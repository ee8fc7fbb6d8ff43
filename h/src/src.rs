//! Sources of input values: symbolic under Kani; random, replayed or enumerated natively.

pub trait Src {
    /// A value of `n` bits (n <= 64).
    fn bits(&mut self, n: u32) -> u64;
    /// A value in 0..=max (max <= 255).
    fn upto(&mut self, max: usize) -> usize;
    /// Restrict to `c`; natively returns false when the case is to be abandoned.
    fn assume(&mut self, c: bool) -> bool;
    fn cover(&mut self, c: bool, m: &'static str);

    fn bool(&mut self) -> bool {
        self.bits(1) != 0
    }
    fn u8(&mut self) -> u8 {
        self.bits(8) as u8
    }
    fn u16(&mut self) -> u16 {
        self.bits(16) as u16
    }
    fn u32(&mut self) -> u32 {
        self.bits(32) as u32
    }
    fn words<const N: usize>(&mut self) -> [u32; N] {
        let mut a = [0u32; N];
        let mut i = 0;
        while i < N {
            a[i] = self.u32();
            i += 1;
        }
        a
    }
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        let mut i = 0;
        while i < N {
            a[i] = self.u8();
            i += 1;
        }
        a
    }
    fn between(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto(hi - lo)
    }
}

#[cfg(kani)]
pub struct K;

#[cfg(kani)]
impl Src for K {
    fn bits(&mut self, n: u32) -> u64 {
        if n == 8 {
            kani::any::<u8>() as u64
        } else if n == 16 {
            kani::any::<u16>() as u64
        } else if n == 32 {
            kani::any::<u32>() as u64
        } else if n < 8 {
            (kani::any::<u8>() & ((1u8 << n) - 1)) as u64
        } else if n < 16 {
            (kani::any::<u16>() & ((1u16 << n) - 1)) as u64
        } else if n < 32 {
            (kani::any::<u32>() & ((1u32 << n) - 1)) as u64
        } else if n < 64 {
            kani::any::<u64>() & ((1u64 << n) - 1)
        } else {
            kani::any::<u64>()
        }
    }
    fn upto(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let v = kani::any::<u8>() as usize;
        kani::assume(v <= max);
        v
    }
    fn assume(&mut self, c: bool) -> bool {
        kani::assume(c);
        true
    }
    fn cover(&mut self, _c: bool, _m: &'static str) {}
}

#[cfg(not(kani))]
pub use native::*;

#[cfg(not(kani))]
mod native {
    use super::Src;
    extern crate std;
    use std::collections::BTreeSet;
    use std::vec::Vec;

    pub struct Native {
        pub rng: u64,
        pub replay: Option<Vec<u64>>,
        pub pos: usize,
        pub log: Vec<u64>,
        pub abandoned: bool,
        pub covers: BTreeSet<&'static str>,
        style: u64,
        style_set: bool,
        /// copy of the log that another thread can read
        pub spy: Option<std::sync::Arc<std::sync::Mutex<Vec<u64>>>>,
    }

    impl Native {
        pub fn random(seed: u64) -> Self {
            Native {
                rng: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03,
                replay: None,
                pos: 0,
                log: Vec::new(),
                abandoned: false,
                covers: BTreeSet::new(),
                style: 0,
                style_set: false,
                spy: None,
            }
        }
        fn note(&mut self, v: u64) {
            self.log.push(v);
            if let Some(p) = &self.spy {
                p.lock().unwrap().push(v);
            }
        }
        pub fn replay(values: Vec<u64>) -> Self {
            let mut n = Self::random(0);
            n.replay = Some(values);
            n
        }
        pub fn next_case(&mut self) {
            self.log.clear();
            self.abandoned = false;
            self.pos = 0;
            self.style_set = false;
        }
        pub fn rnd(&mut self) -> u64 {
            // splitmix64
            self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        }
        fn raw(&mut self, n: u32) -> u64 {
            if let Some(r) = &self.replay {
                let v = if self.pos < r.len() { r[self.pos] } else { 0 };
                self.pos += 1;
                return v;
            }
            if !self.style_set {
                self.style = self.rnd() % 4;
                self.style_set = true;
            }
            let v = self.rnd();
            let v = match self.style {
                0 => v,
                1 => match self.rnd() % 4 {
                    0 => 0,
                    1 => u64::MAX,
                    2 => v & self.rnd() & self.rnd(),
                    _ => v,
                },
                2 => {
                    // nibble-structured
                    let mut x = 0u64;
                    let mut i = 0;
                    while i < 16 {
                        let r = self.rnd();
                        let nib = match r & 3 {
                            0 => 0,
                            1 => (r >> 8) & 3,
                            2 => 0xF,
                            _ => (r >> 8) & 0xF,
                        };
                        x |= nib << (4 * i);
                        i += 1;
                    }
                    x
                }
                _ => v | self.rnd(),
            };
            if n >= 64 {
                v
            } else {
                v & ((1u64 << n) - 1)
            }
        }
    }

    impl Src for Native {
        fn bits(&mut self, n: u32) -> u64 {
            let v = self.raw(n);
            let v = if n >= 64 { v } else { v & ((1u64 << n) - 1) };
            self.note(v);
            v
        }
        fn upto(&mut self, max: usize) -> usize {
            if max == 0 {
                return 0;
            }
            let v = if self.replay.is_some() {
                let v = self.raw(8) as usize;
                if v > max {
                    self.abandoned = true;
                    max
                } else {
                    v
                }
            } else {
                (self.rnd() % (max as u64 + 1)) as usize
            };
            self.note(v as u64);
            v
        }
        fn assume(&mut self, c: bool) -> bool {
            if !c {
                self.abandoned = true;
            }
            c
        }
        fn cover(&mut self, c: bool, m: &'static str) {
            if c {
                self.covers.insert(m);
            }
        }
    }
}
