//! A small deterministic random generator (splitmix64).

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed)) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 { self.u64() as u32 }
    pub fn u16(&mut self) -> u16 { self.u64() as u16 }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    /// true with probability n / d
    pub fn chance(&mut self, n: usize, d: usize) -> bool { self.below(d) < n }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T { s[self.below(s.len())] }
}

pub const LONGS: [u32; 28] = [
    0, 1, 2, 3, 9, 0x0F, 0x10, 0x7F, 0x80, 0x99, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x1_0000,
    0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_8000, 0xFFFF_7FFF, 0xFFFF_FFFF, 0xFFFF_FFFE, 0xFFFF_FF80,
    0x0001_FFFF, 0x8080_8080, 0x7F7F_7F7F,
];

/// A data value, biased towards the boundaries of the operand sizes.
pub fn value(r: &mut Rng) -> u32 {
    match r.below(8) {
        0..=2 => r.pick(&LONGS),
        3 => r.u32() & 0xFF | r.pick(&LONGS) & 0xFFFF_FF00,
        4 => (r.pick(&LONGS) << 16) | (r.pick(&LONGS) & 0xFFFF),
        5 => {
            // decimal digits
            let mut v = 0;
            for _ in 0..8 { v = v << 4 | r.below(10) as u32; }
            v
        },
        6 => r.pick(&LONGS).wrapping_add(r.below(5) as u32).wrapping_sub(2),
        _ => r.u32(),
    }
}
