//! Deterministic pseudo-random generator (xoshiro256**), no external crates.
/// The state; numbers drawn so far; and one draw to replace, with what (to repeat a generation with a small difference).
#[derive(Clone)]
pub struct Rng([u64; 4], pub u64, pub Option<(u64, u64)>);

/// Numbers and texts of particular interest, given with `--dict`; usually there are none.
#[derive(Default)]
pub struct Dict { pub ints: Vec<u64>, pub near: Vec<u64>, pub strs: Vec<String> }
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict { DICT.get_or_init(Dict::default) }
/// `i:<n>,<n>;s:<hex>,<hex>`
pub fn set_dict(s: &str) {
    let mut d = Dict::default();
    for part in s.split(';') {
        if let Some(x) = part.strip_prefix("i:") { d.ints = x.split(',').filter_map(|x| x.parse().ok()).collect() }
        if let Some(x) = part.strip_prefix("s:") { d.strs = x.split(',').filter_map(|h| String::from_utf8((0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()).ok()).filter(|s| !s.is_empty()).collect() }
    }
    for v in &d.ints {
        let v = *v;
        for x in [v, v, v, v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_neg(), v.wrapping_neg().wrapping_sub(1), v.wrapping_mul(2), v / 2, !v & 0xffff, 1 << v.trailing_zeros().min(63), 1u64 << (63 - v.max(1).leading_zeros()), v.wrapping_add(2), v.wrapping_mul(2).wrapping_add(1), v.wrapping_add(256), v.wrapping_sub(2)] { d.near.push(x) }
    }
    let _ = DICT.set(d);
}
/// sizes of particular interest up to `max`
pub fn dict_sizes(max: u64) -> Vec<usize> {
    let mut v: Vec<usize> = dict().ints.iter().flat_map(|v| [*v, v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_mul(2), v.wrapping_add(2)]).chain(dict().ints.iter().map(|v| 1 << v.trailing_zeros().min(63))).filter(|v| *v <= max).map(|v| v as usize).collect();
    v.sort(); v.dedup();
    v
}

impl Rng {
    /// a number of particular interest, where there are any
    pub fn special(&mut self, den: u32) -> Option<u64> { let d = &dict().near; if d.is_empty() || !self.chance(1, den) { None } else { Some(*self.pick(d)) } }
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut y = z;
            y = (y ^ (y >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            y = (y ^ (y >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *x = y ^ (y >> 31);
        }
        Rng(s, 0, None)
    }
    /// A generator for case number `n` of a run, so that a case can be replayed alone.
    pub fn case(seed: u64, stream: u64, n: u64) -> Rng {
        Rng::new(seed ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ n.wrapping_mul(0x8CB9_2BA7_2F3D_8DD7).rotate_left(17))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        self.1 += 1;
        match self.2 { Some((n, x)) if n == self.1 => x, _ => r }
    }
    pub fn u32(&mut self) -> u32 { self.u64() as u32 }
    pub fn u16(&mut self) -> u16 { self.u64() as u16 }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (((self.u64() as u128) * ((hi - lo) as u128 + 1)) >> 64) as i64
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { (self.below(den as usize) as u32) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// boundary-biased u16
    pub fn b16(&mut self) -> u16 {
        if let Some(x) = self.special(6) { return x as u16 }
        const B: [u16; 14] = [0, 1, 2, 3, 4, 127, 128, 254, 255, 256, 32767, 32768, 65534, 65535];
        if self.chance(1, 2) { *self.pick(&B) } else { self.u16() }
    }
    pub fn b8(&mut self) -> u8 {
        if let Some(x) = self.special(6) { return x as u8 }
        const B: [u8; 8] = [0, 1, 2, 126, 127, 128, 254, 255];
        if self.chance(1, 2) { *self.pick(&B) } else { self.u8() }
    }
    pub fn b32(&mut self) -> i32 {
        if let Some(x) = self.special(6) { return x as i32 }
        const B: [i32; 24] = [0, 1, -1, 2, 3, 4, 5, 6, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, i32::MAX, i32::MIN, i32::MIN + 1];
        match self.below(3) {
            0 => *self.pick(&B),
            1 => self.u32() as i32,
            _ => (self.u32() as i32) >> self.below(32),
        }
    }
    pub fn b64(&mut self) -> i64 {
        if let Some(x) = self.special(6) { return x as i64 }
        const B: [i64; 10] = [0, 1, -1, 2, i32::MAX as i64, i32::MIN as i64, 1 << 32, i64::MAX, i64::MIN, 0x8000_0000];
        match self.below(3) {
            0 => *self.pick(&B),
            1 => self.u64() as i64,
            _ => (self.u64() as i64) >> self.below(64),
        }
    }
    pub fn f32bits(&mut self) -> u32 {
        if let Some(x) = self.special(6) { return if self.chance(1, 2) { x as u32 } else { (x as i64 as f32).to_bits() } }
        const B: [u32; 18] = [0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x4000_0000, 0xc000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0x7fff_ffff, 0xffff_ffff, 1, 0x8000_0001, 0x7f7f_ffff, 0x3f7f_ffff, 0x3f80_0001];
        match self.below(3) { 0 => *self.pick(&B), 1 => 0x7f80_0000 | self.u32(), _ => self.u32() }
    }
    pub fn f64bits(&mut self) -> u64 {
        if let Some(x) = self.special(6) { return if self.chance(1, 2) { x } else { (x as i64 as f64).to_bits() } }
        const B: [u64; 16] = [0, 1 << 63, 0x3ff0_0000_0000_0000, 0xbff0_0000_0000_0000, 0x4000_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0000, 0x7ff0_0000_0000_0001, u64::MAX, 1, 0x8000_0000_0000_0001, 0x7fef_ffff_ffff_ffff, 0x3fef_ffff_ffff_ffff, 0x3ff0_0000_0000_0001];
        match self.below(3) { 0 => *self.pick(&B), 1 => 0x7ff0_0000_0000_0000 | self.u64(), _ => self.u64() }
    }
}
