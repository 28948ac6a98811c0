//! Choice-sequence source: every random decision of a case is one bounded draw.  A case is the
//! list of its draws; shrinking edits that list and re-runs the property, replay feeds it back.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0x2545_F491_4F6C_DD1D));
    r.next();
    r.next()
}

pub struct Src {
    forced: Option<Vec<u64>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u64>,
    pub stream: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { forced: None, pos: 0, rng: Rng::new(seed), rec: Vec::new(), stream: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { forced: Some(choices), pos: 0, rng: Rng::new(0), rec: Vec::new(), stream: None }
    }
    /// Uniform in 0..n (n >= 1). 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &self.forced {
            Some(f) => {
                let v = f.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
            None => {
                // multiply-shift
                ((self.rng.next() as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn bits(&mut self) -> u64 {
        let v = match &self.forced {
            Some(f) => f.get(self.pos).copied().unwrap_or(0),
            None => self.rng.next(),
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi.wrapping_sub(lo) as u64).wrapping_add(1).max(1)) as i64)
    }
    /// true with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// Index by weight.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // choice 0 keeps the element in place
            let j = i - self.us(i + 1);
            xs.swap(i, j);
        }
    }
    /// Small sizes mostly, sometimes large.
    pub fn size(&mut self, small: u64, large: u64) -> usize {
        if self.chance(1, 16) {
            self.below(large + 1) as usize
        } else {
            self.below(small + 1) as usize
        }
    }

    // ---- common leaf values -------------------------------------------------------------

    pub fn int_bits(&mut self, width: u32) -> u64 {
        let v = match self.weighted(&[3, 3, 3, 2]) {
            0 => self.below(4),
            1 => {
                // random magnitude
                let b = self.below(width as u64 + 1) as u32;
                let x = self.bits();
                if b == 0 { 0 } else { x & (u64::MAX >> (64 - b)) }
            }
            2 => {
                let specials: [u64; 22] = [
                    1, 127, 128, 255, 256, 16383, 16384, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
                    0x1_0000_0000, u64::MAX, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000,
                    (1u64 << 53) - 1, (1 << 53) + 1, (-2i64) as u64, 2147483649, 999_999_999,
                    0xffff_ffff_8000_0000, 0xffff_ffff_7fff_ffff, 0x7fff_ffff_ffff_fbff,
                ];
                *self.pick(&specials)
            }
            _ => self.bits(),
        };
        if width == 32 { v & 0xffff_ffff } else { v }
    }
    pub fn i32v(&mut self) -> i32 {
        let v = self.int_bits(32) as i32;
        if self.chance(1, 3) { v.wrapping_neg() } else { v }
    }
    pub fn i64v(&mut self) -> i64 {
        let v = self.int_bits(64) as i64;
        if self.chance(1, 3) { v.wrapping_neg() } else { v }
    }
    pub fn u32v(&mut self) -> u32 {
        self.int_bits(32) as u32
    }
    pub fn u64v(&mut self) -> u64 {
        self.int_bits(64)
    }
    pub fn f64v(&mut self) -> f64 {
        match self.weighted(&[3, 4, 3, 2]) {
            0 => self.below(10) as f64,
            1 => {
                let sp = [
                    -0.0, 1.5, -2.25, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN,
                    f64::MIN_POSITIVE, 5e-324, 0.1, 1e15, 1e16, 1e17, 1e21, 1e22, 1e100, -1e-7, 123456789.125,
                    9007199254740993.0, 9223372036854775808.0, 18446744073709551616.0, 3.4028235e38, 1e-310, 0.3,
                    4294967296.0, -2147483649.0,
                ];
                *self.pick(&sp)
            }
            2 => {
                let f = f64::from_bits(self.bits());
                if f.is_nan() { f64::NAN } else { f }
            }
            _ => {
                let m = self.i64v() as f64;
                let d = *self.pick(&[1.0, 2.0, 10.0, 1000.0, 3.0, 1e9]);
                m / d
            }
        }
    }
    pub fn f32v(&mut self) -> f32 {
        match self.weighted(&[3, 4, 3, 2]) {
            0 => self.below(10) as f32,
            1 => {
                let sp = [
                    -0.0f32, 1.5, -2.25, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN,
                    f32::MIN_POSITIVE, 1e-45, 0.1, 1e7, 1e15, 1e16, 16777217.0, 1e-10, 0.3, 1e30, -1e-7, 3.4028233e38,
                    7.038531e-26, -7.038531e-26,
                ];
                *self.pick(&sp)
            }
            2 => {
                let f = f32::from_bits(self.bits() as u32);
                if f.is_nan() { f32::NAN } else { f }
            }
            _ => {
                let m = self.i32v() as f32;
                let d = *self.pick(&[1.0f32, 2.0, 10.0, 1000.0, 3.0]);
                m / d
            }
        }
    }
    pub fn ch(&mut self) -> char {
        match self.weighted(&[6, 2, 2, 2, 1]) {
            0 => (b'a' + self.below(26) as u8) as char,
            1 => (0x20 + self.below(95) as u8) as char,
            2 => *self.pick(&[
                '"', '\'', '\\', '\n', '\r', '\t', '\0', '\u{7f}', '\u{1}', '/', '?', '7', '0', 'x', 'n', '\u{b}',
                '\u{c}', '\u{8}', '\u{7}', '\u{1b}', 'u', 'f', 'e', '\u{80}', '\u{9f}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}',
            ]),
            3 => *self.pick(&['é', 'ß', 'λ', '中', '\u{ffff}', '\u{d7ff}', '\u{e000}', '😀', '\u{10ffff}', '\u{301}']),
            _ => char::from_u32(self.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        }
    }
    pub fn string(&mut self) -> String {
        let n = self.size(6, 150);
        (0..n).map(|_| self.ch()).collect()
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        match self.weighted(&[3, 2]) {
            0 => {
                let n = self.size(6, 150);
                (0..n)
                    .map(|_| {
                        if self.flip() {
                            self.below(256) as u8
                        } else {
                            *self.pick(&[0u8, b'a', b'\\', b'"', b'\'', b'\n', 0x7f, 0x80, 0xff, b'0', b'7', 0x1f, 0xc3, 0xa9, b'\r', b'\t', b'?'])
                        }
                    })
                    .collect()
            }
            _ => self.string().into_bytes(),
        }
    }
}

/// Bytes in a buffer of several pieces.
pub struct Chunks { data: Vec<u8>, cuts: Vec<usize>, at: usize }
impl Src {
    /// The bytes, mostly in one piece.
    pub fn split(&mut self, data: impl AsRef<[u8]>) -> Chunks {
        let data = data.as_ref().to_vec();
        let mut cuts = vec![];
        if data.len() > 1 && self.chance(1, 4) {
            if self.chance(1, 6) {
                cuts = (1..data.len()).collect();
            } else {
                for _ in 0..1 + self.below(6) {
                    cuts.push(1 + self.us(data.len() - 1));
                }
                cuts.sort();
                cuts.dedup();
            }
        }
        cuts.push(data.len());
        Chunks { data, cuts, at: 0 }
    }
}
impl prost::bytes::Buf for Chunks {
    fn remaining(&self) -> usize {
        self.data.len() - self.at
    }
    fn chunk(&self) -> &[u8] {
        let end = self.cuts[self.cuts.partition_point(|&c| c <= self.at).min(self.cuts.len() - 1)];
        &self.data[self.at..end]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining(), "harness: cannot advance past the end of the buffer");
        self.at += n;
    }
}
