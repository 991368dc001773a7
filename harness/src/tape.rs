//! A choice tape. proptest generates (and shrinks) vectors of u32; every random
//! decision of a generator is read from such a tape. An exhausted tape yields
//! zeros, and zero always means the simplest choice, so removing or lowering
//! tape entries simplifies the generated case.
#[derive(Clone, Debug)]
pub struct Tape {
    v: Vec<u32>,
    i: usize,
    /// A pending wish for one unusually long list of this kind (0: none).
    pub stretch: u8,
    /// The number of elements of a list that got its wish.
    pub stretched: usize,
    tail: u64,
    tail_left: usize,
}
impl Tape {
    pub fn new(v: Vec<u32>) -> Tape {
        Tape { v, i: 0, stretch: 0, stretched: 0, tail: 0, tail_left: 0 }
    }
    pub fn empty() -> Tape {
        Tape::new(vec![])
    }
    /// Lets the tape go on with `n` values derived from a drawn seed once its
    /// own are used up (a zero seed: zeros).
    pub fn extend(&mut self, n: usize) {
        self.tail = self.raw() as u64;
        self.tail_left = n;
    }
    /// Whether a list of one of these kinds is wanted in this place.
    pub fn wants(&self, kinds: &[u8]) -> bool {
        self.stretch != 0 && kinds.contains(&self.stretch)
    }
    /// Grants the wish for a long list of this kind: its length.
    pub fn grant(&mut self, kind: u8, max: usize) -> Option<usize> {
        if self.stretch != kind || kind == 0 {
            return None;
        }
        self.stretch = 0;
        // most are about as long as a byte can count, a few longer than 16 bits
        let n = match self.n(256) {
            0..=63 => self.range(16, 64),
            64..=127 => self.range(126, 130),
            128..=191 => self.range(254, 260),
            192..=239 => self.range(250, 420),
            240..=251 => self.range(1000, 1100),
            252..=254 => self.range(4090, 4200),
            _ => self.range(65530, 65600),
        } as usize;
        self.stretched = n.min(max);
        if n > 1000 && self.tail != 0 {
            self.tail_left += self.stretched * 8;
        }
        Some(self.stretched)
    }
    pub fn exhausted(&self) -> bool {
        self.i >= self.v.len() && (self.tail == 0 || self.tail_left == 0)
    }
    pub fn left(&self) -> usize {
        self.v.len().saturating_sub(self.i)
    }
    pub fn raw(&mut self) -> u32 {
        if let Some(x) = self.v.get(self.i).copied() {
            self.i += 1;
            return x;
        }
        self.i += 1;
        if self.tail_left == 0 || self.tail == 0 {
            return 0;
        }
        self.tail_left -= 1;
        self.tail = self.tail.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.tail;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        (z >> 32) as u32
    }
    /// Uniform in 0..n (n >= 1), monotone in the tape value.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if n <= 1 << 32 {
            (self.raw() as u64 * n) >> 32
        } else {
            let x = (self.raw() as u64) << 32 | self.raw() as u64;
            ((x as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability num/den; the zero tape gives false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.n(xs.len())].clone()
    }
    /// Index drawn with the given weights; the zero tape gives the first with
    /// non-zero weight.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot.max(1));
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// Geometric-ish count in 0..=max.
    pub fn count(&mut self, max: usize) -> usize {
        if self.exhausted() {
            return 0;
        }
        match self.n(4) {
            0 => self.n(max.min(1) + 1),
            1 => self.n(max.min(3) + 1),
            _ => self.n(max + 1),
        }
    }
    /// u32 with emphasis on small values and width boundaries.
    pub fn u32b(&mut self) -> u32 {
        match self.n(5) {
            0 => self.below(16) as u32,
            1 => self.below(256) as u32,
            2 => {
                let k = self.below(33) as u32;
                let d = self.below(3);
                ((1u64 << k) + d).wrapping_sub(1) as u32
            }
            3 => self.below(1 << 20) as u32,
            _ => self.raw(),
        }
    }
    pub fn u64b(&mut self) -> u64 {
        match self.n(4) {
            0 => self.below(256),
            1 => self.u32b() as u64,
            2 => {
                let k = self.below(65) as u32;
                let d = self.below(3);
                1u64.checked_shl(k).unwrap_or(0).wrapping_add(d).wrapping_sub(1)
            }
            _ => (self.raw() as u64) << 32 | self.raw() as u64,
        }
    }
    pub fn u16b(&mut self) -> u16 {
        match self.n(8) {
            0..=1 => self.below(16) as u16,
            2..=3 => self.below(256) as u16,
            4 => {
                let k = self.below(17) as u32;
                let d = self.below(3) as u32;
                (1u32 << k).wrapping_add(d).wrapping_sub(1) as u16
            }
            _ => self.raw() as u16,
        }
    }
    pub fn u8b(&mut self) -> u8 {
        match self.n(2) {
            0 => match self.below(6) {
                k @ 0..4 => k as u8,
                k => 250 + k as u8,
            },
            _ => self.below(256) as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        // A short seed expanded deterministically: payload content needs
        // variety, not one choice per byte.
        let seed = self.raw();
        let mut x = seed as u64 ^ 0x9E37_79B9_7F4A_7C15;
        (0..n)
            .map(|_| {
                if seed == 0 {
                    return 0;
                }
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 24) as u8
            })
            .collect()
    }
    pub fn guid(&mut self) -> [u8; 16] {
        let a = self.raw();
        let mut g = [0u8; 16];
        g[0..4].copy_from_slice(&a.to_le_bytes());
        g[15] = 1;
        if a != 0 {
            let b = a.wrapping_mul(0x85EB_CA6B) ^ 0x5bd1_e995;
            let c = b.wrapping_mul(0xC2B2_AE35) ^ (a >> 5);
            g[4..8].copy_from_slice(&b.to_le_bytes());
            g[8..12].copy_from_slice(&c.to_le_bytes());
            g[12..15].copy_from_slice(&(b ^ c).to_le_bytes()[..3]);
        }
        g
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 1..xs.len() {
            // zero tape: j == i, i.e. identity
            let j = i - self.n(i + 1);
            xs.swap(i, j);
        }
    }
    /// Finite f32 (and infinities), simple values first.
    pub fn f32v(&mut self) -> f32 {
        match self.n(5) {
            0 => self.below(100) as f32,
            1 => self.below(4000) as f32 / 16.0,
            2 => -(self.below(4000) as f32 / 16.0),
            3 => self.pick(&[0.0, -0.0, 1.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, 1e-40]),
            _ => {
                let f = f32::from_bits(self.raw());
                if f.is_nan() { 0.5 } else { f }
            }
        }
    }
    /// Text without NUL.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.count(max);
        let kind = self.n(6);
        let mut x: String = (0..n)
            .map(|_| {
                let k = if kind == 5 { self.n(5) } else { kind };
                let c = match k {
                    0 | 1 => self.range(0x61, 0x7a) as u32,
                    2 => self.range(0x20, 0x7e) as u32,
                    3 => self.range(0xa0, 0x17f) as u32,
                    4 => {
                        let c = self.range(1, 0xffff - 0x800) as u32;
                        if c >= 0xd800 { c + 0x800 } else { c }
                    }
                    _ => self.range(0x10000, 0x10ffff) as u32,
                };
                char::from_u32(c).unwrap_or('?')
            })
            .collect();
        if n > 1 && self.chance(1, 8) {
            // characters that are easily taken for something else
            let c = self.pick(&['\u{feff}', '\u{fffe}', '\u{fffd}', '\u{fffc}', '\u{ffff}', ' ', '\n', '\r', '\t', '\u{b}', '\u{a0}', '\u{200b}', '.', '\u{1}', '\u{301}', '\u{10ffff}', '\u{10000}', '\u{d7ff}', '\u{e000}', '"', '\\']);
            match self.n(4) {
                0 => x.push(c),
                1 => x.insert(0, c),
                2 => {
                    // sequences that are easily merged, trimmed or rewritten
                    let s = self.pick(&["\r\n", "\n\n", "  ", "\t ", "\r", "&amp;", "%20", "\\n", "..", "//", "\u{65}\u{301}", "\u{fb01}", "\u{1f468}\u{200d}\u{1f469}"]);
                    let mut v: Vec<char> = x.chars().collect();
                    let k = self.n(v.len() + 1);
                    v.splice(k..k, s.chars());
                    x = v.into_iter().collect();
                }
                _ => {
                    let mut v: Vec<char> = x.chars().collect();
                    let k = self.n(v.len());
                    v.insert(k, c);
                    x = v.into_iter().collect();
                }
            }
        }
        x
    }
    pub fn astral(&mut self) -> char {
        char::from_u32(self.range(0x10000, 0x10ffff) as u32).unwrap()
    }
}
