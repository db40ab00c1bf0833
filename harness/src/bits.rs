//! LSB-first bit writer and the header field codings of the JPEG XL codestream.
#[derive(Clone, Default)]
pub struct Bw {
    pub buf: Vec<u8>,
    pub nbits: usize,
    /// Nonzero: values with several encodings take a random one.
    pub alt: u64,
}
impl Bw {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn w(&mut self, n: usize, v: u64) {
        let v = spoil::field(n, v);
        debug_assert!(n == 64 || v < (1u64 << n), "value {v} does not fit {n} bits");
        for i in 0..n {
            let bit = ((v >> i) & 1) as u8;
            if self.nbits % 8 == 0 {
                self.buf.push(0);
            }
            *self.buf.last_mut().unwrap() |= bit << (self.nbits % 8);
            self.nbits += 1;
        }
    }
    pub fn b(&mut self, v: bool) {
        self.w(1, v as u64)
    }
    pub fn align(&mut self) {
        while self.nbits % 8 != 0 {
            self.w(1, 0);
        }
    }
    pub fn append(&mut self, o: &Bw) {
        for i in 0..o.nbits {
            self.w(1, ((o.buf[i / 8] >> (i % 8)) & 1) as u64);
        }
    }
    pub fn bytes(&mut self, b: &[u8]) {
        assert!(self.nbits % 8 == 0);
        self.buf.extend_from_slice(b);
        self.nbits += 8 * b.len();
    }
    /// u2S with (nbits, offset) arms; nbits 0 = constant. Picks the first arm that fits.
    pub fn u32(&mut self, arms: [(usize, u64); 4], v: u64) {
        if self.alt != 0 {
            let pick = self.turn() as usize;
            return self.u32_pick(arms, v, pick);
        }
        for (i, (n, off)) in arms.iter().enumerate() {
            if v >= *off && (v - off) < (1u64 << n) {
                self.w(2, i as u64);
                self.w(*n, v - off);
                return;
            }
        }
        panic!("u32 value {v} not encodable {arms:?}");
    }
    /// As `u32`, but the arm is chosen by `pick` among those that fit.
    pub fn u32_pick(&mut self, arms: [(usize, u64); 4], v: u64, pick: usize) {
        let ok: Vec<usize> = (0..4)
            .filter(|&i| v >= arms[i].1 && (v - arms[i].1) < (1u64 << arms[i].0))
            .collect();
        assert!(!ok.is_empty());
        let i = ok[pick % ok.len()];
        self.w(2, i as u64);
        self.w(arms[i].0, v - arms[i].1);
    }
    pub fn enumv(&mut self, v: u64) {
        self.u32([(0, 0), (0, 1), (4, 2), (6, 18)], v)
    }
    fn turn(&mut self) -> u64 {
        self.alt ^= self.alt << 13;
        self.alt ^= self.alt >> 7;
        self.alt ^= self.alt << 17;
        self.alt >> 20
    }
    pub fn u64v(&mut self, v: u64) {
        if self.alt != 0 && self.turn() % 3 == 0 {
            // the long form, with up to two groups of zeros
            let more = self.turn() % 3;
            self.w(2, 3);
            self.w(12, v & 0xfff);
            let mut v = v >> 12;
            let mut shift = 12;
            let mut k = 0;
            while v > 0 || k < more {
                if v == 0 {
                    k += 1;
                }
                self.w(1, 1);
                if shift == 60 {
                    self.w(4, v & 0xf);
                    return;
                }
                self.w(8, v & 0xff);
                v >>= 8;
                shift += 8;
            }
            self.w(1, 0);
        } else if v == 0 {
            self.w(2, 0);
        } else if v <= 16 {
            self.w(2, 1);
            self.w(4, v - 1);
        } else if v <= 272 {
            self.w(2, 2);
            self.w(8, v - 17);
        } else {
            self.w(2, 3);
            self.w(12, v & 0xfff);
            let mut v = v >> 12;
            let mut shift = 12;
            while v > 0 {
                self.w(1, 1);
                if shift == 60 {
                    self.w(4, v & 0xf);
                    return;
                }
                self.w(8, v & 0xff);
                v >>= 8;
                shift += 8;
            }
            self.w(1, 0);
        }
    }
    pub fn string(&mut self, s: &[u8]) {
        self.u32([(0, 0), (4, 0), (5, 16), (10, 48)], s.len() as u64);
        for &c in s {
            self.w(8, c as u64);
        }
    }
    pub fn varint16(&mut self, v: u64) {
        // decode_varint16
        if v == 0 {
            self.w(1, 0);
        } else {
            self.w(1, 1);
            let n = 63 - v.leading_zeros() as usize;
            self.w(4, n as u64);
            self.w(n, v - (1 << n));
        }
    }
    pub fn ans_u8(&mut self, v: u64) {
        if v == 0 {
            self.w(1, 0);
        } else {
            self.w(1, 1);
            let n = 63 - v.leading_zeros() as usize;
            self.w(3, n as u64);
            self.w(n, v - (1 << n));
        }
    }
    pub fn f16(&mut self, v: f32) {
        self.w(16, f32_to_f16(v) as u64)
    }
}
/// Exact conversion for values representable in binary16 (all we emit).
pub fn f32_to_f16(v: f32) -> u16 {
    let b = v.to_bits();
    let s = ((b >> 16) & 0x8000) as u16;
    let e = ((b >> 23) & 0xff) as i32 - 127;
    let m = b & 0x7fffff;
    if v == 0.0 {
        return s;
    }
    if e >= -14 {
        s | (((e + 15) as u16) << 10) | (m >> 13) as u16
    } else {
        let full = (m | 0x800000) >> (13 + (-14 - e));
        s | full as u16
    }
}
pub fn pack_signed(v: i32) -> u32 {
    ((v << 1) ^ (v >> 31)) as u32
}

/// Small deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// Damage done while a file is written: one field or one entropy-coded value gets another value.
pub mod spoil {
    use super::Rng;
    use std::cell::RefCell;
    #[derive(Default)]
    struct State {
        fields: u64,
        codes: u64,
        field: Option<u64>,
        code: Option<u64>,
        seed: u64,
    }
    thread_local!(static S: RefCell<State> = RefCell::default());
    /// Runs `f` with the damage; returns how many fields and codes were written.
    pub fn with<T>(field: Option<u64>, code: Option<u64>, seed: u64, f: impl FnOnce() -> T) -> (T, u64, u64) {
        S.with(|s| *s.borrow_mut() = State { fields: 0, codes: 0, field, code, seed });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let n = S.with(|s| {
            let s = std::mem::take(&mut *s.borrow_mut());
            (s.fields, s.codes)
        });
        match r {
            Ok(r) => (r, n.0, n.1),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    pub fn value(rng: &mut Rng, n: usize, v: u64) -> u64 {
        let all = if n >= 64 { u64::MAX } else { (1 << n) - 1 };
        let x = match rng.below(6) {
            0 => all,
            1 => 0,
            2 => v.wrapping_add(1),
            3 => v.wrapping_sub(1),
            4 => v ^ (1 << rng.below(n.clamp(1, 63) as u64)),
            _ => rng.next(),
        };
        x & all
    }
    pub fn field(n: usize, v: u64) -> u64 {
        S.with(|s| {
            let mut s = s.borrow_mut();
            s.fields += 1;
            if s.field == Some(s.fields - 1) { value(&mut Rng::new(s.seed), n, v) } else { v }
        })
    }
    /// Seed for spoiling the values of the code being written.
    pub fn code() -> Option<u64> {
        S.with(|s| {
            let mut s = s.borrow_mut();
            s.codes += 1;
            (s.code == Some(s.codes - 1)).then_some(s.seed)
        })
    }
}
