//! Writes container files and describes them for the specification.
use crate::bits::Rng;
use serde_json::{Value, json};

#[derive(Clone, Debug)]
pub struct BoxSpec {
    pub ty: [u8; 4],
    pub ext: bool,         // 64-bit size form
    pub eof: bool,         // size 0
    pub bad: bool,         // declared size smaller than the header
    pub claim: Option<u64>, // declared content length when it differs from the payload
    pub idx: u32,
    pub last: bool,
    pub ver: i64, // ftyp version; -1 wrong brand
    pub payload: Vec<u8>,
    pub src: usize, // offset in the codestream from which the payload was taken
}
impl BoxSpec {
    pub fn new(ty: &[u8; 4], payload: Vec<u8>) -> Self {
        BoxSpec { ty: *ty, ext: false, eof: false, bad: false, claim: None, idx: 0, last: false, ver: 0, payload, src: 0 }
    }
    pub fn ftyp(ver: i64) -> Self {
        let mut b = BoxSpec::new(b"ftyp", b"jxl ".to_vec());
        b.ver = ver;
        b
    }
    pub fn jxlp(idx: u32, last: bool, payload: Vec<u8>) -> Self {
        let mut b = BoxSpec::new(b"jxlp", payload);
        b.idx = idx;
        b.last = last;
        b
    }
    fn extra(&self) -> usize {
        match &self.ty {
            b"jxlp" => 4,
            b"ftyp" => 8,
            _ => 0,
        }
    }
    pub fn header_len(&self) -> usize {
        (if self.ext { 16 } else { 8 }) + self.extra()
    }
    pub fn write(&self, out: &mut Vec<u8>) {
        let base = if self.ext { 16 } else { 8 };
        let full = (base + self.extra()) as u64 + self.claim.unwrap_or(self.payload.len() as u64);
        let size = if self.eof {
            0
        } else if self.bad {
            // between the smallest encodable size and one less than the header
            let lo = if self.ext { 1 } else { 2 };
            lo + (self.idx as u64 * 7 + self.payload.len() as u64) % (base as u64 + self.extra() as u64 - lo)
        } else {
            full
        };
        if self.ext {
            out.extend([0, 0, 0, 1]);
            out.extend(self.ty);
            out.extend(size.to_be_bytes());
        } else {
            out.extend((size as u32).to_be_bytes());
            out.extend(self.ty);
        }
        match &self.ty {
            b"ftyp" => {
                out.extend(if self.ver < 0 { b"jxm " } else { b"jxl " });
                out.extend((self.ver.max(0) as u32).to_be_bytes());
            }
            b"jxlp" => out.extend((self.idx | (self.last as u32) << 31).to_be_bytes()),
            _ => {}
        }
        out.extend(&self.payload);
    }
    pub fn json(&self, cs: &[u8]) -> Value {
        let want = cs.get(self.src..).unwrap_or(&[]);
        let mut g = want.iter().zip(&self.payload).take_while(|(a, b)| a == b).count();
        if g == want.len() {
            g = 1 << 30; // whatever follows the codestream does not matter
        }
        let t = match &self.ty {
            b"ftyp" => "ftyp",
            b"jxlc" => "jxlc",
            b"jxlp" => "jxlp",
            _ => "skip",
        };
        let len = if self.eof { -1 } else { self.claim.unwrap_or(self.payload.len() as u64).min(1_000_000_000) as i64 };
        json!({"t": t, "hdr": self.header_len(), "len": len, "idx": self.idx, "last": self.last,
               "good": !self.bad, "ver": self.ver, "src": self.src, "g": g})
    }
}
pub const SIG: [u8; 12] = [0, 0, 0, 0xc, b'J', b'X', b'L', b' ', 0xd, 0xa, 0x87, 0xa];
pub fn write(boxes: &[BoxSpec]) -> Vec<u8> {
    let mut v = SIG.to_vec();
    for b in boxes {
        b.write(&mut v);
    }
    v
}
const OTHER: [&[u8; 4]; 7] = [b"Exif", b"xml ", b"jxll", b"brob", b"jbrd", b"jxli", b"zzzz"];

pub fn other(rng: &mut Rng) -> BoxSpec {
    let n = *rng.pick(&[0u64, 0, 1, 7, 40, 300, 3000]);
    let mut b = BoxSpec::new(*rng.pick(&OTHER), (0..n).map(|_| rng.next() as u8).collect());
    b.ext = rng.chance(1, 4);
    b
}

/// A random arrangement of the codestream in boxes; mostly valid.
pub fn arrange(rng: &mut Rng, cs: &[u8], cuts: &[usize]) -> Vec<BoxSpec> {
    let ver = rng.below(2) as i64;
    let mut v = vec![BoxSpec::ftyp(ver)];
    v[0].payload = (0..*rng.pick(&[0u64, 4, 8, 1])).map(|_| rng.next() as u8).collect();
    let mut parts = vec![];
    if rng.chance(1, 4) {
        let mut b = BoxSpec::new(b"jxlc", cs.to_vec());
        if rng.chance(1, 4) {
            b.payload.extend(vec![7; 1 + rng.below(40) as usize]); // unused tail
        }
        parts.push(b);
    } else {
        // cut at random places, favouring the interesting ones
        let k = 1 + rng.below(6) as usize;
        let mut at: Vec<usize> = (0..k)
            .map(|_| {
                if rng.chance(1, 2) {
                    let c = *rng.pick(cuts) as i64 + rng.range(-1, 1);
                    c.clamp(0, cs.len() as i64) as usize
                } else {
                    rng.below(cs.len() as u64 + 1) as usize
                }
            })
            .collect();
        at.push(0);
        at.push(cs.len());
        at.sort();
        let n = at.len() - 1;
        for i in 0..n {
            parts.push(BoxSpec::jxlp(i as u32, i + 1 == n, cs[at[i]..at[i + 1]].to_vec()));
            parts[i].src = at[i];
        }
        if rng.chance(1, 6) {
            parts.last_mut().unwrap().last = false; // end never marked
        }
        if rng.chance(1, 8) {
            parts.last_mut().unwrap().payload.extend(vec![9; 5]);
        }
    }
    for p in parts.iter_mut() {
        p.ext = rng.chance(1, 4);
    }
    let shuffled = ver == 1 && parts.len() > 1 && rng.chance(2, 3);
    if shuffled {
        if rng.chance(1, 2) {
            rng.shuffle(&mut parts);
        } else {
            let i = rng.below(parts.len() as u64 - 1) as usize;
            parts.swap(i, i + 1);
        }
    }
    for p in parts {
        while rng.chance(1, 4) {
            v.push(other(rng));
        }
        v.push(p);
    }
    if rng.chance(1, 3) {
        v.push(other(rng));
    }
    // occasionally break a rule
    if rng.chance(1, 5) {
        let n = v.len();
        match rng.below(8) {
            0 => v[0].ver = *rng.pick(&[-1i64, 2, 256]),
            1 => v.insert(1 + rng.below(n as u64) as usize, BoxSpec::ftyp(1)),
            2 => {
                let i = rng.below(n as u64) as usize;
                v[i].bad = true;
            }
            3 => v.insert(1 + rng.below(n as u64) as usize, BoxSpec::new(b"jxlc", vec![1, 2, 3])),
            4 => {
                let i = rng.below(n as u64) as usize;
                let b = v[i].clone();
                v.insert(rng.below(n as u64) as usize + 1, b);
            }
            5 => {
                let i = rng.below(n as u64) as usize;
                v[i].idx = v[i].idx.wrapping_add(rng.below(3) as u32) & 0x7fff_ffff;
            }
            6 => {
                v.remove(0);
            }
            _ => {
                let i = rng.below(n as u64) as usize;
                v[i].last = !v[i].last;
            }
        }
    }
    let n = v.len();
    if n > 0 && rng.chance(1, 4) {
        // the size 0 form reaches to the end of the file
        v[n - 1].eof = !(v[n - 1].bad);
        v[n - 1].ext = v[n - 1].ext && !v[n - 1].eof;
    } else if n > 0 && rng.chance(1, 10) {
        let b = &mut v[n - 1];
        b.ext = true;
        b.claim = Some(b.payload.len() as u64 + *rng.pick(&[1u64, 1 << 32, 1 << 60]));
    }
    v
}
