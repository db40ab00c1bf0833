//! Entropy encoder: prefix codes and ANS, arbitrary clustering, hybrid integer
//! configurations and LZ77. Everything here is the inverse of what the codestream
//! format prescribes; nothing is shared with the decoder under test.
use crate::bits::{Bw, Rng};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Uint {
    pub split: u32,
    pub msb: u32,
    pub lsb: u32,
}
impl Uint {
    pub fn encode(&self, v: u32) -> (u32, usize, u32) {
        // (token, nbits, bits)
        if self.split >= 32 || (v as u64) < (1u64 << self.split) {
            return (v, 0, 0);
        }
        let n = 31 - v.leading_zeros();
        let m = v - (1 << n);
        let token = (1u32 << self.split)
            + ((n - self.split) << (self.msb + self.lsb))
            + ((m >> (n - self.msb)) << self.lsb)
            + (m & ((1 << self.lsb) - 1));
        let nb = n - self.msb - self.lsb;
        let bits = ((m as u64 >> self.lsb) & ((1u64 << nb) - 1)) as u32;
        (token, nb as usize, bits)
    }
    fn write(&self, log_alpha: usize, bw: &mut Bw) {
        let cl = |x: usize| -> usize { (usize::BITS - (x - 1).leading_zeros()) as usize };
        let clog = |x: usize| if x <= 1 { 0 } else { cl(x) };
        bw.w(clog(log_alpha + 1), self.split as u64);
        if self.split as usize != log_alpha {
            bw.w(clog(self.split as usize + 1), self.msb as u64);
            bw.w(clog((self.split - self.msb) as usize + 1), self.lsb as u64);
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Lz {
    pub min_symbol: u32,
    pub min_length: u32,
    pub len_uint: Uint,
    pub rle_only: bool,
    pub dist_uint: Uint,
}

#[derive(Clone, Debug)]
pub struct EntOpts {
    pub prefix: bool,
    pub log_alpha: usize,
    pub uints: Vec<Uint>,
    pub clusters: usize, // max number of clusters
    pub ctx_simple: bool,
    pub ctx_mtf: bool,
    pub lz: Option<Lz>,
    pub seed: u64,
}
impl EntOpts {
    pub fn plain() -> Self {
        EntOpts {
            prefix: true,
            log_alpha: 8,
            uints: vec![Uint { split: 4, msb: 2, lsb: 0 }],
            clusters: 1,
            ctx_simple: true,
            ctx_mtf: false,
            lz: None,
            seed: 1,
        }
    }
    pub fn random(rng: &mut Rng, allow_lz: bool) -> Self {
        let prefix = rng.chance(1, 2);
        let log_alpha = if prefix { 15 } else { 5 + rng.below(4) as usize };
        let nu = 1 + rng.below(3) as usize;
        let mut uints: Vec<Uint> = (0..nu).map(|_| Self::rand_uint(rng, log_alpha, prefix)).collect();
        if rng.chance(1, 3) && (prefix || log_alpha == 8) {
            // the most common configuration and its neighbours
            let near = *rng.pick(&[
                Uint { split: 4, msb: 2, lsb: 0 },
                Uint { split: 4, msb: 2, lsb: 1 },
                Uint { split: 4, msb: 1, lsb: 0 },
                Uint { split: 4, msb: 2, lsb: 2 },
            ]);
            for u in uints.iter_mut() {
                *u = if rng.chance(1, 2) { near } else { Uint { split: 4, msb: 2, lsb: 0 } };
                if !prefix && u.lsb == 2 {
                    u.lsb = 1;
                }
            }
        }
        let lz = if allow_lz && rng.chance(1, 3) && (prefix || log_alpha == 8) {
            let rle_only = rng.chance(1, 2);
            Some(Lz {
                min_symbol: if rng.chance(1, 3) { 200 + rng.below(24) as u32 } else { 224 },
                min_length: *rng.pick(&[3u32, 4, 5, 7, 9, 20]),
                len_uint: *rng.pick(&[
                    Uint { split: 0, msb: 0, lsb: 0 },
                    Uint { split: 4, msb: 1, lsb: 0 },
                    Uint { split: 2, msb: 0, lsb: 1 },
                ]),
                rle_only,
                dist_uint: if rle_only && rng.chance(2, 3) {
                    Uint { split: 0, msb: 0, lsb: 0 }
                } else {
                    Uint { split: 4, msb: 2, lsb: 0 }
                },
            })
        } else {
            None
        };
        let uints = if lz.is_some() {
            vec![Uint { split: 4, msb: 2, lsb: 0 }]
        } else {
            uints
        };
        EntOpts {
            prefix,
            log_alpha,
            uints,
            clusters: 1 + rng.below(6) as usize,
            ctx_simple: rng.chance(1, 2),
            ctx_mtf: rng.chance(1, 2),
            lz,
            seed: rng.next(),
        }
    }
    pub fn rand_uint(rng: &mut Rng, log_alpha: usize, prefix: bool) -> Uint {
        // keep every 32-bit value encodable inside the alphabet
        let limit = if prefix { 1u64 << 14 } else { 1u64 << log_alpha };
        for _ in 0..50 {
            let split = rng.below(if prefix { 9 } else { log_alpha as u64 + 1 }) as u32;
            let msb = rng.below(split as u64 + 1) as u32;
            let lsb = rng.below((split - msb) as u64 + 1) as u32;
            let u = Uint { split, msb, lsb };
            if !prefix && split as usize == log_alpha {
                continue;
            }
            let (tok, _, _) = u.encode(u32::MAX);
            if (tok as u64) < limit.min(200) {
                return u;
            }
        }
        if log_alpha == 5 {
            // 32 symbols: only (0,0,0) covers 32-bit values: 1 + 31
            Uint { split: 0, msb: 0, lsb: 0 }
        } else {
            Uint { split: 1, msb: 0, lsb: 0 }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sym {
    Lit { ctx: usize, val: u32 },
    Copy { ctx: usize, len: u32, dist_sym: u32 },
}

/// A sequence of (context, value) plus the distance multiplier of the stream.
#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub toks: Vec<(usize, u32)>,
    pub width: usize,
}

const SPECIAL: [(i32, i32); 120] = [
    (0, 1), (1, 0), (1, 1), (-1, 1), (0, 2), (2, 0), (1, 2), (-1, 2), (2, 1), (-2, 1),
    (2, 2), (-2, 2), (0, 3), (3, 0), (1, 3), (-1, 3), (3, 1), (-3, 1), (2, 3), (-2, 3),
    (3, 2), (-3, 2), (0, 4), (4, 0), (1, 4), (-1, 4), (4, 1), (-4, 1), (3, 3), (-3, 3),
    (2, 4), (-2, 4), (4, 2), (-4, 2), (0, 5), (3, 4), (-3, 4), (4, 3), (-4, 3), (5, 0),
    (1, 5), (-1, 5), (5, 1), (-5, 1), (2, 5), (-2, 5), (5, 2), (-5, 2), (4, 4), (-4, 4),
    (3, 5), (-3, 5), (5, 3), (-5, 3), (0, 6), (6, 0), (1, 6), (-1, 6), (6, 1), (-6, 1),
    (2, 6), (-2, 6), (6, 2), (-6, 2), (4, 5), (-4, 5), (5, 4), (-5, 4), (3, 6), (-3, 6),
    (6, 3), (-6, 3), (0, 7), (7, 0), (1, 7), (-1, 7), (5, 5), (-5, 5), (7, 1), (-7, 1),
    (4, 6), (-4, 6), (6, 4), (-6, 4), (2, 7), (-2, 7), (7, 2), (-7, 2), (3, 7), (-3, 7),
    (7, 3), (-7, 3), (5, 6), (-5, 6), (6, 5), (-6, 5), (8, 0), (4, 7), (-4, 7), (7, 4),
    (-7, 4), (8, 1), (8, 2), (6, 6), (-6, 6), (8, 3), (5, 7), (-5, 7), (7, 5), (-7, 5),
    (8, 4), (6, 7), (-6, 7), (7, 6), (-7, 6), (8, 5), (7, 7), (-7, 7), (8, 6), (8, 7),
];

fn lz_transform(s: &Stream, lz: &Lz, rng: &mut Rng) -> Vec<Sym> {
    let t = &s.toks;
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut best = (0usize, 0usize);
        if i > 0 {
            let maxd = if lz.rle_only { 1 } else { i.min(600) };
            let start = if lz.rle_only { 1 } else { 1 + rng.below(3) as usize };
            for d in start..=maxd {
                let mut l = 0;
                while i + l < t.len() && t[i + l].1 == t[i + l - d].1 && l < 3000 {
                    l += 1;
                }
                if l > best.0 {
                    best = (l, d);
                }
                if d > 64 && best.0 > 20 {
                    break;
                }
            }
        }
        let mut l = best.0;
        if l >= lz.min_length as usize && rng.chance(9, 10) {
            if rng.chance(1, 4) {
                l = lz.min_length as usize + rng.below((l - lz.min_length as usize) as u64 + 1) as usize;
            }
            let d = best.1;
            let ds = if s.width == 0 {
                d as u32 - 1
            } else if lz.rle_only {
                1
            } else {
                let cands: Vec<usize> = (0..120)
                    .filter(|&k| {
                        let (o, dd) = SPECIAL[k];
                        let v = s.width as i64 * dd as i64 + o as i64;
                        v == d as i64
                    })
                    .collect();
                if !cands.is_empty() && rng.chance(3, 4) {
                    *rng.pick(&cands) as u32
                } else {
                    d as u32 + 119
                }
            };
            out.push(Sym::Copy { ctx: t[i].0, len: l as u32, dist_sym: ds });
            i += l;
        } else {
            out.push(Sym::Lit { ctx: t[i].0, val: t[i].1 });
            i += 1;
        }
    }
    out
}

#[derive(Clone)]
struct AnsTable {
    freqs: Vec<u32>,
    slots: Vec<Vec<u32>>,
}
#[derive(Clone)]
struct PrefixTable {
    lens: Vec<u8>,
    codes: Vec<u32>,
}
#[derive(Clone)]
enum Tables {
    Ans(Vec<AnsTable>),
    Prefix(Vec<PrefixTable>),
}
#[derive(Clone)]
pub struct Code {
    opts: EntOpts,
    ctxmap: Vec<usize>,
    nclusters: usize,
    uints: Vec<Uint>,
    tables: Tables,
    num_ctx: usize,
    hist: Vec<Vec<u64>>,
    rng: Rng,
}

impl Code {
    /// Build a code able to write all `streams`.
    pub fn build(num_ctx: usize, streams: &[Stream], opts: &EntOpts) -> (Code, Vec<Vec<Sym>>) {
        let mut rng = Rng::new(opts.seed);
        let spoilt = crate::bits::spoil::code().map(|seed| spoilt(streams, seed));
        let streams = spoilt.as_deref().unwrap_or(streams);
        let syms: Vec<Vec<Sym>> = streams
            .iter()
            .map(|s| match &opts.lz {
                Some(l) => lz_transform(s, l, &mut rng),
                None => s.toks.iter().map(|&(ctx, val)| Sym::Lit { ctx, val }).collect(),
            })
            .collect();
        let total_ctx = num_ctx + opts.lz.is_some() as usize;
        let ncl = opts.clusters.max(1).min(total_ctx).min(if opts.ctx_simple { 8 } else { 250 });
        // random surjective map onto 0..ncl, LZ distance context alone when rle
        let mut ctxmap: Vec<usize> = (0..total_ctx).map(|_| rng.below(ncl as u64) as usize).collect();
        if ncl == 1 {
            ctxmap = vec![0; total_ctx];
        }
        if opts.lz.is_some() {
            // distance context in its own cluster
            *ctxmap.last_mut().unwrap() = ncl;
        }
        // remap to remove holes
        let mut used: Vec<usize> = ctxmap.clone();
        used.sort();
        used.dedup();
        if rng.chance(1, 2) && !opts.ctx_simple {
            // arbitrary numbering
            rng.shuffle(&mut used);
        }
        let mut ctxmap: Vec<usize> =
            ctxmap.iter().map(|c| used.iter().position(|u| u == c).unwrap()).collect();
        let mut nclusters = used.len();
        if opts.ctx_simple && nclusters > 8 {
            for c in ctxmap.iter_mut() {
                *c %= 8;
            }
            nclusters = 8;
        }
        let mut uints: Vec<Uint> =
            (0..nclusters).map(|i| opts.uints[i % opts.uints.len()]).collect();
        if let Some(l) = &opts.lz {
            uints[*ctxmap.last().unwrap()] = l.dist_uint;
        }
        let mut hist: Vec<Vec<u64>> = vec![vec![]; nclusters];
        let bump = |h: &mut Vec<Vec<u64>>, c: usize, t: u32| {
            if h[c].len() <= t as usize {
                h[c].resize(t as usize + 1, 0);
            }
            h[c][t as usize] += 1;
        };
        for s in &syms {
            for y in s {
                match *y {
                    Sym::Lit { ctx, val } => {
                        let cl = ctxmap[ctx];
                        bump(&mut hist, cl, uints[cl].encode(val).0);
                    }
                    Sym::Copy { ctx, len, dist_sym } => {
                        let l = opts.lz.as_ref().unwrap();
                        bump(
                            &mut hist,
                            ctxmap[ctx],
                            l.min_symbol + l.len_uint.encode(len - l.min_length).0,
                        );
                        let dc = *ctxmap.last().unwrap();
                        bump(&mut hist, dc, uints[dc].encode(dist_sym).0);
                    }
                }
            }
        }
        for h in hist.iter_mut() {
            if h.is_empty() {
                h.push(1);
            }
            // occasionally add unused symbols to the alphabet
            if rng.chance(1, 8) && h.len() < 20 && opts.lz.is_none() {
                h.push(1);
            }
        }
        if let Some(l) = &opts.lz {
            if l.rle_only {
                let dc = *ctxmap.last().unwrap();
                let t = uints[dc].encode(1).0 as usize;
                let h = &mut hist[dc];
                if streams.iter().any(|s| s.width > 0) {
                    h.clear();
                    h.resize(t + 1, 0);
                    h[t] = 1;
                }
            }
        }
        let tables = if opts.prefix {
            Tables::Prefix(hist.iter().map(|h| prefix_table(h)).collect())
        } else {
            Tables::Ans(hist.iter().map(|h| ans_table(h, opts.log_alpha)).collect())
        };
        let c = Code {
            opts: opts.clone(),
            ctxmap,
            nclusters,
            uints,
            tables,
            num_ctx,
            hist,
            rng,
        };
        (c, syms)
    }

    pub fn write_header(&mut self, bw: &mut Bw) {
        let _ = self.num_ctx;
        let o = self.opts.clone();
        bw.b(o.lz.is_some());
        if let Some(l) = &o.lz {
            bw.u32([(0, 224), (0, 512), (0, 4096), (15, 8)], l.min_symbol as u64);
            bw.u32([(0, 3), (0, 4), (2, 5), (8, 9)], l.min_length as u64);
            l.len_uint.write(8, bw);
        }
        if self.ctxmap.len() > 1 {
            write_ctxmap(&self.ctxmap, self.nclusters, &o, &mut self.rng, bw);
        }
        bw.b(o.prefix);
        let la = if o.prefix {
            15
        } else {
            bw.w(2, o.log_alpha as u64 - 5);
            o.log_alpha
        };
        for u in &self.uints {
            u.write(la, bw);
        }
        match &self.tables {
            Tables::Prefix(ts) => {
                for t in ts {
                    bw.varint16(t.lens.len() as u64 - 1);
                }
                for t in ts {
                    write_prefix(t, &mut self.rng, bw);
                }
            }
            Tables::Ans(ts) => {
                for t in ts {
                    write_ans_hist(t, &mut self.rng, bw);
                }
            }
        }
        let _ = &self.hist;
    }

    pub fn write_stream(&self, syms: &[Sym], bw: &mut Bw) {
        // expand to (cluster, token, nbits, bits)
        let mut ev: Vec<(usize, u32, usize, u32)> = vec![];
        for y in syms {
            match *y {
                Sym::Lit { ctx, val } => {
                    let cl = self.ctxmap[ctx];
                    let (t, n, b) = self.uints[cl].encode(val);
                    ev.push((cl, t, n, b));
                }
                Sym::Copy { ctx, len, dist_sym } => {
                    let l = self.opts.lz.as_ref().unwrap();
                    let (t, n, b) = l.len_uint.encode(len - l.min_length);
                    ev.push((self.ctxmap[ctx], l.min_symbol + t, n, b));
                    let dc = *self.ctxmap.last().unwrap();
                    let (t, n, b) = self.uints[dc].encode(dist_sym);
                    ev.push((dc, t, n, b));
                }
            }
        }
        match &self.tables {
            Tables::Prefix(ts) => {
                for (cl, t, n, b) in ev {
                    let pt = &ts[cl];
                    bw.w(pt.lens[t as usize] as usize & 0x7f, pt.codes[t as usize] as u64);
                    bw.w(n, b as u64);
                }
            }
            Tables::Ans(ts) => {
                let mut x: u64 = 0x130000;
                let mut emitted: Vec<Option<u64>> = vec![None; ev.len()];
                for (i, (cl, t, _, _)) in ev.iter().enumerate().rev() {
                    let f = ts[*cl].freqs[*t as usize] as u64;
                    assert!(f > 0);
                    if x >= f << 20 {
                        emitted[i] = Some(x & 0xffff);
                        x >>= 16;
                    }
                    x = ((x / f) << 12) + ts[*cl].slots[*t as usize][(x % f) as usize] as u64;
                }
                bw.w(32, x);
                for (i, (_, _, n, b)) in ev.iter().enumerate() {
                    if let Some(e) = emitted[i] {
                        bw.w(16, e);
                    }
                    bw.w(*n, *b as u64);
                }
            }
        }
    }
}

fn write_ctxmap(map: &[usize], ncl: usize, o: &EntOpts, rng: &mut Rng, bw: &mut Bw) {
    if o.ctx_simple && ncl <= 8 {
        bw.b(true);
        let mut bits = match ncl {
            1 => 0,
            2 => 1,
            3..=4 => 2,
            _ => 3,
        };
        if bits < 3 && rng.chance(1, 6) {
            bits += 1;
        }
        bw.w(2, bits as u64);
        if bits > 0 {
            for &m in map {
                bw.w(bits, m as u64);
            }
        }
        return;
    }
    bw.b(false);
    bw.b(o.ctx_mtf);
    let mut vals: Vec<u32> = map.iter().map(|&m| m as u32).collect();
    if o.ctx_mtf {
        let mut mtf: Vec<u32> = (0..256).collect();
        for v in vals.iter_mut() {
            let i = mtf.iter().position(|m| m == v).unwrap();
            let x = mtf.remove(i);
            mtf.insert(0, x);
            *v = i as u32;
        }
    }
    let s = Stream { toks: vals.iter().map(|&v| (0, v)).collect(), width: 0 };
    let mut eo = EntOpts::random(rng, map.len() > 2);
    eo.clusters = 1;
    let (mut c, sy) = Code::build(1, &[s], &eo);
    c.write_header(bw);
    c.write_stream(&sy[0], bw);
}

fn prefix_table(h: &[u64]) -> PrefixTable {
    let n = h.len();
    let nz: Vec<usize> = (0..n).filter(|&i| h[i] > 0).collect();
    let mut lens = vec![0u8; n];
    if nz.len() == 1 {
        lens[nz[0]] = 0x80; // marker: single symbol, zero bits
        return PrefixTable { lens, codes: vec![0; n] };
    }
    let mut w: Vec<u64> = h.to_vec();
    loop {
        let l = huff_lengths(&w);
        if l.iter().all(|&x| x <= 15) {
            lens.copy_from_slice(&l);
            break;
        }
        for x in w.iter_mut() {
            if *x > 0 {
                *x = (*x >> 1).max(1);
            }
        }
    }
    let codes = canonical(&lens);
    PrefixTable { lens, codes }
}
fn canonical(lens: &[u8]) -> Vec<u32> {
    let mut codes = vec![0u32; lens.len()];
    let mut code = 0u32;
    for l in 1..=15u8 {
        for (i, &x) in lens.iter().enumerate() {
            if x == l {
                codes[i] = code.reverse_bits() >> (32 - l as u32);
                code += 1;
            }
        }
        code <<= 1;
    }
    codes
}
fn huff_lengths(h: &[u64]) -> Vec<u8> {
    let mut nodes: Vec<(u64, Vec<usize>)> =
        (0..h.len()).filter(|&i| h[i] > 0).map(|i| (h[i], vec![i])).collect();
    let mut lens = vec![0u8; h.len()];
    while nodes.len() > 1 {
        nodes.sort_by(|a, b| b.0.cmp(&a.0));
        let a = nodes.pop().unwrap();
        let b = nodes.pop().unwrap();
        let mut v = a.1;
        v.extend(b.1);
        for &i in &v {
            lens[i] = lens[i].saturating_add(1);
        }
        nodes.push((a.0 + b.0, v));
    }
    lens
}
pub fn clog2(x: usize) -> usize {
    if x <= 1 { 0 } else { (usize::BITS - (x - 1).leading_zeros()) as usize }
}
fn write_prefix(t: &PrefixTable, rng: &mut Rng, bw: &mut Bw) {
    let n = t.lens.len();
    if n == 1 {
        return;
    }
    let nz: Vec<usize> = (0..n).filter(|&i| t.lens[i] > 0).collect();
    let lens: Vec<u8> = t.lens.iter().map(|l| l & 0x7f).collect();
    let mb = clog2(n);
    if nz.len() == 1 {
        bw.w(2, 1);
        bw.w(2, 0);
        bw.w(mb, nz[0] as u64);
        return;
    }
    if nz.len() <= 4 && rng.chance(3, 4) {
        let mut s = nz.clone();
        s.sort_by_key(|&i| (lens[i], i));
        bw.w(2, 1);
        bw.w(2, s.len() as u64 - 1);
        let order: Vec<usize> = s.clone();
        for &i in &order {
            bw.w(mb, i as u64);
        }
        if s.len() == 4 {
            bw.b(lens[s[0]] == 1);
        }
        return;
    }
    // complex: code lengths coded with run-length codes
    let mut seq: Vec<(u8, usize, u64)> = vec![]; // (symbol, extra bits, extra)
    let mut i = 0;
    let last = *nz.last().unwrap();
    let mut prev = 8u8;
    while i <= last {
        let l = lens[i];
        let mut run = 1;
        while i + run <= last && lens[i + run] == l {
            run += 1;
        }
        if l == 0 && run >= 3 {
            let r = run.min(10);
            seq.push((17, 3, r as u64 - 3));
            i += r;
            // a second consecutive 17 would multiply: break it with a literal zero
            if i <= last && lens[i] == 0 {
                seq.push((0, 0, 0));
                i += 1;
            }
        } else if l != 0 && l == prev && run >= 3 && rng.chance(3, 4) {
            let r = run.min(6);
            seq.push((16, 2, r as u64 - 3));
            i += r;
            if i <= last && lens[i] == l {
                seq.push((l, 0, 0));
                i += 1;
            }
        } else {
            seq.push((l, 0, 0));
            if l != 0 {
                prev = l;
            }
            i += 1;
        }
    }
    let mut ch = vec![0u64; 18];
    for s in &seq {
        ch[s.0 as usize] += 1;
    }
    let cnz = ch.iter().filter(|&&x| x > 0).count();
    let mut cl: Vec<u8>;
    let mut w = ch.clone();
    if cnz == 1 {
        cl = vec![0; 18];
        let s = ch.iter().position(|&x| x > 0).unwrap();
        cl[s] = 1 + rng.below(5) as u8;
    } else {
        loop {
            cl = huff_lengths(&w);
            if cl.iter().all(|&x| x <= 5) {
                break;
            }
            for x in w.iter_mut() {
                if *x > 0 {
                    *x = (*x >> 1).max(1);
                }
            }
        }
    }
    const ORDER: [usize; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    const SC: [(usize, u64); 6] = [(2, 0), (4, 7), (3, 3), (2, 2), (2, 1), (4, 15)];
    let mut skip = 0;
    if cl[1] == 0 && cl[2] == 0 {
        skip = 2;
        if cl[3] == 0 && rng.chance(1, 2) {
            skip = 3;
        }
    }
    bw.w(2, skip as u64);
    let mut space = 32i32;
    for &o in ORDER.iter().skip(skip) {
        if space <= 0 {
            break;
        }
        let (n, v) = SC[cl[o] as usize];
        bw.w(n, v);
        if cl[o] != 0 {
            space -= 32 >> cl[o];
        }
    }
    let codes = canonical(&cl);
    for (s, n, e) in seq {
        if cnz > 1 {
            bw.w(cl[s as usize] as usize, codes[s as usize] as u64);
        }
        bw.w(n, e);
    }
}

fn ans_table(h: &[u64], log_alpha: usize) -> AnsTable {
    let n = h.len();
    let total: u64 = h.iter().sum();
    let mut f = vec![0u32; n];
    let nz = h.iter().filter(|&&x| x > 0).count();
    assert!(nz >= 1 && n <= 1 << log_alpha, "alphabet {n} too large for log {log_alpha}");
    if nz == 1 {
        f[h.iter().position(|&x| x > 0).unwrap()] = 4096;
    } else {
        for i in 0..n {
            if h[i] > 0 {
                f[i] = (((h[i] * 4096) / total) as u32).max(1).min(4095);
            }
        }
        loop {
            let s: i64 = f.iter().map(|&x| x as i64).sum();
            if s == 4096 {
                break;
            }
            let m = (0..n).max_by_key(|&i| f[i]).unwrap();
            if s < 4096 {
                f[m] += (4096 - s) as u32;
            } else {
                let d = ((s - 4096) as u32).min(f[m] - 1).min((f[m] / 2).max(1));
                f[m] -= d;
            }
        }
    }
    // alias table as prescribed by the format
    let log_bucket = 12 - log_alpha;
    let bs = 1u32 << log_bucket;
    let ts = 1usize << log_alpha;
    let mut dist = f.clone();
    dist.resize(ts, 0);
    let mut slots: Vec<Vec<u32>> = f.iter().map(|&x| vec![u32::MAX; x as usize]).collect();
    if let Some(s) = dist.iter().position(|&d| d == 4096) {
        for i in 0..4096 {
            slots[s][i as usize] = i;
        }
        return AnsTable { freqs: f, slots };
    }
    let mut cutoff = dist.clone();
    let mut sym: Vec<usize> = (0..ts).collect();
    let mut off = vec![0u32; ts];
    let (mut under, mut over) = (vec![], vec![]);
    for i in 0..ts {
        if cutoff[i] < bs {
            under.push(i);
        } else if cutoff[i] > bs {
            over.push(i);
        }
    }
    while let Some(o) = over.pop() {
        let u = under.pop().unwrap();
        let by = bs - cutoff[u];
        cutoff[o] -= by;
        sym[u] = o;
        off[u] = cutoff[o];
        if cutoff[o] < bs {
            under.push(o);
        } else if cutoff[o] > bs {
            over.push(o);
        }
    }
    for i in 0..ts {
        for p in 0..bs {
            let idx = (i as u32) * bs + p;
            if p < cutoff[i] {
                slots[i][p as usize] = idx;
            } else {
                let o = off[i] + p - cutoff[i];
                slots[sym[i]][o as usize] = idx;
            }
        }
    }
    for s in &slots {
        assert!(s.iter().all(|&x| x != u32::MAX));
    }
    AnsTable { freqs: f, slots }
}

fn write_ans_hist(t: &AnsTable, rng: &mut Rng, bw: &mut Bw) {
    let n = t.freqs.len();
    let nz: Vec<usize> = (0..n).filter(|&i| t.freqs[i] > 0).collect();
    if nz.len() == 1 {
        bw.w(1, 1);
        bw.w(1, 0);
        bw.ans_u8(nz[0] as u64);
        return;
    }
    if nz.len() == 2 && rng.chance(1, 2) {
        bw.w(1, 1);
        bw.w(1, 1);
        let (a, b) = if rng.chance(1, 2) { (nz[0], nz[1]) } else { (nz[1], nz[0]) };
        bw.ans_u8(a as u64);
        bw.ans_u8(b as u64);
        bw.w(12, t.freqs[a] as u64);
        return;
    }
    let flat = (0..n).all(|i| {
        let base = 4096 / n as u32;
        t.freqs[i] == base + ((i as u32) < 4096 % n as u32) as u32
    });
    bw.w(1, 0);
    if flat {
        bw.w(1, 1);
        bw.ans_u8(n as u64 - 1);
        return;
    }
    bw.w(1, 0);
    let alpha = n.max(3);
    let mut f = t.freqs.clone();
    f.resize(alpha, 0);
    // shift 12 or 13: full precision
    let shift: u64 = if rng.chance(1, 2) { 12 } else { 13 };
    // read(len) + (1<<len) - 1, len = 3
    bw.w(3, 7);
    bw.w(3, shift - 7);
    bw.ans_u8(alpha as u64 - 3);
    let lc = |x: u32| if x == 0 { 0u16 } else { (32 - x.leading_zeros()) as u16 };
    // omit position: first maximum of log counts among the non-RLE entries; use RLE only
    // after the omit position is fixed and never directly after it.
    let mut omit = 0;
    for i in 0..alpha {
        if lc(f[i]) > lc(f[omit]) {
            omit = i;
        }
    }
    let use_rle = rng.chance(2, 3);
    let mut entries: Vec<Option<usize>> = vec![]; // None = literal i ; Some(run)
    let mut i = 0;
    let mut rle_at: Vec<(usize, usize)> = vec![];
    while i < alpha {
        let prev = if i == 0 { None } else if i - 1 == omit { Some(0) } else { Some(f[i - 1]) };
        let mut run = 0;
        if let Some(p) = prev {
            if i - 1 != omit {
                while i + run < alpha && i + run != omit && f[i + run] == p {
                    run += 1;
                }
            }
        }
        if use_rle && run >= 4 && (i > omit || f[i] == 0) {
            let r = run.min(255 + 4);
            entries.push(Some(r));
            rle_at.push((i, r));
            i += r;
        } else {
            entries.push(None);
            i += 1;
        }
    }
    const CODES: [(u64, usize); 14] = [
        (0x11, 5), (0x0b, 4), (0x0f, 4), (0x03, 4), (0x09, 4), (0x07, 4), (0x04, 3), (0x02, 3),
        (0x05, 3), (0x06, 3), (0x00, 3), (0x21, 6), (0x01, 7), (0x41, 7),
    ];
    let mut i = 0;
    for e in &entries {
        match e {
            None => {
                let (c, n) = CODES[lc(f[i]) as usize];
                bw.w(n, c);
                i += 1;
            }
            Some(r) => {
                let (c, n) = CODES[13];
                bw.w(n, c);
                bw.ans_u8(*r as u64 - 4);
                i += r;
            }
        }
    }
    let mut i = 0;
    while i < alpha {
        if let Some((_, r)) = rle_at.iter().find(|x| x.0 == i) {
            i += r;
            continue;
        }
        let c = lc(f[i]) as i32;
        if c > 1 && i != omit {
            let zeros = c - 1;
            let bc = (shift as i32 - ((12 - zeros) >> 1)).clamp(0, zeros);
            bw.w(bc as usize, ((f[i] - (1 << zeros)) >> (zeros - bc)) as u64);
            assert!(bc == zeros);
        }
        i += 1;
    }
}

/// The streams with one value replaced.
fn spoilt(streams: &[Stream], seed: u64) -> Vec<Stream> {
    let mut rng = Rng::new(seed);
    let mut v = streams.to_vec();
    let full: Vec<usize> = (0..v.len()).filter(|&k| !v[k].toks.is_empty()).collect();
    if !full.is_empty() {
        let t = &mut v[*rng.pick(&full)].toks;
        let near = rng.chance(1, 2);
        let k = rng.below(if near { t.len().min(12) } else { t.len() } as u64) as usize;
        let bits = *rng.pick(&[2usize, 4, 8, 12, 16, 24, 30, 32]);
        t[k].1 = crate::bits::spoil::value(&mut rng, bits, t[k].1 as u64) as u32;
    }
    v
}
