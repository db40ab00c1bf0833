//! Random generation of images (headers, frames, coding parameters).
use crate::bits::Rng;
use crate::enc::*;
use crate::entropy::EntOpts;
use crate::modular::*;

/// Sample value range of a bit depth as stored in modular channels.
pub fn amp(d: Depth) -> i64 {
    match d {
        Depth::Int(b) => (1i64 << b.min(16)) - 1,
        Depth::Float(..) => 255,
    }
}

/// Fill with structured or noisy content. `f32bits`: store IEEE bits of small dyadic values.
pub fn fill(rng: &mut Rng, c: &mut Chan, max: i64, f32bits: bool) {
    let style = rng.below(6);
    let (a, b) = (rng.range(-3, 3), rng.range(-3, 3));
    let base = rng.range(0, max);
    let mut run = (0u64, 0i64);
    for y in 0..c.h {
        for x in 0..c.w {
            let v = match style {
                0 => base,
                1 => rng.range(0, max),
                2 => base + a * x as i64 + b * y as i64,
                3 => {
                    if run.0 == 0 {
                        run = (1 + rng.below(12), rng.range(0, max));
                    }
                    run.0 -= 1;
                    run.1
                }
                4 => (base + a * x as i64 + rng.range(-2, 2)) ^ 1,
                _ => {
                    if (x / 4 + y / 3) % 2 == 0 { base } else { max - base }
                }
            };
            let v = v.rem_euclid(max + 1);
            c.set(x, y, if f32bits { (v as f32 / 16.0).to_bits() as i32 } else { v as i32 });
        }
    }
}

pub fn rand_depth(rng: &mut Rng) -> Depth {
    match rng.below(6) {
        0 | 1 => Depth::Int(8),
        2 => Depth::Int(1 + rng.below(16) as u32),
        3 => Depth::Int(16),
        4 => Depth::Float(32, 8),
        _ => Depth::Int(10),
    }
}

pub fn rand_tree(rng: &mut Rng, residual: bool, nch: usize, dim: i64) -> Vec<Node> {
    let style = rng.below(8);
    match style {
        0 => leaf(rng.below(14) as u32),
        1 => leaf(5),
        2 => {
            // channel-only splits with gradient leaves: the fast-lossless shape
            let g = TreeGen {
                max_prop: 15,
                props: vec![0],
                preds: vec![5],
                offsets: false,
                muls: false,
                dim,
                amp: 10,
                max_stream: 40,
            };
            random_tree(rng, 3, &g)
        }
        3 => {
            // weighted-predictor-only shape
            let g = TreeGen {
                max_prop: 15,
                props: vec![15],
                preds: vec![6],
                offsets: false,
                muls: false,
                dim,
                amp: 80,
                max_stream: 40,
            };
            random_tree(rng, 5, &g)
        }
        4 => {
            // gradient-property-only shape
            let g = TreeGen {
                max_prop: 15,
                props: vec![9],
                preds: vec![5],
                offsets: false,
                muls: false,
                dim,
                amp: 200,
                max_stream: 40,
            };
            random_tree(rng, 5, &g)
        }
        _ => {
            let mut props: Vec<usize> = (0..16).collect();
            if nch > 1 && rng.chance(1, 2) {
                props.extend(16..16 + 4 * (nch.min(4) - 1));
            }
            let noprop15 = rng.chance(1, 2);
            if noprop15 {
                props.retain(|&p| p != 15);
            }
            let preds = if noprop15 && rng.chance(1, 2) {
                vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13]
            } else {
                (0..14).collect()
            };
            let g = TreeGen {
                max_prop: *props.iter().max().unwrap().max(&15),
                props,
                preds,
                offsets: true,
                muls: residual,
                dim,
                amp: 60,
                max_stream: 40,
            };
            let n = 1 + rng.below(12) as usize;
            random_tree(rng, n, &g)
        }
    }
}

/// Number of transforms-and-coding decisions for a frame whose `chans` are filled.
pub fn rand_coding(rng: &mut Rng, h: &Hdr, f: &mut Frame, img: (u32, u32)) {
    let chs = f.empty_chans(h, img);
    let nch = chs.len();
    f.seed = rng.next();
    f.tree_ent = EntOpts::random(rng, true);
    f.ent = EntOpts::random(rng, true);
    f.wp = if rng.chance(1, 2) { Wp::default() } else { Wp::random(rng) };
    let residual = f.residual_amp.is_some();
    f.tree = rand_tree(rng, residual, nch, chs[0].w.max(chs[0].h) as i64);
    let only_channel = f
        .tree
        .iter()
        .all(|n| matches!(n, Node::Split { prop: 0, .. } | Node::Leaf { pred: 5, off: 0, mul: 1, .. }));
    if only_channel && rng.chance(2, 3) {
        // make it eligible for run-length-only prefix coding
        f.ent = EntOpts {
            prefix: true,
            log_alpha: 15,
            uints: vec![crate::entropy::Uint { split: *rng.pick(&[0u32, 4, 4, 5]), msb: 0, lsb: 0 }],
            clusters: 1 + rng.below(4) as usize,
            ctx_simple: true,
            ctx_mtf: false,
            lz: Some(crate::entropy::Lz {
                min_symbol: 224,
                min_length: *rng.pick(&[3u32, 7, 16]),
                len_uint: *rng.pick(&[
                    crate::entropy::Uint { split: 0, msb: 0, lsb: 0 },
                    crate::entropy::Uint { split: 4, msb: 1, lsb: 0 },
                ]),
                rle_only: true,
                dist_uint: crate::entropy::Uint { split: 0, msb: 0, lsb: 0 },
            }),
            seed: rng.next(),
        };
    }
    // transforms
    f.tfs.clear();
    let mut cur = chs.clone();
    let want = rng.below(4);
    for _ in 0..want {
        let nm = cur.iter().take_while(|c| c.shift.is_none()).count();
        let same = |a: &Chan, b: &Chan| a.w == b.w && a.h == b.h && a.shift == b.shift;
        let t = match rng.below(4) {
            0 => {
                let cand: Vec<usize> = (nm..cur.len().saturating_sub(2))
                    .filter(|&i| same(&cur[i], &cur[i + 1]) && same(&cur[i], &cur[i + 2]))
                    .collect();
                if cand.is_empty() {
                    continue;
                }
                Tf::Rct { begin: *rng.pick(&cand), ty: rng.below(42) as u32 }
            }
            1 if residual => {
                let begin = nm + rng.below((cur.len() - nm) as u64) as usize;
                let mut n = 1;
                while begin + n < cur.len() && same(&cur[begin], &cur[begin + n]) && rng.chance(2, 3) {
                    n += 1;
                }
                let deltas = if rng.chance(1, 3) { rng.below(4) as usize } else { 0 };
                let colors = 1 + rng.below(12) as usize;
                let pred = if deltas > 0 || rng.chance(1, 4) { rng.below(14) as u32 } else { 0 };
                Tf::Palette { begin, n, colors: colors + deltas, deltas, pred }
            }
            2 => Tf::Squeeze { steps: vec![] },
            3 => {
                let mut steps = vec![];
                let mut c2 = cur.clone();
                for _ in 0..1 + rng.below(3) {
                    let nm = c2.iter().take_while(|c| c.shift.is_none()).count();
                    let begin = nm + rng.below((c2.len() - nm) as u64) as usize;
                    let num = 1 + rng.below((c2.len() - begin).min(3) as u64) as usize;
                    let hor = rng.chance(1, 2);
                    if (begin..begin + num).any(|i| c2[i].w < 2 || c2[i].h < 2) {
                        continue;
                    }
                    let s = (hor, rng.chance(1, 2), begin, num);
                    meta_apply(&mut c2, &Tf::Squeeze { steps: vec![s] });
                    steps.push(s);
                }
                if steps.is_empty() {
                    continue;
                }
                Tf::Squeeze { steps }
            }
            _ => continue,
        };
        if let Tf::Squeeze { steps } = &t {
            if steps.is_empty() && default_squeeze(&cur).is_empty() {
                // legal (a no-op), keep it sometimes
            }
        }
        meta_apply(&mut cur, &t);
        f.tfs.push(t);
    }
    f.local = LocalOpts {
        tree_pct: *rng.pick(&[0u64, 0, 30, 100]),
        tf_pct: *rng.pick(&[0u64, 0, 50]),
    };
    if rng.chance(1, 3) {
        f.perm = Some(rng.next());
    }
}

pub fn rand_passes(rng: &mut Rng) -> Passes {
    match rng.below(6) {
        0..=2 => Passes { num: 1, ds: vec![] },
        3 => Passes { num: 2 + rng.below(3) as u32, ds: vec![] },
        4 => Passes { num: 2, ds: vec![(*rng.pick(&[8u32, 4, 2]), 0)] },
        _ => {
            let n = 3 + rng.below(3) as u32;
            let a = rng.below(n as u64 - 1) as u32;
            Passes { num: n, ds: vec![(*rng.pick(&[8u32, 4]), a), (2, a + 1)] }
        }
    }
}

/// A single still image whose every sample must come out unchanged.
/// A set of extension bits; sometimes with a payload larger than the decoder's first buffer.
pub fn rand_extensions(rng: &mut Rng) -> u64 {
    let mut e = 1 << rng.below(20);
    if rng.chance(1, 3) {
        e |= 1 << rng.below(63);
    }
    if rng.chance(1, 5) {
        e |= 1 << 63 | rng.below(1 << 20);
    }
    e
}

pub fn lossless_image(rng: &mut Rng, max_dim: u64, allow_residual: bool) -> Image {
    let depth = rand_depth(rng);
    let w = 1 + rng.below(max_dim) as u32;
    let hh = 1 + rng.below(max_dim) as u32;
    lossless_sized(rng, depth, w, hh, allow_residual)
}
pub fn lossless_sized(rng: &mut Rng, depth: Depth, w: u32, hh: u32, allow_residual: bool) -> Image {
    let gray = rng.chance(1, 3);
    let mut h = Hdr::new(w, hh, gray, depth);
    h.size_form = rng.next();
    for _ in 0..*rng.pick(&[0u64, 0, 1, 1, 2, 3]) {
        let mut e = Ec::of(*rng.pick(&[0u32, 1, 3, 6, 16]), depth);
        e.compact = rng.chance(1, 2);
        h.ecs.push(e);
    }
    h.m16 = matches!(depth, Depth::Int(b) if b <= 12) && rng.chance(1, 2);
    let mut f = Frame::new(&h);
    f.group_shift = *rng.pick(&[0u32, 0, 1, 2, 3]);
    f.passes = rand_passes(rng);
    let img = (w, hh);
    f.chans = f.empty_chans(&h, img);
    if allow_residual && rng.chance(1, 2) {
        f.residual_amp = Some(*rng.pick(&[1i64, 3, 20, 200]));
    } else {
        let m = if matches!(depth, Depth::Float(..)) { 255 } else { amp(depth) };
        for c in f.chans.iter_mut() {
            fill(rng, c, m, matches!(depth, Depth::Float(..)));
        }
    }
    rand_coding(rng, &h, &mut f, img);
    Image { hdr: h, icc_ent: EntOpts::plain(), preview: None, frames: vec![f] }
}

// ------------------------------------------------------------------ multi-frame images
#[derive(Clone, Debug)]
pub struct FilmOpts {
    pub max_dim: u64,
    pub max_frames: u64,
    pub blend: bool,
    pub patches: bool,
    pub preview: bool,
    pub icc: bool,
    pub rich: bool, // random modular coding (transforms, trees, passes)
    pub plain_values: bool, // dyadic values only
    pub long: u64, // one side up to this long, so that there are several groups
    pub short_values: bool, // values of few bits, in sample types the specification computes with
    pub lf: bool,
    pub spots: bool, // spot colours
    pub deep: bool,  // integers of many bits as well
    pub effects: bool, // see effects(); the specification does not compute such pictures
}
impl FilmOpts {
    pub fn small() -> Self {
        FilmOpts {
            max_dim: 24,
            max_frames: 6,
            blend: true,
            patches: true,
            preview: true,
            icc: true,
            rich: true,
            plain_values: false,
            short_values: false,
            long: 0,
            lf: true,
            spots: false,
            deep: false,
            effects: false,
        }
    }
}
const UTF8: [&str; 8] = ["", "a", "frame", "naïve", "日本", "x y\n", "0123456789abcdef", "ÿ€😀"];

/// Integers many of which are nothing or everything, so that products stay representable.
fn fill_levels(rng: &mut Rng, c: &mut Chan, max: i64, alpha: bool) {
    let style = rng.below(4);
    let base = rng.range(0, max);
    for y in 0..c.h {
        for x in 0..c.w {
            let v = match if alpha { rng.below(2) } else { style } {
                0 => *rng.pick(&[0, max]),
                1 => {
                    let v = rng.range(0, max);
                    *rng.pick(&[0, max, max, v])
                }
                2 => rng.range(0, max),
                _ => (base + x as i64 * 3 + y as i64) % (max + 1),
            };
            c.set(x, y, v as i32);
        }
    }
}
fn fill_dyadic(rng: &mut Rng, c: &mut Chan, alpha: bool, depth: Depth) {
    let Depth::Float(bits, exp) = depth else { unreachable!() };
    let wide = rng.chance(1, 3);
    let style = rng.below(3);
    let base = rng.range(0, 8);
    for y in 0..c.h {
        for x in 0..c.w {
            let k = if alpha {
                if wide { *rng.pick(&[-4i64, 0, 4, 8, 8, 12]) } else { *rng.pick(&[0i64, 4, 8]) }
            } else {
                let v = match style {
                    0 => rng.range(0, 8),
                    1 => (base + (x as i64 / 3) + (y as i64 / 2)) % 9,
                    _ => base,
                };
                if wide { v * 2 - 4 } else { v }
            };
            c.set(x, y, crate::canvas::float_bits(k as f64 / 8.0, bits, exp));
        }
    }
}

/// Random image of several frames with hidden frames, reference slots, crops, blending and patches.
pub fn film(rng: &mut Rng, o: &FilmOpts) -> Image {
    let depth = if o.deep && rng.chance(1, 2) {
        match rng.below(4) {
            0 => Depth::Int(16),
            1 => Depth::Int(1 + rng.below(24) as u32),
            2 => Depth::Int(*rng.pick(&[1u32, 2, 4, 8])),
            _ => Depth::Int(8),
        }
    } else if o.short_values {
        match rng.below(8) {
            0..=3 => Depth::Float(16, 5),
            4 => {
                let e = 3 + rng.below(3) as u32;
                Depth::Float(e + 4 + rng.below((13 - e) as u64) as u32, e)
            }
            5 => Depth::Int(1 + rng.below(12) as u32),
            _ => Depth::Int(8),
        }
    } else if o.plain_values {
        Depth::Float(32, 8)
    } else {
        rand_depth(rng)
    };
    let gray = rng.chance(1, 3);
    let mut w = 1 + rng.below(o.max_dim) as u32;
    let mut hh = 1 + rng.below(o.max_dim) as u32;
    if o.long > 0 {
        w = 110 + rng.below(o.long - 110) as u32;
        if rng.chance(1, 2) {
            std::mem::swap(&mut w, &mut hh);
        }
    }
    let img = (w, hh);
    let mut h = Hdr::new(w, hh, gray, depth);
    h.size_form = rng.next();
    for _ in 0..*rng.pick(&[0u64, 0, 1, 1, 2, 3]) {
        let mut e = Ec::of(*rng.pick(&[0u32, 0, 0, 1, 3, 16]), depth);
        if o.spots && rng.chance(1, 4) {
            e.ty = 2;
            e.spot = [0; 4].map(|_| *rng.pick(&[0.0f32, 0.25, 0.5, 0.75, 1.0]));
        }
        e.assoc = e.ty == 0 && rng.chance(1, 2);
        if rng.chance(1, 4) {
            e.name = rng.pick(&UTF8).as_bytes().to_vec();
        }
        h.ecs.push(e);
    }
    let nec = h.ecs.len();
    if rng.chance(3, 4) {
        h.anim = Some(Anim {
            num: *rng.pick(&[100u32, 1000, 1, 24, 30000, 1 << 20]),
            den: *rng.pick(&[1u32, 1001, 2, 1000]),
            loops: rng.below(3) as u32,
            timecodes: rng.chance(1, 4),
        });
    }
    if o.preview && rng.chance(1, 4) {
        h.preview = Some((1 + rng.below(12) as u32, 1 + rng.below(12) as u32));
    }
    let mut icc_ent = EntOpts::plain();
    if o.icc && rng.chance(1, 4) {
        h.icc = Some(crate::icc::generate(rng, 60).0);
        icc_ent = EntOpts::random(rng, true);
    }
    if rng.chance(1, 5) {
        h.orientation = 1 + rng.below(8) as u32;
    }
    if rng.chance(1, 6) {
        h.extensions = rand_extensions(rng);
    }
    if rng.chance(1, 2) {
        h.alt = rng.next();
    }
    let n = 1 + rng.below(o.max_frames) as usize;
    let mut frames: Vec<Frame> = vec![];
    // slot -> (full size canvas?, saved before colour transform, dims)
    let mut slots: [Option<(bool, bool, (u32, u32))>; 4] = [None; 4];
    let isanim = h.anim.is_some();
    for i in 0..n {
        let mut f = Frame::new(&h);
        f.is_last = i + 1 == n;
        if !f.is_last {
            f.ftype = *rng.pick(&[0u32, 0, 0, 0, 2, 3]);
            if o.lf && rng.chance(1, 12) {
                f.ftype = 1;
                f.lf_level = 1 + rng.below(3) as u32;
            }
        } else if rng.chance(1, 8) {
            f.ftype = 3;
        }
        let normal = f.ftype == 0 || f.ftype == 3;
        if isanim && normal {
            f.duration = *rng.pick(&[0u32, 0, 0, 1, 1, 1, 1, 7, 255, 256, 70000, 5000000, u32::MAX]);
            f.timecode = rng.next() as u32;
        }
        f.save_ref = rng.below(4) as u32;
        f.save_before_ct = rng.chance(1, 3);
        f.name = match rng.below(6) {
            0 => rng.pick(&UTF8).as_bytes().to_vec(),
            1 => format!("frame {i}").into_bytes(),
            2 if rng.chance(1, 8) => {
                let more = *rng.pick(&[60u64, 60, 60, 1056]);
                vec![b'n'; 16 + rng.below(more) as usize]
            }
            _ => vec![],
        };
        if rng.chance(1, 8) {
            f.extensions = rand_extensions(rng);
        }
        if rng.chance(1, 16) {
            f.filter_extensions = rand_extensions(rng);
        }
        f.group_shift = rng.below(4) as u32;
        f.passes = if f.ftype == 2 { Passes { num: 1, ds: vec![] } } else { rand_passes(rng) };
        if normal && o.blend {
            if rng.chance(1, 2) {
                let big = rng.chance(1, 6);
                let dim = |d: u32, rng: &mut Rng| -> (i32, u32) {
                    if big {
                        let x = -(rng.below(4) as i32);
                        (x, (d as i32 - x) as u32 + rng.below(4) as u32)
                    } else {
                        (rng.range(-(d as i64) - 1, d as i64 + 1) as i32, 1 + rng.below(d as u64 + 3) as u32)
                    }
                };
                let (x, cw) = dim(w, rng);
                let (y, ch) = dim(hh, rng);
                f.crop = Some((x, y, cw, ch));
            }
            let rb = |rng: &mut Rng| Blend {
                mode: rng.below(5) as u32,
                alpha: rng.below(nec.max(1) as u64) as u32,
                clamp: rng.chance(1, 2),
                source: rng.below(4) as u32,
            };
            if rng.chance(2, 3) {
                f.blend = rb(rng);
                for b in f.ec_blend.iter_mut() {
                    *b = rb(rng);
                }
            } else {
                f.blend.source = rng.below(4) as u32;
                for b in f.ec_blend.iter_mut() {
                    b.source = rng.below(4) as u32;
                }
            }
            // sources must be empty or hold a picture of the image's size
            for b in std::iter::once(&mut f.blend).chain(f.ec_blend.iter_mut()) {
                if let Some((full, _, _)) = slots[b.source as usize]
                    && !full
                {
                    match (0..4).find(|&s| slots[s].is_none_or(|x| x.0)) {
                        Some(s) => b.source = s as u32,
                        None => {
                            b.mode = 0;
                        }
                    }
                }
            }
            let bad = std::iter::once(&f.blend)
                .chain(f.ec_blend.iter())
                .any(|b| slots[b.source as usize].is_some_and(|x| !x.0));
            if bad {
                f.crop = None;
                f.blend = Blend::REPLACE;
                f.ec_blend.fill(Blend::REPLACE);
            }
        }
        if f.ftype == 2 && rng.chance(2, 3) {
            f.save_before_ct = true;
            f.crop = Some((0, 0, 1 + rng.below(w as u64 + 6) as u32, 1 + rng.below(hh as u64 + 6) as u32));
        }
        let (_, _, fw, fh) = f.dims(img);
        // a full frame that replaces everything takes slot 0 as (unused) source
        if f.crop.is_some() && f.full_frame(img) && slots[0].is_some_and(|x| !x.0) {
            f.crop = None;
        }
        let (_, _, fw, fh) = if f.crop.is_none() { f.dims(img) } else { (0, 0, fw, fh) };
        if o.patches && f.ftype != 1 && rng.chance(1, 2) {
            let cand: Vec<usize> = (0..4).filter(|&s| slots[s].is_some_and(|x| x.1)).collect();
            if !cand.is_empty() {
                let mut refs = vec![];
                let many = o.short_values && rng.chance(1, 6);
                let side = if o.short_values && rng.chance(1, 2) { 9 + o.long as u32 } else { 9 };
                for _ in 0..1 + rng.below(if many { 12 } else { 3 }) {
                    let s = *rng.pick(&cand);
                    let (sw, sh) = slots[s].unwrap().2;
                    let pw = 1 + rng.below(sw.min(fw).min(side) as u64) as u32;
                    let ph = 1 + rng.below(sh.min(fh).min(side) as u64) as u32;
                    let x0 = rng.below((sw - pw) as u64 + 1) as u32;
                    let y0 = rng.below((sh - ph) as u64 + 1) as u32;
                    let cnt = 1 + rng.below(if many { 9 } else { 4 });
                    let at = (0..cnt)
                        .map(|_| {
                            let bl = (0..1 + nec)
                                .map(|_| {
                                    let mode = rng.below(if nec == 0 { 4 } else { 8 }) as u32;
                                    PatchBlend {
                                        mode,
                                        alpha: if nec > 1 { rng.below(nec as u64) as u32 } else { 0 },
                                        clamp: rng.chance(1, 2),
                                    }
                                })
                                .collect();
                            (
                                rng.below((fw - pw) as u64 + 1) as u32,
                                rng.below((fh - ph) as u64 + 1) as u32,
                                bl,
                            )
                        })
                        .collect();
                    refs.push(PatchRef { slot: s as u32, x0, y0, w: pw, h: ph, at });
                }
                f.patches = Some(refs);
            }
        }
        f.chans = f.empty_chans(&h, img);
        let nc = h.ncolor();
        for (k, c) in f.chans.iter_mut().enumerate() {
            let al = k >= nc && h.ecs[k - nc].ty == 0;
            if o.short_values && matches!(depth, Depth::Int(_)) {
                fill_levels(rng, c, amp(depth), al);
            } else if o.plain_values || o.short_values {
                fill_dyadic(rng, c, al, depth);
            } else {
                let fl = matches!(depth, Depth::Float(..));
                fill(rng, c, if fl { 16 } else { amp(depth) }, fl);
            }
        }
        if o.rich && rng.chance(2, 3) {
            rand_coding(rng, &h, &mut f, img);
        }
        if crate::canvas::can_ref(&f, isanim) {
            let before = crate::canvas::saves_before(&f, img, isanim);
            let dims = if before { (fw, fh) } else { img };
            slots[f.save_ref as usize] = Some((dims == img, before, dims));
        }
        frames.push(f);
    }
    let preview = h.preview.map(|p| {
        let mut f = Frame::new(&h);
        f.chans = f.empty_chans(&h, p);
        for c in f.chans.iter_mut() {
            fill(rng, c, 200, false);
        }
        f
    });
    Image { hdr: h, icc_ent, preview, frames }
}

/// A film of small frames of the given kinds (see MCSession): ty, vis, saves, blend source, patch source.
pub fn film_of(rng: &mut Rng, kinds: &[serde_json::Value]) -> Image {
    let int = |v: &serde_json::Value| v.as_i64().unwrap();
    let depth = *rng.pick(&[Depth::Int(8), Depth::Int(8), Depth::Float(16, 5)]);
    let (w, hh) = (1 + rng.below(9) as u32, 1 + rng.below(9) as u32);
    let img = (w, hh);
    let mut h = Hdr::new(w, hh, rng.chance(1, 2), depth);
    for _ in 0..rng.below(3) {
        h.ecs.push(Ec::of(0, depth));
    }
    let nec = h.ecs.len();
    h.anim = Some(Anim { num: 1000, den: 1, loops: 0, timecodes: false });
    let frames = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let mut f = Frame::new(&h);
            f.is_last = i + 1 == kinds.len();
            f.ftype = int(&k["ty"]) as u32;
            if f.ftype == 0 {
                f.ftype = *rng.pick(&[0u32, 0, 3]);
                f.duration = if k["vis"] == true { 1 + rng.below(300) as u32 } else { 0 };
                if f.is_last && rng.chance(1, 3) {
                    f.duration = 0;
                }
            } else {
                f.save_before_ct = true;
            }
            f.save_ref = int(&k["saves"]).max(0) as u32;
            let b = int(&k["blend"]);
            if b >= 0 {
                if rng.chance(1, 2) && w > 1 && hh > 1 {
                    let (cw, ch) = (1 + rng.below(w as u64 - 1) as u32, 1 + rng.below(hh as u64 - 1) as u32);
                    f.crop = Some((rng.below((w - cw) as u64 + 1) as i32, rng.below((hh - ch) as u64 + 1) as i32, cw, ch));
                }
                for x in std::iter::once(&mut f.blend).chain(f.ec_blend.iter_mut()) {
                    *x = Blend {
                        mode: if f.crop.is_some() { rng.below(5) } else { 1 + rng.below(4) } as u32,
                        alpha: rng.below(nec.max(1) as u64) as u32,
                        clamp: rng.chance(1, 2),
                        source: b as u32,
                    };
                }
            }
            let (_, _, fw, fh) = f.dims(img);
            let p = int(&k["patch"]);
            if p >= 0 {
                let bl = (0..1 + nec)
                    .map(|_| PatchBlend { mode: 1 + rng.below(3) as u32, alpha: 0, clamp: false })
                    .collect();
                let (pw, ph) = (1 + rng.below(fw as u64) as u32, 1 + rng.below(fh as u64) as u32);
                let at = vec![(rng.below((fw - pw) as u64 + 1) as u32, rng.below((fh - ph) as u64 + 1) as u32, bl)];
                f.patches = Some(vec![PatchRef { slot: p as u32, x0: 0, y0: 0, w: pw, h: ph, at }]);
            }
            f.chans = f.empty_chans(&h, img);
            for c in f.chans.iter_mut() {
                let fl = matches!(depth, Depth::Float(..));
                fill(rng, c, if fl { 16 } else { amp(depth) }, fl);
            }
            f
        })
        .collect();
    Image { hdr: h, icc_ent: EntOpts::plain(), preview: None, frames }
}

/// Gives frames filters, upsampling and noise: pictures that depend on neighbouring samples.
pub fn effects(rng: &mut Rng, im: &mut Image) {
    let (h, img) = (im.hdr.clone(), (im.hdr.w, im.hdr.h));
    for f in im.frames.iter_mut() {
        f.gab = rng.chance(1, 2);
        f.epf = *rng.pick(&[0u32, 0, 1, 2, 3]);
        if f.ftype != 1 && rng.chance(1, 6) {
            f.noise = Some(std::array::from_fn(|_| rng.below(1024) as u16));
        }
        if f.patches.is_none() && f.ftype != 1 && rng.chance(1, 2) {
            f.ups = *rng.pick(&[1u32, 2, 2, 4, 8]);
            for (e, c) in f.ec_ups.iter_mut().zip(&h.ecs) {
                *e = *rng.pick(&[1u32, 2, 4, 8]);
                if c.dim_shift != 0 || *e < f.ups {
                    *e = f.ups;
                }
            }
            f.chans = f.empty_chans(&h, img);
            f.tfs.clear();
            f.residual_amp = None;
            for c in f.chans.iter_mut() {
                let fl = matches!(h.depth, Depth::Float(..));
                fill(rng, c, if fl { 16 } else { amp(h.depth) }, fl);
            }
        }
    }
}
