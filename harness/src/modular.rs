//! Reference model of the modular sub-codec (the Rust transliteration of
//! spec/Modular.tla, used to generate consistent bitstreams and for images too
//! large for TLC) and the encoder of modular sub-bitstreams.
use crate::bits::{Bw, Rng, pack_signed};
use crate::entropy::{Code, EntOpts, Stream, Sym};

#[derive(Clone, Debug, PartialEq)]
pub struct Chan {
    pub w: usize,
    pub h: usize,
    pub shift: Option<(u32, u32)>, // None: meta channel
    pub d: Vec<i32>,
}
impl Chan {
    pub fn new(w: usize, h: usize) -> Self {
        Chan { w, h, shift: Some((0, 0)), d: vec![0; w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> i32 {
        self.d[y * self.w + x]
    }
    pub fn set(&mut self, x: usize, y: usize, v: i32) {
        self.d[y * self.w + x] = v
    }
    pub fn crop(&self, x0: usize, y0: usize, w: usize, h: usize) -> Chan {
        let mut c = Chan { w, h, shift: self.shift, d: Vec::with_capacity(w * h) };
        for y in y0..y0 + h {
            c.d.extend_from_slice(&self.d[y * self.w + x0..y * self.w + x0 + w]);
        }
        c
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Split { prop: usize, val: i32, l: usize, r: usize },
    Leaf { pred: u32, off: i32, mul: u32, id: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Wp {
    pub p1c: i64,
    pub p2c: i64,
    pub p3: [i64; 5],
    pub w: [u32; 4],
}
impl Default for Wp {
    fn default() -> Self {
        Wp { p1c: 16, p2c: 10, p3: [7, 7, 7, 0, 0], w: [13, 12, 12, 12] }
    }
}
impl Wp {
    pub fn random(rng: &mut Rng) -> Self {
        Wp {
            p1c: rng.below(32) as i64,
            p2c: rng.below(32) as i64,
            p3: std::array::from_fn(|_| rng.below(32) as i64),
            w: std::array::from_fn(|_| rng.below(16) as u32),
        }
    }
    pub fn write(&self, bw: &mut Bw) {
        if *self == Wp::default() {
            bw.b(true);
            return;
        }
        bw.b(false);
        bw.w(5, self.p1c as u64);
        bw.w(5, self.p2c as u64);
        for p in self.p3 {
            bw.w(5, p as u64);
        }
        for w in self.w {
            bw.w(4, w as u64);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tf {
    Rct { begin: usize, ty: u32 },
    Palette { begin: usize, n: usize, colors: usize, deltas: usize, pred: u32 },
    Squeeze { steps: Vec<(bool, bool, usize, usize)> }, // horizontal, in_place, begin, num ; empty = default
}
impl Tf {
    fn write(&self, bw: &mut Bw) {
        const BC: [(usize, u64); 4] = [(3, 0), (6, 8), (10, 72), (13, 1096)];
        match self {
            Tf::Rct { begin, ty } => {
                bw.w(2, 0);
                bw.u32(BC, *begin as u64);
                bw.u32([(0, 6), (2, 0), (4, 2), (6, 10)], *ty as u64);
            }
            Tf::Palette { begin, n, colors, deltas, pred } => {
                bw.w(2, 1);
                bw.u32(BC, *begin as u64);
                bw.u32([(0, 1), (0, 3), (0, 4), (13, 1)], *n as u64);
                bw.u32([(8, 0), (10, 256), (12, 1280), (16, 5376)], *colors as u64);
                bw.u32([(0, 0), (8, 1), (10, 257), (16, 1281)], *deltas as u64);
                bw.w(4, *pred as u64);
            }
            Tf::Squeeze { steps } => {
                bw.w(2, 2);
                bw.u32([(0, 0), (4, 1), (6, 9), (8, 41)], steps.len() as u64);
                for (h, ip, b, n) in steps {
                    bw.b(*h);
                    bw.b(*ip);
                    bw.u32(BC, *b as u64);
                    bw.u32([(0, 1), (0, 2), (0, 3), (4, 4)], *n as u64);
                }
            }
        }
    }
}

pub fn clamped_gradient(l: i64, t: i64, tl: i64) -> i64 {
    let (mn, mx) = (l.min(t), l.max(t));
    if tl > mx {
        mn
    } else if tl < mn {
        mx
    } else {
        l + t - tl
    }
}

struct Nb {
    l: i64,
    t: i64,
    tt: i64,
    tl: i64,
    tr: i64,
    ll: i64,
    trr: i64,
}
fn nb(c: &Chan, x: usize, y: usize) -> Nb {
    let g = |x: usize, y: usize| c.at(x, y) as i64;
    let l = if x > 0 { g(x - 1, y) } else if y > 0 { g(x, y - 1) } else { 0 };
    let t = if y > 0 { g(x, y - 1) } else { l };
    let tl = if x > 0 && y > 0 { g(x - 1, y - 1) } else { l };
    let tr = if x + 1 < c.w && y > 0 { g(x + 1, y - 1) } else { t };
    let ll = if x > 1 { g(x - 2, y) } else { l };
    let tt = if y > 1 { g(x, y - 2) } else { t };
    let trr = if x + 2 < c.w && y > 0 { g(x + 2, y - 1) } else { tr };
    Nb { l, t, tt, tl, tr, ll, trr }
}

fn predict(p: u32, n: &Nb, wp: i64) -> i64 {
    match p {
        0 => 0,
        1 => n.l,
        2 => n.t,
        3 => (n.l + n.t) / 2,
        4 => {
            let g = n.l + n.t - n.tl;
            if (g - n.l).abs() < (g - n.t).abs() { n.l } else { n.t }
        }
        5 => clamped_gradient(n.l, n.t, n.tl),
        6 => wp,
        7 => n.tr,
        8 => n.tl,
        9 => n.ll,
        10 => (n.l + n.tl) / 2,
        11 => (n.t + n.tl) / 2,
        12 => (n.t + n.tr) / 2,
        _ => (6 * n.t - 2 * n.tt + 7 * n.l + n.ll + n.trr + 3 * n.tr + 8) / 16,
    }
}

/// Weighted ("self-correcting") predictor of one channel.
struct WpState {
    h: Wp,
    w: usize,
    err: Vec<i64>,        // true error, per pixel
    perr: Vec<[u64; 4]>,  // sub-predictor errors, per pixel
    sub: [i64; 4],
    pred: i64,
}
impl WpState {
    fn new(h: &Wp, w: usize, hh: usize) -> Self {
        WpState {
            h: h.clone(),
            w,
            err: vec![0; w * hh],
            perr: vec![[0; 4]; w * hh],
            sub: [0; 4],
            pred: 0,
        }
    }
    fn predict(&mut self, x: usize, y: usize, n: &Nb) -> (i64, i64) {
        let w = self.w;
        let e = |dx: i64, dy: i64| -> i64 {
            let (xx, yy) = (x as i64 + dx, y as i64 + dy);
            if yy < 0 || xx < 0 || xx >= w as i64 { 0 } else { self.err[yy as usize * w + xx as usize] }
        };
        let te_w = e(-1, 0);
        let te_n = e(0, -1);
        let te_nw = if x > 0 { e(-1, -1) } else { te_n };
        let te_ne = if x + 1 < w { e(1, -1) } else { te_n };
        let pe = |dx: i64, dy: i64, i: usize| -> u64 {
            let (xx, yy) = (x as i64 + dx, y as i64 + dy);
            if yy < 0 || xx < 0 || xx >= w as i64 {
                0
            } else {
                self.perr[yy as usize * w + xx as usize][i]
            }
        };
        let mut wt = [0u64; 4];
        for i in 0..4 {
            // err(N) + err(W) + err(NE)+err(NW)+err(WW) : the sub-predictor errors of W and WW
            // accumulate through N and NW of the rolling buffer.
            let nn = pe(0, -1, i) + pe(-1, 0, i);
            let nw = if x > 0 { pe(-1, -1, i) + pe(-2, 0, i) } else { pe(0, -1, i) + pe(-1, 0, i) };
            let ne = if x + 1 < w { pe(1, -1, i) } else { nn };
            let s = nn + nw + ne;
            let s = s & 0xffff_ffff;
            let shift = (63 - (s + 1).leading_zeros() as i64 - 5).max(0) as u64;
            let div = (1u64 << 24) / ((s >> shift) + 1);
            wt[i] = 4 + ((self.h.w[i] as u64 * div) >> shift);
        }
        let mut p = te_w;
        for q in [te_n, te_nw, te_ne] {
            if q.abs() > p.abs() {
                p = q;
            }
        }
        let (n8, w8, ne8, nw8, nn8) = (n.t << 3, n.l << 3, n.tr << 3, n.tl << 3, n.tt << 3);
        let h = &self.h;
        self.sub = [
            w8 + ne8 - n8,
            n8 - (((te_w + te_n + te_ne) * h.p1c) >> 5),
            w8 - (((te_w + te_n + te_nw) * h.p2c) >> 5),
            n8 - ((te_nw * h.p3[0]
                + te_n * h.p3[1]
                + te_ne * h.p3[2]
                + (nn8 - n8) * h.p3[3]
                + (nw8 - w8) * h.p3[4])
                >> 5),
        ];
        let ws: u64 = wt.iter().sum();
        let lg = 63 - ws.leading_zeros();
        for i in 0..4 {
            wt[i] >>= lg - 4;
        }
        let ws: u64 = wt.iter().sum();
        let mut sum = (ws >> 1) as i64 - 1;
        for i in 0..4 {
            sum += self.sub[i] * wt[i] as i64;
        }
        let mut pred = (sum * ((1i64 << 24) / ws as i64)) >> 24;
        if ((te_n ^ te_w) | (te_n ^ te_nw)) <= 0 {
            let mx = w8.max(ne8).max(n8);
            let mn = w8.min(ne8).min(n8);
            pred = pred.clamp(mn, mx);
        }
        self.pred = pred;
        ((pred + 3) >> 3, p)
    }
    fn update(&mut self, x: usize, y: usize, v: i32) {
        let v8 = (v as i64) << 3;
        let i = y * self.w + x;
        self.err[i] = (self.pred - v8) as i32 as i64;
        for k in 0..4 {
            self.perr[i][k] = (((self.sub[k] - v8).abs() + 3) >> 3) as u32 as u64;
        }
    }
}

pub fn tree_num_props(tree: &[Node]) -> usize {
    tree.iter().map(|n| if let Node::Split { prop, .. } = n { prop + 1 } else { 0 }).max().unwrap_or(0)
}

/// Walks channel `ci` of `chans` in coding order. `f(ctx, mul, guess)` supplies the pixel value.
fn walk_channel(
    chans: &mut [Chan],
    ci: usize,
    stream_id: usize,
    tree: &[Node],
    wp: &Wp,
    f: &mut dyn FnMut(usize, u32, i64, usize, usize) -> i32,
) {
    let (w, h) = (chans[ci].w, chans[ci].h);
    if w == 0 || h == 0 {
        return;
    }
    let nprops = tree_num_props(tree);
    let needs_ref = nprops > 16;
    let mut wps = WpState::new(wp, w, h);
    let refs: Vec<usize> = if needs_ref {
        (0..ci)
            .rev()
            .filter(|&j| {
                chans[j].w == w && chans[j].h == h && chans[j].shift == chans[ci].shift
            })
            .collect()
    } else {
        vec![]
    };
    let mut props = vec![0i64; nprops.max(16) + 4];
    for y in 0..h {
        props[9] = 0;
        for x in 0..w {
            let n = nb(&chans[ci], x, y);
            let (wpp, wprop) = wps.predict(x, y, &n);
            props[0] = ci as i64;
            props[1] = stream_id as i64;
            props[2] = y as i64;
            props[3] = x as i64;
            props[4] = n.t.abs();
            props[5] = n.l.abs();
            props[6] = n.t;
            props[7] = n.l;
            props[8] = n.l - props[9];
            props[9] = n.l + n.t - n.tl;
            props[10] = n.l - n.tl;
            props[11] = n.tl - n.t;
            props[12] = n.t - n.tr;
            props[13] = n.t - n.tt;
            props[14] = n.l - n.ll;
            props[15] = wprop;
            if needs_ref {
                for k in 16..props.len() {
                    props[k] = 0;
                }
                for (k, &j) in refs.iter().enumerate() {
                    let o = 16 + 4 * k;
                    if o + 4 > props.len() {
                        break;
                    }
                    let r = &chans[j];
                    let v = r.at(x, y) as i64;
                    let vl = if x > 0 { r.at(x - 1, y) as i64 } else { 0 };
                    let vt = if y > 0 { r.at(x, y - 1) as i64 } else { vl };
                    let vtl = if x > 0 && y > 0 { r.at(x - 1, y - 1) as i64 } else { vl };
                    let g = clamped_gradient(vl, vt, vtl);
                    props[o] = v.abs();
                    props[o + 1] = v;
                    props[o + 2] = (v - g).abs();
                    props[o + 3] = v - g;
                }
            }
            let mut k = 0;
            while let Node::Split { prop, val, l, r } = &tree[k] {
                k = if props[*prop] > *val as i64 { *l } else { *r };
            }
            let Node::Leaf { pred, off, mul, id } = &tree[k] else { unreachable!() };
            let guess = predict(*pred, &n, wpp) + *off as i64;
            let v = f(*id, *mul, guess, x, y);
            chans[ci].set(x, y, v);
            wps.update(x, y, v);
        }
    }
}

/// Decode: residual tokens -> pixels, in place.
pub fn decode_channels(
    chans: &mut [Chan],
    stream_id: usize,
    tree: &[Node],
    wp: &Wp,
    residuals: &mut dyn FnMut() -> i32,
) -> Vec<(usize, u32)> {
    let mut toks = vec![];
    for ci in 0..chans.len() {
        walk_channel(chans, ci, stream_id, tree, wp, &mut |ctx, mul, guess, _, _| {
            let r = residuals();
            toks.push((ctx, pack_signed(r)));
            (guess + mul as i64 * r as i64) as i32
        });
    }
    toks
}
/// Encode: pixels -> residual tokens. Requires multiplier-1 leaves.
pub fn encode_channels(chans: &[Chan], stream_id: usize, tree: &[Node], wp: &Wp) -> Vec<(usize, u32)> {
    let mut work: Vec<Chan> = chans.to_vec();
    let mut toks = vec![];
    for ci in 0..chans.len() {
        let src = &chans[ci];
        walk_channel(&mut work, ci, stream_id, tree, wp, &mut |ctx, mul, guess, x, y| {
            let v = src.at(x, y);
            assert_eq!(mul, 1);
            let r = v as i64 - guess;
            assert!(r.abs() < 1 << 30);
            toks.push((ctx, pack_signed(r as i32)));
            v
        });
    }
    toks
}

pub fn write_tree(tree: &[Node], opts: &EntOpts, bw: &mut Bw) {
    // breadth first, exactly the order nodes are numbered
    let mut toks = vec![];
    for n in tree {
        match n {
            Node::Split { prop, val, .. } => {
                toks.push((1, *prop as u32 + 1));
                toks.push((0, pack_signed(*val)));
            }
            Node::Leaf { pred, off, mul, .. } => {
                toks.push((1, 0));
                toks.push((2, *pred));
                toks.push((3, pack_signed(*off)));
                let lg = mul.trailing_zeros();
                toks.push((4, lg));
                toks.push((5, (mul >> lg) - 1));
            }
        }
    }
    let (mut c, s) = Code::build(6, &[Stream { toks, width: 0 }], opts);
    c.write_header(bw);
    c.write_stream(&s[0], bw);
}

/// Single-leaf tree.
pub fn leaf(pred: u32) -> Vec<Node> {
    vec![Node::Leaf { pred, off: 0, mul: 1, id: 0 }]
}

/// A random valid MA tree; node numbering is breadth first as in the bitstream.
pub fn random_tree(rng: &mut Rng, max_splits: usize, ctx: &TreeGen) -> Vec<Node> {
    // (ranges per property) queue
    let np = ctx.max_prop + 1;
    let mut nodes: Vec<Node> = vec![];
    let mut queue: std::collections::VecDeque<Vec<(i64, i64)>> = Default::default();
    queue.push_back(vec![(i32::MIN as i64, i32::MAX as i64); np]);
    let mut splits = max_splits;
    let mut next_id = 0;
    let mut pending = 1;
    while let Some(rg) = queue.pop_front() {
        let want = splits > 0 && (rng.chance(2, 3) || (nodes.is_empty()));
        let mut made = false;
        if want {
            for _ in 0..8 {
                let prop = *rng.pick(&ctx.props);
                let v = match prop {
                    0 => rng.range(0, 3),
                    1 => rng.range(0, ctx.max_stream),
                    2 => rng.range(0, ctx.dim),
                    3 => rng.range(0, ctx.dim),
                    _ => {
                        if rng.chance(1, 6) {
                            rng.range(-3, 3)
                        } else {
                            rng.range(-ctx.amp, ctx.amp)
                        }
                    }
                };
                let (lo, hi) = rg[prop];
                if v < lo || v >= hi {
                    continue;
                }
                let li = nodes.len() + pending;
                nodes.push(Node::Split { prop, val: v as i32, l: li, r: li + 1 });
                let mut a = rg.clone();
                a[prop] = (v + 1, hi);
                let mut b = rg.clone();
                b[prop] = (lo, v);
                queue.push_back(a);
                queue.push_back(b);
                pending += 1;
                splits -= 1;
                made = true;
                break;
            }
        }
        if !made {
            let pred = *rng.pick(&ctx.preds);
            let off = if ctx.offsets && rng.chance(1, 3) { rng.range(-5, 5) as i32 } else { 0 };
            let mul = if ctx.muls && rng.chance(1, 4) { *rng.pick(&[2u32, 3, 4, 6, 1]) } else { 1 };
            nodes.push(Node::Leaf { pred, off, mul, id: next_id });
            next_id += 1;
            pending -= 1;
        }
    }
    nodes
}
pub struct TreeGen {
    pub max_prop: usize,
    pub props: Vec<usize>,
    pub preds: Vec<u32>,
    pub offsets: bool,
    pub muls: bool,
    pub dim: i64,
    pub amp: i64,
    pub max_stream: i64,
}

// ---------------------------------------------------------------- transforms
/// Channel list after applying (forward, meta) the transform; data are not computed.
pub fn meta_apply(chs: &mut Vec<Chan>, t: &Tf) -> Tf {
    match t {
        Tf::Rct { .. } => t.clone(),
        Tf::Palette { begin, n, colors, deltas, .. } => {
            chs.drain(begin + 1..begin + n);
            chs.insert(
                0,
                Chan { w: colors + deltas, h: *n, shift: None, d: vec![0; (colors + deltas) * n] },
            );
            t.clone()
        }
        Tf::Squeeze { steps } => {
            let steps = if steps.is_empty() { default_squeeze(chs) } else { steps.clone() };
            for &(hor, inplace, begin, num) in &steps {
                let off = if inplace { begin + num } else { chs.len() };
                for ic in 0..num {
                    let c = chs[begin + ic].clone();
                    let sh = c.shift.map(|s| if hor { (s.0 + 1, s.1) } else { (s.0, s.1 + 1) });
                    let (a, b) = if hor {
                        ((c.w.div_ceil(2), c.h), (c.w - c.w.div_ceil(2), c.h))
                    } else {
                        ((c.w, c.h.div_ceil(2)), (c.w, c.h - c.h.div_ceil(2)))
                    };
                    chs[begin + ic] = Chan { w: a.0, h: a.1, shift: sh, d: vec![0; a.0 * a.1] };
                    chs.insert(off + ic, Chan { w: b.0, h: b.1, shift: sh, d: vec![0; b.0 * b.1] });
                }
            }
            Tf::Squeeze { steps }
        }
    }
}
pub fn default_squeeze(chs: &[Chan]) -> Vec<(bool, bool, usize, usize)> {
    let nm = chs.iter().take_while(|c| c.shift.is_none()).count();
    let (mut w, mut h) = (chs[nm].w, chs[nm].h);
    let nc = chs.len() - nm;
    let mut p = vec![];
    if nc > 2 && chs[nm + 1].w == w && chs[nm + 1].h == h {
        if w > 1 {
            p.push((true, false, nm + 1, 2));
        }
        if h > 1 {
            p.push((false, false, nm + 1, 2));
        }
    }
    if w <= h && h > 8 {
        p.push((false, true, nm, nc));
        h = h.div_ceil(2);
    }
    while w > 8 || h > 8 {
        if w > 8 {
            p.push((true, true, nm, nc));
            w = w.div_ceil(2);
        }
        if h > 8 {
            p.push((false, true, nm, nc));
            h = h.div_ceil(2);
        }
    }
    p
}
pub fn tendency(b: i64, a: i64, n: i64) -> i64 {
    let mut d = 0;
    if b >= a && a >= n {
        d = (4 * b - 3 * n - a + 6) / 12;
        if d - (d & 1) > 2 * (b - a) {
            d = 2 * (b - a) + 1;
        }
        if d + (d & 1) > 2 * (a - n) {
            d = 2 * (a - n);
        }
    } else if b <= a && a <= n {
        d = (4 * b - 3 * n - a - 6) / 12;
        if d + (d & 1) < 2 * (b - a) {
            d = 2 * (b - a) - 1;
        }
        if d - (d & 1) < 2 * (a - n) {
            d = 2 * (a - n);
        }
    }
    d
}
fn unsq_line(avg: &[i32], res: &[i32]) -> Vec<i32> {
    let mut out: Vec<i32> = vec![];
    for i in 0..res.len() {
        let a = avg[i] as i64;
        let next = if i + 1 < avg.len() { avg[i + 1] as i64 } else { a };
        let prev = if i > 0 { out[2 * i - 1] as i64 } else { a };
        let d = res[i] as i64 + tendency(prev, a, next);
        let x = a + d / 2;
        out.push(x as i32);
        out.push((x - d) as i32);
    }
    if avg.len() > res.len() {
        out.push(avg[avg.len() - 1]);
    }
    out
}
fn sq_line(px: &[i32]) -> (Vec<i32>, Vec<i32>) {
    // forward: averages first, then residuals
    let n = px.len();
    let mut avg = vec![];
    for i in 0..n / 2 {
        let (a, b) = (px[2 * i] as i64, px[2 * i + 1] as i64);
        avg.push(((a + b + (a > b) as i64) >> 1) as i32);
    }
    if n % 2 == 1 {
        avg.push(px[n - 1]);
    }
    let mut res = vec![];
    for i in 0..n / 2 {
        let d = px[2 * i] as i64 - px[2 * i + 1] as i64;
        let a = avg[i] as i64;
        let next = if i + 1 < avg.len() { avg[i + 1] as i64 } else { a };
        let prev = if i > 0 { px[2 * i - 1] as i64 } else { a };
        res.push((d - tendency(prev, a, next)) as i32);
    }
    (avg, res)
}
fn cols(c: &Chan) -> Vec<Vec<i32>> {
    (0..c.w).map(|x| (0..c.h).map(|y| c.at(x, y)).collect()).collect()
}
fn from_cols(w: usize, h: usize, shift: Option<(u32, u32)>, cs: &[Vec<i32>]) -> Chan {
    let mut c = Chan { w, h, shift, d: vec![0; w * h] };
    for x in 0..w {
        for y in 0..h {
            c.set(x, y, cs[x][y]);
        }
    }
    c
}

const DELTA: [[i64; 3]; 72] = [
    [0, 0, 0], [4, 4, 4], [11, 0, 0], [0, 0, -13], [0, -12, 0], [-10, -10, -10],
    [-18, -18, -18], [-27, -27, -27], [-18, -18, 0], [0, 0, -32], [-32, 0, 0], [-37, -37, -37],
    [0, -32, -32], [24, 24, 45], [50, 50, 50], [-45, -24, -24], [-24, -45, -45], [0, -24, -24],
    [-34, -34, 0], [-24, 0, -24], [-45, -45, -24], [64, 64, 64], [-32, 0, -32], [0, -32, 0],
    [-32, 0, 32], [-24, -45, -24], [45, 24, 45], [24, -24, -45], [-45, -24, 24], [80, 80, 80],
    [64, 0, 0], [0, 0, -64], [0, -64, -64], [-24, -24, 45], [96, 96, 96], [64, 64, 0],
    [45, -24, -24], [34, -34, 0], [112, 112, 112], [24, -45, -45], [45, 45, -24], [0, -32, 32],
    [24, -24, 45], [0, 96, 96], [45, -24, 24], [24, -45, -24], [-24, -45, 24], [0, -64, 0],
    [96, 0, 0], [128, 128, 128], [64, 0, 64], [144, 144, 144], [96, 96, 0], [-36, -36, 36],
    [45, -24, -45], [45, -45, -24], [0, 0, -96], [0, 128, 128], [0, 96, 0], [45, 24, -45],
    [-128, 0, 0], [24, -45, 24], [-45, 24, -45], [64, 0, -64], [64, -64, -64], [96, 0, 96],
    [45, -45, 24], [24, 45, -45], [64, 64, -64], [128, 128, 0], [0, 0, -128], [-24, 45, -45],
];
fn pal_value(pal: &Chan, idx: i64, c: usize, size: i64, depth: u32) -> i64 {
    if idx < 0 {
        if c >= 3 {
            return 0;
        }
        let i = (-(idx + 1)) % 143;
        let mut r = DELTA[((i + 1) >> 1) as usize][c] * if i & 1 == 1 { 1 } else { -1 };
        if depth > 8 {
            r <<= depth - 8;
        }
        r
    } else if idx < size {
        pal.at(idx as usize, c) as i64
    } else if idx < size + 64 {
        if c >= 3 {
            return 0;
        }
        let i = (idx - size) >> (2 * c);
        (((i % 4) * ((1i64 << depth) - 1)) >> 2) + (1i64 << (depth as i64 - 3).max(0))
    } else {
        if c >= 3 {
            return 0;
        }
        let mut i = idx - size - 64;
        for _ in 0..c {
            i /= 5;
        }
        ((i % 5) * ((1i64 << depth) - 1)) >> 2
    }
}

/// Inverse transform on full channel data. `t` as returned by `meta_apply`.
pub fn inverse(chs: &mut Vec<Chan>, t: &Tf, wp: &Wp, depth: u32) {
    match t {
        Tf::Rct { begin, ty } => {
            let (op, perm) = (ty % 7, ty / 7);
            let n = chs[*begin].d.len();
            for i in 0..n {
                let (a, b, c) = (
                    chs[*begin].d[i] as i64,
                    chs[begin + 1].d[i] as i64,
                    chs[begin + 2].d[i] as i64,
                );
                let (x, y, z) = match op {
                    0 => (a, b, c),
                    1 => (a, b, c + a),
                    2 => (a, b + a, c),
                    3 => (a, b + a, c + a),
                    4 => (a, b + ((a + c) >> 1), c),
                    5 => (a, b + ((a + a + c) >> 1), c + a),
                    _ => {
                        let t = a - (c >> 1);
                        let g = c + t;
                        let bb = t - (b >> 1);
                        (bb + b, g, bb)
                    }
                };
                let o: [usize; 3] = match perm {
                    0 => [0, 1, 2],
                    1 => [1, 2, 0],
                    2 => [2, 0, 1],
                    3 => [0, 2, 1],
                    4 => [1, 0, 2],
                    _ => [2, 1, 0],
                };
                chs[begin + o[0]].d[i] = x as i32;
                chs[begin + o[1]].d[i] = y as i32;
                chs[begin + o[2]].d[i] = z as i32;
            }
        }
        Tf::Palette { begin, n, colors, deltas, pred } => {
            let pal = chs.remove(0);
            let idx = chs[*begin].clone();
            let size = (colors + deltas) as i64;
            let mut outs = vec![];
            for c in 0..*n {
                let mut o = idx.clone();
                o.d.iter_mut().for_each(|v| *v = 0);
                let mut ws = WpState::new(wp, idx.w, idx.h);
                for y in 0..idx.h {
                    for x in 0..idx.w {
                        let i = idx.at(x, y) as i64;
                        let e = pal_value(&pal, i, c, size, depth.min(24));
                        let nbx = nb(&o, x, y);
                        let (wpp, _) = ws.predict(x, y, &nbx);
                        let v = if i < *deltas as i64 {
                            // with no deltas and the zero predictor negative indices are
                            // plain values as well: predict() yields 0
                            predict(*pred, &nbx, wpp) + e
                        } else {
                            e
                        } as i32;
                        o.set(x, y, v);
                        ws.update(x, y, v);
                    }
                }
                outs.push(o);
            }
            chs.splice(*begin..*begin + 1, outs);
        }
        Tf::Squeeze { steps } => {
            for &(hor, inplace, begin, num) in steps.iter().rev() {
                let off = if inplace { begin + num } else { chs.len() - num };
                let res: Vec<Chan> = chs.drain(off..off + num).collect();
                for ic in 0..num {
                    let a = chs[begin + ic].clone();
                    let r = &res[ic];
                    let sh = a.shift.map(|s| if hor { (s.0 - 1, s.1) } else { (s.0, s.1 - 1) });
                    if hor {
                        let mut o = Chan { w: a.w + r.w, h: a.h, shift: sh, d: vec![] };
                        for y in 0..a.h {
                            o.d.extend(unsq_line(
                                &a.d[y * a.w..(y + 1) * a.w],
                                &r.d[y * r.w..(y + 1) * r.w],
                            ));
                        }
                        chs[begin + ic] = o;
                    } else {
                        let (ca, cr) = (cols(&a), cols(r));
                        let o: Vec<Vec<i32>> = (0..a.w).map(|x| unsq_line(&ca[x], &cr[x])).collect();
                        chs[begin + ic] = from_cols(a.w, a.h + r.h, sh, &o);
                    }
                }
            }
        }
    }
}

/// Forward transform of actual pixel data (palette: not supported here).
pub fn forward(chs: &mut Vec<Chan>, t: &Tf) -> Tf {
    match t {
        Tf::Rct { begin, ty } => {
            let (op, perm) = (ty % 7, ty / 7);
            for i in 0..chs[*begin].d.len() {
                let o: [usize; 3] = match perm {
                    0 => [0, 1, 2],
                    1 => [1, 2, 0],
                    2 => [2, 0, 1],
                    3 => [0, 2, 1],
                    4 => [1, 0, 2],
                    _ => [2, 1, 0],
                };
                let x = chs[begin + o[0]].d[i] as i64;
                let y = chs[begin + o[1]].d[i] as i64;
                let z = chs[begin + o[2]].d[i] as i64;
                let (a, b, c) = match op {
                    0 => (x, y, z),
                    1 => (x, y, z - x),
                    2 => (x, y - x, z),
                    3 => (x, y - x, z - x),
                    4 => (x, y - ((x as i32).wrapping_add(z as i32) >> 1) as i64, z),
                    5 => (x, y - ((x as i32).wrapping_add(z as i32) >> 1) as i64, z - x),
                    _ => {
                        let co = x - z;
                        let t = z + (co >> 1);
                        let cg = y - t;
                        (t + (cg >> 1), co, cg)
                    }
                };
                chs[*begin].d[i] = a as i32;
                chs[begin + 1].d[i] = b as i32;
                chs[begin + 2].d[i] = c as i32;
            }
            t.clone()
        }
        Tf::Squeeze { steps } => {
            let steps = if steps.is_empty() { default_squeeze(chs) } else { steps.clone() };
            for &(hor, inplace, begin, num) in &steps {
                let off = if inplace { begin + num } else { chs.len() };
                for ic in 0..num {
                    let c = chs[begin + ic].clone();
                    let sh = c.shift.map(|s| if hor { (s.0 + 1, s.1) } else { (s.0, s.1 + 1) });
                    let (a, b);
                    if hor {
                        let w1 = c.w.div_ceil(2);
                        let mut ca = Chan { w: w1, h: c.h, shift: sh, d: vec![] };
                        let mut cb = Chan { w: c.w - w1, h: c.h, shift: sh, d: vec![] };
                        for y in 0..c.h {
                            let (p, q) = sq_line(&c.d[y * c.w..(y + 1) * c.w]);
                            ca.d.extend(p);
                            cb.d.extend(q);
                        }
                        (a, b) = (ca, cb);
                    } else {
                        let h1 = c.h.div_ceil(2);
                        let l: Vec<_> = cols(&c).iter().map(|l| sq_line(l)).collect();
                        let pa: Vec<_> = l.iter().map(|x| x.0.clone()).collect();
                        let pb: Vec<_> = l.iter().map(|x| x.1.clone()).collect();
                        a = from_cols(c.w, h1, sh, &pa);
                        b = from_cols(c.w, c.h - h1, sh, &pb);
                    }
                    chs[begin + ic] = a;
                    chs.insert(off + ic, b);
                }
            }
            Tf::Squeeze { steps }
        }
        Tf::Palette { .. } => panic!("palette has no forward form here"),
    }
}

// ---------------------------------------------------------------- group header
pub fn write_group_header(bw: &mut Bw, use_global_tree: bool, wp: &Wp, tfs: &[Tf]) {
    bw.b(use_global_tree);
    wp.write(bw);
    bw.u32([(0, 0), (0, 1), (4, 2), (8, 18)], tfs.len() as u64);
    for t in tfs {
        t.write(bw);
    }
}

pub fn syms_of(code: &Code, s: &[Sym], bw: &mut Bw) {
    code.write_stream(s, bw)
}
