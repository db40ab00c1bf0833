//! Reference model of frame composition: slots, patches, blending (transcribed from spec/Canvas.tla).
use crate::enc::*;
use crate::modular::Chan;

/// One plane of a picture.
#[derive(Clone, Debug, PartialEq)]
pub struct Plane {
    pub w: usize,
    pub h: usize,
    pub d: Vec<f64>,
}
pub type Pic = Vec<Plane>; // colour channels then extra channels

pub fn sample(depth: Depth, v: i32) -> f64 {
    match depth {
        Depth::Int(b) => v as f64 / ((1u64 << b) - 1) as f64,
        Depth::Float(32, _) => f32::from_bits(v as u32) as f64,
        Depth::Float(b, e) => {
            let mb = b - e - 1;
            let bias = (1i32 << (e - 1)) - 1;
            let u = v as u32 & ((1 << (b - 1)) - 1);
            let (ex, m) = ((u >> mb) as i32, (u & ((1 << mb) - 1)) as f64);
            let one = (1u32 << mb) as f64;
            let a = if ex == 0 { m / one * 2f64.powi(1 - bias) } else { (1.0 + m / one) * 2f64.powi(ex - bias) };
            if v as u32 >> (b - 1) & 1 == 1 { -a } else { a }
        }
    }
}
/// The bits of a value in a small floating-point format (exact, or a panic).
pub fn float_bits(x: f64, b: u32, e: u32) -> i32 {
    if b == 32 {
        return (x as f32).to_bits() as i32;
    }
    let mb = b - e - 1;
    let bias = (1i32 << (e - 1)) - 1;
    let sign = if x < 0.0 { 1u32 << (b - 1) } else { 0 };
    let a = x.abs();
    let ex = if a == 0.0 { 0 } else { (a.log2().floor() as i32 + bias).max(0) };
    let m = if ex == 0 { a / 2f64.powi(1 - bias) } else { a / 2f64.powi(ex - bias) - 1.0 } * (1u32 << mb) as f64;
    assert!(m.fract() == 0.0 && ex < (1 << e) - 1);
    (sign | (ex as u32) << mb | m as u32) as i32
}
pub fn plane(c: &Chan, depth: Depth) -> Plane {
    Plane { w: c.w, h: c.h, d: c.d.iter().map(|&v| sample(depth, v)).collect() }
}
fn cl(v: f64, c: bool) -> f64 {
    if c { v.clamp(0.0, 1.0) } else { v }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Old,
    New,
    Add,
    Mul,
    Blend,     // new over old
    BlendRev,  // old over new
    AddA,      // old + new * new alpha
    AddARev,   // new + old * old alpha
}
#[derive(Clone, Copy, Debug)]
pub struct B {
    pub mode: Mode,
    pub alpha: usize,
    pub clamp: bool,
}
/// Combine one pixel: `old` and `new` hold colour then extra channel samples.
pub fn blend_pixel(old: &[f64], new: &[f64], nc: usize, color: B, ecs: &[B], info: &[Ec]) -> Vec<f64> {
    let has_alpha = info.iter().any(|e| e.ty == 0);
    let mut out = old.to_vec();
    let over = |k: usize, b: B, old: &[f64], new: &[f64]| -> (f64, f64) {
        // value of channel k and resulting alpha
        let (t, u) = if b.mode == Mode::Blend { (new, old) } else { (old, new) };
        let ta = cl(t[nc + b.alpha], b.clamp);
        let ua = u[nc + b.alpha];
        let na = 1.0 - (1.0 - ta) * (1.0 - ua);
        let v = if info[b.alpha].assoc {
            t[k] + u[k] * (1.0 - ta)
        } else if na > 0.0 {
            (t[k] * ta + u[k] * ua * (1.0 - ta)) / na
        } else {
            0.0
        };
        (v, na)
    };
    for i in 0..ecs.len() {
        let b = ecs[i];
        let k = nc + i;
        out[k] = match b.mode {
            Mode::Old => old[k],
            Mode::New => new[k],
            Mode::Add => old[k] + new[k],
            Mode::Mul => old[k] * cl(new[k], b.clamp),
            Mode::Blend | Mode::BlendRev => {
                let (v, na) = over(k, b, old, new);
                if b.alpha == i { na } else { v }
            }
            Mode::AddA => {
                if b.alpha == i { old[k] } else { old[k] + new[k] * cl(new[nc + b.alpha], b.clamp) }
            }
            Mode::AddARev => {
                if b.alpha == i { new[k] } else { new[k] + old[k] * cl(old[nc + b.alpha], b.clamp) }
            }
        };
    }
    for k in 0..nc {
        let b = color;
        out[k] = match b.mode {
            Mode::Old => old[k],
            Mode::New => new[k],
            Mode::Add => old[k] + new[k],
            Mode::Mul => old[k] * cl(new[k], b.clamp),
            Mode::Blend if !has_alpha => new[k],
            Mode::BlendRev if !has_alpha => old[k],
            Mode::AddA | Mode::AddARev if !has_alpha => old[k] + new[k],
            Mode::Blend | Mode::BlendRev => {
                let (v, na) = over(k, b, old, new);
                out[nc + b.alpha] = na;
                v
            }
            Mode::AddA => old[k] + new[k] * cl(new[nc + b.alpha], b.clamp),
            Mode::AddARev => new[k] + old[k] * cl(old[nc + b.alpha], b.clamp),
        };
    }
    out
}
fn of_blend(b: &Blend) -> B {
    B {
        mode: [Mode::New, Mode::Add, Mode::Blend, Mode::AddA, Mode::Mul][b.mode as usize],
        alpha: b.alpha as usize,
        clamp: b.clamp,
    }
}
fn of_patch(b: &PatchBlend) -> B {
    B {
        mode: [
            Mode::Old,
            Mode::New,
            Mode::Add,
            Mode::Mul,
            Mode::Blend,
            Mode::BlendRev,
            Mode::AddA,
            Mode::AddARev,
        ][b.mode as usize],
        alpha: b.alpha as usize,
        clamp: b.clamp,
    }
}

pub fn is_visible(f: &Frame, anim: bool) -> bool {
    (f.ftype == 0 || f.ftype == 3) && (f.is_last || (anim && f.duration > 0))
}
pub fn can_ref(f: &Frame, anim: bool) -> bool {
    let normal = f.ftype == 0 || f.ftype == 3;
    let last = normal && f.is_last;
    let dur = if normal && anim { f.duration } else { 0 };
    !last && f.ftype != 1 && (dur == 0 || f.save_ref != 0)
}
pub fn saves_before(f: &Frame, img: (u32, u32), anim: bool) -> bool {
    let normal = f.ftype == 0 || f.ftype == 3;
    let coded = f.ftype == 2 || (can_ref(f, anim) && f.blend.mode == 0 && f.full_frame(img) && normal);
    coded && f.save_before_ct
}
pub struct State {
    pub slots: [Option<(Pic, bool)>; 4],
}
/// A blend source smaller than the image: the frame cannot be rendered.
#[derive(Debug, PartialEq, Clone)]
pub struct SmallSource;
/// Renders one frame against the slots; returns the displayed canvas (also for hidden frames).
pub fn step(st: &mut State, h: &Hdr, f: &Frame, img: (u32, u32)) -> Result<Option<Pic>, SmallSource> {
    if f.ftype == 1 {
        return Ok(None);
    }
    let nc = h.ncolor();
    let mut fg: Pic = f
        .chans
        .iter()
        .enumerate()
        .map(|(i, c)| plane(c, if i < nc { h.depth } else { h.ecs[i - nc].depth }))
        .collect();
    let n = fg.len();
    if let Some(ps) = &f.patches {
        for r in ps {
            let src = &st.slots[r.slot as usize].as_ref().unwrap().0;
            for (px, py, bl) in &r.at {
                let bs: Vec<B> = bl.iter().map(of_patch).collect();
                for y in 0..r.h as usize {
                    for x in 0..r.w as usize {
                        let (dx, dy) = (*px as usize + x, *py as usize + y);
                        if dx >= fg[0].w || dy >= fg[0].h {
                            continue;
                        }
                        let (sx, sy) = (r.x0 as usize + x, r.y0 as usize + y);
                        let old: Vec<f64> = fg.iter().map(|p| p.d[dy * p.w + dx]).collect();
                        let new: Vec<f64> = src.iter().map(|p| p.d[sy * p.w + sx]).collect();
                        let v = blend_pixel(&old, &new, nc, bs[0], &bs[1..], &h.ecs);
                        for (p, v) in fg.iter_mut().zip(v) {
                            p.d[dy * p.w + dx] = v;
                        }
                    }
                }
            }
        }
    }
    let anim = h.anim.is_some();
    let before = saves_before(f, img, anim);
    let early = (can_ref(f, anim) && before).then(|| fg.clone());
    let normal = f.ftype == 0 || f.ftype == 3;
    let needs = normal && (f.crop.is_some() || f.blend.mode != 0 || f.ec_blend.iter().any(|b| b.mode != 0));
    let canvas = if !needs {
        fg
    } else {
        let (iw, ih) = (img.0 as usize, img.1 as usize);
        // the source is only named when the frame is not a full replacement
        let src_of = |b: &Blend| {
            let full = f.full_frame(img);
            if full && b.mode == 0 { 0 } else { b.source as usize }
        };
        for b in std::iter::once(&f.blend).chain(f.ec_blend.iter()) {
            if let Some((p, _)) = &st.slots[src_of(b)]
                && (p[0].w < iw || p[0].h < ih)
            {
                return Err(SmallSource);
            }
        }
        let mut bg: Pic = (0..n)
            .map(|k| {
                let b = if k < nc { &f.blend } else { &f.ec_blend[k - nc] };
                match &st.slots[src_of(b)] {
                    Some((p, _)) => {
                        let d = (0..ih).flat_map(|y| p[k].d[y * p[k].w..y * p[k].w + iw].iter().copied()).collect();
                        Plane { w: iw, h: ih, d }
                    }
                    None => Plane { w: iw, h: ih, d: vec![0.0; iw * ih] },
                }
            })
            .collect();
        let (cx, cy) = f.crop.map(|c| (c.0 as i64, c.1 as i64)).unwrap_or((0, 0));
        let cb = of_blend(&f.blend);
        let eb: Vec<B> = f.ec_blend.iter().map(of_blend).collect();
        for y in 0..fg[0].h {
            for x in 0..fg[0].w {
                let (dx, dy) = (x as i64 + cx, y as i64 + cy);
                if dx < 0 || dy < 0 || dx >= iw as i64 || dy >= ih as i64 {
                    continue;
                }
                let i = dy as usize * iw + dx as usize;
                let old: Vec<f64> = bg.iter().map(|p| p.d[i]).collect();
                let new: Vec<f64> = fg.iter().map(|p| p.d[y * p.w + x]).collect();
                let v = blend_pixel(&old, &new, nc, cb, &eb, &h.ecs);
                for (p, v) in bg.iter_mut().zip(v) {
                    p.d[i] = v;
                }
            }
        }
        bg
    };
    if let Some(fg) = early {
        st.slots[f.save_ref as usize] = Some((fg, true));
    } else if can_ref(f, anim) {
        st.slots[f.save_ref as usize] = Some((canvas.clone(), false));
    }
    Ok(Some(canvas))
}
/// The pictures shown for each visible frame; Err: the frames before the one that fails.
pub fn displayed(im: &Image) -> Result<Vec<Pic>, Vec<Pic>> {
    let mut st = State { slots: [None, None, None, None] };
    let img = (im.hdr.w, im.hdr.h);
    let mut v = vec![];
    for f in &im.frames {
        let Ok(p) = step(&mut st, &im.hdr, f, img) else { return Err(v) };
        if is_visible(f, im.hdr.anim.is_some()) {
            v.push(p.unwrap().iter().map(|p| orient(p, im.hdr.orientation)).collect());
        }
    }
    Ok(v)
}
/// The plane as displayed under an Exif orientation.
pub fn orient(p: &Plane, o: u32) -> Plane {
    let (w, h) = if o >= 5 { (p.h, p.w) } else { (p.w, p.h) };
    let mut d = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let (sx, sy) = match o {
                1 => (x, y),
                2 => (p.w - 1 - x, y),
                3 => (p.w - 1 - x, p.h - 1 - y),
                4 => (x, p.h - 1 - y),
                5 => (y, x),
                6 => (y, p.h - 1 - x),
                7 => (p.w - 1 - y, p.h - 1 - x),
                _ => (p.w - 1 - y, x),
            };
            d.push(p.d[sy * p.w + sx]);
        }
    }
    Plane { w, h, d }
}
