//! Codestream writer: file header, frames (modular encoding), TOC, sections, ICC stream.
use crate::bits::{Bw, Rng, pack_signed};
use crate::entropy::{Code, EntOpts, Stream, Sym};
use crate::modular::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Depth {
    Int(u32),
    Float(u32, u32),
}
impl Depth {
    pub fn bits(&self) -> u32 {
        match self {
            Depth::Int(b) => *b,
            Depth::Float(b, _) => *b,
        }
    }
    pub fn write(&self, bw: &mut Bw) {
        match *self {
            Depth::Int(b) => {
                bw.b(false);
                bw.u32([(0, 8), (0, 10), (0, 12), (6, 1)], b as u64);
            }
            Depth::Float(b, e) => {
                bw.b(true);
                bw.u32([(0, 32), (0, 16), (0, 24), (6, 1)], b as u64);
                bw.w(4, e as u64 - 1);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ec {
    pub ty: u32,
    pub depth: Depth,
    pub dim_shift: u32,
    pub name: Vec<u8>,
    pub assoc: bool,
    pub spot: [f32; 4],
    pub cfa: u32,
    pub compact: bool, // allow the all_default form
}
impl Ec {
    pub fn alpha(depth: Depth) -> Self {
        Ec { ty: 0, depth, dim_shift: 0, name: vec![], assoc: false, spot: [0.0; 4], cfa: 1, compact: true }
    }
    pub fn of(ty: u32, depth: Depth) -> Self {
        Ec { ty, ..Ec::alpha(depth) }
    }
}

#[derive(Clone, Debug)]
pub struct Anim {
    pub num: u32,
    pub den: u32,
    pub loops: u32,
    pub timecodes: bool,
}

#[derive(Clone, Debug)]
pub struct ColorEnc {
    pub space: u32, // 0 RGB 1 Gray
    pub white: u32, // 1 D65 2 custom 10 E 11 DCI
    pub white_xy: (i32, i32),
    pub prim: u32, // 1 sRGB 2 custom 9 2100 11 P3
    pub prim_xy: [(i32, i32); 3],
    pub gamma: Option<u32>,
    pub tf: u32,
    pub intent: u32,
    pub compact: bool,
}
impl ColorEnc {
    pub fn srgb(gray: bool) -> Self {
        ColorEnc {
            space: gray as u32,
            white: 1,
            white_xy: (0, 0),
            prim: 1,
            prim_xy: [(0, 0); 3],
            gamma: None,
            tf: 13,
            intent: 1,
            compact: true,
        }
    }
    fn xy(bw: &mut Bw, p: (i32, i32)) {
        const A: [(usize, u64); 4] = [(19, 0), (19, 524288), (20, 1048576), (21, 2097152)];
        bw.u32(A, pack_signed(p.0) as u64);
        bw.u32(A, pack_signed(p.1) as u64);
    }
    fn is_default(&self) -> bool {
        self.space == 0 && self.white == 1 && self.prim == 1 && self.gamma.is_none() && self.tf == 13 && self.intent == 1
    }
    pub fn write(&self, icc: bool, bw: &mut Bw) {
        if !icc && self.compact && self.is_default() {
            bw.b(true);
            return;
        }
        bw.b(false);
        bw.b(icc);
        bw.enumv(self.space as u64);
        if icc {
            return;
        }
        bw.enumv(self.white as u64);
        if self.white == 2 {
            Self::xy(bw, self.white_xy);
        }
        if self.space != 1 {
            bw.enumv(self.prim as u64);
            if self.prim == 2 {
                for p in self.prim_xy {
                    Self::xy(bw, p);
                }
            }
        }
        match self.gamma {
            Some(g) => {
                bw.b(true);
                bw.w(24, g as u64);
            }
            None => {
                bw.b(false);
                bw.enumv(self.tf as u64);
            }
        }
        bw.enumv(self.intent as u64);
    }
}

#[derive(Clone, Debug)]
pub struct Hdr {
    pub w: u32,
    pub h: u32,
    pub size_form: u64, // selects among the valid encodings of the size
    pub orientation: u32,
    pub intrinsic: Option<(u32, u32)>,
    pub preview: Option<(u32, u32)>,
    pub anim: Option<Anim>,
    pub depth: Depth,
    pub m16: bool,
    pub ecs: Vec<Ec>,
    pub xyb: bool,
    pub color: ColorEnc,
    pub icc: Option<Vec<u8>>,
    pub tone: Option<(f32, f32, bool, f32)>,
    pub extra_fields: bool, // force the extra_fields block
    pub extensions: u64,    // extension bits set in the metadata
    pub alt: u64,           // nonzero: fields take any of their encodings
}
impl Hdr {
    pub fn new(w: u32, h: u32, gray: bool, depth: Depth) -> Self {
        Hdr {
            w,
            h,
            size_form: 0,
            orientation: 1,
            intrinsic: None,
            preview: None,
            anim: None,
            depth,
            m16: matches!(depth, Depth::Int(b) if b <= 12),
            ecs: vec![],
            xyb: false,
            color: ColorEnc::srgb(gray),
            icc: None,
            tone: None,
            extra_fields: false,
            extensions: 0,
            alt: 0,
        }
    }
    pub fn gray(&self) -> bool {
        self.color.space == 1
    }
    pub fn ncolor(&self) -> usize {
        if self.gray() { 1 } else { 3 }
    }
}

const RATIOS: [(u64, u64); 7] = [(1, 1), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)];
fn write_size(bw: &mut Bw, w: u32, h: u32, form: u64) {
    const S: [(usize, u64); 4] = [(9, 1), (13, 1), (18, 1), (30, 1)];
    let mut forms = vec![];
    let ratios: Vec<usize> =
        (1..=7).filter(|&r| h as u64 * RATIOS[r - 1].0 / RATIOS[r - 1].1 == w as u64).collect();
    let small_h = h % 8 == 0 && h <= 256 && h > 0;
    for r in std::iter::once(0).chain(ratios) {
        forms.push((false, r));
        if small_h && (r > 0 || (w % 8 == 0 && w <= 256 && w > 0)) {
            forms.push((true, r));
        }
    }
    let (small, ratio) = forms[form as usize % forms.len()];
    let arm = (form / 16) as usize;
    bw.b(small);
    if small {
        bw.w(5, h as u64 / 8 - 1);
    } else {
        bw.u32_pick(S, h as u64, arm);
    }
    bw.w(3, ratio as u64);
    if ratio == 0 {
        if small {
            bw.w(5, w as u64 / 8 - 1);
        } else {
            bw.u32_pick(S, w as u64, arm / 4);
        }
    }
}
fn write_preview_size(bw: &mut Bw, w: u32, h: u32, form: u64) {
    const D: [(usize, u64); 4] = [(0, 16), (0, 32), (5, 1), (9, 33)];
    const S: [(usize, u64); 4] = [(6, 1), (8, 65), (10, 321), (12, 1345)];
    let mut forms = vec![];
    let ratios: Vec<usize> =
        (1..=7).filter(|&r| h as u64 * RATIOS[r - 1].0 / RATIOS[r - 1].1 == w as u64).collect();
    for r in std::iter::once(0).chain(ratios) {
        forms.push((false, r));
        if h % 8 == 0 && (r > 0 || w % 8 == 0) {
            forms.push((true, r));
        }
    }
    let (div8, ratio) = forms[form as usize % forms.len()];
    bw.b(div8);
    if div8 {
        bw.u32(D, h as u64 / 8);
    } else {
        bw.u32(S, h as u64);
    }
    bw.w(3, ratio as u64);
    if ratio == 0 {
        if div8 {
            bw.u32(D, w as u64 / 8);
        } else {
            bw.u32(S, w as u64);
        }
    }
}

pub fn write_file_header(h: &Hdr, icc_opts: &EntOpts) -> Bw {
    let mut bw = header_fields(h);
    bw.alt = 0;
    if let Some(icc) = &h.icc {
        write_icc(icc, icc_opts, &mut bw);
    }
    bw.align();
    bw
}
/// Everything before the colour profile.
pub fn header_fields(h: &Hdr) -> Bw {
    let mut bw = Bw::new();
    bw.alt = h.alt;
    bw.w(16, 0x0aff);
    write_size(&mut bw, h.w, h.h, h.size_form);
    let extra = h.extra_fields
        || h.orientation != 1
        || h.intrinsic.is_some()
        || h.preview.is_some()
        || h.anim.is_some()
        || h.tone.is_some()
        || h.extensions != 0;
    let all_default = !extra
        && h.depth == Depth::Int(8)
        && h.m16
        && h.ecs.is_empty()
        && h.xyb
        && h.icc.is_none()
        && h.color.compact
        && h.color.is_default();
    bw.b(all_default);
    if !all_default {
        bw.b(extra);
        if extra {
            bw.w(3, h.orientation as u64 - 1);
            bw.b(h.intrinsic.is_some());
            if let Some((iw, ih)) = h.intrinsic {
                write_size(&mut bw, iw, ih, h.size_form / 3);
            }
            bw.b(h.preview.is_some());
            if let Some((pw, ph)) = h.preview {
                write_preview_size(&mut bw, pw, ph, h.size_form / 5);
            }
            bw.b(h.anim.is_some());
            if let Some(a) = &h.anim {
                bw.u32([(0, 100), (0, 1000), (10, 1), (30, 1)], a.num as u64);
                bw.u32([(0, 1), (0, 1001), (8, 1), (10, 1)], a.den as u64);
                bw.u32([(0, 0), (3, 0), (16, 0), (32, 0)], a.loops as u64);
                bw.b(a.timecodes);
            }
        }
        h.depth.write(&mut bw);
        bw.b(h.m16);
        bw.u32([(0, 0), (0, 1), (4, 2), (12, 1)], h.ecs.len() as u64);
        for e in &h.ecs {
            let def = e.compact
                && e.ty == 0
                && e.depth == Depth::Int(8)
                && e.dim_shift == 0
                && e.name.is_empty()
                && !e.assoc;
            bw.b(def);
            if def {
                continue;
            }
            bw.enumv(e.ty as u64);
            e.depth.write(&mut bw);
            bw.u32([(0, 0), (0, 3), (0, 4), (3, 1)], e.dim_shift as u64);
            bw.string(&e.name);
            if e.ty == 0 {
                bw.b(e.assoc);
            }
            if e.ty == 2 {
                for s in e.spot {
                    bw.f16(s);
                }
            }
            if e.ty == 5 {
                bw.u32([(0, 1), (2, 0), (4, 3), (8, 19)], e.cfa as u64);
            }
        }
        bw.b(h.xyb);
        h.color.write(h.icc.is_some(), &mut bw);
        if extra {
            match h.tone {
                None => bw.b(true),
                Some((a, b, r, c)) => {
                    bw.b(false);
                    bw.f16(a);
                    bw.f16(b);
                    bw.b(r);
                    bw.f16(c);
                }
            }
        }
        write_extensions(&mut bw, h.extensions);
    }
    bw.b(true); // transform data: all default
    bw
}
/// Declares the extensions in `set` (bit mask), each with a payload of 3 + 5*index bits (the last: of some kilobytes).
fn write_extensions(bw: &mut Bw, set: u64) {
    bw.u64v(set);
    let mut n = 0;
    for i in 0..64 {
        if set >> i & 1 == 1 {
            let len = if i == 63 { 16000 + set % 50000 + set / 7 % 8 / 7 * 130000 } else { 3 + 5 * i };
            bw.u64v(len);
            n += len;
        }
    }
    for k in 0..n {
        bw.w(1, (k * 7 % 3 == 0) as u64);
    }
}

// ------------------------------------------------------------------ ICC
pub fn icc_context(i: usize, b1: u8, b2: u8) -> usize {
    if i <= 128 {
        return 0;
    }
    let p1 = match b1 {
        b'a'..=b'z' | b'A'..=b'Z' => 0,
        b'0'..=b'9' | b'.' | b',' => 1,
        0..=1 => 2 + b1 as usize,
        2..=15 => 4,
        241..=254 => 5,
        255 => 6,
        _ => 7,
    };
    let p2 = match b2 {
        b'a'..=b'z' | b'A'..=b'Z' => 0,
        b'0'..=b'9' | b'.' | b',' => 1,
        0..=15 => 2,
        241..=255 => 3,
        _ => 4,
    };
    1 + p1 + p2 * 8
}
/// Writes the (already command-encoded) ICC payload `enc`.
pub fn write_icc(enc: &[u8], opts: &EntOpts, bw: &mut Bw) {
    bw.u64v(enc.len() as u64);
    let mut toks = vec![];
    for i in 0..enc.len() {
        let b1 = if i >= 1 { enc[i - 1] } else { 0 };
        let b2 = if i >= 2 { enc[i - 2] } else { 0 };
        toks.push((icc_context(i, b1, b2), enc[i] as u32));
    }
    let (mut c, s) = Code::build(41, &[Stream { toks, width: 0 }], opts);
    c.write_header(bw);
    c.write_stream(&s[0], bw);
}

// ------------------------------------------------------------------ frames
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Blend {
    pub mode: u32, // 0 replace 1 add 2 blend 3 alpha-weighted add 4 mul
    pub alpha: u32,
    pub clamp: bool,
    pub source: u32,
}
impl Blend {
    pub const REPLACE: Blend = Blend { mode: 0, alpha: 0, clamp: false, source: 0 };
    fn write(&self, nec: usize, full: bool, bw: &mut Bw) {
        bw.u32([(0, 0), (0, 1), (0, 2), (2, 3)], self.mode as u64);
        let uses_alpha = nec > 0 && (self.mode == 2 || self.mode == 3);
        if uses_alpha {
            bw.u32([(0, 0), (0, 1), (0, 2), (3, 3)], self.alpha as u64);
        }
        if uses_alpha || self.mode == 4 {
            bw.b(self.clamp);
        }
        if !(full && self.mode == 0) {
            bw.w(2, self.source as u64);
        }
    }
}
#[derive(Clone, Debug)]
pub struct Passes {
    pub num: u32,
    pub ds: Vec<(u32, u32)>, // (downsample, last pass)
}

#[derive(Clone, Debug)]
pub struct PatchRef {
    pub slot: u32,
    pub x0: u32,
    pub y0: u32,
    pub w: u32,
    pub h: u32,
    pub at: Vec<(u32, u32, Vec<PatchBlend>)>, // positions, with blending per (color, ecs...)
}
#[derive(Clone, Copy, Debug)]
pub struct PatchBlend {
    pub mode: u32,
    pub alpha: u32,
    pub clamp: bool,
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub ftype: u32, // 0 regular 1 LF 2 reference only 3 skip progressive
    pub crop: Option<(i32, i32, u32, u32)>,
    pub ups: u32,
    pub ec_ups: Vec<u32>,
    pub group_shift: u32,
    pub passes: Passes,
    pub blend: Blend,
    pub ec_blend: Vec<Blend>,
    pub duration: u32,
    pub timecode: u32,
    pub is_last: bool,
    pub save_ref: u32,
    pub save_before_ct: bool,
    pub lf_level: u32,
    pub name: Vec<u8>,
    pub gab: bool,
    pub epf: u32,
    pub noise: Option<[u16; 8]>,
    pub extensions: u64,
    pub filter_extensions: u64,
    pub patches: Option<Vec<PatchRef>>,
    pub chans: Vec<Chan>, // colour channels then extra channels, as coded
    pub tfs: Vec<Tf>,
    pub tree: Vec<Node>,
    pub tree_ent: EntOpts,
    pub wp: Wp,
    pub ent: EntOpts,
    pub residual_amp: Option<i64>, // Some: residuals drawn at random, pixels derived
    pub local: LocalOpts,
    pub perm: Option<u64>, // seed of the section permutation
    pub order: Option<Vec<usize>>, // or the order itself
    pub seed: u64,
}
#[derive(Clone, Debug)]
pub struct LocalOpts {
    pub tree_pct: u64,
    pub tf_pct: u64,
}
impl Frame {
    pub fn new(h: &Hdr) -> Self {
        Frame {
            ftype: 0,
            crop: None,
            ups: 1,
            ec_ups: vec![1; h.ecs.len()],
            group_shift: 1,
            passes: Passes { num: 1, ds: vec![] },
            blend: Blend::REPLACE,
            ec_blend: vec![Blend::REPLACE; h.ecs.len()],
            duration: 0,
            timecode: 0,
            is_last: true,
            save_ref: 0,
            save_before_ct: false,
            lf_level: 0,
            name: vec![],
            gab: false,
            epf: 0,
            noise: None,
            extensions: 0,
            filter_extensions: 0,
            patches: None,
            chans: vec![],
            tfs: vec![],
            tree: leaf(5),
            tree_ent: EntOpts::plain(),
            wp: Wp::default(),
            ent: EntOpts::plain(),
            residual_amp: None,
            local: LocalOpts { tree_pct: 0, tf_pct: 0 },
            perm: None,
            order: None,
            seed: 1,
        }
    }
    /// Coded size of the frame before upsampling.
    pub fn dims(&self, img: (u32, u32)) -> (u32, u32, u32, u32) {
        let (w, h) = match self.crop {
            Some((_, _, w, h)) => (if w == 0 { img.0 } else { w }, if h == 0 { img.1 } else { h }),
            None => img,
        };
        let d = 1u32 << (3 * self.lf_level);
        let (wu, hu) = (w.div_ceil(d), h.div_ceil(d));
        (wu, hu, wu.div_ceil(self.ups), hu.div_ceil(self.ups))
    }
    /// Effective extra channel upsampling (coded factor times dim_shift when upsampling > 1).
    pub fn ec_up(&self, h: &Hdr, i: usize) -> u32 {
        if self.ups > 1 { self.ec_ups[i] << h.ecs[i].dim_shift } else { self.ec_ups[i] }
    }
    pub fn empty_chans(&self, h: &Hdr, img: (u32, u32)) -> Vec<Chan> {
        let (wu, hu, w, hh) = self.dims(img);
        let mut v: Vec<Chan> = (0..h.ncolor()).map(|_| Chan::new(w as usize, hh as usize)).collect();
        for i in 0..h.ecs.len() {
            let u = self.ec_up(h, i);
            let sh = u.trailing_zeros() - self.ups.trailing_zeros();
            let mut c = Chan::new(wu.div_ceil(u) as usize, hu.div_ceil(u) as usize);
            c.shift = Some((sh, sh));
            v.push(c);
        }
        v
    }
    pub fn group_dim(&self) -> usize {
        128 << self.group_shift
    }
    pub fn full_frame(&self, img: (u32, u32)) -> bool {
        match self.crop {
            None => true,
            Some((x, y, w, h)) => {
                let (x, y) = if self.ftype == 2 { (0, 0) } else { (x as i64, y as i64) };
                x <= 0 && y <= 0 && w as i64 + x >= img.0 as i64 && h as i64 + y >= img.1 as i64
            }
        }
    }
    pub fn num_passes(&self) -> u32 {
        if self.ftype == 2 { 1 } else { self.passes.num }
    }
}

pub fn write_frame_header(h: &Hdr, f: &Frame, img: (u32, u32), bw: &mut Bw) {
    const DIM: [(usize, u64); 4] = [(8, 0), (11, 256), (14, 2304), (30, 18688)];
    bw.b(false); // all_default
    bw.w(2, f.ftype as u64);
    bw.w(1, 1); // modular
    bw.u64v(if f.patches.is_some() { 2 } else { 0 } + f.noise.is_some() as u64);
    if !h.xyb {
        bw.b(false); // do_ycbcr
    }
    const UPS: [(usize, u64); 4] = [(0, 1), (0, 2), (0, 4), (0, 8)];
    bw.u32(UPS, f.ups as u64);
    for &e in &f.ec_ups {
        bw.u32(UPS, e as u64);
    }
    bw.w(2, f.group_shift as u64);
    if f.ftype != 2 {
        bw.u32([(0, 1), (0, 2), (0, 3), (3, 4)], f.passes.num as u64);
        if f.passes.num != 1 {
            bw.u32([(0, 0), (0, 1), (0, 2), (1, 3)], f.passes.ds.len() as u64);
            for i in 0..f.passes.num - 1 {
                bw.w(2, (i % 4) as u64);
            }
            for d in &f.passes.ds {
                bw.u32(UPS, d.0 as u64);
            }
            for d in &f.passes.ds {
                bw.u32([(0, 0), (0, 1), (0, 2), (3, 0)], d.1 as u64);
            }
        }
    }
    if f.ftype == 1 {
        bw.u32([(0, 1), (0, 2), (0, 3), (0, 4)], f.lf_level as u64);
    } else {
        bw.b(f.crop.is_some());
        if let Some((x, y, w, hh)) = f.crop {
            if f.ftype != 2 {
                bw.u32(DIM, pack_signed(x) as u64);
                bw.u32(DIM, pack_signed(y) as u64);
            }
            bw.u32(DIM, w as u64);
            bw.u32(DIM, hh as u64);
        }
    }
    let full = f.full_frame(img);
    let normal = f.ftype == 0 || f.ftype == 3;
    let mut is_last = f.is_last;
    if normal {
        f.blend.write(h.ecs.len(), full, bw);
        for b in &f.ec_blend {
            b.write(h.ecs.len(), full, bw);
        }
        if let Some(a) = &h.anim {
            bw.u32([(0, 0), (0, 1), (8, 0), (32, 0)], f.duration as u64);
            if a.timecodes {
                bw.w(32, f.timecode as u64);
            }
        }
        bw.b(f.is_last);
    } else {
        is_last = f.ftype == 0;
    }
    if f.ftype != 1 && !is_last {
        bw.w(2, f.save_ref as u64);
    }
    let dur = if normal && h.anim.is_some() { f.duration } else { 0 };
    let can_ref = !is_last && f.ftype != 1 && (dur == 0 || f.save_ref != 0);
    if f.ftype == 2 || (can_ref && f.blend.mode == 0 && full && normal) {
        bw.b(f.save_before_ct);
    }
    bw.string(&f.name);
    // restoration filter
    bw.b(false);
    bw.b(f.gab);
    if f.gab {
        bw.b(false);
    }
    bw.w(2, f.epf as u64);
    if f.epf > 0 {
        bw.b(false); // weights
        bw.b(false); // sigma
        bw.f16(1.0); // sigma for modular
    }
    write_extensions(bw, f.filter_extensions);
    write_extensions(bw, f.extensions);
}

pub struct Coded {
    pub header: Vec<u8>,        // frame header and TOC, byte aligned at the end
    pub sections: Vec<Vec<u8>>, // in logical order
    pub order: Vec<usize>,      // file position -> logical index
}
impl Coded {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.header.clone();
        for &i in &self.order {
            v.extend_from_slice(&self.sections[i]);
        }
        v
    }
}

struct Sub {
    section: usize,
    stream: usize,
    parts: Vec<(usize, usize, usize, usize, usize)>, // channel, x0, y0, w, h
    section0: bool,
}

fn bracket(p: &Passes, pass: usize) -> (usize, usize) {
    let (mut max, mut min) = (2usize, 3usize);
    for i in 0..=pass {
        for d in &p.ds {
            if i == d.1 as usize {
                min = d.0.trailing_zeros() as usize;
            }
        }
        if i + 1 == p.num as usize {
            min = 0;
        }
        if i != pass {
            max = min.saturating_sub(1);
        }
    }
    (min, max)
}

pub fn num_groups(f: &Frame, img: (u32, u32)) -> (usize, usize, usize, usize) {
    let (_, _, w, h) = f.dims(img);
    let gd = f.group_dim();
    let (gx, gy) = ((w as usize).div_ceil(gd), (h as usize).div_ceil(gd));
    let (lx, ly) = (
        (w as usize).div_ceil(8).div_ceil(gd),
        (h as usize).div_ceil(8).div_ceil(gd),
    );
    (gx, gy, lx, ly)
}

pub fn encode_frame(h: &Hdr, f: &mut Frame, img: (u32, u32)) -> Coded {
    let mut rng = Rng::new(f.seed ^ 0x5eed);
    let mut hb = Bw::new();
    hb.alt = h.alt.wrapping_mul(f.seed | 1);
    write_frame_header(h, f, img, &mut hb);
    hb.alt = 0;

    // the FrameHeader of a reference-only frame has one implicit pass
    let passes = if f.ftype == 2 { Passes { num: 1, ds: vec![] } } else { f.passes.clone() };
    let gd = f.group_dim();
    let (gx, gy, lx, ly) = num_groups(f, img);
    let (ng, nlf) = (gx * gy, lx * ly);
    let np = passes.num as usize;
    let single = ng == 1 && np == 1;
    let nsec = if single { 1 } else { 2 + nlf + ng * np };

    // channels after the global transforms
    let residual = f.residual_amp.is_some();
    let mut chs: Vec<Chan> = if residual { f.empty_chans(h, img) } else { f.chans.clone() };
    let mut applied: Vec<Tf> = vec![];
    let write_tfs: Vec<Tf> = f.tfs.clone();
    for t in &f.tfs {
        let t = if residual { meta_apply(&mut chs, t) } else { forward(&mut chs, t) };
        applied.push(t);
    }
    // assignment of channels to sections
    let lead = chs
        .iter()
        .take_while(|c| c.shift.is_none() || (c.w <= gd && c.h <= gd))
        .count();
    let full = |c: usize| (c, 0, 0, chs[c].w, chs[c].h);
    let mut subs = vec![Sub {
        section: 0,
        stream: 0,
        parts: (0..lead).map(full).collect(),
        section0: true,
    }];
    let rect = |c: usize, px: usize, py: usize, dim: usize| {
        let s = chs[c].shift.unwrap();
        let (dx, dy) = (dim >> s.0, dim >> s.1);
        let (x0, y0) = (px * dx, py * dy);
        let w = chs[c].w.saturating_sub(x0).min(dx);
        let hh = chs[c].h.saturating_sub(y0).min(dy);
        if w == 0 || hh == 0 { (c, 0, 0, 0, 0) } else { (c, x0, y0, w, hh) }
    };
    let minsh = |c: usize| chs[c].shift.map(|s| s.0.min(s.1) as usize);
    for g in 0..nlf {
        let parts = (lead..chs.len())
            .filter(|&c| minsh(c).is_some_and(|s| s >= 3))
            .map(|c| rect(c, g % lx, g / lx, gd * 8))
            .filter(|r| r.3 > 0)
            .collect();
        subs.push(Sub {
            section: if single { 0 } else { 1 + g },
            stream: 1 + nlf + g,
            parts,
            section0: false,
        });
    }
    for p in 0..np {
        let (mn, mx) = bracket(&passes, p);
        for g in 0..ng {
            let parts = (lead..chs.len())
                .filter(|&c| minsh(c).is_some_and(|s| mn <= s && s <= mx))
                .map(|c| rect(c, g % gx, g / gx, gd))
                .filter(|r| r.3 > 0)
                .collect();
            subs.push(Sub {
                section: if single { 0 } else { 2 + nlf + p * ng + g },
                stream: 1 + 3 * nlf + 17 + ng * p + g,
                parts,
                section0: false,
            });
        }
    }
    // per sub-bitstream coding decisions and tokens
    struct Plan {
        local_tree: Option<Vec<Node>>,
        tfs: Vec<Tf>,
        wp: Wp,
        stream: Stream,
    }
    let mut plans: Vec<Option<Plan>> = vec![];
    for s in &subs {
        let empty = s.parts.iter().all(|p| p.3 == 0 || p.4 == 0);
        if empty {
            plans.push(None);
            continue;
        }
        let local_tree = (rng.chance(f.local.tree_pct, 100)).then(|| {
            let g = TreeGen {
                max_prop: 15,
                props: vec![0, 2, 3, 5, 9, 15],
                preds: vec![0, 1, 2, 5, 6, 4],
                offsets: false,
                muls: false,
                dim: 16,
                amp: 20,
                max_stream: 8,
            };
            let n = rng.below(4) as usize;
            random_tree(&mut rng, n, &g)
        });
        let mut sub_chs: Vec<Chan> =
            s.parts.iter().map(|&(c, x, y, w, hh)| chs[c].crop(x, y, w, hh)).collect();
        let wp = if s.section0 {
            f.wp.clone()
        } else if rng.chance(1, 2) {
            Wp::default()
        } else {
            Wp::random(&mut rng)
        };
        let mut tfs = vec![];
        let mut app = vec![];
        if !s.section0 && rng.chance(f.local.tf_pct, 100) {
            let same = |a: &Chan, b: &Chan| a.w == b.w && a.h == b.h && a.shift == b.shift;
            if sub_chs.len() >= 3
                && same(&sub_chs[0], &sub_chs[1])
                && same(&sub_chs[0], &sub_chs[2])
                && rng.chance(2, 3)
            {
                tfs.push(Tf::Rct { begin: 0, ty: rng.below(42) as u32 });
            }
            if rng.chance(1, 3) {
                tfs.push(Tf::Squeeze { steps: vec![] });
            }
            if residual && rng.chance(1, 3) {
                let colors = 1 + rng.below(6) as usize;
                tfs.push(Tf::Palette { begin: 0, n: 1, colors, deltas: 0, pred: 0 });
            }
        }
        for t in &tfs {
            app.push(if residual { meta_apply(&mut sub_chs, t) } else { forward(&mut sub_chs, t) });
        }
        let tree = local_tree.as_ref().unwrap_or(&f.tree);
        let toks;
        if let Some(amp) = f.residual_amp {
            let r = &mut rng;
            let style = r.below(4);
            let mut run = (0, 0);
            toks = decode_channels(&mut sub_chs, s.stream, tree, &wp, &mut || {
                if style == 0 {
                    r.range(-amp, amp) as i32
                } else {
                    if run.0 == 0 {
                        run = (1 + r.below(20), r.range(-amp, amp) as i32);
                        if r.chance(1, 2) {
                            run.1 = 0;
                        }
                    }
                    run.0 -= 1;
                    run.1
                }
            });
            let width = sub_chs.iter().map(|c| c.w).max().unwrap();
            for t in app.iter().rev() {
                inverse(&mut sub_chs, t, &wp, h.depth.bits());
            }
            for (k, &(c, x0, y0, w, hh)) in s.parts.iter().enumerate() {
                for y in 0..hh {
                    for x in 0..w {
                        chs[c].set(x0 + x, y0 + y, sub_chs[k].at(x, y));
                    }
                }
            }
            plans.push(Some(Plan { local_tree, tfs, wp, stream: Stream { toks, width } }));
        } else {
            toks = encode_channels(&sub_chs, s.stream, tree, &wp);
            let width = sub_chs.iter().map(|c| c.w).max().unwrap();
            plans.push(Some(Plan { local_tree, tfs, wp, stream: Stream { toks, width } }));
        }
    }
    if residual {
        for t in applied.iter().rev() {
            inverse(&mut chs, t, &f.wp, h.depth.bits());
        }
        f.chans = chs.clone();
    }
    // global entropy code
    let gidx: Vec<usize> = (0..subs.len())
        .filter(|&i| plans[i].as_ref().is_some_and(|p| p.local_tree.is_none()))
        .collect();
    let gstreams: Vec<Stream> =
        gidx.iter().map(|&i| plans[i].as_ref().unwrap().stream.clone()).collect();
    let need_global = !gidx.is_empty() || rng.chance(1, 4);
    let (mut gcode, gsyms) = Code::build(f.tree.len().div_ceil(2), &gstreams, &f.ent);
    let mut secs: Vec<Bw> = vec![Bw::new(); nsec];
    {
        let b = &mut secs[0];
        if let Some(p) = &f.patches {
            write_patches(p, h, f, b, &mut rng);
        }
        for v in f.noise.iter().flatten() {
            b.w(10, *v as u64);
        }
        b.b(true); // lf quant all default
        b.b(need_global);
        if need_global {
            write_tree(&f.tree, &f.tree_ent, b);
            gcode.write_header(b);
        }
    }
    let gsym = |i: usize| -> &Vec<Sym> { &gsyms[gidx.iter().position(|&g| g == i).unwrap()] };
    for (i, s) in subs.iter().enumerate() {
        let b = &mut secs[s.section];
        match &plans[i] {
            None => {
                if s.section0 && !f.chans.is_empty() {
                    write_group_header(b, need_global, &f.wp, &write_tfs);
                }
            }
            Some(p) => {
                let tfs = if s.section0 { &write_tfs } else { &p.tfs };
                write_group_header(b, p.local_tree.is_none(), &p.wp, tfs);
                match &p.local_tree {
                    None => gcode.write_stream(gsym(i), b),
                    Some(t) => {
                        let lz = rng.chance(1, 2);
                        let eo = EntOpts::random(&mut rng, lz);
                        write_tree(t, &f.tree_ent, b);
                        let (mut c, sy) =
                            Code::build(t.len().div_ceil(2), &[p.stream.clone()], &eo);
                        c.write_header(b);
                        c.write_stream(&sy[0], b);
                    }
                }
            }
        }
    }
    let sections: Vec<Vec<u8>> = secs
        .into_iter()
        .map(|mut b| {
            b.align();
            b.buf
        })
        .collect();
    // order
    let mut order: Vec<usize> = (0..nsec).collect();
    if let Some(ps) = f.perm {
        let mut pr = Rng::new(ps);
        pr.shuffle(&mut order);
    }
    if let Some(o) = &f.order {
        order = o.clone();
    }
    write_toc(&sections, &order, f.perm.is_some() || f.order.is_some(), &mut rng, &mut hb);
    Coded { header: hb.buf, sections, order }
}

/// `order[k]` = logical section stored k-th. With a permuted TOC the decoder maps the
/// k-th stored... see headers/toc: logical section permutation[k] is the k-th entry.
pub fn write_toc(sections: &[Vec<u8>], order: &[usize], permuted: bool, rng: &mut Rng, b: &mut Bw) {
    let n = sections.len();
    b.b(permuted);
    if permuted {
        // perm[i]: position in the file of logical section i
        let mut perm = vec![0; n];
        for (pos, &i) in order.iter().enumerate() {
            perm[i] = pos;
        }
        let mut rest: Vec<usize> = (0..n).collect();
        let mut lehmer = vec![];
        for &p in &perm {
            let k = rest.iter().position(|&r| r == p).unwrap();
            lehmer.push(k as u32);
            rest.remove(k);
        }
        while lehmer.last() == Some(&0) {
            lehmer.pop();
        }
        let ctx = |x: u32| -> usize { crate::entropy::clog2(x as usize + 1).min(7) };
        let mut toks = vec![(ctx(n as u32), lehmer.len() as u32)];
        let mut prev = 0;
        for &l in &lehmer {
            toks.push((ctx(prev), l));
            prev = l;
        }
        let eo = EntOpts::random(rng, false);
        let (mut c, s) = Code::build(8, &[Stream { toks, width: 0 }], &eo);
        c.write_header(b);
        c.write_stream(&s[0], b);
    }
    b.align();
    for &i in order {
        b.u32_pick(
            [(10, 0), (14, 1024), (22, 17408), (30, 4211712)],
            sections[i].len() as u64,
            0,
        );
    }
    b.align();
}

fn write_patches(p: &[PatchRef], h: &Hdr, f: &Frame, bw: &mut Bw, rng: &mut Rng) {
    // contexts: 0 num_ref 1 ref_frame 2 patch size 3 ref pos 4 patch pos 5 blend mode
    //           6 offset 7 count 8 alpha channel 9 clamp
    let _ = f;
    let mut t: Vec<(usize, u32)> = vec![(0, p.len() as u32)];
    for r in p {
        t.push((1, r.slot));
        t.push((3, r.x0));
        t.push((3, r.y0));
        t.push((2, r.w - 1));
        t.push((2, r.h - 1));
        t.push((7, r.at.len() as u32 - 1));
        let (mut px, mut py) = (0i32, 0i32);
        for (i, (x, y, bl)) in r.at.iter().enumerate() {
            if i == 0 {
                t.push((4, *x));
                t.push((4, *y));
            } else {
                t.push((6, pack_signed(*x as i32 - px)));
                t.push((6, pack_signed(*y as i32 - py)));
            }
            px = *x as i32;
            py = *y as i32;
            for b in bl {
                t.push((5, b.mode));
                let uses_alpha = (4..=7).contains(&b.mode);
                if uses_alpha && h.ecs.len() > 1 {
                    t.push((8, b.alpha));
                }
                if uses_alpha || b.mode == 3 {
                    t.push((9, b.clamp as u32));
                }
            }
        }
    }
    let eo = EntOpts::random(rng, false);
    let (mut c, s) = Code::build(10, &[Stream { toks: t, width: 0 }], &eo);
    c.write_header(bw);
    c.write_stream(&s[0], bw);
}

/// A whole image: header, optional preview frame, frames. Returns the codestream and
/// the byte offset of each frame.
#[derive(Clone)]
pub struct Image {
    pub hdr: Hdr,
    pub icc_ent: EntOpts,
    pub preview: Option<Frame>,
    pub frames: Vec<Frame>,
}
pub struct CodedImage {
    pub bytes: Vec<u8>,
    pub header_len: usize,
    pub preview: Option<(usize, Coded)>,
    pub frames: Vec<(usize, Coded)>,
}
impl Image {
    pub fn encode(&mut self) -> CodedImage {
        let hb = write_file_header(&self.hdr, &self.icc_ent);
        let mut bytes = hb.buf;
        let header_len = bytes.len();
        let img = (self.hdr.w, self.hdr.h);
        let mut preview = None;
        if let Some(p) = &mut self.preview {
            let c = encode_frame(&self.hdr, p, self.hdr.preview.unwrap());
            let o = bytes.len();
            bytes.extend(c.bytes());
            preview = Some((o, c));
        }
        let mut frames = vec![];
        for f in &mut self.frames {
            let c = encode_frame(&self.hdr, f, img);
            let o = bytes.len();
            bytes.extend(c.bytes());
            frames.push((o, c));
        }
        CodedImage { bytes, header_len, preview, frames }
    }
}
