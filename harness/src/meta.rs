//! What the decoder reports about images and frames, judged by MetaTrace.
use crate::bits::Rng;
use crate::checks::{Args, par, write_lines};
use crate::drive::Feed;
use crate::enc::*;
use crate::entropy::EntOpts;
use crate::r#gen as g;
use jxl::api::states::*;
use jxl::api::*;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};

fn pair(v: u32) -> Value {
    json!([v >> 16, v & 0xffff])
}
fn e6(v: f32) -> i64 {
    (v as f64 * 1e6).round() as i64
}
fn profile(p: &JxlColorProfile) -> Value {
    let white = |w: &JxlWhitePoint| match w {
        JxlWhitePoint::D65 => (1, [0, 0]),
        JxlWhitePoint::E => (10, [0, 0]),
        JxlWhitePoint::DCI => (11, [0, 0]),
        JxlWhitePoint::Chromaticity { wx, wy } => (2, [e6(*wx), e6(*wy)]),
    };
    let tf = |t: &JxlTransferFunction| match t {
        JxlTransferFunction::BT709 => (1, 0),
        JxlTransferFunction::Linear => (8, 0),
        JxlTransferFunction::SRGB => (13, 0),
        JxlTransferFunction::PQ => (16, 0),
        JxlTransferFunction::DCI => (17, 0),
        JxlTransferFunction::HLG => (18, 0),
        JxlTransferFunction::Gamma(g) => (0, (*g as f64 * 1e7).round() as i64),
    };
    let mk = |space: u32, w: (u32, [i64; 2]), p: (u32, Vec<[i64; 2]>), t: (u32, i64), i: u32| {
        json!({"icc": false, "space": space, "white": w.0, "wxy": w.1, "prim": p.0, "pxy": p.1, "tf": t.0, "gamma": t.1, "intent": i})
    };
    match p {
        JxlColorProfile::Icc(_) => json!({"icc": true}),
        JxlColorProfile::Simple(JxlColorEncoding::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent }) => {
            let pr = match primaries {
                JxlPrimaries::SRGB => (1, vec![]),
                JxlPrimaries::BT2100 => (9, vec![]),
                JxlPrimaries::P3 => (11, vec![]),
                JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by } => {
                    (2, vec![[e6(*rx), e6(*ry)], [e6(*gx), e6(*gy)], [e6(*bx), e6(*by)]])
                }
            };
            mk(0, white(white_point), pr, tf(transfer_function), *rendering_intent as u32)
        }
        JxlColorProfile::Simple(JxlColorEncoding::GrayscaleColorSpace { white_point, transfer_function, rendering_intent }) => {
            mk(1, white(white_point), (1, vec![]), tf(transfer_function), *rendering_intent as u32)
        }
        JxlColorProfile::Simple(JxlColorEncoding::XYB { .. }) => json!({"icc": false, "space": 2}),
    }
}
fn info(d: &JxlDecoder<WithImageInfo>) -> Value {
    let b = d.basic_info();
    let t = &b.tone_mapping;
    json!({
        "size": [b.size.0, b.size.1],
        "depth": match b.bit_depth {
            JxlBitDepth::Int { bits_per_sample } => json!({"fl": false, "bits": bits_per_sample, "exp": 0}),
            JxlBitDepth::Float { bits_per_sample, exponent_bits_per_sample } =>
                json!({"fl": true, "bits": bits_per_sample, "exp": exponent_bits_per_sample}),
        },
        "o": b.orientation as u32,
        "ecs": b.extra_channels.iter().map(|e| json!({"ty": e.ec_type as u32, "assoc": e.alpha_associated})).collect::<Vec<_>>(),
        "anim": b.animation.as_ref().map_or(json!([]), |a| json!({
            "num": a.tps_numerator, "den": a.tps_denominator, "loops": pair(a.num_loops), "tc": a.have_timecodes})),
        "orig": b.uses_original_profile,
        "tone": {"target": pair(t.intensity_target.to_bits()), "min": pair(t.min_nits.to_bits()),
                 "rel": t.relative_to_max_display, "below": pair(t.linear_below.to_bits())},
        "preview": b.preview_size.map_or(json!([]), |p| json!([p.0, p.1])),
        "prof": profile(d.embedded_color_profile()),
    })
}
fn error(e: impl std::fmt::Debug) -> String {
    format!("{e:?}").split(['(', ' ', '{']).next().unwrap().to_string()
}
/// Opens a file; with `frames`, walks all its frames without decoding them.
fn observe(b: &[u8], frames: bool) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut o = JxlDecoderOptions::default();
        o.scan_frames_only = true;
        let mut feed = Feed::new(b, b.len());
        let mut d = match JxlDecoder::<Initialized>::new(o).process(&mut feed, None) {
            Err(e) => return json!({"out": error(e)}),
            Ok(ProcessingResult::NeedsMoreInput { .. }) => return json!({"out": "more"}),
            Ok(ProcessingResult::Complete { result }) => result,
        };
        let got = info(&d);
        if !frames {
            return json!({"out": "info", "got": got});
        }
        let mut heads = vec![];
        let mut tps = (1.0, 1.0);
        if let Some(a) = &d.basic_info().animation {
            tps = (a.tps_numerator as f64, a.tps_denominator as f64);
        }
        let mut sc: Vec<VisibleFrameInfo> = vec![];
        let end = loop {
            sc = d.scanned_frames().to_vec();
            if !d.has_more_frames() {
                break "end".to_string();
            }
            let f = match d.process(&mut feed, None) {
                Err(e) => break error(e),
                Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                    sc = fallback.scanned_frames().to_vec();
                    break "more".to_string();
                }
                Ok(ProcessingResult::Complete { result }) => result,
            };
            let h = f.frame_header();
            // in ticks
            let dur = h.duration.map_or(json!([]), |ms| pair((ms / 1000.0 * tps.0 / tps.1).round() as u32));
            heads.push(json!({"name": h.name.as_bytes(), "dur": dur, "size": [h.size.0, h.size.1]}));
            sc = f.scanned_frames().to_vec();
            d = match f.skip_frame(&mut feed) {
                Err(e) => break error(e),
                Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                    sc = fallback.scanned_frames().to_vec();
                    break "more".to_string();
                }
                Ok(ProcessingResult::Complete { result }) => result,
            };
        };
        let scans: Vec<Value> = sc
            .iter()
            .map(|s| {
                json!({"name": s.name.as_bytes(), "dur": pair(s.duration_ticks), "at": s.file_offset, "last": s.is_last,
                       "ms": pair((s.duration_ms / 1000.0 * tps.0 / tps.1).round() as u32)})
            })
            .collect();
        json!({"out": "info", "got": got, "end": end, "heads": heads, "scans": scans})
    }));
    r.unwrap_or_else(|_| json!({"out": "panic"}))
}

fn rand_xy(rng: &mut Rng) -> (i32, i32) {
    let mut one = || {
        let m = *rng.pick(&[1u64 << 10, 1 << 18, 1 << 19, 1 << 20, 1 << 21, (1 << 21) - 1]);
        let v = rng.below(m) as i32;
        if rng.chance(1, 2) { -v } else { v }
    };
    (one(), one())
}
fn rand_half(rng: &mut Rng, top: u64) -> f32 {
    let h = rng.below(top) as u16;
    let (e, m) = ((h >> 10) as i32, (h & 1023) as f32);
    if e == 0 { m * 2f32.powi(-24) } else { (1.0 + m / 1024.0) * 2f32.powi(e - 15) }
}
/// A valid image header, any of them.
pub fn rand_header(rng: &mut Rng) -> Hdr {
    let dim = |rng: &mut Rng| -> u32 {
        let m = *rng.pick(&[8u64, 40, 300, 5000, 1 << 18, 1 << 26]);
        let v = 1 + rng.below(m) as u32;
        if rng.chance(1, 3) { v.next_multiple_of(8) } else { v }
    };
    let h0 = dim(rng);
    let w0 = match rng.below(3) {
        0 => dim(rng),
        1 => {
            let (n, d) = *rng.pick(&[(1u64, 1u64), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)]);
            (h0 as u64 * n / d).max(1) as u32
        }
        _ => h0,
    };
    let depth = |rng: &mut Rng| -> Depth {
        if rng.chance(1, 2) {
            Depth::Int(1 + rng.below(31) as u32)
        } else {
            let e = 2 + rng.below(7) as u32;
            Depth::Float(e + 1 + 2 + rng.below(22) as u32, e)
        }
    };
    let d = match rng.below(4) {
        0 => Depth::Int(8),
        1 => *rng.pick(&[Depth::Float(32, 8), Depth::Float(16, 5), Depth::Int(16), Depth::Int(1)]),
        _ => depth(rng),
    };
    let gray = rng.chance(1, 3);
    let mut h = Hdr::new(w0, h0, gray, d);
    h.size_form = rng.next();
    h.alt = if rng.chance(2, 3) { rng.next() | 1 } else { 0 };
    h.m16 = rng.chance(1, 2);
    h.xyb = rng.chance(1, 2);
    h.extra_fields = rng.chance(1, 4);
    if rng.chance(1, 2) {
        h.orientation = 1 + rng.below(8) as u32;
    }
    if rng.chance(1, 4) {
        h.intrinsic = Some((dim(rng), dim(rng)));
    }
    if rng.chance(1, 4) {
        let p = |rng: &mut Rng| {
            let m = *rng.pick(&[64u64, 300, 1300, 4096]);
            1 + rng.below(m) as u32
        };
        let (a, b) = (p(rng), p(rng));
        h.preview = Some(if rng.chance(1, 3) { (a.next_multiple_of(8), b.next_multiple_of(8)) } else { (a, b) });
    }
    if rng.chance(1, 2) {
        h.anim = Some(Anim {
            num: match rng.below(4) {
                0 => 100,
                1 => 1000,
                2 => 1 + rng.below(1024) as u32,
                _ => 1 + rng.below(1 << 30) as u32,
            },
            den: *rng.pick(&[1u32, 1001, 2, 256, 257, 1024]),
            loops: match rng.below(4) {
                0 => 0,
                1 => rng.below(8) as u32,
                2 => rng.below(1 << 16) as u32,
                _ => rng.next() as u32,
            },
            timecodes: rng.chance(1, 2),
        });
    }
    for _ in 0..*rng.pick(&[0u64, 0, 1, 2, 3, 18, 40]) {
        let ty = rng.below(17) as u32;
        let mut e = Ec::of(if (7..16).contains(&ty) { 0 } else { ty }, if rng.chance(1, 2) { Depth::Int(8) } else { depth(rng) });
        e.compact = rng.chance(1, 2);
        e.assoc = e.ty == 0 && rng.chance(1, 2);
        e.dim_shift = *rng.pick(&[0u32, 0, 1, 2, 3]);
        if rng.chance(1, 3) {
            e.name = vec![b'a'; *rng.pick(&[1usize, 15, 16, 47, 48, 70])];
        }
        e.spot = [rand_half(rng, 31 << 10), rand_half(rng, 31 << 10), 0.5, 1.0];
        e.cfa = rng.below(275) as u32;
        h.ecs.push(e);
    }
    h.color = ColorEnc {
        space: gray as u32,
        white: *rng.pick(&[1u32, 2, 10, 11]),
        white_xy: rand_xy(rng),
        prim: *rng.pick(&[1u32, 2, 9, 11]),
        prim_xy: [rand_xy(rng), rand_xy(rng), rand_xy(rng)],
        gamma: rng.chance(1, 4).then(|| 1230 + rng.below(9_998_000) as u32),
        tf: *rng.pick(&[1u32, 8, 13, 16, 17, 18]),
        intent: rng.below(4) as u32,
        compact: rng.chance(1, 2),
    };
    if rng.chance(1, 4) {
        h.color = ColorEnc::srgb(gray);
    }
    if rng.chance(1, 3) {
        let t = rand_half(rng, 31 << 10).max(1e-6);
        let rel = rng.chance(1, 2);
        let mut below = rand_half(rng, if rel { 15 << 10 } else { 31 << 10 });
        if rel && rng.chance(1, 4) {
            below = 1.0;
        }
        let t = if t < 1e-4 { 0.0078125 } else { t };
        let min = t * *rng.pick(&[0.0f32, 0.25, 1.0]);
        h.tone = Some((t, if min < 1e-4 { 0.0 } else { min }, rel, below));
    }
    if rng.chance(1, 4) {
        h.extensions = g::rand_extensions(rng) & !(1 << 63);
    }
    h
}
/// Image headers and frame headers, valid and damaged.
pub fn headers(a: &Args) {
    let seed0 = a.n("seed", 1) << 24;
    let kind = a.s("kind").unwrap_or("valid").to_string();
    let n = a.n("n", 200);
    let frames = kind.starts_with("frames");
    let fo = g::FilmOpts { max_dim: a.n("dim", 9), max_frames: a.n("frames", 4), icc: false, ..g::FilmOpts::small() };
    let recs: Vec<Value> = par(n, |i| {
        let mut rng = Rng::new(seed0 + i);
        let mut b;
        if frames {
            loop {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut im = g::film(&mut rng, &fo);
                    let c = im.encode();
                    (c.preview.iter().chain(&c.frames).map(|(at, c)| (*at, c.header.len())).collect::<Vec<_>>(), c.bytes)
                }));
                let Ok((at, bytes)) = r else { continue };
                b = bytes;
                if b.len() > 3000 {
                    continue;
                }
                if kind == "frames-bad" {
                    let (at, len) = *rng.pick(&at);
                    for _ in 0..1 + rng.below(2) {
                        let p = 8 * at as u64 + rng.below(8 * (len as u64).min(40));
                        b[p as usize / 8] ^= 1 << (p % 8);
                    }
                } else if rng.chance(1, 5) {
                    b.truncate(rng.below(b.len() as u64 + 1) as usize);
                }
                break;
            }
        } else if kind == "random" {
            b = vec![0xff, 0x0a];
            let len = 4 + rng.below(60) as usize;
            b.extend((0..len).map(|_| rng.next() as u8));
            if rng.chance(1, 2) {
                // small size, not all default
                b[2] = (b[2] | 1) & 0x3f;
                b[3] &= 0xfe;
            }
        } else {
            let h = rand_header(&mut rng);
            b = write_file_header(&h, &EntOpts::plain()).buf;
            let len = b.len() as u64;
            match kind.as_str() {
                "bad" => {
                    for _ in 0..1 + rng.below(3) {
                        let p = rng.below(8 * (len - 2).min(60)) + if rng.chance(1, 20) { 0 } else { 16 };
                        b[p as usize / 8] ^= 1 << (p % 8);
                    }
                }
                "cut" => b.truncate(rng.below(len) as usize),
                _ => {}
            }
            if kind != "cut" && rng.chance(1, 2) {
                b.extend((0..rng.below(30)).map(|_| rng.next() as u8));
            }
        }
        let mut r = observe(&b, frames);
        r["b"] = json!(b);
        r["frames"] = json!(frames);
        r["must"] = json!(!kind.ends_with("bad") && kind != "random");
        r
    });
    let mut outs = std::collections::BTreeMap::new();
    for r in &recs {
        *outs.entry(format!("{} {}", r["out"].as_str().unwrap(), r["end"].as_str().unwrap_or(""))).or_insert(0u32) += 1;
    }
    if std::env::var("DESC").is_ok() {
        eprintln!("{outs:?}");
    }
    write_lines(&a.out(), &recs);
    println!("{}", json!({"headers": n, "outcomes": outs.len()}));
}

/// Decoding under a sample limit.
pub fn limits(a: &Args) {
    use crate::drive::{Act, End, OptSel, Plan, decode};
    let seed0 = a.n("seed", 1) << 24;
    let kind = a.s("kind").unwrap_or("films").to_string();
    let n = a.n("n", 200);
    let around = |rng: &mut Rng, v: u64| -> u64 { v.saturating_add(rng.below(3)).saturating_sub(1) };
    let counts = |w: u32, h: u32, nec: usize| -> Vec<u64> {
        let c = 3 + nec as u64;
        vec![(w as u64).saturating_mul(h as u64).saturating_mul(c), (w.max(16) as u64).saturating_mul(h as u64).saturating_mul(c)]
    };
    const TOP: u64 = (1 << 30) - 1;
    let recs: Vec<Value> = par(n, |i| {
        let mut rng = Rng::new(seed0 + i);
        let deep = kind != "headers";
        let (b, cand) = if !deep {
            let mut h = rand_header(&mut rng);
            if rng.chance(1, 6) {
                // powers of two, so that counts kept in too few bits would look small
                let (a, b, more) = if rng.chance(1, 2) {
                    *rng.pick(&[(30u64, 30u64, 4u64), (30, 29, 5), (29, 30, 5)])
                } else {
                    let more = 2 + rng.below(2);
                    let a = rng.below(31 - more);
                    (a, 32 - more - a, more)
                };
                (h.w, h.h) = (1 << a, 1 << b.min(30));
                h.ecs = (0..(1 << more) - 3).map(|_| Ec::of(0, h.depth)).collect();
            }
            let mut cand = counts(h.w, h.h, h.ecs.len());
            if let Some((w, hh)) = h.preview {
                cand.extend(counts(w, hh, h.ecs.len()));
            }
            (write_file_header(&h, &EntOpts::plain()).buf, cand)
        } else {
            let fo = g::FilmOpts { max_dim: *rng.pick(&[6u64, 20, 40]), max_frames: 5, preview: true, icc: false, ..g::FilmOpts::small() };
            loop {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut im = g::film(&mut rng, &fo);
                    let c = im.encode();
                    (im, c)
                }));
                let Ok((im, c)) = r else { continue };
                let nec = im.hdr.ecs.len();
                let img = (im.hdr.w, im.hdr.h);
                let mut cand = counts(img.0, img.1, nec);
                if let Some((w, hh)) = im.hdr.preview {
                    cand.extend(counts(w, hh, nec));
                }
                let mut bytes = c.bytes.clone();
                for f in &im.frames {
                    let (w, hh) = f.crop.map_or(img, |c| (c.2, c.3));
                    cand.extend(counts(w.div_ceil(f.ups), hh.div_ceil(f.ups), nec));
                }
                if kind == "huge" {
                    // from some frame on there is only the header of an enormous frame
                    let k = rng.below(im.frames.len() as u64) as usize;
                    let mut f = im.frames[k].clone();
                    let (w, hh) = (1 + rng.below(1 << 14) as u32, 1 + rng.below(1 << 20) as u32);
                    let (w, hh) = if rng.chance(1, 2) { (w, hh) } else { (hh, w) };
                    let (x, y) = f.crop.map_or((0, 0), |c| (c.0, c.1));
                    if f.ftype == 1 {
                        continue;
                    }
                    f.crop = Some((x, y, w, hh));
                    let mut hb = crate::bits::Bw::new();
                    write_frame_header(&im.hdr, &f, img, &mut hb);
                    bytes.truncate(c.frames[k].0);
                    bytes.extend(hb.buf);
                    bytes.extend([0; 200]);
                    cand.extend(counts(w.div_ceil(f.ups), hh.div_ceil(f.ups), nec));
                }
                if bytes.len() > 4000 {
                    continue;
                }
                break (bytes, cand);
            }
        };
        let limit = match rng.below(8) {
            0 => 1 + rng.below(TOP),
            1 => 1 + rng.below(200_000),
            // all of the small frames fit
            2 | 3 if kind == "huge" => cand[..cand.len() - 2].iter().max().unwrap() + rng.below(3),
            _ => {
                let v = *rng.pick(&cand);
                around(&mut rng, v)
            }
        };
        let limit = limit.min(if kind == "headers" { TOP } else { 1 << 22 });
        // beyond any of these images
        let limit = if kind == "films" && rng.chance(1, 16) { *rng.pick(&[u64::MAX >> 1, (1 << 32) + 5, u64::MAX]) } else { limit };
        let mut acts = vec![];
        if rng.chance(1, 3) {
            acts = (0..8).map(|_| if rng.chance(1, 2) { Act::Skip } else { Act::Decode }).collect();
        }
        let plan = Plan {
            stop_after_info: !deep,
            acts,
            opts: OptSel { sample_limit: Some(limit as usize), ..OptSel::default() },
            keep_buffers: false,
            ..Plan::default()
        };
        let (o, mem) = crate::alloc::peak(|| decode(&b, &plan));
        let out = match &o.end {
            End::Finished => "end".to_string(),
            End::Truncated(_) => "more".into(),
            End::Stopped => "stop".into(),
            End::Panic(_) => "panic".into(),
            End::Error(e) if e.starts_with("ImageSizeTooLarge") => "size".into(),
            End::Error(e) => format!("error {}", error(e)),
        };
        json!({"b": b, "limit": limit.min(i32::MAX as u64), "deep": deep, "out": out, "heads": o.announced, "mem": (mem >> 10).min(1 << 30)})
    });
    let mut outs = std::collections::BTreeMap::new();
    for r in &recs {
        *outs.entry(r["out"].as_str().unwrap().to_string()).or_insert(0u32) += 1;
    }
    let mem = recs.iter().map(|r| r["mem"].as_u64().unwrap()).max();
    if std::env::var("DESC").is_ok() {
        eprintln!("{outs:?} {mem:?}");
    }
    write_lines(&a.out(), &recs);
    println!("{}", json!({"files": n, "outcomes": outs, "peak_kib": mem}));
}
