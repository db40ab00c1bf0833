//! Drivers of the checks of decoded data (samples, headers, profiles).
use crate::bits::Rng;
use crate::checks::{Args, par, write_lines};
use crate::drive::*;
use crate::enc::*;
use crate::entropy::EntOpts;
use crate::modular::Tf;
use crate::r#gen as g;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Samples as the integers they stand for.
pub fn ints(b: &[u8], d: Depth) -> Vec<i64> {
    let it = b.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap()));
    match d {
        Depth::Int(n) => {
            let m = ((1u64 << n) - 1) as f64;
            it.map(|v| (v as f64 * m).round().clamp(-2e9, 2e9) as i64).collect()
        }
        Depth::Float(32, _) => it.map(|v| v.to_bits() as i32 as i64).collect(),
        _ => unreachable!(),
    }
}
/// Separates interleaved colour.
pub fn planes(fo: &FrameObs, nc: usize, d: Depth, ecd: &[Depth]) -> Vec<Vec<i64>> {
    let col = ints(&fo.bufs[0], d);
    let mut v: Vec<Vec<i64>> = (0..nc).map(|k| col.iter().skip(k).step_by(nc).copied().collect()).collect();
    for (i, b) in fo.bufs[1..].iter().enumerate() {
        v.push(ints(b, ecd[i]));
    }
    v
}
fn err_of(o: &Outcome) -> String {
    match &o.end {
        End::Finished | End::Stopped => String::new(),
        End::Error(e) => e.clone(),
        e => format!("{e:?}"),
    }
}
pub fn bounded(im: &Image, lim: i64) -> bool {
    im.frames.iter().all(|f| f.chans.iter().all(|c| c.d.iter().all(|&v| (v as i64).abs() < lim)))
}


/// Channels of one colour transform stored in tiles of different sizes.
fn mixed(im: &mut Image) {
    let f = &mut im.frames[0];
    f.residual_amp = Some(3);
    f.group_shift = 0;
    let b = im.hdr.ncolor();
    let sq = |hor, begin, num| (hor, true, begin, num);
    f.tfs = vec![
        Tf::Squeeze { steps: vec![sq(true, b, 3), sq(true, b, 3), sq(false, b, 3), sq(false, b, 3), sq(false, b, 3)] },
        Tf::Rct { begin: b, ty: 6 },
        Tf::Squeeze { steps: vec![sq(true, b + 1, 1)] },
    ];
}
/// Images to code in one round.  Panics (caught by the caller) where the choices do not fit.
fn make(kind: &str, dim: u64, rng: &mut Rng) -> Vec<Image> {
    let depth = match rng.below(4) {
        0 => Depth::Int(8),
        1 => Depth::Int(1 + rng.below(16) as u32),
        2 => Depth::Int(16),
        _ => Depth::Int(5),
    };
    let long = [128u32, 129, 130, 200, 256, 257, 300];
    let (w, h) = match kind {
        "thin" => {
            let (l, s) = (*rng.pick(&long), 1 + rng.below(4) as u32);
            if rng.chance(1, 2) { (l, s) } else { (s, l) }
        }
        "lf" => {
            let l = 1025 + rng.below(40) as u32;
            if rng.chance(1, 2) { (l, 1) } else { (1, l) }
        }
        "layout" => {
            let (l, s) = (*rng.pick(&[128u32, 129, 257, 300, 385]), 1 + rng.below(2) as u32);
            if rng.chance(1, 2) { (l, s) } else { (s, l) }
        }
        "mixed" => (129 + rng.below(20) as u32, 9 + rng.below(12) as u32),
        "big" => {
            let m = *rng.pick(&[40u64, 150, 300, 600]);
            (1 + rng.below(m) as u32, 1 + rng.below(m) as u32)
        }
        "biglf" => {
            let (l, s) = (1025 + rng.below(1400) as u32, 1 + rng.below(60) as u32);
            if rng.chance(1, 2) { (l, s) } else { (s, l) }
        }
        _ => (1 + rng.below(dim) as u32, 1 + rng.below(dim) as u32),
    };
    let layout = kind.starts_with("layout") || kind == "biglayout";
    let (w, h) = if kind == "biglayout" {
        (1 + rng.below(700) as u32, 1 + rng.below(500) as u32)
    } else {
        (w, h)
    };
    let mut im = g::lossless_sized(rng, depth, w, h, !layout && kind != "tokens");
    let nch = im.frames[0].chans.len();
    match kind {
        "small" | "big" => {}
        "mixed" => {
            assert!(im.hdr.ecs.len() >= 3);
            mixed(&mut im);
        }
        "tokens" => {
            let f = &mut im.frames[0];
            f.tfs.clear();
            f.local = LocalOpts { tree_pct: 0, tf_pct: 0 };
            f.passes = Passes { num: 1, ds: vec![] };
            f.group_shift = 3;
            let top = *rng.pick(&[1i64, 3, 30, 300, 5000, 60000]);
            for c in f.chans.iter_mut() {
                g::fill(rng, c, top, false);
                if rng.chance(1, 3) {
                    for v in c.d.iter_mut() {
                        if rng.chance(1, 5) {
                            *v = rng.range(-top, top) as i32;
                        }
                    }
                }
            }
            let tg = crate::modular::TreeGen {
                max_prop: 15,
                props: vec![0, 2, 3],
                preds: vec![0],
                offsets: false,
                muls: false,
                dim: w.max(h) as i64,
                amp: 10,
                max_stream: 40,
            };
            let n = rng.below(8) as usize;
            f.tree = crate::modular::random_tree(rng, n, &tg);
            f.ent = EntOpts::random(rng, true);
            f.tree_ent = EntOpts::random(rng, true);
        }
        _ => im.frames[0].group_shift = rng.chance(1, 5) as u32,
    }
    if !layout {
        return vec![im];
    }
    // the same picture, laid out in several ways
    let mut v = vec![];
    let chans = im.frames[0].chans.clone();
    for k in 0..3 {
        let mut b = im.clone();
        let f = &mut b.frames[0];
        if k > 0 {
            g::rand_coding(rng, &im.hdr, f, (w, h));
            f.chans = chans.clone();
        }
        f.group_shift = rng.below(if w.max(h) > 400 { 3 } else { 2 }) as u32;
        f.passes = g::rand_passes(rng);
        if rng.chance(2, 3) {
            f.perm = Some(rng.next());
        }
        v.push(b);
    }
    assert!(nch > 0);
    v
}

/// Images judged by SampleTrace.  All are decoded and compared with the writer's own model; every
/// difference and a sample of the rest go to the specification.
pub fn samples(a: &Args) {
    let seed0 = a.n("seed", 1) << 24;
    let dim = a.n("dim", 10);
    let kind = a.s("kind").unwrap_or("small").to_string();
    let lim = a.n("limit", 1 << 18) as i64;
    let n = a.n("n", 200);
    let judge = a.n("judge", n);
    let recs: Vec<Vec<Value>> = par(n, |i| {
        let mut rng = Rng::new(seed0 + i);
        loop {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut ims = make(&kind, dim, &mut rng);
                let cs: Vec<_> = ims.iter_mut().map(|im| im.encode()).collect();
                (ims, cs)
            }));
            let Ok((ims, cs)) = r else { continue };
            if !ims.iter().all(|im| bounded(im, lim)) {
                continue;
            }
            let keep = judge > 0 && i % (n / judge).max(1) == 0;
            return ims.iter().zip(cs).map(|(im, c)| slim(sample_record(im, &c.bytes), keep)).collect();
        }
    });
    let recs: Vec<Value> = recs.into_iter().flatten().collect();
    finish(a, recs, judge as usize);
}
fn sample_record(im: &Image, bytes: &[u8]) -> Value {
    let o = decode(bytes, &Plan::default());
    let nc = im.hdr.ncolor();
    let d = im.hdr.depth;
    let ch = match o.frames.first() {
        Some(f) if o.end == End::Finished => {
            planes(f, nc, d, &im.hdr.ecs.iter().map(|e| e.depth).collect::<Vec<_>>())
        }
        _ => vec![],
    };
    let model: Vec<Vec<i64>> = im.frames[0].chans.iter().map(|c| c.d.iter().map(|&v| v as i64).collect()).collect();
    let mut r = json!({"b": bytes, "err": err_of(&o), "ch": ch, "agree": model == ch});
    if std::env::var("DESC").is_ok() {
        let f = &im.frames[0];
        r["desc"] = json!(format!("{}x{} gs{} {:?} tfs {:?}", im.hdr.w, im.hdr.h, f.group_shift, f.passes, f.tfs));
    }
    r
}
/// Drops the contents of an agreeing record that will not be judged.
pub fn slim(r: Value, keep: bool) -> Value {
    if let Ok(dir) = std::env::var("EMIT") {
        // the files themselves, for use outside the checks
        static K: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = K.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let b: Vec<u8> = r["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(std::path::Path::new(&dir).join(format!("{k}.jxl")), b).unwrap();
    }
    if keep || r["agree"] == false {
        return r;
    }
    json!({"agree": true, "slim": true, "len": r["b"].as_array().unwrap().len()})
}
/// Keeps the smallest differing records and `judge` of the others, evenly spread.
pub fn finish(a: &Args, recs: Vec<Value>, judge: usize) {
    let total = recs.len();
    let size = |r: &Value| r["b"].as_array().map_or_else(|| r["len"].as_u64().unwrap_or(0) as usize, |b| b.len());
    let bytes: usize = recs.iter().map(size).sum();
    let (mut bad, good): (Vec<Value>, Vec<Value>) = recs.into_iter().partition(|r| r["agree"] == false);
    let nbad = bad.len();
    let mut errs = std::collections::BTreeMap::new();
    for r in &bad {
        *errs.entry(r["err"].as_str().unwrap_or("").to_string()).or_insert(0) += 1;
    }
    let good: Vec<Value> = good.into_iter().filter(|r| r["slim"].is_null()).collect();
    bad.sort_by_key(size);
    // a few of every kind
    let mut seen = std::collections::BTreeMap::new();
    bad.retain(|r| {
        let k = r["err"].as_str().unwrap_or("").chars().take(60).collect::<String>();
        let n = seen.entry(k).or_insert(0);
        *n += 1;
        *n <= 6
    });
    bad.truncate(60);
    let step = (good.len() / judge.max(1)).max(1);
    bad.extend(good.into_iter().step_by(step).take(judge));
    write_lines(&a.out(), &bad);
    println!("{}", json!({"images": total, "bytes": bytes, "differ_from_writer": nbad, "errors": errs, "judged": bad.len()}));
}

// ---------------------------------------------------------------- colour profiles
fn tiny(rng: &mut Rng) -> Image {
    let mut im = g::lossless_sized(rng, Depth::Int(8), 1, 1, false);
    im.hdr.ecs.clear();
    im.frames[0].chans.truncate(im.hdr.ncolor());
    im.frames[0].tfs.clear();
    im
}
/// Alters an encoded profile: mostly small changes that keep it plausible.
fn mangle(rng: &mut Rng, enc: &mut Vec<u8>) {
    for _ in 0..1 + rng.below(2) {
        let n = enc.len() as u64;
        // numbers and commands come first
        let at = if rng.chance(2, 3) { rng.below(n.min(60)) } else { rng.below(n) } as usize;
        match rng.below(9) {
            0 => enc[at] = rng.next() as u8,
            1 => enc[at] ^= 1 << rng.below(8),
            2 => enc[at] = enc[at].wrapping_add(1),
            3 => enc[at] = enc[at].wrapping_sub(1),
            4 => {
                enc.remove(at);
            }
            5 => enc.insert(at, *rng.pick(&[0u8, 1, 2, 3, 4, 10, 16, 20, 21, 24, 64, 128, 255])),
            6 => enc.truncate(enc.len() - 1),
            7 => enc.push(rng.next() as u8),
            _ => enc[at] = *rng.pick(&[0u8, 1, 2, 3, 4, 5, 10, 15, 16, 23, 24, 63, 127, 128, 129, 255]),
        }
        if enc.is_empty() {
            enc.push(0);
        }
    }
}
/// Colour profiles judged by IccTrace.
pub fn profiles(a: &Args) {
    let seed0 = a.n("seed", 1) << 24;
    let kind = a.s("kind").unwrap_or("valid").to_string();
    let n = a.n("n", 200);
    let judge = a.n("judge", n);
    let recs: Vec<Value> = par(n, |i| {
        let mut rng = Rng::new(seed0 + i);
        loop {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut im = tiny(&mut rng);
                im.hdr.extra_fields = rng.chance(1, 4);
                let body = *rng.pick(&[0usize, 40, 200, 600]);
                let (mut enc, prof) = crate::icc::generate(&mut rng, body);
                let code = kind == "code";
                if code {
                    let n = rng.below(60) as usize;
                    let style = rng.below(3);
                    let mut d: Vec<u8> =
                        (0..n).map(|k| if style == 0 { rng.next() as u8 } else { (k as u8 % 7) * style as u8 }).collect();
                    enc = vec![n as u8, 0];
                    enc.append(&mut d);
                }
                if kind == "payload" {
                    mangle(&mut rng, &mut enc);
                }
                im.icc_ent = EntOpts::random(&mut rng, true);
                im.hdr.icc = Some(enc);
                let start = header_fields(&im.hdr).nbits;
                let c = im.encode();
                let mut b = c.bytes;
                let mut end = c.header_len * 8;
                if code {
                    let flip = |b: &mut Vec<u8>, p: usize| b[p / 8] ^= 1 << (p % 8);
                    match rng.below(4) {
                        0 => {
                            // anything at all after the length and the LZ77 flag
                            for p in start + 11..end {
                                if rng.chance(1, 2) {
                                    flip(&mut b, p);
                                }
                            }
                        }
                        1 => {
                            // one bit of the tables
                            let m = ((end - start) as u64).min(*rng.pick(&[40u64, 100, 300]));
                            flip(&mut b, start + rng.below(m) as usize);
                        }
                        2 => {
                            for _ in 0..1 + rng.below(3) {
                                let m = (end - start) as u64;
                                flip(&mut b, start + rng.below(m) as usize);
                            }
                        }
                        _ => {
                            // cut
                            b.truncate(start / 8 + 1 + rng.below(((end - start) / 8 + 1) as u64) as usize);
                            end = b.len() * 8;
                        }
                    }
                    let _ = end;
                }
                (b, if kind == "valid" { Some(prof) } else { None })
            }));
            let Ok((b, prof)) = r else { continue };
            let mut plan = Plan { stop_after_info: true, ..Plan::default() };
            if rng.chance(1, 2) {
                let k = 1 + rng.below(5) as usize;
                plan.chunks = (0..k).map(|_| rng.below(b.len() as u64 + 1) as usize).collect();
                plan.chunks.sort();
            } else if rng.chance(1, 4) {
                plan.chunks = (1..b.len()).collect();
            }
            let o = decode(&b, &plan);
            let hex = o.info.as_ref().and_then(|f| f.profile.strip_prefix("icc:").map(|s| s.to_string()));
            let icc: Vec<u8> = hex
                .as_ref()
                .map(|h| (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect())
                .unwrap_or_default();
            let out = match &o.end {
                End::Stopped => if hex.is_some() { "icc".into() } else { "no profile".into() },
                End::Truncated(_) => "more".to_string(),
                End::Panic(_) => "panic".into(),
                e => format!("{e:?}"),
            };
            let agree = match &prof {
                Some(p) => out == "icc" && icc == *p,
                None => out != "panic",
            };
            let keep = judge > 0 && i % (n / judge).max(1) == 0;
            let err = if out == "icc" { String::new() } else { out.clone() };
            return slim(json!({"b": b, "out": out, "icc": icc, "err": err, "agree": agree}), keep);
        }
    });
    let mut outs = std::collections::BTreeMap::new();
    for r in &recs {
        if let Some(o) = r["out"].as_str() {
            *outs.entry(o.chars().take(24).collect::<String>()).or_insert(0) += 1;
        }
    }
    if std::env::var("DESC").is_ok() {
        eprintln!("{outs:?}");
    }
    finish(a, recs, judge as usize);
}

// ---------------------------------------------------------------- films
fn unit(d: Depth) -> f64 {
    match d {
        Depth::Int(b) => ((1u64 << b) - 1) as f64,
        _ => 4096.0,
    }
}
/// Where a patch dictionary goes wrong.
fn spoil(rng: &mut Rng, im: &mut Image) {
    let nec = im.hdr.ecs.len() as u64;
    let img = (im.hdr.w, im.hdr.h);
    let with: Vec<usize> = (0..im.frames.len()).filter(|&i| im.frames[i].patches.is_some()).collect();
    assert!(!with.is_empty());
    let at = *rng.pick(&with);
    let f = &mut im.frames[at];
    let (_, _, fw, fh) = f.dims(img);
    let ps = f.patches.as_mut().unwrap();
    let k = rng.below(ps.len() as u64) as usize;
    let p = &mut ps[k];
    let j = rng.below(p.at.len() as u64) as usize;
    let far = |rng: &mut Rng, d: u32, s: u32| -> u32 {
        let e = (d + 1).saturating_sub(s);
        *rng.pick(&[e, e, e, e + 1, e.saturating_sub(1), d, d + 1, 1 << 20])
    };
    match rng.below(9) {
        0 => p.at[j].0 = far(rng, fw, p.w),
        1 => p.at[j].1 = far(rng, fh, p.h),
        2 => p.x0 += 1 + rng.below(3) as u32,
        3 => p.y0 += 1 + rng.below(3) as u32,
        4 => p.w += 1 + rng.below(3) as u32,
        5 => p.h += 1 + rng.below(3) as u32,
        6 => p.slot = rng.below(6) as u32,
        7 => {
            let m = rng.below(p.at[j].2.len() as u64) as usize;
            p.at[j].2[m].mode = *rng.pick(&[8u32, 9, 256, 257, 1 << 16]);
        }
        _ => {
            assert!(nec > 1);
            let m = rng.below(p.at[j].2.len() as u64) as usize;
            p.at[j].2[m].mode = 4 + rng.below(4) as u32;
            p.at[j].2[m].alpha = (nec + rng.below(2)) as u32;
        }
    }
}
/// Films judged by CanvasTrace.
pub fn films(a: &Args) {
    let seed0 = a.n("seed", 1) << 24;
    let kind = a.s("kind").unwrap_or("canvas").to_string();
    let n = a.n("n", 200);
    let judge = a.n("judge", n);
    let opts = g::FilmOpts {
        max_dim: a.n("dim", 9),
        max_frames: a.n("frames", 5),
        short_values: true,
        long: a.n("long", 0),
        patches: kind != "canvas",
        blend: kind == "canvas" || kind == "all",
        rich: a.n("rich", 0) == 1,
        icc: false,
        preview: kind == "canvas",
        ..g::FilmOpts::small()
    };
    let recs: Vec<Value> = par(n, |i| {
        let mut rng = Rng::new(seed0 + i);
        loop {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut im = g::film(&mut rng, &opts);
                if kind != "canvas" {
                    assert!(im.frames.iter().any(|f| f.patches.is_some()));
                }
                if kind == "badpatches" {
                    spoil(&mut rng, &mut im);
                }
                let c = im.encode();
                (im, c)
            }));
            let Ok((im, c)) = r else { continue };
            if !bounded(&im, 1 << 18) {
                continue;
            }
            let keep = judge > 0 && i % (n / judge).max(1) == 0;
            return slim(film_record(&im, &c.bytes, kind == "badpatches"), keep);
        }
    });
    if std::env::var("DESC").is_ok() {
        let mut outs = std::collections::BTreeMap::new();
        for r in &recs {
            *outs.entry(r["err"].as_str().unwrap_or("?").chars().take(40).collect::<String>()).or_insert(0) += 1;
        }
        eprintln!("{outs:?}");
    }
    finish(a, recs, judge as usize);
}
fn film_record(im: &Image, bytes: &[u8], bad: bool) -> Value {
    let o = decode(bytes, &Plan::default());
    let nc = im.hdr.ncolor();
    let one = unit(im.hdr.depth);
    let sh: Vec<Vec<Vec<f32>>> = o
        .frames
        .iter()
        .map(|f| {
            let fs = |b: &[u8]| -> Vec<f32> { b.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect() };
            let col = fs(&f.bufs[0]);
            let mut v: Vec<Vec<f32>> = (0..nc).map(|k| col.iter().skip(k).step_by(nc).copied().collect()).collect();
            v.extend(f.bufs[1..].iter().map(|b| fs(b)));
            v
        })
        .collect();
    let (w, h) = if im.hdr.orientation >= 5 { (im.hdr.h, im.hdr.w) } else { (im.hdr.w, im.hdr.h) };
    let agree = if bad {
        !matches!(o.end, End::Panic(_))
    } else {
        catch_unwind(AssertUnwindSafe(|| match crate::canvas::displayed(im) {
            Err(want) => !matches!(o.end, End::Finished | End::Panic(_)) && want.len() >= sh.len(),
            Ok(want) => {
                o.end == End::Finished
                    && want.len() == sh.len()
                    && want.iter().zip(&sh).all(|(p, q)| {
                        p.iter().zip(q).all(|(a, b)| {
                            a.d.len() == b.len()
                                && a.d.iter().zip(b).all(|(&x, &y)| {
                                    x.is_nan() || x.abs() > 11.0 || (x - y as f64).abs() <= 1e-3 * (1.0 + x.abs())
                                })
                        })
                    })
            }
        }))
        .unwrap_or(true)
    };
    let shown: Vec<Value> = sh
        .iter()
        .map(|p| {
            Value::from(
                p.iter()
                    .map(|c| {
                        let px: Vec<i64> = c
                            .iter()
                            .map(|&v| {
                                let k = (v as f64 * one).round();
                                if k.abs() < 1e9 { k as i64 } else { 1073741823 }
                            })
                            .collect();
                        json!({"w": w, "h": h, "px": px})
                    })
                    .collect::<Vec<_>>(),
            )
        })
        .collect();
    let err = match &o.end {
        End::Panic(_) => "panic".to_string(),
        _ => err_of(&o),
    };
    json!({"b": bytes, "err": err, "shown": shown, "agree": agree})
}

// ------------------------------------------------------------------ buffers
fn rand_format(rng: &mut Rng) -> (jxl::api::JxlDataFormat, Value) {
    use jxl::api::{Endianness, JxlDataFormat as F};
    let le = rng.chance(1, 2);
    let endianness = if le { Endianness::LittleEndian } else { Endianness::BigEndian };
    match rng.below(5) {
        0 | 1 => {
            let bit_depth = if rng.chance(2, 3) { 8 } else { 1 + rng.below(8) as u8 };
            (F::U8 { bit_depth }, json!({"kind": 0, "bits": bit_depth, "le": true}))
        }
        2 => {
            let bit_depth = if rng.chance(2, 3) { 16 } else { 1 + rng.below(16) as u8 };
            (F::U16 { endianness, bit_depth }, json!({"kind": 1, "bits": bit_depth, "le": le}))
        }
        3 => (F::F16 { endianness }, json!({"kind": 2, "bits": 0, "le": le})),
        _ => (F::F32 { endianness }, json!({"kind": 3, "bits": 0, "le": le})),
    }
}
/// A caller's buffer: rows of `row` bytes, `stride` apart, from byte `at` of `m`.
struct Area {
    m: Vec<u8>,
    at: usize,
    rows: usize,
    row: usize,
    stride: usize,
}
const GUARD: u8 = 165;
/// Decodes into buffers of a format; wrong: 1 one buffer too many or too few, 2 a row or column too many or too few.
fn into_areas(
    bytes: &[u8],
    fmt: &crate::drive::Fmt,
    (spot, premul): (bool, bool),
    wrong: u64,
    kind: crate::drive::RunnerKind,
    rng: &mut Rng,
) -> (String, Vec<Vec<Area>>) {
    use crate::drive::{Feed, Runner, RunnerKind};
    use jxl::api::states::*;
    use jxl::api::*;
    let mut frames: Vec<Vec<Area>> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| -> String {
        let mut runner = Runner::new(kind.clone());
        macro_rules! rn {
            () => {
                if kind == RunnerKind::None { None } else { Some(&mut runner as &mut dyn JxlParallelRunner) }
            };
        }
        let mut o = JxlDecoderOptions::default();
        o.render_spot_colors = spot;
        o.premultiply_output = premul;
        let mut feed = Feed::new(bytes, bytes.len());
        let mut d = match JxlDecoder::<Initialized>::new(o).process(&mut feed, rn!()) {
            Err(e) => return format!("{e:?}"),
            Ok(ProcessingResult::NeedsMoreInput { .. }) => return "more".into(),
            Ok(ProcessingResult::Complete { result }) => result,
        };
        d.set_pixel_format(fmt.pf());
        while d.has_more_frames() {
            let f = match d.process(&mut feed, rn!()) {
                Err(e) => return format!("{e:?}"),
                Ok(ProcessingResult::NeedsMoreInput { .. }) => return "more".into(),
                Ok(ProcessingResult::Complete { result }) => result,
            };
            let (w, h) = f.frame_header().size;
            let mut sizes: Vec<(usize, usize)> = fmt.bytes_per_pixel().iter().map(|&b| (w * b, h)).collect();
            if wrong == 1 {
                if rng.chance(1, 2) && !sizes.is_empty() {
                    sizes.pop();
                } else {
                    sizes.push((w * 4, h));
                }
            } else if wrong == 2 && !sizes.is_empty() {
                let k = rng.below(sizes.len() as u64) as usize;
                let s = &mut sizes[k];
                match rng.below(4) {
                    0 => s.0 += 1 + rng.below(8) as usize,
                    1 => s.0 = s.0.saturating_sub(1 + rng.below(8) as usize).max(1),
                    2 => s.1 += 1,
                    _ => s.1 -= (s.1 > 1) as usize,
                }
            }
            let areas: Vec<Area> = sizes
                .iter()
                .map(|&(row, rows)| {
                    let pad = *rng.pick(&[0usize, 0, 4, 8, 60]);
                    let stride = if rng.chance(1, 6) { row + pad / 4 } else { (row + pad).next_multiple_of(4) };
                    let odd = if rng.chance(1, 6) { rng.below(8) as usize } else { 0 };
                    let at = 16;
                    let mut m = vec![GUARD; at + stride * rows + 40];
                    // mostly, rows are aligned for their samples
                    let at = at + (8 - (m.as_ptr() as usize + at) % 8) % 8 + odd;
                    let v = rng.next() as u8;
                    for y in 0..rows {
                        m[at + y * stride..][..row].fill(v);
                    }
                    Area { m, at, rows, row, stride }
                })
                .collect();
            frames.push(areas);
            let mut outs: Vec<JxlOutputBuffer> = frames
                .last_mut()
                .unwrap()
                .iter_mut()
                .map(|a| {
                    let end = a.at + a.stride * (a.rows - 1) + a.row;
                    JxlOutputBuffer::new_with_stride(&mut a.m[a.at..end], a.rows, a.row, a.stride)
                })
                .collect();
            d = match f.process(&mut feed, &mut outs, rn!()) {
                Err(e) => return format!("{e:?}"),
                Ok(ProcessingResult::NeedsMoreInput { .. }) => return "more".into(),
                Ok(ProcessingResult::Complete { result }) => result,
            };
        }
        String::new()
    }));
    (r.unwrap_or("panic".into()), frames)
}
/// What decoding writes into buffers of all formats.
pub fn outputs(a: &Args) {
    use crate::drive::{Fmt, RunnerKind};
    use jxl::api::*;
    let seed0 = a.n("seed", 1) << 24;
    let n = a.n("n", 200);
    let effects = a.n("effects", 0) == 1;
    let long = a.n("long", 0);
    let recs: Vec<Value> = par(n, |i| {
        let mut rng = Rng::new(seed0 + i);
        let mix = rng.chance(1, 4);
        let opts = g::FilmOpts {
            max_dim: a.n("dim", 9),
            max_frames: if rng.chance(1, 2) { 1 } else { 2 },
            short_values: true,
            long,
            patches: mix,
            blend: mix,
            rich: rng.chance(1, 3),
            icc: false,
            preview: false,
            spots: true,
            deep: true,
            ..g::FilmOpts::small()
        };
        // plain: the same file with no orientation
        let (im, bytes, plain) = loop {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut im = g::film(&mut rng, &opts);
                if effects {
                    g::effects(&mut rng, &mut im);
                }
                im.hdr.orientation = 1;
                let plain = if effects { im.encode().bytes } else { vec![] };
                if rng.chance(1, 2) {
                    im.hdr.orientation = 1 + rng.below(8) as u32;
                }
                let c = im.encode();
                (im, c.bytes, plain)
            }));
            let Ok((im, b, p)) = r else { continue };
            if bounded(&im, 1 << 18) && b.len() < 6000 {
                break (im, b, p);
            }
        };
        let gray = im.hdr.ncolor() == 1;
        let nec = im.hdr.ecs.len();
        let types = [
            JxlColorType::Grayscale,
            JxlColorType::GrayscaleAlpha,
            JxlColorType::Rgb,
            JxlColorType::Rgba,
            JxlColorType::Bgr,
            JxlColorType::Bgra,
        ];
        let mut ty = rng.below(6);
        if ty < 2 && !gray && rng.chance(9, 10) {
            ty += 2;
        }
        let mut fj = json!({"color": ty, "data": [], "ec": []});
        let mut fmt = Fmt { color: types[ty as usize], data: None, ec: vec![] };
        if rng.chance(9, 10) {
            let (f, j) = rand_format(&mut rng);
            fmt.data = Some(f);
            fj["data"] = json!([j]);
        }
        let all = rng.chance(1, 2);
        for _ in 0..nec {
            if all || rng.chance(1, 2) {
                let (f, j) = rand_format(&mut rng);
                fmt.ec.push(Some(f));
                fj["ec"].as_array_mut().unwrap().push(json!([j]));
            } else {
                fmt.ec.push(None);
                fj["ec"].as_array_mut().unwrap().push(json!([]));
            }
        }
        let (spot, premul) = (rng.chance(1, 2), rng.chance(1, 2));
        let wrong = if rng.chance(1, 12) { 1 + rng.below(2) } else { 0 };
        let kind = if rng.chance(1, 4) { RunnerKind::Shuffle(rng.next()) } else { RunnerKind::None };
        let (err, frames) = into_areas(&bytes, &fmt, (spot, premul), wrong, kind, &mut rng);
        let frames: Vec<Value> = frames
            .iter()
            .map(|f| {
                Value::from(
                    f.iter()
                        .map(|a| json!({"m": a.m, "at": a.at, "rows": a.rows, "row": a.row, "stride": a.stride}))
                        .collect::<Vec<_>>(),
                )
            })
            .collect();
        let mut base = vec![];
        if effects {
            let le = JxlDataFormat::F32 { endianness: Endianness::LittleEndian };
            let f = Fmt { color: JxlColorType::Rgb, data: Some(le), ec: vec![Some(le); nec] };
            let (e, frames) = into_areas(&plain, &f, (false, false), 0, RunnerKind::None, &mut rng);
            if e.is_empty() {
                for f in &frames {
                    // three colour planes, then the extra channels; negative numbers n as -1 - n
                    let mut planes: Vec<Vec<i32>> = vec![];
                    for (j, a) in f.iter().enumerate() {
                        let n = if j == 0 { 3 } else { 1 };
                        for c in 0..n {
                            let mut p = vec![];
                            for y in 0..a.rows {
                                for x in 0..a.row / (4 * n) {
                                    let k = a.at + y * a.stride + 4 * (x * n + c);
                                    let u = u32::from_le_bytes(a.m[k..k + 4].try_into().unwrap());
                                    let v = (u & 0x7fffffff) as i32;
                                    p.push(if u >> 31 == 1 { -1 - v } else { v });
                                }
                            }
                            planes.push(p);
                        }
                    }
                    base.push(planes);
                }
            }
        }
        let why = err.split(['(', ' ']).next().unwrap().to_string();
        json!({"b": bytes, "fmt": fj, "spot": spot, "premul": premul, "err": err, "why": why, "frames": frames,
            "eff": effects, "base": base})
    });
    let mut outs = std::collections::BTreeMap::new();
    for r in &recs {
        *outs.entry(r["why"].as_str().unwrap().to_string()).or_insert(0u32) += 1;
    }
    if std::env::var("DESC").is_ok() {
        eprintln!("{outs:?}");
    }
    crate::checks::write_lines(&a.out(), &recs);
    println!("{}", json!({"files": n, "outcomes": outs}));
}
