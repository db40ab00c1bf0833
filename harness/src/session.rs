//! Records complete sessions with the decoder (every public call and what it answered) for
//! validation against the Session specification.
use crate::bits::Rng;
use crate::canvas;
use crate::container::{self, BoxSpec};
use crate::drive::*;
use crate::enc::*;
use jxl::api::states::*;
use jxl::api::*;
use serde_json::{Value, json};
use std::collections::BTreeSet;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub fn hash(bufs: &[Vec<u8>]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for b in bufs {
        for &x in b {
            h = (h ^ x as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}
pub fn ms_str(v: f64) -> String {
    format!("{v:.9e}")
}

/// Everything the specification needs to know about the frames of an image.
pub fn frames_json(im: &Image, c: &CodedImage, pix: &[String]) -> Vec<Value> {
    let anim = im.hdr.anim.is_some();
    let img = (im.hdr.w, im.hdr.h);
    let mut vi = 0;
    im.frames
        .iter()
        .zip(&c.frames)
        .map(|(f, (off, cf))| {
            let normal = f.ftype == 0 || f.ftype == 3;
            let vis = canvas::is_visible(f, anim);
            let needs = normal
                && (f.crop.is_some() || f.blend.mode != 0 || f.ec_blend.iter().any(|b| b.mode != 0));
            let mut reads = BTreeSet::new();
            if needs {
                for b in std::iter::once(&f.blend).chain(f.ec_blend.iter()) {
                    reads.insert(if f.full_frame(img) && b.mode == 0 { 0 } else { b.source });
                }
            }
            let preads: BTreeSet<u32> = f.patches.iter().flatten().map(|p| p.slot).collect();
            reads.extend(&preads);
            let toc = off + cf.header.len();
            let end = toc + cf.sections.iter().map(|s| s.len()).sum::<usize>();
            let ticks = if anim && normal { f.duration } else { 0 };
            let ms = match &im.hdr.anim {
                Some(a) if a.num > 0 => ticks as f64 * 1000.0 * a.den as f64 / a.num as f64,
                _ => 0.0,
            };
            let p = if vis {
                vi += 1;
                pix.get(vi - 1).cloned().unwrap_or_default()
            } else {
                String::new()
            };
            json!({"start": off, "toc": toc, "end": end, "vis": vis, "last": normal && f.is_last,
                "reads": reads, "preads": preads, "saves": if canvas::can_ref(f, anim) { f.save_ref as i64 } else { -1 },
                "name": String::from_utf8_lossy(&f.name), "ticks": ticks.to_string(), "ms": ms_str(ms),
                "dur": if anim { ms_str(ms) } else { "none".into() }, "pix": p, "dep": 0})
        })
        .collect()
}

#[derive(Clone)]
pub struct Case {
    pub bytes: Vec<u8>,
    pub cs: Vec<u8>,
    pub boxes: Option<Vec<BoxSpec>>,
    pub flen: usize, // bytes of the file actually present
    pub info: usize,
    pub previews: Vec<(usize, usize, usize)>,
    pub frames: Vec<Value>,
    pub seed: u64,
    pub opaque: bool,       // structure measured from the decoder, not known
    pub ih: String,         // image information; empty: not compared
    pub fail: (String, usize, usize), // call that fails, frame, visible bytes
    pub name: String,
}
impl Case {
    pub fn of(im: &Image, c: &CodedImage, pix: &[String], boxes: Option<Vec<BoxSpec>>, seed: u64) -> Case {
        let bytes = match &boxes {
            Some(b) => container::write(b),
            None => c.bytes.clone(),
        };
        let previews = c
            .preview
            .iter()
            .map(|(o, p)| {
                let t = o + p.header.len();
                (*o, t, t + p.sections.iter().map(|s| s.len()).sum::<usize>())
            })
            .collect();
        Case { flen: bytes.len(), bytes, cs: c.bytes.clone(), boxes, info: c.header_len, previews, frames: frames_json(im, c, pix), seed,
            opaque: false, ih: String::new(), fail: (String::new(), 0, 0), name: String::new() }
    }
    pub fn json(&self, scan: bool, log: &[Value]) -> Value {
        json!({"seed": self.seed, "name": self.name, "opaque": self.opaque, "ih": self.ih,
            "fail": {"op": self.fail.0, "k": self.fail.1, "v": self.fail.2}, "bare": self.boxes.is_none(),
            "boxes": self.boxes.iter().flatten().map(|b| b.json(self.cs.as_slice())).collect::<Vec<_>>(),
            "flen": self.flen, "info": self.info,
            "pre": self.previews.iter().map(|p| json!({"start": p.0, "toc": p.1, "end": p.2})).collect::<Vec<_>>(),
            "frames": self.frames, "scan": scan, "log": log})
    }
    /// Codestream offsets worth feeding up to.
    pub fn marks(&self) -> Vec<usize> {
        let mut m = vec![2, self.info];
        for p in &self.previews {
            m.extend([p.0, p.1, p.2]);
        }
        for f in &self.frames {
            for k in ["start", "toc", "end"] {
                m.push(f[k].as_u64().unwrap() as usize);
            }
        }
        m
    }
}

#[derive(Clone, Debug)]
pub struct Script {
    pub seed: u64,
    pub levels: Vec<usize>, // file positions made visible one after the other
    pub max_read: usize,
    pub default_skip: bool,
    pub over: usize,
    pub skip_pct: u64,
    pub skips: Vec<bool>, // whether the first announced frames are skipped
    pub flush_pct: u64,
    pub flush_at: Vec<usize>,
    pub retry_pct: u64,
    pub seeks: usize,
    pub seek_to: Vec<usize>, // once all is decoded
    pub scan_first: bool, // collect seek targets with a scanning decoder
    pub scan: bool,
    pub runner: RunnerKind,
    pub limit: Option<usize>,
}
impl Script {
    pub fn plain(len: usize) -> Script {
        Script {
            seed: 0,
            levels: vec![len],
            max_read: 0,
            default_skip: false,
            over: 0,
            skip_pct: 0,
            skips: vec![],
            flush_pct: 0,
            flush_at: vec![],
            retry_pct: 0,
            seeks: 0,
            seek_to: vec![],
            scan_first: false,
            scan: false,
            runner: RunnerKind::None,
            limit: None,
        }
    }
}

struct Sess<'a> {
    sc: &'a Script,
    feed: Feed<'a>,
    total: usize,
    rng: Rng,
    log: Vec<Value>,
    pv: i64, // last level at which the pending call asked for more
    frames: usize,
}
enum Pend {
    More,
    Stop,
}
impl Sess<'_> {
    /// The pending call asked for more input.
    fn need(&mut self, op: &str, hint: usize, scans: &[VisibleFrameInfo]) -> Pend {
        self.pv = self.feed.limit as i64;
        if self.sc.retry_pct > 0 && self.rng.chance(self.sc.retry_pct, 100) {
            return Pend::More; // ask again with nothing new
        }
        let next = self.sc.levels.iter().copied().filter(|&l| l > self.feed.limit && l <= self.total).min();
        match next {
            Some(l) => {
                self.feed.limit = l.min(self.total);
                Pend::More
            }
            None if self.feed.limit < self.total => {
                self.feed.limit = self.total;
                Pend::More
            }
            None => {
                let v = json!({"op": op, "v": self.feed.limit, "pv": self.pv, "r": "need", "hint": hint.min(1 << 30), "n": scans.len()});
                self.log.push(v);
                Pend::Stop
            }
        }
    }
    fn err(&mut self, op: &str, e: String) {
        let v = json!({"op": op, "v": self.feed.limit, "pv": self.pv, "r": "err", "e": e});
        self.log.push(v);
    }
}
fn scans_json(s: &[VisibleFrameInfo]) -> Value {
    s.iter()
        .map(|v| {
            json!({"index": v.index, "ms": ms_str(v.duration_ms), "ticks": v.duration_ticks.to_string(), "off": v.file_offset,
                "last": v.is_last, "key": v.is_keyframe, "name": v.name,
                "soff": v.seek_target.decode_start_file_offset, "sskip": v.seek_target.visible_frames_to_skip})
        })
        .collect()
}

/// Runs a session; the result is its log. Panics become an "err" record.
pub fn run(case: &Case, sc: &Script) -> Vec<Value> {
    let data = &case.bytes[..case.flen];
    let first = sc.levels.first().copied().unwrap_or(data.len()).min(data.len());
    let mut feed = Feed::new(data, first);
    feed.max_read = sc.max_read;
    feed.over = sc.over;
    feed.use_default_skip = sc.default_skip;
    let mut s = Sess { sc, feed, total: data.len(), rng: Rng::new(sc.seed), log: vec![], pv: -1, frames: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| go(&mut s, data)));
    if let Err(p) = r {
        let m = panic_msg(p);
        s.err("panic", m);
    }
    s.log
}
fn go(s: &mut Sess, data: &[u8]) {
    let sc = s.sc;
    let mut runner = Runner::new(sc.runner.clone());
    macro_rules! rn {
        () => {
            if sc.runner == RunnerKind::None { None } else { Some(&mut runner as &mut dyn JxlParallelRunner) }
        };
    }
    let mut targets: Vec<VisibleFrameInfo> = vec![];
    if sc.scan_first {
        let mut sc2 = Script::plain(data.len());
        sc2.scan = true;
        targets = scan_targets(data, sc.limit);
    }
    let o = OptSel { scan_only: sc.scan, sample_limit: sc.limit, ..Default::default() };
    let mut init = JxlDecoder::<Initialized>::new(o.build());
    let mut dec = loop {
        match init.process(&mut s.feed, rn!()) {
            Err(e) => return s.err("init", format!("{e:?}")),
            Ok(ProcessingResult::Complete { result }) => break result,
            Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                init = fallback;
                if let Pend::Stop = s.need("init", size_hint, init.scanned_frames()) {
                    return;
                }
            }
        }
    };
    s.log.push(json!({"op": "init", "v": s.feed.limit, "pv": s.pv, "r": "done", "n": dec.scanned_frames().len(),
        "ih": info_hash(&dec)}));
    let gray = dec.current_pixel_format().color_type.is_grayscale();
    let nec = dec.basic_info().extra_channels.len();
    let fmt = Fmt::planar_f32(gray, nec);
    dec.set_pixel_format(fmt.pf());
    let mut seeks = sc.seeks + sc.seek_to.len();
    let mut order = sc.seek_to.iter();
    let mut budget = 60;
    loop {
        if budget == 0 {
            return;
        }
        budget -= 1;
        let fin = !dec.has_more_frames();
        // seek now?
        if !sc.scan_first && !dec.scanned_frames().is_empty() && (fin || targets.is_empty()) {
            targets = dec.scanned_frames().to_vec();
        }
        if seeks > 0 && !targets.is_empty() && (fin || sc.scan_first && s.rng.chance(1, 3) || s.rng.chance(1, 8)) {
            seeks -= 1;
            let t = match order.next() {
                Some(&k) if k < targets.len() => targets[k].clone(),
                _ => s.rng.pick(&targets).clone(),
            };
            let st = t.seek_target;
            dec.start_new_frame(st);
            s.pv = -1;
            s.feed.pos = st.decode_start_file_offset as usize;
            s.feed.limit = sc
                .levels
                .iter()
                .copied()
                .filter(|&l| l >= s.feed.pos)
                .min()
                .unwrap_or(s.total)
                .min(s.total);
            s.feed.limit = s.feed.limit.max(s.feed.pos);
            s.log.push(json!({"op": "seek", "k": t.index, "v": s.feed.limit, "off": st.decode_start_file_offset,
                "skip": st.visible_frames_to_skip, "r": "done", "n": dec.scanned_frames().len(),
                "more": dec.has_more_frames()}));
            continue;
        }
        if fin {
            return;
        }
        s.pv = -1;
        let mut fdec = loop {
            match dec.process(&mut s.feed, rn!()) {
                Err(e) => return s.err("next", format!("{e:?}")),
                Ok(ProcessingResult::Complete { result }) => break result,
                Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                    dec = fallback;
                    if let Pend::Stop = s.need("next", size_hint, dec.scanned_frames()) {
                        return;
                    }
                }
            }
        };
        let fh = fdec.frame_header();
        s.frames += 1;
        s.log.push(json!({"op": "next", "v": s.feed.limit, "pv": s.pv, "r": "done", "name": fh.name,
            "dur": fh.duration.map(ms_str).unwrap_or("none".into()), "w": fh.size.0, "h": fh.size.1,
            "n": fdec.scanned_frames().len(), "sc": scans_json(fdec.scanned_frames())}));
        s.pv = -1;
        let skip = match sc.skips.get(s.frames - 1) {
            Some(&x) => x,
            None => s.rng.chance(sc.skip_pct, 100),
        };
        if skip {
            dec = loop {
                match fdec.skip_frame(&mut s.feed) {
                    Err(e) => return s.err("skip", format!("{e:?}")),
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                        fdec = fallback;
                        if let Pend::Stop = s.need("skip", size_hint, fdec.scanned_frames()) {
                            return;
                        }
                    }
                }
            };
            s.log.push(json!({"op": "skip", "v": s.feed.limit, "pv": s.pv, "r": "done",
                "n": dec.scanned_frames().len(), "more": dec.has_more_frames(),
                "flen": dec.file_length().map(|x| x as i64).unwrap_or(-1), "sc": scans_json(dec.scanned_frames())}));
        } else {
            let mut bufs: Vec<Buf> = fmt.bytes_per_pixel().iter().map(|&b| Buf::new(fh.size.0, fh.size.1, b, 0)).collect();
            bufs.iter_mut().for_each(|b| b.fill(0x5c));
            let mut before: Vec<Vec<u8>> = bufs.iter().map(|b| b.data()).collect();
            dec = loop {
                let mut outs: Vec<JxlOutputBuffer> = bufs.iter_mut().map(|b| b.out()).collect();
                let r = fdec.process(&mut s.feed, &mut outs, rn!());
                drop(outs);
                match r {
                    Err(e) => return s.err("decode", format!("{e:?}")),
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                        fdec = fallback;
                        if sc.flush_pct > 0 && s.rng.chance(sc.flush_pct, 100) || sc.flush_at.contains(&s.feed.limit) {
                            // what was drawn since the last flush, or the start
                            let mut outs: Vec<JxlOutputBuffer> = bufs.iter_mut().map(|b| b.out()).collect();
                            let r = fdec.flush_pixels(&mut outs, rn!());
                            drop(outs);
                            let now: Vec<Vec<u8>> = bufs.iter().map(|b| b.data()).collect();
                            let ch = now != before;
                            before = now;
                            match r {
                                Ok(f) => s.log.push(json!({"op": "flush", "v": s.feed.limit, "r": "done", "fl": f, "ch": ch,
                                    "n": fdec.scanned_frames().len()})),
                                Err(e) => return s.err("flush", format!("{e:?}")),
                            }
                        }
                        if let Pend::Stop = s.need("decode", size_hint, fdec.scanned_frames()) {
                            return;
                        }
                    }
                }
            };
            let pix = hash(&bufs.iter().map(|b| b.data()).collect::<Vec<_>>());
            s.log.push(json!({"op": "decode", "v": s.feed.limit, "pv": s.pv, "r": "done", "pix": pix,
                "n": dec.scanned_frames().len(), "more": dec.has_more_frames(),
                "flen": dec.file_length().map(|x| x as i64).unwrap_or(-1), "sc": scans_json(dec.scanned_frames())}));
        }
        s.pv = -1;
    }
}
pub fn info_hash(d: &JxlDecoder<WithImageInfo>) -> String {
    let t = format!("{:?} {:?}", info_of(d), d.current_pixel_format());
    hash(&[t.into_bytes()])
}
/// A file whose structure is not known: where each event happens is measured by supplying it
/// byte by byte; what the pictures are, by decoding it in one go.
pub fn measured(name: &str, bytes: &[u8]) -> Case {
    measured_with(name, bytes, None)
}
pub fn measured_with(name: &str, bytes: &[u8], limit: Option<usize>) -> Case {
    let mut case = Case { bytes: bytes.to_vec(), cs: bytes.to_vec(), boxes: None, flen: bytes.len(), info: 2000000000, previews: vec![],
        frames: vec![], seed: 0, opaque: true, ih: String::new(), fail: (String::new(), 0, 0), name: name.into() };
    let mut sc = Script::plain(bytes.len());
    sc.limit = limit;
    let whole = run(&case, &sc);
    sc.levels = (0..=bytes.len()).collect();
    let log = run(&case, &sc);
    let mut pix: Vec<String> = whole.iter().filter(|e| e["op"] == "decode" && e["r"] == "done").map(|e| e["pix"].as_str().unwrap().to_string()).collect();
    pix.reverse();
    structure(&mut case, &log, pix);
    case
}
fn structure(case: &mut Case, log: &[Value], mut pix: Vec<String>) {
    let whole = pix.is_empty();
    let mut scans: Vec<Value> = vec![];
    for e in log {
        if let Some(a) = e["sc"].as_array() {
            scans = a.clone();
        }
    }
    // frame starts: those of visible frames and those seeks begin at
    let mut starts: BTreeSet<u64> = BTreeSet::new();
    let mut vis: BTreeSet<u64> = BTreeSet::new();
    for s in &scans {
        starts.insert(s["soff"].as_u64().unwrap());
        starts.insert(s["off"].as_u64().unwrap());
        vis.insert(s["off"].as_u64().unwrap());
    }
    let starts: Vec<u64> = starts.into_iter().collect();
    let idx = |o: u64| starts.iter().position(|&x| x == o).unwrap() + 1;
    let mut frames: Vec<Value> = starts
        .iter()
        .map(|&o| json!({"start": o, "toc": o, "end": o, "vis": false, "last": false, "reads": [], "preads": [], "saves": -1,
            "name": "", "ticks": "", "ms": "", "dur": "", "pix": "", "dep": 0}))
        .collect();
    let mut n = 0;
    let mut cur = 0usize;
    for e in log {
        let v = e["v"].as_u64().unwrap();
        match (e["op"].as_str().unwrap(), e["r"].as_str().unwrap()) {
            ("init", "done") => {
                case.info = v as usize;
                case.ih = e["ih"].as_str().unwrap().into();
            }
            ("next", "done") => {
                let s = &scans[n];
                n += 1;
                let k = idx(s["off"].as_u64().unwrap());
                cur = k;
                let f = &mut frames[k - 1];
                f["vis"] = true.into();
                f["toc"] = v.into();
                f["end"] = 2000000000.into();
                f["name"] = e["name"].clone();
                f["dur"] = e["dur"].clone();
                f["ticks"] = s["ticks"].clone();
                f["ms"] = s["ms"].clone();
                f["last"] = s["last"].clone();
                f["dep"] = idx(s["soff"].as_u64().unwrap()).into();
            }
            ("decode", "done") => {
                let f = &mut frames[cur - 1];
                f["end"] = v.into();
                f["pix"] = if whole { e["pix"].clone() } else { Value::Null };
                if !whole { f["pix"] = pix.pop().unwrap_or("missing in the decode of the whole file".into()).into(); }
            }
            (op, "err") => case.fail = (op.into(), if op == "decode" { cur } else { 0 }, v as usize),
            _ => {}
        }
    }
    case.frames = frames;
}
/// As `measured`, but only the decode of the whole file in one go is known.
pub fn coarse(name: &str, bytes: &[u8]) -> Case {
    let mut case = Case { bytes: bytes.to_vec(), cs: bytes.to_vec(), boxes: None, flen: bytes.len(), info: 0, previews: vec![],
        frames: vec![], seed: 0, opaque: true, ih: String::new(), fail: (String::new(), 0, 0), name: name.into() };
    let log = run(&case, &Script::plain(bytes.len()));
    structure(&mut case, &log, vec![]);
    case
}
fn scan_targets(data: &[u8], limit: Option<usize>) -> Vec<VisibleFrameInfo> {
    let mut p = Plan::default();
    p.opts.scan_only = true;
    p.opts.sample_limit = limit;
    p.keep_buffers = false;
    decode(data, &p).raw_scans
}
/// Pictures of the visible frames when decoded from the start with the whole file at hand.
pub fn baseline_ih(bytes: &[u8]) -> String {
    let c = Case { bytes: bytes.to_vec(), cs: vec![], boxes: None, flen: bytes.len(), info: 0, previews: vec![], frames: vec![], seed: 0,
        opaque: true, ih: String::new(), fail: (String::new(), 0, 0), name: String::new() };
    run(&c, &Script::plain(bytes.len())).first().and_then(|e| e["ih"].as_str()).unwrap_or("").to_string()
}
pub fn baseline(bytes: &[u8]) -> (Vec<String>, End) {
    let o = decode(bytes, &Plan::default());
    (o.frames.iter().map(|f| hash(&f.bufs)).collect(), o.end)
}
