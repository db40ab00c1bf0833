//! Drives the real decoder through its public API and records what a caller can observe.
use crate::bits::Rng;
use jxl::api::states::*;
use jxl::api::*;
use jxl::error::Result as JResult;
use std::io::IoSliceMut;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

// ---------------------------------------------------------------- input
/// Input whose visible end grows under the caller's control.
pub struct Feed<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub limit: usize,
    pub max_read: usize, // 0: unlimited; otherwise bytes handed out per read() call
    pub over: usize,     // added to available_bytes
    pub reads: usize,
    pub use_default_skip: bool,
}
impl<'a> Feed<'a> {
    pub fn new(data: &'a [u8], limit: usize) -> Self {
        Feed { data, pos: 0, limit, max_read: 0, over: 0, reads: 0, use_default_skip: false }
    }
}
impl JxlBitstreamInput for Feed<'_> {
    fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
        Ok(self.limit - self.pos + if self.limit > self.pos { self.over } else { 0 })
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
        self.reads += 1;
        let mut n = 0;
        let mut quota = if self.max_read == 0 { usize::MAX } else { self.max_read };
        for b in bufs {
            let k = b.len().min(self.limit - self.pos).min(quota);
            b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
            self.pos += k;
            quota -= k;
            n += k;
            if k < b.len() {
                break;
            }
        }
        Ok(n)
    }
    fn skip(&mut self, bytes: usize) -> Result<usize, std::io::Error> {
        if self.use_default_skip {
            // a faithful copy-through implementation on top of read()
            let mut left = bytes;
            let mut buf = [0u8; 512];
            while left > 0 {
                let k = left.min(512);
                let n = self.read(&mut [IoSliceMut::new(&mut buf[..k])])?;
                if n == 0 {
                    break;
                }
                left -= n;
            }
            return Ok(bytes - left);
        }
        let k = bytes.min(self.limit - self.pos);
        self.pos += k;
        Ok(k)
    }
}

// ---------------------------------------------------------------- runners
#[derive(Clone, Debug, PartialEq)]
pub enum RunnerKind {
    None,
    Seq,
    Reverse,
    Shuffle(u64),
    Threads(usize, u64),
}
pub struct Runner {
    pub kind: RunnerKind,
    pub calls: usize,
    pub tasks: usize,
    pub log: Option<Vec<(usize, usize)>>, // (batch, task) in execution order, serial kinds only
    rng: Rng,
}
impl Runner {
    pub fn new(kind: RunnerKind) -> Self {
        let seed = match kind {
            RunnerKind::Shuffle(s) | RunnerKind::Threads(_, s) => s,
            _ => 0,
        };
        Runner { kind, calls: 0, tasks: 0, log: None, rng: Rng::new(seed) }
    }
}
impl JxlParallelRunner for Runner {
    fn run(&mut self, num: usize, fun: &JxlParallelRunnerFun<'_>) -> JResult<()> {
        self.calls += 1;
        self.tasks += num;
        let mut order: Vec<usize> = (0..num).collect();
        match self.kind {
            RunnerKind::None | RunnerKind::Seq => {}
            RunnerKind::Reverse => order.reverse(),
            RunnerKind::Shuffle(_) | RunnerKind::Threads(..) => self.rng.shuffle(&mut order),
        }
        if let RunnerKind::Threads(n, _) = self.kind {
            let next = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let spin: Vec<u64> = (0..num).map(|_| self.rng.below(2000)).collect();
            let res: Vec<JResult<()>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|_| {
                        s.spawn(|| -> JResult<()> {
                            loop {
                                let i = next.fetch_add(1, Ordering::SeqCst);
                                if i >= num || stop.load(Ordering::SeqCst) {
                                    return Ok(());
                                }
                                for _ in 0..spin[i] {
                                    std::hint::spin_loop();
                                }
                                if let Err(e) = fun(order[i]) {
                                    stop.store(true, Ordering::SeqCst);
                                    return Err(e);
                                }
                                if spin[i] & 1 == 1 {
                                    std::thread::yield_now();
                                }
                            }
                        })
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| match h.join() {
                        Ok(r) => r,
                        Err(p) => std::panic::resume_unwind(p),
                    })
                    .collect()
            });
            for r in res {
                r?;
            }
            return Ok(());
        }
        for i in order {
            if let Some(l) = &mut self.log {
                l.push((self.calls - 1, i));
            }
            fun(i)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- formats and buffers
#[derive(Clone, Debug)]
pub struct Fmt {
    pub color: JxlColorType,
    pub data: Option<JxlDataFormat>,
    pub ec: Vec<Option<JxlDataFormat>>,
}
pub fn f32le() -> JxlDataFormat {
    JxlDataFormat::F32 { endianness: Endianness::LittleEndian }
}
impl Fmt {
    pub fn pf(&self) -> JxlPixelFormat {
        JxlPixelFormat {
            color_type: self.color,
            color_data_format: self.data,
            extra_channel_format: self.ec.clone(),
        }
    }
    /// Every channel separately as little-endian f32.
    pub fn planar_f32(gray: bool, nec: usize) -> Fmt {
        Fmt {
            color: if gray { JxlColorType::Grayscale } else { JxlColorType::Rgb },
            data: Some(f32le()),
            ec: vec![Some(f32le()); nec],
        }
    }
    pub fn bytes_per_pixel(&self) -> Vec<usize> {
        let mut v = vec![];
        if let Some(d) = &self.data {
            v.push(d.bytes_per_sample() * self.color.samples_per_pixel());
        }
        for e in self.ec.iter().flatten() {
            v.push(e.bytes_per_sample());
        }
        v
    }
}

pub const CANARY: u8 = 0xA5;
/// A caller-owned buffer with guard bytes in the row padding and around the image.
#[derive(Clone)]
pub struct Buf {
    pub w: usize,
    pub h: usize,
    pub row: usize,
    pub stride: usize,
    pub lead: usize,
    pub mem: Vec<u8>,
}
impl Buf {
    pub fn new(w: usize, h: usize, bpp: usize, pad: usize) -> Buf {
        let row = w * bpp;
        let stride = (row + pad).div_ceil(4) * 4;
        let lead = 64;
        // keep rows 4-byte aligned: Vec<u8> from a u32 allocation is not available safely,
        // so over-allocate and align the start.
        let mem = vec![CANARY; lead + stride * h + 64 + 8];
        Buf { w, h, row, stride, lead, mem }
    }
    fn start(&self) -> usize {
        // first multiple of 8 address at or after lead
        let p = self.mem.as_ptr() as usize + self.lead;
        self.lead + (8 - p % 8) % 8
    }
    pub fn out(&mut self) -> JxlOutputBuffer<'_> {
        let s = self.start();
        let (h, row, stride) = (self.h, self.row, self.stride);
        let end = s + stride * (h - 1) + row;
        JxlOutputBuffer::new_with_stride(&mut self.mem[s..end], h, row, stride)
    }
    /// Row contents concatenated, without padding.
    pub fn data(&self) -> Vec<u8> {
        let s = self.start();
        let mut v = Vec::with_capacity(self.row * self.h);
        for y in 0..self.h {
            v.extend_from_slice(&self.mem[s + y * self.stride..s + y * self.stride + self.row]);
        }
        v
    }
    pub fn guards_intact(&self) -> bool {
        let s = self.start();
        let mut ok = self.mem[..s].iter().all(|&b| b == CANARY);
        for y in 0..self.h {
            let a = s + y * self.stride + self.row;
            let b = if y + 1 < self.h { s + (y + 1) * self.stride } else { self.mem.len() };
            ok &= self.mem[a..b].iter().all(|&b| b == CANARY);
        }
        ok
    }
    pub fn fill(&mut self, v: u8) {
        let s = self.start();
        for y in 0..self.h {
            let a = s + y * self.stride;
            self.mem[a..a + self.row].fill(v);
        }
    }
    pub fn f32s(&self) -> Vec<f32> {
        self.data().chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect()
    }
}

// ---------------------------------------------------------------- plan and outcome
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Decode,
    Skip,
}
#[derive(Clone)]
pub struct Plan {
    /// Number of visible bytes at each feeding step; the last one is repeated with the whole file.
    pub chunks: Vec<usize>,
    pub max_read: usize,
    pub default_skip: bool,
    pub over: usize,
    pub runner: RunnerKind,
    pub acts: Vec<Act>, // per visible frame; Decode beyond the end
    pub flush: u64,     // percent: flush at each need-more-input while decoding a frame
    pub flush_seed: u64,
    pub fmt: Option<Fmt>, // None: planar f32 of everything
    pub pad: usize,
    pub fill: u8,
    pub opts: OptSel,
    pub stop_after_info: bool,
    pub keep_buffers: bool,
    pub stop_after_frames: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct OptSel {
    pub adjust_orientation: bool,
    pub spot: bool,
    pub skip_preview: bool,
    pub sample_limit: Option<usize>,
    pub scan_only: bool,
    pub premultiply: bool,
    pub high_precision: bool,
}
impl Default for OptSel {
    fn default() -> Self {
        OptSel {
            adjust_orientation: true,
            spot: false,
            skip_preview: true,
            sample_limit: None,
            scan_only: false,
            premultiply: false,
            high_precision: true,
        }
    }
}
impl OptSel {
    pub fn build(&self) -> JxlDecoderOptions {
        let mut o = JxlDecoderOptions::default();
        o.adjust_orientation = self.adjust_orientation;
        o.render_spot_colors = self.spot;
        o.skip_preview = self.skip_preview;
        o.sample_limit = self.sample_limit;
        o.scan_frames_only = self.scan_only;
        o.premultiply_output = self.premultiply;
        o.high_precision = self.high_precision;
        o
    }
}
impl Default for Plan {
    fn default() -> Self {
        Plan {
            chunks: vec![],
            max_read: 0,
            default_skip: false,
            over: 0,
            runner: RunnerKind::None,
            acts: vec![],
            flush: 0,
            flush_seed: 0,
            fmt: None,
            pad: 0,
            fill: 0x5c,
            opts: OptSel::default(),
            stop_after_info: false,
            keep_buffers: true,
            stop_after_frames: usize::MAX,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub size: (usize, usize),
    pub depth: JxlBitDepth,
    pub orientation: u32,
    pub ecs: Vec<(u32, bool)>,
    pub anim: Option<(u32, u32, u32, bool)>,
    pub uses_original: bool,
    pub tone: (u32, u32, bool, u32),
    pub preview: Option<(usize, usize)>,
    pub profile: String,
    pub out_profile: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FrameObs {
    pub name: String,
    pub duration: Option<u64>, // bits of f64
    pub size: (usize, usize),
    pub skipped: bool,
    pub bufs: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ScanObs {
    pub index: usize,
    pub ms: u64,
    pub ticks: u32,
    pub offset: u64,
    pub is_last: bool,
    pub keyframe: bool,
    pub seek_off: u64,
    pub seek_skip: usize,
    pub name: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Finished,
    Truncated(&'static str), // NeedsMoreInput with all input given; stage
    Error(String),
    Panic(String),
    Stopped,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub info: Option<Info>,
    pub frames: Vec<FrameObs>,
    pub announced: usize, // frame headers returned
    pub scans: Vec<ScanObs>,
    pub raw_scans: Vec<VisibleFrameInfo>,
    pub end: End,
    pub file_length: Option<u64>,
    pub guards_ok: bool,
    /// (bytes visible when the event completed, event)
    pub events: Vec<(usize, String)>,
    pub flushes: Vec<(bool, bool)>, // (returned, changed)
    pub flush_problem: Option<String>,
    pub needs: usize,
    pub runner_calls: usize,
    pub consumed: usize,
    pub zero_hint: bool,
}
impl Outcome {
    /// What must not depend on how input arrives, on scheduling, or on flushing.
    pub fn essence(&self) -> (Option<Info>, Vec<FrameObs>, End, Vec<ScanObs>) {
        (self.info.clone(), self.frames.clone(), self.end.clone(), self.scans.clone())
    }
}

pub fn scan_obs(v: &VisibleFrameInfo) -> ScanObs {
    ScanObs {
        index: v.index,
        ms: v.duration_ms.to_bits(),
        ticks: v.duration_ticks,
        offset: v.file_offset,
        is_last: v.is_last,
        keyframe: v.is_keyframe,
        seek_off: v.seek_target.decode_start_file_offset,
        seek_skip: v.seek_target.visible_frames_to_skip,
        name: v.name.clone(),
    }
}
pub fn profile_str(p: &JxlColorProfile) -> String {
    match p {
        JxlColorProfile::Icc(v) => {
            format!("icc:{}", v.iter().map(|b| format!("{b:02x}")).collect::<String>())
        }
        JxlColorProfile::Simple(e) => format!("{e:?}"),
    }
}
pub fn info_of(d: &JxlDecoder<WithImageInfo>) -> Info {
    let b = d.basic_info();
    Info {
        size: b.size,
        depth: b.bit_depth.clone(),
        orientation: b.orientation as u32,
        ecs: b.extra_channels.iter().map(|e| (e.ec_type as u32, e.alpha_associated)).collect(),
        anim: b
            .animation
            .as_ref()
            .map(|a| (a.tps_numerator, a.tps_denominator, a.num_loops, a.have_timecodes)),
        uses_original: b.uses_original_profile,
        tone: (
            b.tone_mapping.intensity_target.to_bits(),
            b.tone_mapping.min_nits.to_bits(),
            b.tone_mapping.relative_to_max_display,
            b.tone_mapping.linear_below.to_bits(),
        ),
        preview: b.preview_size,
        profile: profile_str(d.embedded_color_profile()),
        out_profile: profile_str(d.output_color_profile()),
    }
}

struct Ctx<'a> {
    plan: &'a Plan,
    feed: Feed<'a>,
    chunk_i: usize,
    total: usize,
    rng: Rng,
    out: Outcome,
}
impl Ctx<'_> {
    /// Make more input visible; false when everything is visible already.
    fn more(&mut self, hint: usize) -> bool {
        self.out.needs += 1;
        if hint == 0 {
            self.out.zero_hint = true;
        }
        if self.feed.limit >= self.total {
            return false;
        }
        while self.chunk_i < self.plan.chunks.len() && self.plan.chunks[self.chunk_i] <= self.feed.limit {
            self.chunk_i += 1;
        }
        self.feed.limit = if self.chunk_i < self.plan.chunks.len() {
            self.plan.chunks[self.chunk_i].min(self.total)
        } else {
            self.total
        };
        true
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

pub fn decode(data: &[u8], plan: &Plan) -> Outcome {
    decode_from(data, plan, None)
}

/// Decodes a file from the start, or (seek) resumes an existing decoder at a target.
pub fn decode_from(
    data: &[u8],
    plan: &Plan,
    resume: Option<(JxlDecoder<WithImageInfo>, usize)>,
) -> Outcome {
    let mut feed = Feed::new(data, plan.chunks.first().copied().unwrap_or(data.len()).min(data.len()));
    feed.max_read = plan.max_read;
    feed.over = plan.over;
    feed.use_default_skip = plan.default_skip;
    let mut cx = Ctx {
        plan,
        feed,
        chunk_i: 0,
        total: data.len(),
        rng: Rng::new(plan.flush_seed),
        out: Outcome {
            info: None,
            frames: vec![],
            announced: 0,
            scans: vec![],
            raw_scans: vec![],
            end: End::Stopped,
            file_length: None,
            guards_ok: true,
            events: vec![],
            flushes: vec![],
            flush_problem: None,
            needs: 0,
            runner_calls: 0,
            consumed: 0,
            zero_hint: false,
        },
    };
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut cx, resume)));
    match r {
        Ok(e) => cx.out.end = e,
        Err(p) => cx.out.end = End::Panic(panic_msg(p)),
    }
    cx.out.consumed = cx.feed.pos;
    cx.out
}

fn run(cx: &mut Ctx, resume: Option<(JxlDecoder<WithImageInfo>, usize)>) -> End {
    let plan = cx.plan;
    let mut runner = Runner::new(plan.runner.clone());
    macro_rules! rn {
        () => {
            if plan.runner == RunnerKind::None {
                None
            } else {
                Some(&mut runner as &mut dyn JxlParallelRunner)
            }
        };
    }
    let mut dec;
    if let Some((d, pos)) = resume {
        dec = d;
        cx.feed.pos = pos;
        cx.feed.limit = cx.feed.limit.max(pos);
    } else {
        let mut init = JxlDecoder::<Initialized>::new(plan.opts.build());
        dec = loop {
            match init.process(&mut cx.feed, rn!()) {
                Err(e) => return End::Error(format!("{e:?}")),
                Ok(ProcessingResult::Complete { result }) => break result,
                Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                    init = fallback;
                    cx.out.scans = init.scanned_frames().iter().map(scan_obs).collect();
                    if !cx.more(size_hint) {
                        return End::Truncated("header");
                    }
                }
            }
        };
    }
    cx.out.events.push((cx.feed.limit, "info".into()));
    let gray = dec.current_pixel_format().color_type.is_grayscale();
    let nec = dec.basic_info().extra_channels.len();
    let fmt = plan.fmt.clone().unwrap_or_else(|| Fmt::planar_f32(gray, nec));
    dec.set_pixel_format(fmt.pf());
    cx.out.info = Some(info_of(&dec));
    if plan.stop_after_info {
        return End::Stopped;
    }
    let bi = dec.basic_info().clone();
    let (w, h) = bi.size;
    let mut frame_i = 0;
    loop {
        cx.out.scans = dec.scanned_frames().iter().map(scan_obs).collect();
        cx.out.raw_scans = dec.scanned_frames().to_vec();
        cx.out.file_length = dec.file_length();
        cx.out.runner_calls = runner.calls;
        if frame_i >= plan.stop_after_frames {
            return End::Stopped;
        }
        if !dec.has_more_frames() {
            cx.out.events.push((cx.feed.limit, "end".into()));
            return End::Finished;
        }
        let mut fdec = loop {
            match dec.process(&mut cx.feed, rn!()) {
                Err(e) => return End::Error(format!("{e:?}")),
                Ok(ProcessingResult::Complete { result }) => break result,
                Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                    dec = fallback;
                    cx.out.scans = dec.scanned_frames().iter().map(scan_obs).collect();
                    cx.out.raw_scans = dec.scanned_frames().to_vec();
                    if !cx.more(size_hint) {
                        cx.out.file_length = dec.file_length();
                        return End::Truncated("frame header");
                    }
                }
            }
        };
        cx.out.announced += 1;
        cx.out.scans = fdec.scanned_frames().iter().map(scan_obs).collect();
        cx.out.events.push((cx.feed.limit, format!("frame{frame_i}")));
        let fh = fdec.frame_header();
        let mut fo = FrameObs {
            name: fh.name.clone(),
            duration: fh.duration.map(|d| d.to_bits()),
            size: fh.size,
            skipped: false,
            bufs: vec![],
        };
        let act = plan.acts.get(frame_i).cloned().unwrap_or(Act::Decode);
        if act == Act::Skip {
            fo.skipped = true;
            dec = loop {
                match fdec.skip_frame(&mut cx.feed) {
                    Err(e) => return End::Error(format!("{e:?}")),
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                        fdec = fallback;
                        if !cx.more(size_hint) {
                            return End::Truncated("frame data (skip)");
                        }
                    }
                }
            };
        } else {
            let _ = (w, h);
            let (bw, bh) = fo.size;
            let mut bufs: Vec<Buf> =
                fmt.bytes_per_pixel().iter().map(|&b| Buf::new(bw, bh, b, plan.pad)).collect();
            bufs.iter_mut().for_each(|b| b.fill(plan.fill));
            dec = loop {
                let mut outs: Vec<JxlOutputBuffer> = bufs.iter_mut().map(|b| b.out()).collect();
                let r = fdec.process(&mut cx.feed, &mut outs, rn!());
                drop(outs);
                match r {
                    Err(e) => {
                        cx.out.guards_ok &= bufs.iter().all(|b| b.guards_intact());
                        return End::Error(format!("{e:?}"));
                    }
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { size_hint, fallback }) => {
                        fdec = fallback;
                        if plan.flush > 0 && cx.rng.chance(plan.flush, 100) {
                            for rep in 0..2 {
                                let before: Vec<Vec<u8>> = bufs.iter().map(|b| b.data()).collect();
                                let mut outs: Vec<JxlOutputBuffer> =
                                    bufs.iter_mut().map(|b| b.out()).collect();
                                let r = fdec.flush_pixels(&mut outs, rn!());
                                drop(outs);
                                let changed =
                                    bufs.iter().zip(&before).any(|(b, c)| b.data() != *c);
                                match r {
                                    Ok(v) => {
                                        cx.out.flushes.push((v, changed));
                                        if !v && changed {
                                            cx.out.flush_problem = Some(format!(
                                                "flush returned false but changed the buffers (visible {} bytes, repetition {rep})",
                                                cx.feed.limit
                                            ));
                                        }
                                    }
                                    Err(e) => {
                                        return End::Error(format!("flush: {e:?}"));
                                    }
                                }
                                if !cx.rng.chance(1, 3) {
                                    break;
                                }
                            }
                        }
                        if !cx.more(size_hint) {
                            cx.out.guards_ok &= bufs.iter().all(|b| b.guards_intact());
                            return End::Truncated("frame data");
                        }
                    }
                }
            };
            cx.out.guards_ok &= bufs.iter().all(|b| b.guards_intact());
            if plan.keep_buffers {
                fo.bufs = bufs.iter().map(|b| b.data()).collect();
            }
        }
        cx.out.events.push((cx.feed.limit, format!("done{frame_i}")));
        cx.out.frames.push(fo);
        frame_i += 1;
    }
}

/// Drive a decoder to the state before its first frame (image info), for seeking.
pub fn open(data: &[u8], opts: &OptSel, fmt: Option<Fmt>) -> Result<JxlDecoder<WithImageInfo>, String> {
    let mut feed = Feed::new(data, data.len());
    let init = JxlDecoder::<Initialized>::new(opts.build());
    match catch_unwind(AssertUnwindSafe(|| init.process(&mut feed, None))) {
        Err(p) => Err(panic_msg(p)),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Ok(Ok(ProcessingResult::Complete { result: mut d })) => {
            let gray = d.current_pixel_format().color_type.is_grayscale();
            let nec = d.basic_info().extra_channels.len();
            d.set_pixel_format(fmt.unwrap_or_else(|| Fmt::planar_f32(gray, nec)).pf());
            Ok(d)
        }
        Ok(Ok(_)) => Err("needs more input".into()),
    }
}
