//! jxldemo FILE [--step N] [--skip I,J] [--seek K] [--scan] [--runner rev|threads] [--flush]
//!   [--fmt f32|u8|u16be|f16|rgba8|bgr8] [--limit N] [--preview] [--dump] [--chunk-at N]
//! Prints what the decoder reports for FILE.
use jxl::api::states::*;
use jxl::api::*;
use std::io::IoSliceMut;

struct Feed<'a> {
    data: &'a [u8],
    pos: usize,
    limit: usize,
}
impl JxlBitstreamInput for Feed<'_> {
    fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
        Ok(self.limit - self.pos)
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
        let mut n = 0;
        for b in bufs {
            let k = b.len().min(self.limit - self.pos);
            b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
            self.pos += k;
            n += k;
        }
        Ok(n)
    }
}
struct Run(String);
impl JxlParallelRunner for Run {
    fn run(&mut self, num: usize, fun: &JxlParallelRunnerFun<'_>) -> jxl::error::Result<()> {
        match self.0.as_str() {
            "rev" => (0..num).rev().try_for_each(fun),
            "evenodd" => (0..num).step_by(2).chain((1..num).step_by(2)).try_for_each(fun),
            "threads" => {
                let next = std::sync::atomic::AtomicUsize::new(0);
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..8)
                        .map(|_| {
                            s.spawn(|| {
                                loop {
                                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                    if i >= num {
                                        return Ok(());
                                    }
                                    fun(i)?;
                                }
                            })
                        })
                        .collect();
                    hs.into_iter().try_for_each(|h| h.join().unwrap())
                })
            }
            _ => (0..num).try_for_each(fun),
        }
    }
}

fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a.get(i + 1).cloned().unwrap_or_default());
    let has = |k: &str| a.iter().any(|x| x == k);
    let data = std::fs::read(&a[1]).unwrap();
    let step: usize = get("--step").map(|s| s.parse().unwrap()).unwrap_or(0);
    let skip: Vec<usize> = get("--skip").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut seek: Vec<usize> = get("--seek").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut runner = Run(get("--runner").unwrap_or_default());
    let mut o = JxlDecoderOptions::default();
    o.scan_frames_only = has("--scan");
    o.sample_limit = get("--limit").map(|s| s.parse().unwrap());
    o.skip_preview = !has("--preview");
    let first = get("--chunk-at").map(|s| s.parse().unwrap()).unwrap_or(if step > 0 { 0 } else { data.len() });
    let mut feed = Feed { data: &data, pos: 0, limit: first };
    macro_rules! more {
        ($what:expr) => {{
            if feed.limit == data.len() {
                println!("{}: needs more input at the end", $what);
                return;
            }
            feed.limit = if step > 0 { (feed.limit + step).min(data.len()) } else { data.len() };
        }};
    }
    macro_rules! fail {
        ($what:expr, $e:expr) => {{
            println!("{}: error {:?}", $what, $e);
            return;
        }};
    }
    let mut init = JxlDecoder::<Initialized>::new(o);
    let mut dec = loop {
        match init.process(&mut feed, Some(&mut runner)) {
            Err(e) => fail!("header", e),
            Ok(ProcessingResult::Complete { result }) => break result,
            Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                if has("--levels") { println!("header needs more at {}", feed.limit); }
                init = fallback;
                more!("header");
            }
        }
    };
    let b = dec.basic_info();
    println!(
        "size {:?} depth {:?} orientation {:?} original {} preview {:?} tone {} {} {} {}",
        b.size, b.bit_depth, b.orientation, b.uses_original_profile, b.preview_size,
        b.tone_mapping.intensity_target, b.tone_mapping.min_nits, b.tone_mapping.relative_to_max_display, b.tone_mapping.linear_below
    );
    for e in &b.extra_channels {
        println!("extra {:?} {}", e.ec_type, e.alpha_associated);
    }
    if let Some(x) = &b.animation {
        println!("animation {} {} {} {}", x.tps_numerator, x.tps_denominator, x.num_loops, x.have_timecodes);
    }
    let nec = b.extra_channels.len();
    match dec.embedded_color_profile() {
        JxlColorProfile::Icc(v) => println!("profile {} bytes {:016x}", v.len(), hash(v)),
        JxlColorProfile::Simple(e) => println!("profile {e:?}"),
    }
    let gray = dec.current_pixel_format().color_type.is_grayscale();
    let (mut ct, mut fmt) = (if gray { JxlColorType::Grayscale } else { JxlColorType::Rgb }, JxlDataFormat::F32 { endianness: Endianness::LittleEndian });
    match get("--fmt").as_deref() {
        Some("u8") => fmt = JxlDataFormat::U8 { bit_depth: 8 },
        Some("u16be") => fmt = JxlDataFormat::U16 { endianness: Endianness::BigEndian, bit_depth: 16 },
        Some("u16") => fmt = JxlDataFormat::U16 { endianness: Endianness::LittleEndian, bit_depth: 16 },
        Some("f16") => fmt = JxlDataFormat::F16 { endianness: Endianness::LittleEndian },
        Some("f16be") => fmt = JxlDataFormat::F16 { endianness: Endianness::BigEndian },
        Some("f32be") => fmt = JxlDataFormat::F32 { endianness: Endianness::BigEndian },
        Some("rgba8") => {
            fmt = JxlDataFormat::U8 { bit_depth: 8 };
            ct = if gray { JxlColorType::GrayscaleAlpha } else { JxlColorType::Rgba };
        }
        Some("bgra8") => {
            fmt = JxlDataFormat::U8 { bit_depth: 8 };
            ct = JxlColorType::Bgra;
        }
        Some("bgr8") => {
            fmt = JxlDataFormat::U8 { bit_depth: 8 };
            ct = JxlColorType::Bgr;
        }
        _ => {}
    }
    let planar_ec = !ct.has_alpha();
    let pf = JxlPixelFormat {
        color_type: ct,
        color_data_format: Some(fmt),
        extra_channel_format: vec![if planar_ec { Some(fmt) } else { None }; nec],
    };
    dec.set_pixel_format(pf);
    let mut shown = 0;
    loop {
        if !dec.has_more_frames() || has("--seek-early") && !dec.scanned_frames().is_empty() {
            for s in dec.scanned_frames() {
                if seek.is_empty() || has("--scans") {
                println!("scan {} {:?} ticks {} at {} last {} key {} from {} skip {} {:?}", s.index, s.duration_ms, s.duration_ticks,
                    s.file_offset, s.is_last, s.is_keyframe, s.seek_target.decode_start_file_offset,
                    s.seek_target.visible_frames_to_skip, s.name);
                }
            }
            if seek.is_empty() {
                println!("file length {:?}", dec.file_length());
                println!("end");
                return;
            }
            let k = seek.remove(0);
            let Some(t) = dec.scanned_frames().get(k).map(|s| s.seek_target) else {
                println!("no frame {k}");
                continue;
            };
            println!("seek to frame {k}");
            dec.start_new_frame(t);
            feed.pos = t.decode_start_file_offset as usize;
            feed.limit = if step > 0 { feed.pos } else { data.len() };
            shown = k;
        }
        let mut fdec = loop {
            match dec.process(&mut feed, Some(&mut runner)) {
                Err(e) => fail!("frame header", e),
                Ok(ProcessingResult::Complete { result }) => break result,
                Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                    if has("--levels") { println!("frame header needs more at {}", feed.limit); }
                    dec = fallback;
                    more!("frame header");
                }
            }
        };
        let h = fdec.frame_header();
        println!("frame {shown} {:?} duration {:?} size {:?}", h.name, h.duration, h.size);
        if skip.contains(&shown) || has("--scan") {
            dec = loop {
                match fdec.skip_frame(&mut feed) {
                    Err(e) => fail!("skip", e),
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                        fdec = fallback;
                        more!("skip");
                    }
                }
            };
        } else {
            let mut sizes = vec![fmt.bytes_per_sample() * ct.samples_per_pixel()];
            if planar_ec {
                sizes.extend(vec![fmt.bytes_per_sample(); nec]);
            }
            let mut bufs: Vec<Vec<u8>> = sizes.iter().map(|s| vec![0x5c; s * h.size.0 * h.size.1]).collect();
            dec = loop {
                let mut outs: Vec<JxlOutputBuffer> =
                    bufs.iter_mut().zip(&sizes).map(|(b, s)| JxlOutputBuffer::new(b, h.size.1, h.size.0 * s)).collect();
                match fdec.process(&mut feed, &mut outs, Some(&mut runner)) {
                    Err(e) => fail!("decode", e),
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                        fdec = fallback;
                        if has("--flush") {
                            if let Err(e) = fdec.flush_pixels(&mut outs, Some(&mut runner)) {
                                fail!("flush", e);
                            }
                        }
                        drop(outs);
                        if has("--levels") { println!("decode needs more at {}", feed.limit); }
                        more!("decode");
                    }
                }
            };
            for (i, b) in bufs.iter().enumerate() {
                print!("pixels {shown} buffer {i} {:016x}", hash(b));
                if has("--dump") {
                    for p in b.chunks(fmt.bytes_per_sample()) {
                        match p.len() {
                            4 if !has("--bits") => print!(" {}", f32::from_le_bytes(p.try_into().unwrap())),
                            _ => print!(" {}", p.iter().map(|x| format!("{x:02x}")).collect::<String>()),
                        }
                    }
                }
                println!();
            }
        }
        shown += 1;
    }
}
