//! The check drivers: one subcommand each; they write records for TLC and metamorphic findings.
use crate::bits::{Bw, Rng};
use crate::container::{self, BoxSpec};
use crate::drive::*;
use crate::enc::*;
use crate::r#gen as film_gen;
use crate::r#gen::FilmOpts;
use crate::session::{self, Case, Script};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};

pub struct Args {
    pub cmd: String,
    pub opts: BTreeMap<String, String>,
}
impl Args {
    pub fn parse(a: &[String]) -> Args {
        let mut opts = BTreeMap::new();
        let mut i = 1;
        while i + 1 < a.len() {
            opts.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
            i += 2;
        }
        Args { cmd: a[0].clone(), opts }
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.opts.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
    pub fn s(&self, k: &str) -> Option<&str> {
        self.opts.get(k).map(|s| s.as_str())
    }
    pub fn out(&self) -> PathBuf {
        PathBuf::from(self.s("out").unwrap_or("/tmp/out"))
    }
}

/// Parallel map over seeds, results in order.  A job that does not come back is reported.
pub fn par<T: Send>(n: u64, f: impl Fn(u64) -> T + Sync) -> Vec<T> {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
    let limit = std::env::var("HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(150u64);
    let next = AtomicU64::new(0);
    let out = std::sync::Mutex::new(Vec::new());
    let t0 = std::time::Instant::now();
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..8).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let hs: Vec<_> = busy
            .iter()
            .map(|b| {
                let (next, out, f) = (&next, &out, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n {
                                b.0.store(u64::MAX, Relaxed);
                                return;
                            }
                            b.1.store(t0.elapsed().as_secs(), Relaxed);
                            b.0.store(i, Relaxed);
                            let v = f(i);
                            out.lock().unwrap().push((i, v));
                        }
                    })
                    .unwrap()
            })
            .collect();
        s.spawn(|| {
            while !done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for b in &busy {
                    let i = b.0.load(Relaxed);
                    if i != u64::MAX && t0.elapsed().as_secs().saturating_sub(b.1.load(Relaxed)) > limit {
                        println!("HANG case {i}");
                        std::process::exit(3);
                    }
                }
            }
        });
        let r: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        done.store(true, Relaxed);
        for x in r {
            x.unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub fn write_lines(p: &Path, v: &[Value]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
    for x in v {
        writeln!(f, "{x}").unwrap();
    }
}

/// A film and its coded form; None when the generator cannot represent its own choice.
pub fn make_film(seed: u64, o: &FilmOpts) -> Option<(Image, CodedImage)> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut rng = Rng::new(seed);
        let mut im = film_gen::film(&mut rng, o);
        let c = im.encode();
        (im, c)
    }))
    .ok()
}
pub fn some_film(mut seed: u64, o: &FilmOpts) -> (Image, CodedImage, u64) {
    loop {
        if let Some((i, c)) = make_film(seed, o)
            && crate::canvas::displayed(&i).is_ok()
        {
            if !o.effects {
                return (i, c, seed);
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut i = i.clone();
                film_gen::effects(&mut Rng::new(seed ^ 0xeffec75), &mut i);
                let c = i.encode();
                (i, c)
            }));
            if let Ok((i, c)) = r
                && decode(&c.bytes, &Plan::default()).end == End::Finished
            {
                return (i, c, seed);
            }
        }
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    }
}

pub fn main(a: &[String]) {
    let args = Args::parse(a);
    match args.cmd.as_str() {
        "sessions" => sessions(&args),
        "corpus" => corpus(&args),
        "hostile" => hostile(&args),
        "emit" => emit(&args),
        "boxes" => boxes(&args),
        "schedules" => schedules(&args),
        "filmcases" => filmcases(&args),
        "bytes" => bytes(&args),
        "relayout" => relayout(&args),
        "samples" => crate::data::samples(&args),
        "profiles" => crate::data::profiles(&args),
        "headers" => crate::meta::headers(&args),
        "outputs" => crate::data::outputs(&args),
        "limits" => crate::meta::limits(&args),
        "films" => crate::data::films(&args),
        "diff" => {
            // where do the pictures of two schedules differ?
            let b = std::fs::read(args.s("f").unwrap()).unwrap();
            let p = Plan { keep_buffers: true, ..Plan::default() };
            let a = decode(&b, &p);
            let r = match args.s("runner").unwrap_or("rev") {
                "rev" => RunnerKind::Reverse,
                x => RunnerKind::Shuffle(x.parse().unwrap()),
            };
            let z = decode(&b, &Plan { runner: r, ..p });
            for (k, (f, g)) in a.frames.iter().zip(&z.frames).enumerate() {
                let w = a.info.as_ref().unwrap().size.0;
                for (c, (x, y)) in f.bufs.iter().zip(&g.bufs).enumerate() {
                    let ch = x.len() / 4 / w / a.info.as_ref().unwrap().size.1;
                    for i in 0..x.len() / 4 {
                        if x[4 * i..4 * i + 4] != y[4 * i..4 * i + 4] {
                            let v = |q: &[u8]| f32::from_le_bytes(q[4 * i..4 * i + 4].try_into().unwrap());
                            println!("frame {k} buffer {c} x {} y {} comp {}: {} {}", i / ch % w, i / ch / w, i % ch, v(x), v(y));
                        }
                    }
                }
            }
        }
        "dec" => println!("{:?}", decode(&std::fs::read(args.s("f").unwrap()).unwrap(), &Plan::default()).end),
        x => panic!("unknown command {x}"),
    }
}

fn levels(rng: &mut Rng, case: &Case) -> Vec<usize> {
    let n = case.flen;
    match rng.below(6) {
        0 => vec![n],
        1 => (0..=n).collect(),
        2 => {
            // around every mark (bare files: exact; containers: also every box start)
            let mut v = vec![];
            for m in case.marks() {
                for d in 0..3 {
                    v.push((m + d).saturating_sub(1));
                }
            }
            v
        }
        3 => {
            let step = 1 + rng.below(64) as usize;
            (0..=n / step).map(|k| k * step).collect()
        }
        4 => (0..1 + rng.below(8)).map(|_| rng.below(n as u64 + 1) as usize).collect(),
        _ => vec![rng.below(n as u64 + 1) as usize],
    }
}

/// A random script of the given kind.
fn script(rng: &mut Rng, case: &Case, kind: &str) -> Script {
        let mut sc = Script::plain(case.flen);
        sc.seed = rng.next();
        sc.levels = levels(rng, case);
        sc.max_read = *rng.pick(&[0usize, 0, 0, 1, 3, 100]);
        sc.default_skip = rng.chance(1, 3);
        sc.over = *rng.pick(&[0usize, 0, 1, 1000]);
        sc.retry_pct = *rng.pick(&[0u64, 0, 20]);
        match kind {
            "scan" => sc.scan = true,
            "seek" => {
                sc.seeks = 1 + rng.below(8) as usize;
                sc.scan_first = rng.chance(1, 2);
            }
            "skip" => sc.skip_pct = *rng.pick(&[30u64, 60, 100]),
            "flush" => sc.flush_pct = *rng.pick(&[20u64, 50, 100]),
            "threads" => sc.flush_pct = *rng.pick(&[0u64, 0, 40]),
            "plain" | "container" | "bare" => {}
            _ => {
                sc.scan = rng.chance(1, 8);
                sc.skip_pct = *rng.pick(&[0u64, 0, 30, 60, 100]);
                sc.flush_pct = *rng.pick(&[0u64, 0, 30]);
                if rng.chance(1, 2) {
                    sc.seeks = rng.below(6) as usize;
                    sc.scan_first = rng.chance(1, 2);
                }
            }
        }
        if kind == "threads" || kind == "all" && rng.chance(1, 6) {
            sc.runner = match rng.below(5) {
                0 => RunnerKind::Seq,
                1 => RunnerKind::Reverse,
                2 => RunnerKind::Shuffle(rng.next()),
                _ => RunnerKind::Threads(2 + rng.below(7) as usize, rng.next()),
            };
        }
        sc
}

/// An image of random residuals under random transforms (palettes with predicted entries among them).
fn residual_image(seed0: u64, dim: u64) -> (Image, CodedImage, u64) {
    for seed in seed0.wrapping_mul(1000).. {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut rng = Rng::new(seed);
            let (w, h) = (1 + rng.below(dim) as u32, 1 + rng.below(dim) as u32);
            let depth = *rng.pick(&[Depth::Int(8), Depth::Int(8), Depth::Int(12)]);
            let mut im = film_gen::lossless_sized(&mut rng, depth, w, h, true);
            let f = &mut im.frames[0];
            f.group_shift = 0;
            f.residual_amp = Some(*rng.pick(&[1i64, 3, 20]));
            let (hdr, img) = (im.hdr.clone(), (w, h));
            film_gen::rand_coding(&mut rng, &hdr, &mut im.frames[0], img);
            let c = im.encode();
            (im, c)
        }));
        if let Ok((i, c)) = r
            && decode(&c.bytes, &Plan::default()).end == End::Finished
        {
            return (i, c, seed);
        }
    }
    unreachable!()
}
/// Random sessions over random films, bare and in containers.
fn sessions(a: &Args) {
    let n = a.n("n", 300);
    let seed0 = a.n("seed", 1) << 24;
    let kind = a.s("kind").unwrap_or("all").to_string();
    let dim = a.n("dim", 12);
    let recs = par(n, |i| {
        let mut fo = FilmOpts::small();
        fo.max_dim = dim;
        fo.max_frames = a.n("frames", fo.max_frames);
        let mut rng = Rng::new(seed0 + i);
        fo.rich = rng.chance(1, 2);
        fo.effects = rng.chance(2, 5);
        let (im, c, seed) =
            if dim > 60 && rng.chance(1, 3) { residual_image(seed0 + i, dim) } else { some_film(seed0 + i, &fo) };
        let (pix, _) = session::baseline(&c.bytes);
        if let Ok(d) = std::env::var("EMIT") {
            std::fs::write(format!("{d}/{i}.jxl"), &c.bytes).unwrap();
        }
        let base = Case::of(&im, &c, &pix, None, seed);
        let boxed = match kind.as_str() {
            "container" => true,
            "bare" => false,
            _ => rng.chance(1, 3),
        };
        let boxes = boxed.then(|| container::arrange(&mut rng, &c.bytes, &base.marks()));
        let mut case = Case::of(&im, &c, &pix, boxes, seed);
        case.ih = session::baseline_ih(&c.bytes);
        if rng.chance(1, 4) {
            case.flen = rng.below(case.bytes.len() as u64 + 1) as usize;
            if rng.chance(1, 2) {
                let m = *rng.pick(&case.marks()) as i64 + rng.range(-1, 1);
                case.flen = m.clamp(0, case.bytes.len() as i64) as usize;
            }
        }
        let mut sc = script(&mut rng, &case, &kind);
        if dim > 60 {
            // large pictures: few deliveries
            rng.shuffle(&mut sc.levels);
            sc.levels.truncate(8);
            sc.max_read = 0;
        }
        let log = session::run(&case, &sc);
        let mut j = case.json(sc.scan, &log);
        if let Ok(d) = std::env::var("PANICS")
            && log.iter().any(|e| e["op"] == "panic")
        {
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(format!("{d}/{i}.jxl"), &case.bytes).unwrap();
            std::fs::write(format!("{d}/{i}.txt"), format!("{sc:?}\n{log:?}\n")).unwrap();
        }
        sc.levels.truncate(12);
        j["script"] = json!(format!("{sc:?}"));
        j
    });
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len()}));
}

fn corpus_files(max: u64) -> Vec<PathBuf> {
    let mut v = vec![];
    for d in ["/repo/jxl/resources/test", "/repo/jxl/resources/test/conformance_test_images"] {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let p = e.path();
            if p.extension().is_some_and(|x| x == "jxl") && e.metadata().unwrap().len() <= max {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}
/// Sessions on the sample files of the repository.
fn corpus(a: &Args) {
    let per = a.n("per", 20);
    let kind = a.s("kind").unwrap_or("all").to_string();
    let files = corpus_files(a.n("max", 20000));
    let coarse = a.n("coarse", 0) == 1;
    let seed0 = a.n("seed", 1) << 24;
    let cases = par(files.len() as u64, |i| {
        let b = std::fs::read(&files[i as usize]).unwrap();
        let t0 = std::time::Instant::now();
        let name = files[i as usize].file_name().unwrap().to_string_lossy().to_string();
        let m = if coarse { session::coarse(&name, &b) } else { session::measured(&name, &b) };
        if std::env::var("TIMES").is_ok() { eprintln!("{:?} {}", t0.elapsed(), m.name); }
        m
    });
    let recs = par(files.len() as u64 * per, |i| {
        let mut case = cases[(i / per) as usize].clone();
        let mut rng = Rng::new(seed0 + i);
        case.seed = i;
        let bad = !case.fail.0.is_empty();
        let k = if bad { "plain" } else { kind.as_str() };
        if !coarse && rng.chance(1, 5) {
            case.flen = rng.below(case.bytes.len() as u64 + 1) as usize;
        }
        let mut sc = script(&mut rng, &case, k);
        if coarse {
            // only the whole file: when events become available is not known
            sc.levels = vec![case.flen];
        }
        if sc.levels.len() > 3000 {
            let m = case.marks();
            sc.levels = (0..200).map(|_| (*rng.pick(&m) as i64 + rng.range(-3, 3)).max(0) as usize).collect();
            sc.levels.extend((0..200).map(|_| rng.below(case.flen as u64 + 1) as usize));
        }
        let log = session::run(&case, &sc);
        let mut j = case.json(sc.scan, &log);
        sc.levels.truncate(12);
        j["script"] = json!(format!("{sc:?}"));
        j
    });
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len(), "files": files.len()}));
}

/// Realises box sequences printed by TLC with pieces of real codestreams.
fn boxes(a: &Args) {
    let text = std::fs::read_to_string(a.s("cases").unwrap()).unwrap();
    let cases: Vec<Value> = text.lines().filter(|l| l.starts_with('[')).map(|l| serde_json::from_str(l).unwrap()).collect();
    let seed0 = a.n("seed", 1) << 24;
    let mut fo = FilmOpts::small();
    fo.max_dim = 6;
    let films = par(24, |i| {
        let (im, c, seed) = some_film(seed0 + 77 * i, &fo);
        let (pix, _) = session::baseline(&c.bytes);
        let ih = session::baseline_ih(&c.bytes);
        (im, c, seed, pix, ih)
    });
    let runs = a.n("runs", 1);
    let recs = par(cases.len() as u64 * runs, |i| {
        let mut rng = Rng::new(seed0 ^ (i * 7919 + 13));
        let (im, c, seed, pix, ih) = &films[(i % 24) as usize];
        let hist = cases[(i / runs) as usize].as_array().unwrap();
        let marks = Case::of(im, c, pix, None, *seed).marks();
        let cs = &c.bytes;
        let n = hist.iter().filter(|b| b["t"] == "jxlp").map(|b| b["idx"].as_u64().unwrap() + 1).max().unwrap_or(1) as usize;
        let mut cuts: Vec<usize> = (1..n)
            .map(|_| {
                if rng.chance(1, 2) {
                    (*rng.pick(&marks) as i64 + rng.range(-1, 1)).clamp(1, cs.len() as i64) as usize
                } else {
                    1 + rng.below(cs.len() as u64) as usize
                }
            })
            .collect();
        cuts.push(0);
        cuts.push(cs.len());
        cuts.sort();
        let boxes: Vec<BoxSpec> = hist
            .iter()
            .map(|b| {
                let len = b["len"].as_i64().unwrap();
                let mut x = match b["t"].as_str().unwrap() {
                    "ftyp" => {
                        let mut x = BoxSpec::ftyp(b["ver"].as_i64().unwrap());
                        x.payload = (0..len).map(|_| rng.next() as u8).collect();
                        x
                    }
                    "jxlc" => BoxSpec::new(b"jxlc", if len == 0 { vec![] } else { cs.clone() }),
                    "jxlp" => {
                        let k = b["idx"].as_u64().unwrap() as usize;
                        let mut x = BoxSpec::jxlp(k as u32, b["last"].as_bool().unwrap(), if len == 0 { vec![] } else { cs[cuts[k]..cuts[k + 1]].to_vec() });
                        x.src = cuts[k];
                        x
                    }
                    _ => {
                        let mut x = container::other(&mut rng);
                        x.payload.truncate(if len == 0 { 0 } else { 200 });
                        if len != 0 && x.payload.is_empty() {
                            x.payload = vec![1; 9];
                        }
                        x
                    }
                };
                x.eof = len < 0;
                x.bad = b["good"] == false;
                x.ext = !x.eof && rng.chance(1, 4);
                x
            })
            .collect();
        let mut case = Case::of(im, c, pix, Some(boxes), *seed);
        case.ih = ih.clone();
        if rng.chance(1, 10) {
            case.flen = rng.below(case.bytes.len() as u64 + 1) as usize;
        }
        let mut sc = script(&mut rng, &case, "container");
        let log = session::run(&case, &sc);
        let mut j = case.json(false, &log);
        sc.levels.truncate(12);
        j["script"] = json!(format!("{sc:?}"));
        j
    });
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len(), "behaviours": cases.len()}));
}

/// Realises arrival scripts printed by TLC (MCSchedule): the sections of one frame in a given order,
/// cut into deliveries, with flushes and task orders.
fn schedules(a: &Args) {
    let text = std::fs::read_to_string(a.s("cases").unwrap()).unwrap();
    let cases: Vec<Value> = text.lines().filter(|l| l.starts_with('[')).map(|l| serde_json::from_str(l).unwrap()).collect();
    let (ng, np) = (a.n("ng", 2) as usize, a.n("np", 1) as u32);
    let take = a.n("take", cases.len() as u64).min(cases.len() as u64);
    let seed0 = a.n("seed", 1) << 24;
    let pool = 48;
    let images = par(pool, |i| {
        let mut seed = seed0 + 1000 * i;
        loop {
            seed += 1;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut rng = Rng::new(seed);
                let nx = if ng % 2 == 0 && ng > 2 && rng.chance(1, 2) { ng / 2 } else { ng };
                let ny = ng / nx;
                let side = |rng: &mut Rng, n: usize| -> u32 {
                    match n {
                        1 => 1 + rng.below(9) as u32,
                        n => (n as u32 - 1) * 128 + *rng.pick(&[1u32, 2, 3, 8, 17, 30]),
                    }
                };
                let (mut w, mut h) = (side(&mut rng, nx), side(&mut rng, ny));
                if rng.chance(1, 3) {
                    std::mem::swap(&mut w, &mut h);
                }
                let depth = *rng.pick(&[Depth::Int(8), Depth::Int(8), Depth::Int(12)]);
                let mut im = film_gen::lossless_sized(&mut rng, depth, w, h, true);
                let ups = *rng.pick(&[1u32, 1, 1, 2]);
                if ups > 1 {
                    im.hdr.ecs.iter_mut().for_each(|e| e.dim_shift = 0);
                    (im.hdr.w, im.hdr.h) = (w * ups, h * ups);
                }
                let (hdr, img) = (im.hdr.clone(), (im.hdr.w, im.hdr.h));
                let f = &mut im.frames[0];
                f.ups = ups;
                f.ec_ups.iter_mut().for_each(|e| *e = ups);
                f.group_shift = 0;
                f.passes = Passes { num: np, ds: vec![] };
                if np > 1 && rng.chance(2, 3) {
                    f.passes.ds = vec![(*rng.pick(&[8u32, 4, 2]), rng.below(np as u64 - 1) as u32)];
                }
                f.gab = rng.chance(1, 2);
                f.epf = *rng.pick(&[0u32, 1, 2, 3]);
                if rng.chance(1, 3) {
                    f.noise = Some(std::array::from_fn(|_| rng.below(1024) as u16));
                }
                film_gen::rand_coding(&mut rng, &hdr, f, img);
                f.perm = None;
                let c = im.encode();
                (im, c)
            }));
            if let Ok((im, c)) = r
                && c.frames[0].1.sections.len() == 3 + ng * np as usize
                && decode(&c.bytes, &Plan::default()).end == End::Finished
            {
                let (pix, _) = session::baseline(&c.bytes);
                return (im, pix, session::baseline_ih(&c.bytes));
            }
        }
    });
    let recs = par(take, |i| {
        let mut rng = Rng::new(seed0 ^ (i * 7919 + 13));
        // evenly over all scripts
        let script = cases[(i as u128 * cases.len() as u128 / take as u128) as usize].as_array().unwrap();
        let (im, pix, ih) = &images[rng.below(pool) as usize];
        let mut im = im.clone();
        let mut order: Vec<usize> = vec![0, 1, 2];
        let mut ends = vec![];
        for r in script {
            for s in r["secs"].as_array().unwrap() {
                let (p, g) = (s[0].as_u64().unwrap() as usize, s[1].as_u64().unwrap() as usize);
                order.push(3 + p * ng + g);
            }
            ends.push((order.len(), r["flush"] == true));
        }
        im.frames[0].order = Some(order.clone());
        let c = im.encode();
        let case = {
            let mut x = Case::of(&im, &c, pix, None, i);
            x.ih = ih.clone();
            x
        };
        let (at, co) = &c.frames[0];
        let first = at + co.header.len();
        let mut sc = Script::plain(case.flen);
        sc.seed = rng.next();
        sc.levels.clear();
        for (n, fl) in ends {
            let e = first + order[..n].iter().map(|&s| co.sections[s].len()).sum::<usize>();
            sc.levels.push(e);
            if fl {
                sc.flush_at.push(e);
            }
        }
        sc.levels.push(case.flen);
        sc.runner = match script[0]["order"].as_str().unwrap() {
            "fwd" => RunnerKind::Seq,
            "rev" => RunnerKind::Reverse,
            "mix" => RunnerKind::Shuffle(rng.next()),
            _ => RunnerKind::Threads(2 + rng.below(4) as usize, rng.next()),
        };
        let log = session::run(&case, &sc);
        let mut j = case.json(false, &log);
        j["script"] = json!(format!("{sc:?} {}", json!(script)));
        let f = &im.frames[0];
        j["image"] = json!(format!("{}x{} upsampled {} ecs {} gab {} epf {} noise {} passes {:?} transforms {:?}", im.hdr.w, im.hdr.h, f.ups,
            im.hdr.ecs.len(), f.gab, f.epf, f.noise.is_some(), f.passes, f.tfs));
        if let Ok(d) = std::env::var("EMIT") {
            std::fs::write(format!("{d}/{i}.jxl"), &case.bytes).unwrap();
        }
        j
    });
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len(), "behaviours": cases.len()}));
}

/// Films of given frame kinds with given histories (MCSession).
fn filmcases(a: &Args) {
    let text = std::fs::read_to_string(a.s("cases").unwrap()).unwrap();
    let cases: Vec<Value> = text.lines().filter(|l| l.starts_with('{')).map(|l| serde_json::from_str(l).unwrap()).collect();
    let take = a.n("take", cases.len() as u64).min(cases.len() as u64);
    let seed0 = a.n("seed", 1) << 24;
    let mut recs = par(take, |i| {
        let case = &cases[(i as u128 * cases.len() as u128 / take as u128) as usize];
        let kinds = case["frames"].as_array().unwrap();
        let mut seed = seed0 + 1000 * i;
        let (im, c) = loop {
            seed += 1;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut im = film_gen::film_of(&mut Rng::new(seed), kinds);
                let c = im.encode();
                (im, c)
            }));
            if let Ok(x) = r {
                break x;
            }
            assert!(seed < seed0 + 1000 * i + 50, "cannot write {case}");
        };
        let mut rng = Rng::new(seed);
        let (pix, end) = session::baseline(&c.bytes);
        let base = Case::of(&im, &c, &pix, None, seed);
        let boxes = rng.chance(1, 6).then(|| container::arrange(&mut rng, &c.bytes, &base.marks()));
        let mut k = Case::of(&im, &c, &pix, boxes, seed);
        k.ih = session::baseline_ih(&c.bytes);
        let mut sc = Script::plain(k.flen);
        sc.seed = rng.next();
        if rng.chance(1, 2) {
            sc.levels = levels(&mut rng, &k);
        }
        sc.skips = case["acts"].as_array().unwrap().iter().map(|x| x == "s").collect();
        let mut to: Vec<usize> = (0..kinds.iter().filter(|k| k["vis"] == true).count()).collect();
        rng.shuffle(&mut to);
        sc.seek_to = to;
        let log = session::run(&k, &sc);
        let mut j = k.json(false, &log);
        j["script"] = json!(format!("{sc:?} {case}"));
        j["end"] = json!(format!("{end:?}"));
        if let Ok(d) = std::env::var("EMIT") {
            std::fs::write(format!("{d}/{i}.jxl"), &k.bytes).unwrap();
        }
        j
    });
    let odd = recs.iter().filter(|r| r["end"] != "Finished").count();
    recs.iter_mut().for_each(|r| {
        r.as_object_mut().unwrap().remove("end");
    });
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len(), "behaviours": cases.len(), "not decoded in order": odd}));
}

/// The bytes of the sample files that are bare codestreams.
fn bytes(a: &Args) {
    let recs: Vec<Value> = corpus_files(a.n("max", 20000))
        .iter()
        .filter_map(|f| {
            let b = std::fs::read(f).unwrap();
            (b[..2] == [0xff, 10] && !f.to_string_lossy().contains("_5.jxl")).then(|| json!({"name": f.to_string_lossy(), "b": b}))
        })
        .collect();
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len()}));
}

/// Sample files with the sections of their frames in other orders (MCLayout), in arbitrary deliveries.
fn relayout(a: &Args) {
    let text = std::fs::read_to_string(a.s("cases").unwrap()).unwrap();
    let n = |v: &Value| v.as_u64().unwrap() as usize;
    let cases: Vec<Value> = text
        .lines()
        .filter(|l| l.starts_with('{'))
        .map(|l| serde_json::from_str::<Value>(l).unwrap())
        .filter(|c| c["frames"].as_array().unwrap().iter().any(|f| f["sec"].as_array().unwrap().len() > 1))
        .collect();
    let per = a.n("per", 10);
    let kind = a.s("kind").unwrap_or("all").to_string();
    let seed0 = a.n("seed", 1) << 24;
    let base = par(cases.len() as u64, |i| {
        let b = std::fs::read(cases[i as usize]["file"].as_str().unwrap()).unwrap();
        let (pix, end) = session::baseline(&b);
        (pix, end == End::Finished, session::baseline_ih(&b), b)
    });
    let recs = par(cases.len() as u64 * per, |i| {
        let c = &cases[(i / per) as usize];
        let (pix, ok, ih, old) = &base[(i / per) as usize];
        if !ok {
            return None;
        }
        let mut rng = Rng::new(seed0 ^ (i * 7919 + 5));
        let mut bytes = old[..n(&c["info"])].to_vec();
        let mut ends = vec![]; // (start, end of the table of contents, ends of the sections)
        for f in c["frames"].as_array().unwrap() {
            let start = n(&f["start"]);
            let secs: Vec<Vec<u8>> =
                f["sec"].as_array().unwrap().iter().map(|s| old[n(&s[0])..n(&s[0]) + n(&s[1])].to_vec()).collect();
            let mut w = Bw::new();
            for k in 8 * start..n(&f["bit"]) {
                w.b(old[k / 8] >> (k % 8) & 1 == 1);
            }
            let mut order: Vec<usize> = (0..secs.len()).collect();
            match rng.below(6) {
                0 => {}
                1 => order.reverse(),
                2 => {
                    // two sections change places
                    let (x, y) = (rng.below(secs.len() as u64) as usize, rng.below(secs.len() as u64) as usize);
                    order.swap(x, y);
                }
                3 => {
                    // all but a few first sections in another order
                    let k = (1 + rng.below(3) as usize).min(order.len());
                    rng.shuffle(&mut order[k..]);
                }
                _ => rng.shuffle(&mut order),
            }
            crate::enc::write_toc(&secs, &order, secs.len() > 1, &mut rng, &mut w);
            let at = bytes.len();
            bytes.extend_from_slice(&w.buf);
            let mut e = vec![bytes.len()];
            for &k in &order {
                bytes.extend_from_slice(&secs[k]);
                e.push(bytes.len());
            }
            ends.push((at, e, f["vis"] == true));
        }
        let mut case = session::coarse(c["file"].as_str().unwrap().rsplit('/').next().unwrap(), &bytes);
        case.seed = i;
        case.ih = ih.clone();
        if case.fail.0.is_empty() {
            case.info = n(&c["info"]);
        }
        let mut p = pix.iter();
        for f in &mut case.frames {
            let at = n(&f["start"]);
            let k = ends.iter().position(|e| e.0 == at);
            let e = &k.map(|k| ends[k].1.clone()).unwrap_or(vec![at, at]);
            (f["toc"], f["end"]) = (e[0].into(), e[e.len() - 1].into());
            if f["vis"] == true {
                f["pix"] = p.next().cloned().unwrap_or_default().into();
            }
        }
        let mut sc = script(&mut rng, &case, &kind);
        let marks: Vec<usize> = ends.iter().flat_map(|e| e.1.iter().copied()).collect();
        sc.levels = match rng.below(5) {
            0 => vec![case.flen],
            1 | 2 => (0..1 + rng.below(6)).map(|_| *rng.pick(&marks)).collect(),
            3 => marks.iter().copied().filter(|_| rng.chance(1, 3)).take(100).collect(),
            _ => (0..1 + rng.below(6)).map(|_| rng.below(case.flen as u64 + 1) as usize).collect(),
        };
        if let Ok(d) = std::env::var("EMIT") {
            std::fs::write(format!("{d}/{i}.jxl"), &case.bytes).unwrap();
        }
        let log = session::run(&case, &sc);
        let mut j = case.json(sc.scan, &log);
        sc.levels.truncate(12);
        j["script"] = json!(format!("{sc:?}"));
        Some(j)
    });
    let recs: Vec<Value> = recs.into_iter().flatten().collect();
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len(), "files": cases.len()}));
}

/// Damages a file.
fn mutate(rng: &mut Rng, b: &mut Vec<u8>, other: &[u8], marks: &[usize]) {
    let n = *rng.pick(&[1u64, 1, 1, 2, 3, 8, 40]);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        let len = b.len() as u64;
        // near the start, near something that matters, or anywhere
        let at = match rng.below(4) {
            0 => rng.below(len.min(40)),
            1 => (*rng.pick(marks) as u64 + rng.below(24)).min(len - 1),
            _ => rng.below(len),
        } as usize;
        let most = *rng.pick(&[1u64, 4, 30]);
        let k = 1 + rng.below(most) as usize;
        let e = (at + k).min(b.len());
        match rng.below(12) {
            0..=4 => b[at] ^= 1 << rng.below(8),
            5 | 6 => b[at] = *rng.pick(&[0, 0xff, 0x80, 0x7f, 1, 0x55]),
            7 => b[at] = rng.next() as u8,
            8 => {
                b.drain(at..e);
            }
            9 => {
                let ins: Vec<u8> = (0..k).map(|_| rng.next() as u8).collect();
                b.splice(at..at, ins);
            }
            10 => {
                let x = b[at..e].to_vec();
                let to = rng.below(len) as usize;
                b.splice(to..to, x);
            }
            _ => {
                let o = rng.below(other.len() as u64) as usize;
                let x = other[o..(o + k).min(other.len())].to_vec();
                for (i, v) in x.into_iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = v;
                    }
                }
            }
        }
    }
}

/// Sessions on damaged files. Small ones are first measured (where the fault shows), so that
/// every delivery must report it at the same place; for others only the kinds of answer count.
/// A film or image in which one field or one coded value was written with another value.
fn spoilt_image(rng: &mut Rng, seed: u64, fo: &FilmOpts) -> (Vec<u8>, String) {
    use crate::bits::spoil;
    let (im, _, _) = if rng.chance(1, 3) { residual_image(seed, fo.max_dim) } else { some_film(seed, fo) };
    let Ok((_, fields, codes)) = catch_unwind(AssertUnwindSafe(|| spoil::with(None, None, 0, || im.clone().encode()))) else {
        unreachable!()
    };
    loop {
        let s = rng.next();
        let (f, c) = match rng.below(4) {
            0 => (Some(rng.below(fields)), None),
            1 => (Some(rng.below(fields.min(300))), None),
            _ => (None, Some(rng.below(codes))),
        };
        if codes == 0 && c.is_some() {
            continue;
        }
        if let Ok((x, _, _)) = catch_unwind(AssertUnwindSafe(|| spoil::with(f, c, s, || im.clone().encode()))) {
            return (x.bytes, format!("film {seed} with field {f:?} or code {c:?} spoilt by {s}"));
        }
    }
}
fn hostile(a: &Args) {
    let n = a.n("n", 300);
    let seed0 = a.n("seed", 1) << 24;
    let files: Vec<Vec<u8>> = corpus_files(a.n("max", 7000)).iter().map(|p| std::fs::read(p).unwrap()).collect();
    let limit = a.n("limit", 1 << 20) as usize;
    let recs = par(n, |i| {
        let mut rng = Rng::new(seed0 + i);
        let mut fo = FilmOpts::small();
        fo.max_dim = *rng.pick(&[6u64, 12, 40, 150]);
        fo.rich = rng.chance(1, 2);
        fo.effects = rng.chance(1, 3);
        let other = rng.pick(&files).clone();
        let mut clean = false;
        let (mut b, marks, name) = if rng.chance(1, 4) {
            (rng.pick(&files).clone(), vec![0, 12, 40], "sample".to_string())
        } else if rng.chance(1, 3) {
            clean = !rng.chance(1, 6);
            let (b, name) = spoilt_image(&mut rng, seed0 + i, &fo);
            (b, vec![0, 12, 40], name)
        } else {
            let (im, c, seed) = some_film(seed0 + i, &fo);
            let case = Case::of(&im, &c, &[], None, seed);
            if rng.chance(1, 4) {
                let boxes = container::arrange(&mut rng, &c.bytes, &case.marks());
                (container::write(&boxes), vec![0, 12, 32, 40, 60], format!("boxed film {seed}"))
            } else {
                (c.bytes.clone(), case.marks(), format!("film {seed}"))
            }
        };
        if !clean {
            mutate(&mut rng, &mut b, &other, &marks);
        }
        let strict = b.len() <= 1500 && rng.chance(1, 2);
        let mut case = if strict {
            session::measured_with(&name, &b, Some(limit))
        } else {
            Case { bytes: b.clone(), cs: vec![], boxes: None, flen: b.len(), info: 0, previews: vec![], frames: vec![], seed: 0,
                opaque: true, ih: String::new(), fail: (String::new(), 0, 0), name }
        };
        case.seed = seed0 + i;
        let kind = if strict { *rng.pick(&["plain", "flush", "threads"]) } else { "all" };
        let mut sc = script(&mut rng, &case, kind);
        sc.limit = Some(limit);
        if b.len() > 3000 {
            rng.shuffle(&mut sc.levels);
            sc.levels.truncate(40);
        }
        let (log, mem) = crate::alloc::peak(|| session::run(&case, &sc));
        let mut j = case.json(sc.scan, &log);
        sc.levels.truncate(12);
        j["script"] = json!(format!("{sc:?}"));
        j["strict"] = json!(strict);
        j["mem"] = json!((mem >> 10).min(1 << 30));
        j["limit"] = json!(limit);
        j["hex"] = json!(b.iter().map(|x| format!("{x:02x}")).collect::<String>());
        j
    });
    let mm = recs.iter().map(|r| r["mem"].as_u64().unwrap()).max();
    let mut hist: BTreeMap<String, u64> = BTreeMap::new();
    for r in &recs {
        let last = r["log"].as_array().unwrap().last().cloned().unwrap_or_default();
        *hist.entry(format!("{}-{}", last["op"].as_str().unwrap_or(""), last["r"].as_str().unwrap_or(""))).or_default() += 1;
    }
    write_lines(&a.out(), &recs);
    println!("{}", json!({"cases": recs.len(), "peak_kib": mm, "ends": hist}));
}

/// Writes generated files, for use outside the checks.
fn emit(a: &Args) {
    let dir = PathBuf::from(a.s("dir").unwrap());
    std::fs::create_dir_all(&dir).unwrap();
    let kind = a.s("kind").unwrap_or("film").to_string();
    let seed0 = a.n("seed", 1) << 24;
    let dim = a.n("dim", 12);
    par(a.n("n", 100), |i| {
        let mut rng = Rng::new(seed0 + i);
        let mut fo = FilmOpts::small();
        fo.max_dim = dim;
        fo.max_frames = a.n("frames", fo.max_frames);
        fo.rich = rng.chance(1, 2);
        fo.effects = kind == "effects" || kind == "film" && rng.chance(2, 5);
        let b = if kind == "lossless" {
            let r = catch_unwind(AssertUnwindSafe(|| film_gen::lossless_image(&mut rng, dim, true).encode().bytes));
            match r {
                Ok(b) => b,
                Err(_) => return,
            }
        } else {
            if kind == "plain" {
                fo.plain_values = true;
                fo.rich = false;
            }
            let (im, c, seed) = some_film(seed0 + i, &fo);
            if kind == "boxed" {
                let case = Case::of(&im, &c, &[], None, seed);
                container::write(&container::arrange(&mut rng, &c.bytes, &case.marks()))
            } else {
                c.bytes
            }
        };
        std::fs::write(dir.join(format!("{i}.jxl")), b).unwrap();
    });
    println!("{{}}");
}
