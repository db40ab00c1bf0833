//! Generator of colour-profile encodings together with the profile they stand for.
use crate::bits::Rng;

pub fn varint(v: u64, out: &mut Vec<u8>) {
    let mut v = v;
    loop {
        let b = (v & 127) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 128);
    }
}
/// A legal but longer form of the same number (trailing zero groups).
fn varint_r(v: u64, rng: &mut Rng, out: &mut Vec<u8>) {
    let s = out.len();
    varint(v, out);
    if rng.chance(1, 20) && out.len() - s < 5 {
        *out.last_mut().unwrap() |= 128;
        out.push(0);
    }
}
pub const TAGS: [&[u8; 4]; 17] = [
    b"cprt", b"wtpt", b"bkpt", b"rXYZ", b"gXYZ", b"bXYZ", b"kXYZ", b"rTRC", b"gTRC", b"bTRC", b"kTRC", b"chad",
    b"desc", b"chrm", b"dmnd", b"dmdd", b"lumi",
];
pub const TYPES: [&[u8; 4]; 8] = [b"XYZ ", b"desc", b"text", b"mluc", b"para", b"curv", b"sf32", b"gbd "];

/// Prediction of header byte `i` from the bytes already decoded.
pub fn header_pred(i: usize, size: u32, h: &[u8]) -> u8 {
    let fixed: &[(usize, &[u8])] = &[
        (8, &[4]),
        (12, b"mntrRGB XYZ "),
        (36, b"acsp"),
        (70, &[246, 214, 0, 1]),
        (78, &[211, 45]),
    ];
    if i < 4 {
        return size.to_be_bytes()[i];
    }
    if (41..44).contains(&i) {
        return match h[40] {
            b'A' => b"PPL"[i - 41],
            b'M' => b"SFT"[i - 41],
            b'S' if i > 41 && h[41] == b'G' => b"I "[i - 42],
            b'S' if i > 41 && h[41] == b'U' => b"NW"[i - 42],
            _ => 0,
        };
    }
    if (80..84).contains(&i) {
        return h[i - 76];
    }
    for (p, v) in fixed {
        if i >= *p && i < p + v.len() {
            return v[i - p];
        }
    }
    0
}
/// Matrix with `w` rows and ceil(n/w) columns, the last cells of the last column missing, read by columns.
pub fn shuffle(b: &[u8], w: usize) -> Vec<u8> {
    let n = b.len();
    let (full, extra) = (n / w, n % w);
    let start = |r: usize| r * full + r.min(extra);
    let mut out = vec![];
    for c in 0..full + (extra > 0) as usize {
        for r in 0..w {
            let len = full + (r < extra) as usize;
            if c < len {
                out.push(b[start(r) + c]);
            }
        }
    }
    out
}
pub fn predict(out: &[u8], pos: usize, k: usize, stride: usize, width: usize, order: u32) -> u8 {
    // pos: start of the current element; k: byte within it
    let el = |n: usize| -> u32 {
        let p = pos - stride * n;
        out[p..p + width].iter().fold(0u32, |a, &b| (a << 8) | b as u32)
    };
    let v = match order {
        0 => el(1),
        1 => el(1).wrapping_mul(2).wrapping_sub(el(2)),
        _ => el(1).wrapping_mul(3).wrapping_sub(el(2).wrapping_mul(3)).wrapping_add(el(3)),
    };
    (v >> (8 * (width - 1 - k))) as u8
}
fn blob(rng: &mut Rng, n: usize) -> Vec<u8> {
    let style = rng.below(4);
    (0..n)
        .map(|i| match style {
            0 => rng.next() as u8,
            1 => *rng.pick(b"abczAZ09.,\x00\x01\x02\x0f\x10\xf0\xf1\xfe\xff @"),
            2 => (i * 3) as u8,
            _ => (rng.below(4) * 85) as u8,
        })
        .collect()
}

/// (encoded bytes, profile bytes)
pub fn generate(rng: &mut Rng, max_body: usize) -> (Vec<u8>, Vec<u8>) {
    let mut cmds = vec![];
    let mut data = vec![];
    let mut out: Vec<u8> = vec![];
    if rng.chance(1, 12) {
        let n = rng.below(129) as usize;
        let hdr = blob(rng, n);
        let mut d = vec![];
        let mut o: Vec<u8> = vec![];
        for (i, b) in hdr.iter().enumerate() {
            o.push(b.wrapping_add(header_pred(i, n as u32, &o)));
            d.push(*b);
        }
        let mut enc = vec![];
        varint_r(n as u64, rng, &mut enc);
        enc.push(0);
        enc.extend(d);
        return (enc, o);
    }
    // the body first, then the header (which contains the total size)
    let mut hdr_data = vec![0u8; 128];
    for b in hdr_data.iter_mut() {
        if rng.chance(1, 4) {
            *b = rng.next() as u8;
        }
    }
    if rng.chance(1, 2) {
        let s: &[u8] = rng.pick(&[&b"APPL"[..], b"MSFT", b"SGI ", b"SUNW", b"SG", b"SU", b"SX"]);
        hdr_data[40] = s[0];
        if s[0] == b'S' {
            hdr_data[41] = s[1];
        }
    }
    out.resize(128, 0);
    // tags: chosen first as positions, sizes are patched to fit via explicit values
    let want_tags = rng.chance(4, 5);
    let ntags_listed = if want_tags { rng.below(7) as usize } else { 0 };
    struct T {
        code: u8,
        name: Vec<u8>,
        off: bool,
        size: bool,
        reps: usize,
    }
    let mut tags = vec![];
    for _ in 0..ntags_listed {
        let code = *rng.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
        let name = match code {
            1 => blob(rng, 4),
            2 => b"rTRC".to_vec(),
            3 => b"rXYZ".to_vec(),
            c => TAGS[c as usize - 4].to_vec(),
        };
        let reps = if code == 2 || code == 3 { 3 } else { 1 };
        tags.push(T { code, name, off: rng.chance(1, 3), size: rng.chance(1, 3), reps });
    }
    let real: usize = tags.iter().map(|t| t.reps).sum();
    // the declared number of tags may differ from the listed one as long as it fits
    let declared = if rng.chance(1, 6) { real as u64 + rng.below(3) } else { real as u64 };
    let tag_len = if want_tags { 4 + 12 * real } else { 0 };
    // body commands
    let mut body_cmds: Vec<u8> = vec![];
    let mut body_data: Vec<u8> = vec![];
    let mut body: Vec<u8> = vec![0; 128 + tag_len];
    // predicted runs may look back into the tag list and header: use a first pass with the real bytes
    // by generating the run commands lazily as closures over `body`.
    enum C {
        Copy(Vec<u8>),
        Shuf(usize, Vec<u8>),
        Pred { width: usize, order: u32, stride: Option<usize>, d: Vec<u8> },
        Xyz(Vec<u8>),
        Type(usize),
    }
    let mut cs = vec![];
    let mut len = body.len();
    while len < 128 + tag_len + max_body && !rng.chance(1, 8) {
        let c = match rng.below(7) {
            0 => {
                let n = rng.below(40) as usize;
                C::Copy(blob(rng, n))
            }
            1 => {
                let n = rng.below(23) as usize;
                C::Shuf(*rng.pick(&[2usize, 4]), blob(rng, n))
            }
            2..=4 => {
                let width = *rng.pick(&[1usize, 2, 4]);
                let stride = if rng.chance(1, 2) { None } else { Some(width + rng.below(13) as usize) };
                let n = rng.below(31) as usize;
                C::Pred { width, order: rng.below(3) as u32, stride, d: blob(rng, n) }
            }
            5 => C::Xyz(blob(rng, 12)),
            _ => C::Type(rng.below(8) as usize),
        };
        len += match &c {
            C::Copy(d) | C::Shuf(_, d) | C::Pred { d, .. } => d.len(),
            C::Xyz(_) => 20,
            C::Type(_) => 8,
        };
        cs.push(c);
    }
    let mut declared = declared;
    if len <= 128 {
        cs.push(C::Type(0));
        len += 8;
    }
    if want_tags {
        while declared > ((len - 128) / 12) as u64 {
            if declared > real as u64 {
                declared -= 1;
            } else {
                cs.push(C::Type(rng.below(8) as usize));
                len += 8;
            }
        }
    }
    let size = len as u32;
    out.clear();
    for (i, b) in hdr_data.iter().enumerate() {
        let v = b.wrapping_add(header_pred(i, size, &out));
        out.push(v);
    }
    data.extend(&hdr_data);
    if want_tags {
        varint_r(declared + 1, rng, &mut cmds);
        out.extend((declared as u32).to_be_bytes());
        let mut pstart = declared as u32 * 12 + 128;
        let mut psize = 0u32;
        for t in &tags {
            let fixed = [&b"rXYZ"[..], b"gXYZ", b"bXYZ", b"kXYZ", b"wtpt", b"bkpt", b"lumi"]
                .contains(&t.name.as_slice());
            let dsize = if fixed { 20 } else { psize };
            // use explicit values when the implied ones would leave the profile
            let mut off = t.off;
            let mut sz = t.size;
            if pstart + psize > size {
                off = true;
            }
            let start = if off { rng.below(size as u64 + 1) as u32 } else { pstart + psize };
            if start + dsize > size {
                sz = true;
            }
            let tsize = if sz { rng.below((size - start) as u64 + 1) as u32 } else { dsize };
            cmds.push(t.code | if off { 64 } else { 0 } | if sz { 128 } else { 0 });
            if t.code == 1 {
                data.extend(&t.name);
            }
            if off {
                varint_r(start as u64, rng, &mut cmds);
            }
            if sz {
                varint_r(tsize as u64, rng, &mut cmds);
            }
            let ent = |n: &[u8], s: u32, out: &mut Vec<u8>| {
                out.extend(n);
                out.extend(s.to_be_bytes());
                out.extend(tsize.to_be_bytes());
            };
            ent(&t.name, start, &mut out);
            if t.code == 2 {
                ent(b"gTRC", start, &mut out);
                ent(b"bTRC", start, &mut out);
            } else if t.code == 3 {
                ent(b"gXYZ", start + tsize, &mut out);
                ent(b"bXYZ", start + 2 * tsize, &mut out);
            }
            pstart = start;
            psize = tsize;
        }
        if !cs.is_empty() || rng.chance(1, 2) {
            cmds.push(rng.below(4) as u8 * 64);
        }
    } else {
        varint_r(0, rng, &mut cmds);
    }
    for c in &cs {
        match c {
            C::Copy(d) => {
                body_cmds.push(1);
                varint_r(d.len() as u64, rng, &mut body_cmds);
                body_data.extend(d);
                out.extend(d);
            }
            C::Shuf(w, d) => {
                body_cmds.push(if *w == 2 { 2 } else { 3 });
                varint_r(d.len() as u64, rng, &mut body_cmds);
                body_data.extend(d);
                out.extend(shuffle(d, *w));
            }
            C::Pred { width, order, stride, d } => {
                let mut st = *stride;
                if st.unwrap_or(*width) * 4 >= out.len() {
                    st = None;
                }
                let f = (*width as u8 - 1) | (*order as u8) << 2 | if st.is_some() { 16 } else { 0 };
                body_cmds.push(4);
                body_cmds.push(f);
                if let Some(s) = st {
                    varint_r(s as u64, rng, &mut body_cmds);
                }
                varint_r(d.len() as u64, rng, &mut body_cmds);
                body_data.extend(d);
                let sh = if *width == 1 { d.clone() } else { shuffle(d, *width) };
                let s = st.unwrap_or(*width);
                for i in (0..sh.len()).step_by(*width) {
                    let pos = out.len();
                    for k in 0..(*width).min(sh.len() - i) {
                        let p = predict(&out, pos, k, s, *width, *order);
                        out.push(sh[i + k].wrapping_add(p));
                    }
                }
            }
            C::Xyz(d) => {
                body_cmds.push(10);
                body_data.extend(d);
                out.extend(b"XYZ \0\0\0\0");
                out.extend(d);
            }
            C::Type(k) => {
                body_cmds.push(16 + *k as u8);
                out.extend(TYPES[*k]);
                out.extend([0u8; 4]);
            }
        }
    }
    body.clear();
    assert_eq!(out.len(), size as usize);
    cmds.extend(body_cmds);
    data.extend(body_data);
    let mut enc = vec![];
    varint_r(size as u64, rng, &mut enc);
    varint_r(cmds.len() as u64, rng, &mut enc);
    enc.extend(cmds);
    enc.extend(data);
    (enc, out)
}
