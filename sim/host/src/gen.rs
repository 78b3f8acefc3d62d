//! Seeded generators: block data, images, faults.
use crate::crn;
use crate::fmt::{self, Class};
use crate::plan::*;
use crate::rng::Rng;

pub struct Tex {
    pub f: u32,
    pub name: String,
    pub data: Vec<u8>,
}

pub struct World {
    /// payload of real textures of fixed-rate formats
    pub fixed: Vec<Tex>,
    pub crn: Vec<Tex>,
}

fn le(d: &[u8], o: usize, n: usize) -> usize {
    d.get(o..o + n).map_or(0, |b| b.iter().rev().fold(0, |a, &x| a << 8 | x as usize))
}

impl World {
    pub fn load(dir: &str) -> World {
        let mut w = World { fixed: vec![], crn: vec![] };
        let mut names: Vec<_> = std::fs::read_dir(dir)
            .map(|d| d.filter_map(|e| Some(e.ok()?.file_name().to_string_lossy().to_string())).collect())
            .unwrap_or_default();
        names.sort();
        for n in names {
            let Ok(d) = std::fs::read(format!("{}/{}", dir, n)) else { continue };
            if n.ends_with(".crn") {
                let f = if n.starts_with("UNITY") { 41 } else { 40 };
                w.crn.push(Tex { f, name: n, data: d });
                continue;
            }
            let stem = n.split('.').next().unwrap_or("").to_string();
            let fs: &[u32] = match stem.as_str() {
                "ATC_RGB" => &[0],
                "ATC_RGBA_Explicit" | "ATC_RGBA_Interpolated" => &[1],
                "BC1" => &[2],
                "BC1A" => &[3],
                "BC2" | "DXT2" => &[4],
                "BC3" | "DXT4" => &[5],
                "BC4" => &[6],
                "BC5" => &[7],
                "BC6H" => &[8, 9, 36],
                "BC7" => &[10],
                "ETC1_RGB" => &[11],
                "ETC2_RGB" => &[12],
                "ETC2_RGB_A1" => &[13],
                "ETC2_RGBA" => &[14],
                "EAC_R11" => &[15, 16],
                "EAC_RG11" => &[17, 18],
                "PVRTCI_2bpp_RGB" | "PVRTCI_2bpp_RGBA" => &[19, 37],
                "PVRTCI_4bpp_RGB" | "PVRTCI_4bpp_RGBA" => &[20, 37],
                s if s.starts_with("ASTC_") => {
                    let p: Vec<usize> = s[5..].split('x').filter_map(|x| x.parse().ok()).collect();
                    match fmt::ASTC_SIZES.iter().position(|z| p.len() == 2 && *z == (p[0], p[1])) {
                        Some(i) => &[21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34][i..i + 1],
                        None => continue,
                    }
                }
                _ => continue,
            };
            let data = if n.ends_with(".ktx2") {
                let (o, l) = (le(&d, 80, 8), le(&d, 88, 8));
                match d.get(o..o.saturating_add(l)) {
                    Some(x) => x.to_vec(),
                    None => continue,
                }
            } else {
                d.get(128..).unwrap_or_default().to_vec()
            };
            for &f in fs {
                w.fixed.push(Tex { f, name: n.clone(), data: data.clone() });
            }
        }
        w
    }
}

fn set_bits(b: &mut [u8], pos: usize, n: usize, v: u64) {
    for i in 0..n {
        let p = pos + i;
        let m = 1u8 << (p % 8);
        if v >> i & 1 == 1 {
            b[p / 8] |= m;
        } else {
            b[p / 8] &= !m;
        }
    }
}

/// a block mode of ASTC whose weight grid fits the footprint, if the dice find one
fn astc(rng: &mut Rng, bw: usize, bh: usize) -> Vec<u8> {
    let mut b = rng.bytes(16);
    if rng.chance(8) {
        // void extent
        set_bits(&mut b, 0, 9, 0x1fc);
        set_bits(&mut b, 9, 1, rng.below(2));
        set_bits(&mut b, 10, 2, 3);
        if rng.chance(50) {
            b[2..8].fill(255);
            set_bits(&mut b, 10, 6, 63);
        }
        return b;
    }
    for _ in 0..200 {
        let m = rng.below(2048) as usize;
        let r0;
        let (w, h, dual, high);
        if m & 3 != 0 {
            r0 = (m >> 4 & 1) | (m & 3) << 1;
            let a = m >> 5 & 3;
            let bb = m >> 7 & 3;
            dual = m >> 10 & 1;
            high = m >> 9 & 1;
            (w, h) = match m >> 2 & 3 {
                0 => (bb + 4, a + 2),
                1 => (bb + 8, a + 2),
                2 => (a + 2, bb + 8),
                _ if bb & 2 == 0 => (a + 2, (bb & 1) + 6),
                _ => ((bb & 1) + 2, a + 2),
            };
        } else {
            r0 = (m >> 4 & 1) | (m >> 2 & 3) << 1;
            if r0 < 2 || m & 0x1ff == 0x1fc {
                continue;
            }
            let a = m >> 5 & 3;
            match m >> 7 & 3 {
                0 => (w, h) = (12, a + 2),
                1 => (w, h) = (a + 2, 12),
                2 => (w, h) = (a + 6, (m >> 9 & 3) + 6),
                _ if a == 0 => (w, h) = (6, 10),
                _ if a == 1 => (w, h) = (10, 6),
                _ => continue,
            }
            if m >> 7 & 3 == 2 {
                dual = 0;
                high = 0;
            } else {
                dual = m >> 10 & 1;
                high = m >> 9 & 1;
            }
        }
        if r0 < 2 || w > bw || h > bh {
            continue;
        }
        let n = w * h * (1 + dual);
        let range = [2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32][(r0 - 2) + 6 * high];
        let bits = match range {
            2 => n,
            3 => (n * 8).div_ceil(5),
            4 => n * 2,
            5 => (n * 7).div_ceil(3),
            6 => n + (n * 8).div_ceil(5),
            8 => n * 3,
            10 => n + (n * 7).div_ceil(3),
            12 => n * 2 + (n * 8).div_ceil(5),
            16 => n * 4,
            20 => n * 2 + (n * 7).div_ceil(3),
            24 => n * 3 + (n * 8).div_ceil(5),
            _ => n * 5,
        };
        if n > 64 || !(24..=96).contains(&bits) {
            continue;
        }
        set_bits(&mut b, 0, 11, m as u64);
        let parts = if dual == 1 { rng.below(3) } else { rng.pick(&[0, 0, 0, 1, 1, 2, 3]) };
        set_bits(&mut b, 11, 2, parts);
        if parts == 0 {
            set_bits(&mut b, 13, 4, rng.below(16));
        } else if rng.chance(50) {
            // one endpoint mode for all partitions
            set_bits(&mut b, 23, 2, 0);
            set_bits(&mut b, 25, 4, rng.below(16));
        }
        return b;
    }
    b
}

fn structured(f: u32, bw: usize, bh: usize, rng: &mut Rng) -> Vec<u8> {
    let n = fmt::block_bytes(f);
    let mut b = rng.bytes(n);
    match f {
        21..=35 | 80 => return astc(rng, bw, bh),
        10 | 70 => {
            let m = rng.below(9) as usize;
            if m == 8 {
                b[0] = 0;
            } else {
                set_bits(&mut b, 0, m + 1, 1 << m);
            }
        }
        8 | 9 | 36 | 68 | 69 | 81 => {
            let m = rng.pick(&[0u64, 1, 2, 6, 10, 14, 18, 22, 26, 30, 3, 7, 11, 15, 19, 23, 27, 31]);
            set_bits(&mut b, 0, if m < 2 { 2 } else { 5 }, m);
        }
        2..=5 | 62..=65 => {
            let o = n - 8;
            match rng.below(3) {
                0 => {
                    b[o + 2] = b[o];
                    b[o + 3] = b[o + 1];
                }
                1 => {
                    b[o + 1] |= 0x80;
                    b[o + 3] &= 0x7f;
                }
                _ => {
                    b[o + 1] &= 0x7f;
                    b[o + 3] |= 0x80;
                }
            }
        }
        11..=14 | 71..=74 => {
            let o = n - 8;
            // differential with a chosen overflow: individual channels out of 0..31 select T, H, planar
            b[o + 3] |= 2;
            if rng.chance(50) {
                let at = rng.idx(3);
                for c in 0..3 {
                    let d = rng.below(8) as u8;
                    let s = if d < 4 { d as i32 } else { d as i32 - 8 };
                    let base = if c == at && s != 0 {
                        if s > 0 { 31 - rng.below(s as u64) as i32 } else { rng.below(-s as u64) as i32 }
                    } else {
                        rng.range(4, 27) as i32
                    };
                    b[o + c] = (base as u8) << 3 | d;
                }
            }
            if rng.chance(25) {
                b[o + 3] &= !2;
            }
        }
        0 | 1 | 60 | 61 => {
            let o = n - 8;
            b[o + 1] = b[o + 1] & 0x7f | (rng.below(2) as u8) << 7;
        }
        _ => {}
    }
    b
}

pub fn block(f: u32, bw: usize, bh: usize, rng: &mut Rng, w: &World) -> Vec<u8> {
    let n = fmt::block_bytes(f);
    match rng.below(20) {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => vec![rng.u64() as u8; n],
        3 => {
            let mut b = vec![0; n];
            for _ in 0..rng.range(1, 6) {
                b[rng.idx(n)] |= 1 << rng.below(8);
            }
            b
        }
        4..=6 => {
            let c: Vec<&Tex> = w.fixed.iter().filter(|t| t.f == f || t.f + 60 == f).collect();
            let any = if c.is_empty() { w.fixed.iter().collect() } else { c };
            if any.is_empty() {
                return rng.bytes(n);
            }
            let t = rng.pick(&any);
            if t.data.len() < n {
                return rng.bytes(n);
            }
            let o = rng.idx(t.data.len() / n) * n;
            t.data[o..o + n].to_vec()
        }
        7..=10 => rng.bytes(n),
        _ => structured(f, bw, bh, rng),
    }
}

pub fn blocks(f: u32, bw: usize, bh: usize, n: usize, rng: &mut Rng, w: &World) -> Vec<u8> {
    let bb = fmt::block_bytes(f);
    let mut v = Vec::with_capacity(n * bb);
    match rng.below(12) {
        // a stretch of a real texture
        0 => {
            let c: Vec<&Tex> = w.fixed.iter().filter(|t| t.f == f && t.data.len() >= n * bb).collect();
            if !c.is_empty() {
                let t = rng.pick(&c);
                let o = rng.idx((t.data.len() - n * bb) / bb + 1) * bb;
                return t.data[o..o + n * bb].to_vec();
            }
        }
        // few distinct blocks
        1 | 2 => {
            let k: Vec<Vec<u8>> = (0..rng.range(1, 4)).map(|_| block(f, bw, bh, rng, w)).collect();
            while v.len() < n * bb {
                v.extend_from_slice(&k[rng.idx(k.len())]);
            }
            return v;
        }
        // neighbours that differ in a bit
        3 => {
            let mut b = block(f, bw, bh, rng, w);
            while v.len() < n * bb {
                v.extend_from_slice(&b);
                if rng.chance(60) {
                    b[rng.idx(bb)] ^= 1 << rng.below(8);
                }
            }
            return v;
        }
        _ => {}
    }
    while v.len() < n * bb {
        v.extend_from_slice(&block(f, bw, bh, rng, w));
    }
    v
}

/// a whole-image decoder of a fixed-rate format (with footprint or mode)
pub fn fixed_fn(rng: &mut Rng, legal: bool) -> (u32, usize, usize) {
    // families first: 14 ASTC sizes would drown the others
    let f = match rng.below(10) {
        0 | 1 => rng.range(21, 34) as u32,
        2 => 35,
        3 => 36,
        _ => rng.idx(19) as u32,
    };
    let (bw, bh) = match f {
        35 if legal => (rng.range(4, 12), rng.range(4, 12)),
        35 => match rng.below(6) {
            0 => (rng.range(0, 80), rng.range(0, 80)),
            1 => (rng.pick(&[0, 1, 2, 3, 12, 13, 72, 144, 255, 1 << 31, 1 << 32, 1 << 62, usize::MAX]), rng.range(0, 13)),
            2 => (rng.range(0, 13), rng.pick(&[0, 1, 2, 3, 12, 13, 72, 144, 255, 1 << 31, 1 << 32, 1 << 63, usize::MAX])),
            3 => (rng.range(2, 5), rng.range(2, 72)),
            _ => (rng.range(2, 12), rng.range(2, 12)),
        },
        36 => (rng.idx(2), 0),
        _ => (0, 0),
    };
    (f, bw, bh)
}

pub fn pvrtc_fn(rng: &mut Rng) -> (u32, usize, usize) {
    match rng.below(4) {
        0 => (37, rng.idx(2), 0),
        1 => (19, 0, 0),
        _ => (20, 0, 0),
    }
}

/// any format of fixed rate, PVRTC included
pub fn rate_fn(rng: &mut Rng, legal: bool) -> (u32, usize, usize) {
    if rng.chance(18) {
        pvrtc_fn(rng)
    } else {
        fixed_fn(rng, legal)
    }
}

/// a small image; PVRTC gets power-of-two block counts
pub fn dims(rng: &mut Rng, f: u32, bw: usize, bh: usize) -> (usize, usize) {
    let (x, y) = fmt::block_dims(f, bw, bh).unwrap_or((4, 4));
    if fmt::class(f) == Class::Pvrtc {
        let cut = |rng: &mut Rng, n: usize, b: usize| {
            let full = n * b;
            if rng.chance(35) {
                full - rng.idx(b)
            } else {
                full
            }
        };
        let (mut a, mut b) = (1usize << rng.idx(4), 1usize << rng.idx(4));
        if rng.chance(8) {
            a = 1 << rng.idx(6);
            b = 1 << rng.idx(6);
        }
        if rng.below(150) == 0 {
            a = 1 << rng.range(6, 10);
            b = 1 << rng.idx(3);
            if rng.chance(50) {
                (a, b) = (b, a);
            }
        }
        if rng.below(1500) == 0 {
            (a, b) = rng.pick(&[(1 << 14, 1), (1, 1 << 14), (1 << 13, 2), (64, 64), (128, 32)]);
        }
        return (cut(rng, a, x), cut(rng, b, y));
    }
    if rng.below(120) == 0 {
        // across the limits of narrow counters
        let long = match rng.below(12) {
            0 | 1 => rng.range(4090, 4101),
            2 if rng.chance(20) => (1 << 17) + rng.idx(40),
            2 => rng.range(65530, 65542),
            3 => 256 * x.max(y) + rng.range(1, 40),
            4 | 5 => rng.range(1020, 1031),
            6 | 7 => return (rng.range(90, 260), rng.range(90, 260)),
            _ => rng.range(253, 259) * if rng.chance(50) { x } else { y } - rng.idx(4),
        };
        let short = if long > 60000 { rng.range(1, 2) } else { rng.range(1, 2 * x.max(y)) };
        return if rng.chance(50) { (long, short) } else { (short, long) };
    }
    let one = |rng: &mut Rng, b: usize| match rng.below(8) {
        0 => 1,
        1 => b * rng.range(1, 4),
        2 => b * rng.range(1, 4) + 1,
        3 => (b * rng.range(1, 4)).saturating_sub(1).max(1),
        4 => rng.range(1, 50),
        _ => rng.range(1, 20),
    };
    match rng.below(14) {
        0 => (rng.range(1, 300), 1 + rng.idx(3)),
        1 => (1 + rng.idx(3), rng.range(1, 300)),
        2 => (rng.range(20, 90), rng.range(20, 90)),
        _ => (one(rng, x), one(rng, y)),
    }
}

pub fn fixed_obj(f: u32, bw: usize, bh: usize, w: usize, h: usize, rng: &mut Rng, world: &World) -> Obj {
    let (gx, gy) = fmt::grid(f, w, h, bw, bh).unwrap_or((1, 1));
    let n = (gx * gy).min(70000);
    Obj::new(blocks(f, bw, bh, n, rng, world), &format!("{} {}x{}", fmt::name(f), w, h))
}

/// a container and its decoder
pub fn crn_obj(rng: &mut Rng, world: &World, real: u64, bad: u64) -> (u32, Obj) {
    if rng.chance(real) && !world.crn.is_empty() {
        let t = &world.crn[rng.idx(world.crn.len())];
        return (t.f, Obj::new(t.data.clone(), &t.name));
    }
    let unity = rng.chance(55);
    let s = crn::spec(rng, unity);
    let bad = if rng.chance(bad) { 35 } else { 0 };
    let d = crn::container(rng, &s, bad);
    let f = if unity { 41 } else { 40 };
    let o = Obj::new(
        d,
        &format!(
            "generated {} format {} {}x{} levels {} faces {}{}",
            fmt::name(f), s.format, s.w, s.h, s.levels, s.faces, if bad > 0 { " damaged code tables" } else { "" }
        ),
    );
    (f, o)
}

pub fn call(f: u32, obj: usize, w: usize, h: usize, bw: usize, bh: usize, img: usize, fill: u64) -> Call {
    Call { f, obj, off: 0, len: ALL, w, h, bw, bh, slot: 0, img, fill: Some(fill), times: 1 }
}

pub fn fill(rng: &mut Rng) -> u64 {
    rng.u64() >> 2
}

/// storage fault somewhere in 0..n (n > 0)
pub fn fault(rng: &mut Rng, n: usize, unit: usize, others: usize) -> Fault {
    let n = n.max(1);
    let at = |rng: &mut Rng| rng.idx(n);
    let seclen = |rng: &mut Rng| match rng.below(4) {
        0 => unit,
        1 => rng.range(1, 8),
        2 => unit * rng.range(1, 4),
        _ => 512,
    };
    match rng.below(16) {
        0..=4 => Fault::BitFlip { off: at(rng), bit: rng.below(8) as u8 },
        5..=7 => {
            let val = rng.pick(&[0, 1, 0x7f, 0x80, 0xfe, 0xff, 256]);
            Fault::Byte { off: at(rng), val: if val == 256 { rng.u64() as u8 } else { val as u8 } }
        }
        8 | 9 => {
            let l = seclen(rng);
            let k = rng.below(4);
            Fault::Sector { off: at(rng) / l * l, len: l, kind: if k > 1 { rng.u64() >> 8 | 2 } else { k } }
        }
        10 => Fault::Torn { off: at(rng), kind: if rng.chance(50) { 0 } else { rng.u64() >> 8 | 2 } },
        11 if others > 1 => Fault::Stale { off: at(rng) / unit * unit, len: seclen(rng), from: rng.idx(others) },
        12 => {
            let l = seclen(rng);
            Fault::Misdirect { src: at(rng) / l * l, dst: at(rng) / l * l, len: l }
        }
        13 => {
            let l = seclen(rng);
            Fault::Swap { a: at(rng) / l * l, b: at(rng) / l * l, len: l }
        }
        14 => Fault::Truncate {
            len: match rng.below(4) {
                0 => at(rng),
                1 => n - 1,
                2 => n.saturating_sub(rng.range(1, 2 * unit)),
                _ => at(rng) / unit * unit,
            },
        },
        15 => Fault::Extend { len: rng.range(1, 64), kind: rng.below(3) },
        _ => Fault::BitFlip { off: at(rng), bit: rng.below(8) as u8 },
    }
}

/// fault that concentrates on the parts of a container that steer decoding
pub fn crn_fault(rng: &mut Rng, d: &[u8], others: usize) -> Fault {
    let n = d.len();
    let (_, _, levels, _, _, _) = crn::head(d);
    match rng.below(20) {
        0..=6 => {
            let (off, len) = rng.pick(&crn::FIELDS[..27 + levels.clamp(1, 5)]);
            let cur = crn::field(d, off, len) as u64;
            let max = if len >= 4 { u32::MAX as u64 } else { (1 << (8 * len)) - 1 };
            let val = match rng.below(12) {
                0 => 0,
                1 => 1,
                2 => max,
                3 => max >> 1,
                4 => cur + 1,
                5 => cur.wrapping_sub(1),
                6 => n as u64,
                7 => (n as u64).wrapping_sub(rng.below(5)),
                8 => cur ^ 1 << rng.below(8 * len as u64),
                9 => cur / 2,
                10 => cur * 2,
                _ => rng.u64(),
            } & max;
            Fault::Field { off, len, val }
        }
        7..=9 => {
            // format, levels, faces, palette counts
            let (off, max) = rng.pick(&[(16usize, 17u64), (17, 7), (18, 16), (39, 300), (47, 300), (55, 300), (63, 300)]);
            let len = if off < 20 { 1 } else { 2 };
            Fault::Field { off, len, val: rng.below(max + 1) }
        }
        10..=13 => {
            // inside tables and palettes
            let (o, s) = rng.pick(&[(67usize, (65usize, 2usize)), (33, (36, 3)), (41, (44, 3)), (49, (52, 3)), (57, (60, 3))]);
            let off = crn::field(d, o, 3);
            let size = crn::field(d, s.0, s.1);
            let at = off + if rng.chance(60) { rng.idx(24.min(size.max(1))) } else { rng.idx(size.max(1)) };
            if rng.chance(60) {
                Fault::BitFlip { off: at, bit: rng.below(8) as u8 }
            } else {
                Fault::Byte { off: at, val: rng.pick(&[0, 255, rng.clone().u64() as u8]) }
            }
        }
        14 => {
            // two fields that belong together
            let (a, b) = rng.pick(&[(12usize, 14usize), (39, 47), (55, 63)]);
            let v = rng.pick(&[0u64, 1, 2, 3, 255, 256, 4096, 65535]);
            let _ = b;
            Fault::Field { off: a, len: 2, val: v }
        }
        15 => {
            // one section on top of another
            let p = [33usize, 41, 49, 57, 67];
            Fault::Misdirect { src: rng.pick(&p), dst: rng.pick(&p), len: rng.pick(&[3, 6, 8]) }
        }
        _ => fault(rng, n, 16, others),
    }
}

/// a number that some arithmetic does not like
pub fn odd_size(rng: &mut Rng) -> usize {
    match rng.below(12) {
        0 => 0,
        1 => rng.range(1, 4),
        2 => rng.range(1, 40),
        3 => 1 << rng.idx(64),
        4 => (1usize << rng.idx(64)).wrapping_sub(1),
        5 => (1usize << rng.idx(63)) + 1,
        6 => usize::MAX - rng.idx(20),
        7 => usize::MAX / rng.range(1, 300),
        8 => (usize::MAX / rng.range(1, 300)).wrapping_add(rng.range(1, 4)),
        9 => (1usize << 32) / rng.range(1, 20) + rng.idx(5),
        10 => rng.u64() as usize >> rng.idx(60),
        _ => rng.range(1, 600),
    }
}

pub fn near(rng: &mut Rng, x: usize) -> usize {
    match rng.below(5) {
        0 => x,
        1 => x.saturating_sub(1),
        2 => x + 1,
        3 => x.saturating_sub(rng.range(1, 20)),
        _ => x + rng.range(1, 20),
    }
}

