//! BC1 to BC5 and ATC.
use super::*;

fn rgb565(c: u32) -> [i32; 3] {
    let (r, g, b) = (c >> 11 & 31, c >> 5 & 63, c & 31);
    [(r << 3 | r >> 2) as i32, (g << 2 | g >> 4) as i32, (b << 3 | b >> 2) as i32]
}
fn rgb555(c: u32) -> [i32; 3] {
    [c >> 10 & 31, c >> 5 & 31, c & 31].map(|x| (x << 3 | x >> 2) as i32)
}
fn word(d: &[u8], at: usize) -> u32 {
    d[at] as u32 | (d[at + 1] as u32) << 8
}
fn mix(a: [i32; 3], b: [i32; 3], p: i32, q: i32) -> Texel {
    let m = |i: usize| ratio((a[i] * p + b[i] * q) as i64, (p + q) as i64);
    [m(0), m(1), m(2), at(255)]
}
fn hull(a: Texel, b: Texel) -> Texel {
    [0, 1, 2, 3].map(|i| (a[i].0.min(b[i].0), a[i].1.max(b[i].1)))
}
fn index(d: &[u8], i: usize) -> usize {
    (d[4 + i / 4] >> (2 * (i % 4)) & 3) as usize
}

pub fn bc1(d: &[u8], out: &mut [Texel], alpha: bool, four: bool) {
    let (c0, c1) = (word(d, 0), word(d, 2));
    let (a, b) = (rgb565(c0), rgb565(c1));
    let ends = [px(a[0], a[1], a[2], 255), px(b[0], b[1], b[2], 255)];
    let p = if four || c0 > c1 {
        [ends[0], ends[1], mix(a, b, 2, 1), mix(a, b, 1, 2)]
    } else {
        [ends[0], ends[1], mix(a, b, 1, 1), px(0, 0, 0, if alpha { 0 } else { 255 })]
    };
    for (i, o) in out.iter_mut().enumerate() {
        *o = p[index(d, i)];
    }
}

pub fn atc(d: &[u8], out: &mut [Texel]) {
    let (c0, c1) = (word(d, 0), word(d, 2));
    let (a, b) = (rgb555(c0), rgb565(c1));
    let ends = [px(a[0], a[1], a[2], 255), px(b[0], b[1], b[2], 255)];
    let p = if c0 & 0x8000 == 0 {
        // thirds or eighths, the decoders of the vendor differ
        [ends[0], hull(mix(a, b, 2, 1), mix(a, b, 5, 3)), hull(mix(a, b, 1, 2), mix(a, b, 3, 5)), ends[1]]
    } else {
        let s = |i: usize| ratio((4 * a[i] - b[i]) as i64, 4);
        [px(0, 0, 0, 255), [s(0), s(1), s(2), at(255)], ends[0], ends[1]]
    };
    for (i, o) in out.iter_mut().enumerate() {
        *o = p[index(d, i)];
    }
}

pub fn bc2_alpha(d: &[u8], out: &mut [Texel]) {
    for (i, o) in out.iter_mut().enumerate() {
        o[3] = at((d[i / 2] >> (4 * (i % 2)) & 15) as i32 * 17);
    }
}

/// the eight values of BC4 and of the alpha of BC3
pub fn ramp(d: &[u8], out: &mut [Texel], ch: usize) {
    let (a, b) = (d[0] as i64, d[1] as i64);
    let mut v = 0u64;
    for i in (2..8).rev() {
        v = v << 8 | d[i] as u64;
    }
    for (i, o) in out.iter_mut().enumerate() {
        let k = (v >> (3 * i) & 7) as i64;
        o[ch] = match k {
            0 => at(a as i32),
            1 => at(b as i32),
            _ if a > b => ratio((8 - k) * a + (k - 1) * b, 7),
            6 => at(0),
            7 => at(255),
            _ => ratio((6 - k) * a + (k - 1) * b, 5),
        };
    }
}
