//! Small executable reference model of the block formats, written from the format specifications.
//! A texel is an interval for each of R, G, B, A: a point where the specification fixes the value, wider
//! where it leaves the rounding open, 0..=255 where it defines nothing.
mod astc;
mod bc67;
mod bcn;
mod crunch;
mod etc;
mod pvrtc;

use crate::fmt;

pub type Texel = [(u8, u8); 4];
pub const ANY: (u8, u8) = (0, 255);
/// texels nothing is said about
pub const FREE: Texel = [ANY; 4];

pub fn at(v: i32) -> (u8, u8) {
    let v = v.clamp(0, 255) as u8;
    (v, v)
}
pub fn px(r: i32, g: i32, b: i32, a: i32) -> Texel {
    [at(r), at(g), at(b), at(a)]
}
/// a value n/d that may be rounded either way
pub fn ratio(n: i64, d: i64) -> (u8, u8) {
    let lo = n.div_euclid(d).clamp(0, 255);
    let hi = (n + d - 1).div_euclid(d).clamp(0, 255);
    (lo as u8, hi as u8)
}
/// a half float that stands for 0..1
pub fn half(h: u16) -> (u8, u8) {
    let (s, e, m) = (h >> 15, (h >> 10 & 31) as i32, (h & 1023) as f64);
    let x = match e {
        0 => m * (2f64).powi(-24),
        31 if m == 0.0 => f64::INFINITY,
        31 => return ANY,
        _ => (1024.0 + m) * (2f64).powi(e - 25),
    };
    let x = if s == 1 { 0.0 } else { (x * 255.0).min(255.0) };
    (x.floor() as u8, x.ceil() as u8)
}
/// the texels of a container of w x h
pub fn container(unity: bool, w: usize, h: usize, d: &[u8]) -> Option<Vec<Texel>> {
    let (cw, ch, ..) = crate::crn::head(d);
    if (cw, ch) != (w, h) {
        return None;
    }
    let (f, blocks) = crunch::blocks(d, unity)?;
    image(f, w, h, 0, 0, &blocks)
}
pub fn bits(v: u128, at: u32, n: u32) -> u32 {
    if n == 0 {
        return 0;
    }
    (v >> at & ((1u128 << n) - 1)) as u32
}

/// the texels of one block; `outside` says that the format defines the texel by more than this block
pub fn block(f: u32, flag: usize, d: &[u8], bw: usize, bh: usize) -> Option<Vec<Texel>> {
    let mut out = vec![px(0, 0, 0, 255); bw * bh];
    let signed = flag & 1 == 1;
    match f {
        0 | 60 => bcn::atc(d, &mut out),
        1 | 61 => {
            bcn::atc(&d[8..], &mut out);
            bcn::ramp(d, &mut out, 3);
        }
        2 | 62 => bcn::bc1(d, &mut out, false, false),
        3 | 63 => bcn::bc1(d, &mut out, true, false),
        4 | 64 => {
            bcn::bc1(&d[8..], &mut out, false, true);
            bcn::bc2_alpha(d, &mut out);
        }
        5 | 65 => {
            bcn::bc1(&d[8..], &mut out, false, true);
            bcn::ramp(d, &mut out, 3);
        }
        6 | 66 => bcn::ramp(d, &mut out, 0),
        7 | 67 => {
            bcn::ramp(d, &mut out, 0);
            bcn::ramp(&d[8..], &mut out, 1);
        }
        8 | 68 => bc67::bc6(d, &mut out, true),
        9 | 69 => bc67::bc6(d, &mut out, false),
        36 | 81 => bc67::bc6(d, &mut out, signed),
        10 | 70 => bc67::bc7(d, &mut out),
        11 | 71 => etc::etc1(d, &mut out),
        12 | 72 => etc::etc2(d, &mut out, false),
        13 | 73 => etc::etc2(d, &mut out, true),
        14 | 74 => {
            etc::etc2(&d[8..], &mut out, false);
            etc::alpha(d, &mut out);
        }
        15 | 75 => etc::eac(d, &mut out, 0),
        16 | 76 => etc::eac_signed(d, &mut out, 0),
        17 | 77 => {
            etc::eac(d, &mut out, 0);
            etc::eac(&d[8..], &mut out, 1);
        }
        18 | 78 => {
            etc::eac_signed(d, &mut out, 0);
            etc::eac_signed(&d[8..], &mut out, 1);
        }
        21..=35 | 80 => astc::block(d, bw, bh, &mut out),
        _ => return None,
    }
    Some(out)
}

/// the texels of an image of w x h
pub fn image(f: u32, w: usize, h: usize, bw: usize, bh: usize, d: &[u8]) -> Option<Vec<Texel>> {
    if fmt::class(f) == fmt::Class::Pvrtc {
        let two = f == 19 || f == 37 && bw & 1 == 1;
        return Some(pvrtc::image(d, w, h, two));
    }
    let (tw, th) = fmt::block_dims(f, bw, bh)?;
    let mut out = vec![FREE; w * h];
    let (nx, n) = (w.div_ceil(tw), fmt::block_bytes(f));
    for y in (0..h).step_by(th) {
        for x in (0..w).step_by(tw) {
            let i = (y / th * nx + x / tw) * n;
            let b = block(f, bw, &d[i..i + n], tw, th)?;
            for (v, row) in b.chunks(tw).enumerate().take(h - y) {
                for (u, t) in row.iter().enumerate().take(w - x) {
                    out[(y + v) * w + x + u] = *t;
                }
            }
        }
    }
    Some(out)
}
