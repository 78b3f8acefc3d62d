//! BC6H and BC7.
use super::*;

const SPLIT2: [u16; 64] = [
    0xcccc, 0x8888, 0xeeee, 0xecc8, 0xc880, 0xfeec, 0xfec8, 0xec80, 0xc800, 0xffec, 0xfe80, 0xe800, 0xffe8,
    0xff00, 0xfff0, 0xf000, 0xf710, 0x008e, 0x7100, 0x08ce, 0x008c, 0x7310, 0x3100, 0x8cce, 0x088c, 0x3110,
    0x6666, 0x366c, 0x17e8, 0x0ff0, 0x718e, 0x399c, 0xaaaa, 0xf0f0, 0x5a5a, 0x33cc, 0x3c3c, 0x55aa, 0x9696,
    0xa55a, 0x73ce, 0x13c8, 0x324c, 0x3bdc, 0x6996, 0xc33c, 0x9966, 0x0660, 0x0272, 0x04e4, 0x4e40, 0x2720,
    0xc936, 0x936c, 0x39c6, 0x639c, 0x9336, 0x9cc6, 0x817e, 0xe718, 0xccf0, 0x0fcc, 0x7744, 0xee22,
];
const SPLIT3: [u32; 64] = [
    0xaa685050, 0x6a5a5040, 0x5a5a4200, 0x5450a0a8, 0xa5a50000, 0xa0a05050, 0x5555a0a0, 0x5a5a5050, 0xaa550000,
    0xaa555500, 0xaaaa5500, 0x90909090, 0x94949494, 0xa4a4a4a4, 0xa9a59450, 0x2a0a4250, 0xa5945040, 0x0a425054,
    0xa5a5a500, 0x55a0a0a0, 0xa8a85454, 0x6a6a4040, 0xa4a45000, 0x1a1a0500, 0x0050a4a4, 0xaaa59090, 0x14696914,
    0x69691400, 0xa08585a0, 0xaa821414, 0x50a4a450, 0x6a5a0200, 0xa9a58000, 0x5090a0a8, 0xa8a09050, 0x24242424,
    0x00aa5500, 0x24924924, 0x24499224, 0x50a50a50, 0x500aa550, 0xaaaa4444, 0x66660000, 0xa5a0a5a0, 0x50a050a0,
    0x69286928, 0x44aaaa44, 0x66666600, 0xaa444444, 0x54a854a8, 0x95809580, 0x96969600, 0xa85454a8, 0x80959580,
    0xaa141414, 0x96960000, 0xaaaa1414, 0xa05050a0, 0xa0a5a5a0, 0x96000000, 0x40804080, 0xa9a8a9a8, 0xaaaaaa44,
    0x2a4a5254,
];
const FIX2: [usize; 64] = [
    15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 2, 8, 2, 2, 8, 8, 15, 2, 8, 2, 2, 8, 8, 2,
    2, 15, 15, 6, 8, 2, 8, 15, 15, 2, 8, 2, 2, 2, 15, 15, 6, 6, 2, 6, 8, 15, 15, 2, 2, 15, 15, 15, 15, 15, 2, 2, 15,
];
const FIX3: [[usize; 64]; 2] = [
    [
        3, 3, 15, 15, 8, 3, 15, 15, 8, 8, 6, 6, 6, 5, 3, 3, 3, 3, 8, 15, 3, 3, 6, 10, 5, 8, 8, 6, 8, 5, 15, 15, 8, 15,
        3, 5, 6, 10, 8, 15, 15, 3, 15, 5, 15, 15, 15, 15, 3, 15, 5, 5, 5, 8, 5, 10, 5, 10, 8, 13, 15, 12, 3, 3,
    ],
    [
        15, 8, 8, 3, 15, 15, 3, 8, 15, 15, 15, 15, 15, 15, 15, 8, 15, 8, 15, 3, 15, 8, 15, 8, 3, 15, 6, 10, 15, 15, 10,
        8, 15, 3, 15, 10, 10, 8, 9, 10, 6, 15, 8, 15, 3, 6, 6, 8, 15, 3, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 3, 15,
        15, 8,
    ],
];
const W2: [i32; 4] = [0, 21, 43, 64];
const W3: [i32; 8] = [0, 9, 18, 27, 37, 46, 55, 64];
const W4: [i32; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];

fn weight(n: u32, i: u32) -> i32 {
    match n {
        2 => W2[i as usize],
        3 => W3[i as usize],
        _ => W4[i as usize],
    }
}
fn lerp(a: i32, b: i32, w: i32) -> i32 {
    (a * (64 - w) + b * w + 32) >> 6
}

struct Reader(u128, u32);
impl Reader {
    fn take(&mut self, n: u32) -> u32 {
        self.1 += n;
        bits(self.0, self.1 - n, n)
    }
}
fn load(d: &[u8]) -> Reader {
    Reader(u128::from_le_bytes(d[..16].try_into().unwrap()), 0)
}

struct Mode {
    subsets: usize,
    part: u32,
    rot: u32,
    sel: u32,
    color: u32,
    alpha: u32,
    own_p: bool,
    shared_p: bool,
    idx: u32,
    idx2: u32,
}
#[rustfmt::skip]
const MODES: [Mode; 8] = [
    Mode { subsets: 3, part: 4, rot: 0, sel: 0, color: 4, alpha: 0, own_p: true,  shared_p: false, idx: 3, idx2: 0 },
    Mode { subsets: 2, part: 6, rot: 0, sel: 0, color: 6, alpha: 0, own_p: false, shared_p: true,  idx: 3, idx2: 0 },
    Mode { subsets: 3, part: 6, rot: 0, sel: 0, color: 5, alpha: 0, own_p: false, shared_p: false, idx: 2, idx2: 0 },
    Mode { subsets: 2, part: 6, rot: 0, sel: 0, color: 7, alpha: 0, own_p: true,  shared_p: false, idx: 2, idx2: 0 },
    Mode { subsets: 1, part: 0, rot: 2, sel: 1, color: 5, alpha: 6, own_p: false, shared_p: false, idx: 2, idx2: 3 },
    Mode { subsets: 1, part: 0, rot: 2, sel: 0, color: 7, alpha: 8, own_p: false, shared_p: false, idx: 2, idx2: 2 },
    Mode { subsets: 1, part: 0, rot: 0, sel: 0, color: 7, alpha: 7, own_p: true,  shared_p: false, idx: 4, idx2: 0 },
    Mode { subsets: 2, part: 6, rot: 0, sel: 0, color: 5, alpha: 5, own_p: true,  shared_p: false, idx: 2, idx2: 0 },
];

fn subset(n: usize, part: usize, i: usize) -> usize {
    match n {
        1 => 0,
        2 => (SPLIT2[part] >> i & 1) as usize,
        _ => (SPLIT3[part] >> (2 * i) & 3) as usize,
    }
}
fn anchor(n: usize, part: usize, i: usize) -> bool {
    i == 0 || n == 2 && i == FIX2[part] || n == 3 && (i == FIX3[0][part] || i == FIX3[1][part])
}

pub fn bc7(d: &[u8], out: &mut [Texel]) {
    let m = d[0].trailing_zeros();
    if m > 7 {
        out.fill(px(0, 0, 0, 0));
        return;
    }
    let mut r = load(d);
    r.take(m + 1);
    let m = &MODES[m as usize];
    let part = r.take(m.part) as usize;
    let rot = r.take(m.rot);
    let sel = r.take(m.sel);
    let n = m.subsets * 2;
    let mut e = vec![[255i32; 4]; n];
    for c in 0..4 {
        let b = if c < 3 { m.color } else { m.alpha };
        for x in e.iter_mut() {
            if b > 0 {
                x[c] = r.take(b) as i32;
            }
        }
    }
    let p: Option<Vec<i32>> = if m.own_p {
        Some((0..n).map(|_| r.take(1) as i32).collect())
    } else if m.shared_p {
        let s: Vec<i32> = (0..m.subsets).map(|_| r.take(1) as i32).collect();
        Some((0..n).map(|i| s[i / 2]).collect())
    } else {
        None
    };
    for (i, x) in e.iter_mut().enumerate() {
        for (c, v) in x.iter_mut().enumerate() {
            let mut b = if c < 3 { m.color } else { m.alpha };
            if b == 0 {
                continue;
            }
            if let Some(p) = &p {
                *v = *v << 1 | p[i];
                b += 1;
            }
            *v <<= 8 - b;
            *v |= *v >> b;
        }
    }
    let first: Vec<u32> = (0..16).map(|i| r.take(m.idx - anchor(m.subsets, part, i) as u32)).collect();
    let second: Vec<u32> = (0..16).map(|i| if m.idx2 == 0 { 0 } else { r.take(m.idx2 - (i == 0) as u32) }).collect();
    for (i, o) in out.iter_mut().enumerate() {
        let s = subset(m.subsets, part, i) * 2;
        let one = weight(m.idx, first[i]);
        let two = if m.idx2 == 0 { one } else { weight(m.idx2, second[i]) };
        let (cw, aw) = if sel == 1 { (two, one) } else { (one, two) };
        let mut t = [0, 1, 2, 3].map(|c| lerp(e[s][c], e[s + 1][c], if c < 3 { cw } else { aw }));
        if rot > 0 {
            t.swap(rot as usize - 1, 3);
        }
        *o = px(t[0], t[1], t[2], t[3]);
    }
}

/// where the bits of the endpoints w, x, y, z are: component, endpoint, highest and lowest bit; in the
/// order of the block; lowest bit first, or highest first if written the other way round
const LAYOUT: [(u32, u32, [u32; 3], bool, &str); 14] = [
    (0b00, 10, [5, 5, 5], true, "gy4 by4 bz4 rw9:0 gw9:0 bw9:0 rx4:0 gz4 gy3:0 gx4:0 bz0 gz3:0 bx4:0 bz1 by3:0 ry4:0 bz2 rz4:0 bz3"),
    (0b01, 7, [6, 6, 6], true, "gy5 gz4 gz5 rw6:0 bz0 bz1 by4 gw6:0 by5 bz2 gy4 bw6:0 bz3 bz5 bz4 rx5:0 gy3:0 gx5:0 gz3:0 bx5:0 by3:0 ry5:0 rz5:0"),
    (0b00010, 11, [5, 4, 4], true, "rw9:0 gw9:0 bw9:0 rx4:0 rw10 gy3:0 gx3:0 gw10 bz0 gz3:0 bx3:0 bw10 bz1 by3:0 ry4:0 bz2 rz4:0 bz3"),
    (0b00110, 11, [4, 5, 4], true, "rw9:0 gw9:0 bw9:0 rx3:0 rw10 gz4 gy3:0 gx4:0 gw10 gz3:0 bx3:0 bw10 bz1 by3:0 ry3:0 bz0 bz2 rz3:0 gy4 bz3"),
    (0b01010, 11, [4, 4, 5], true, "rw9:0 gw9:0 bw9:0 rx3:0 rw10 by4 gy3:0 gx3:0 gw10 bz0 gz3:0 bx4:0 bw10 by3:0 ry3:0 bz1 bz2 rz3:0 bz4 bz3"),
    (0b01110, 9, [5, 5, 5], true, "rw8:0 by4 gw8:0 gy4 bw8:0 bz4 rx4:0 gz4 gy3:0 gx4:0 bz0 gz3:0 bx4:0 bz1 by3:0 ry4:0 bz2 rz4:0 bz3"),
    (0b10010, 8, [6, 5, 5], true, "rw7:0 gz4 by4 gw7:0 bz2 gy4 bw7:0 bz3 bz4 rx5:0 gy3:0 gx4:0 bz0 gz3:0 bx4:0 bz1 by3:0 ry5:0 rz5:0"),
    (0b10110, 8, [5, 6, 5], true, "rw7:0 bz0 by4 gw7:0 gy5 gy4 bw7:0 gz5 bz4 rx4:0 gz4 gy3:0 gx5:0 gz3:0 bx4:0 bz1 by3:0 ry4:0 bz2 rz4:0 bz3"),
    (0b11010, 8, [5, 5, 6], true, "rw7:0 bz1 by4 gw7:0 by5 gy4 bw7:0 bz5 bz4 rx4:0 gz4 gy3:0 gx4:0 bz0 gz3:0 bx5:0 by3:0 ry4:0 bz2 rz4:0 bz3"),
    (0b11110, 6, [6, 6, 6], false, "rw5:0 gz4 bz0 bz1 by4 gw5:0 gy5 by5 bz2 gy4 bw5:0 gz5 bz3 bz5 bz4 rx5:0 gy3:0 gx5:0 gz3:0 bx5:0 by3:0 ry5:0 rz5:0"),
    (0b00011, 10, [10, 10, 10], false, "rw9:0 gw9:0 bw9:0 rx9:0 gx9:0 bx9:0"),
    (0b00111, 11, [9, 9, 9], true, "rw9:0 gw9:0 bw9:0 rx8:0 rw10 gx8:0 gw10 bx8:0 bw10"),
    (0b01011, 12, [8, 8, 8], true, "rw9:0 gw9:0 bw9:0 rx7:0 rw10:11 gx7:0 gw10:11 bx7:0 bw10:11"),
    (0b01111, 16, [4, 4, 4], true, "rw9:0 gw9:0 bw9:0 rx3:0 rw10:15 gx3:0 gw10:15 bx3:0 bw10:15"),
];

fn extend(v: i32, n: u32) -> i32 {
    v << (32 - n) >> (32 - n)
}

pub fn bc6(d: &[u8], out: &mut [Texel], signed: bool) {
    let mut r = load(d);
    let mut mode = r.take(2);
    if mode > 1 {
        mode |= r.take(3) << 2;
    }
    let Some((_, n, deltas, transformed, layout)) = LAYOUT.iter().find(|l| l.0 == mode) else {
        out.fill(px(0, 0, 0, 255));
        return;
    };
    let mut e = [[0i32; 3]; 4];
    for f in layout.split(' ') {
        let b = f.as_bytes();
        let c = b"rgb".iter().position(|x| *x == b[0]).unwrap();
        let k = b"wxyz".iter().position(|x| *x == b[1]).unwrap();
        let mut at = f[2..].split(':').map(|x| x.parse::<i32>().unwrap());
        let hi = at.next().unwrap();
        let lo = at.next().unwrap_or(hi);
        // lowest bit first
        let mut i = lo;
        loop {
            e[k][c] |= (r.take(1) as i32) << i;
            if i == hi {
                break;
            }
            i += (hi - lo).signum();
        }
    }
    let two = mode < 2 || mode & 1 == 0;
    let part = if two { r.take(5) as usize } else { 0 };
    let n = *n;
    for c in 0..3 {
        if signed {
            e[0][c] = extend(e[0][c], n);
        }
        for k in 1..4 {
            if *transformed {
                let x = e[0][c].wrapping_add(extend(e[k][c], deltas[c])) & ((1 << n) - 1);
                e[k][c] = if signed { extend(x, n) } else { x };
            } else if signed {
                e[k][c] = extend(e[k][c], n);
            }
        }
        for x in e.iter_mut() {
            x[c] = unquantize(x[c], n, signed);
        }
    }
    let width = if two { 3 } else { 4 };
    for (i, o) in out.iter_mut().enumerate() {
        let fixed = i == 0 || two && i == FIX2[part];
        let w = weight(width, r.take(width - fixed as u32));
        let s = if two { (SPLIT2[part] >> i & 1) as usize * 2 } else { 0 };
        let h = [0, 1, 2].map(|c| half(finish(lerp(e[s][c], e[s + 1][c], w), signed)));
        *o = [h[0], h[1], h[2], at(255)];
    }
}

fn unquantize(x: i32, n: u32, signed: bool) -> i32 {
    if !signed {
        return match x {
            _ if n >= 15 => x,
            0 => 0,
            _ if x == (1 << n) - 1 => 0xffff,
            _ => ((x << 16) + 0x8000) >> n,
        };
    }
    if n >= 16 || x == 0 {
        return x;
    }
    let m = x.abs();
    let v = if m >= (1 << (n - 1)) - 1 { 0x7fff } else { ((m << 15) + 0x4000) >> (n - 1) };
    v * x.signum()
}

fn finish(x: i32, signed: bool) -> u16 {
    if !signed {
        return ((x * 31) >> 6) as u16;
    }
    let m = (x.abs() * 31 >> 5) as u16;
    if x < 0 {
        m | 0x8000
    } else {
        m
    }
}
