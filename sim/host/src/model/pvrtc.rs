//! PVRTC with 2 and 4 bits for a texel.
use super::*;

struct Block {
    a: [i32; 4],
    b: [i32; 4],
    /// 0..8 for each texel; None if it is the mean of its neighbours
    m: Vec<Option<i32>>,
    punch: Vec<bool>,
    /// directions the mean is taken in: horizontal, vertical
    mean: (bool, bool),
}

/// 5 bits for each colour and 4 for alpha
fn colors(c: u32) -> ([i32; 4], [i32; 4]) {
    let f = |hi: u32, lo: u32| (c >> lo & ((1 << (hi - lo + 1)) - 1)) as i32;
    let e3 = |x: i32| x << 2 | x >> 1;
    let e4 = |x: i32| x << 1 | x >> 3;
    let a = if c >> 15 & 1 == 1 {
        [f(14, 10), f(9, 5), e4(f(4, 1)), 15]
    } else {
        [e4(f(11, 8)), e4(f(7, 4)), e3(f(3, 1)), f(14, 12) << 1]
    };
    let b = if c >> 31 == 1 {
        [f(30, 26), f(25, 21), f(20, 16), 15]
    } else {
        [e4(f(27, 24)), e4(f(23, 20)), e4(f(19, 16)), f(30, 28) << 1]
    };
    (a, b)
}

fn unpack(d: &[u8], two: bool) -> Block {
    let mut m = u32::from_le_bytes(d[..4].try_into().unwrap());
    let c = u32::from_le_bytes(d[4..8].try_into().unwrap());
    let (a, b) = colors(c);
    let n = if two { 32 } else { 16 };
    let mut o = Block { a, b, m: vec![None; n], punch: vec![false; n], mean: (true, true) };
    const V: [i32; 4] = [0, 3, 5, 8];
    match (two, c & 1) {
        (false, flag) => {
            for i in 0..16 {
                let k = (m >> (2 * i) & 3) as usize;
                o.m[i] = Some(if flag == 1 { [0, 4, 4, 8][k] } else { V[k] });
                o.punch[i] = flag == 1 && k == 2;
            }
        }
        (true, 0) => {
            for i in 0..32 {
                o.m[i] = Some((m >> i & 1) as i32 * 8);
            }
        }
        (true, _) => {
            if m & 1 == 1 {
                o.mean = if m >> 20 & 1 == 1 { (false, true) } else { (true, false) };
                m = m & !(1 << 20) | (m >> 21 & 1) << 20;
            }
            m = m & !1 | m >> 1 & 1;
            for i in 0..32 {
                if (i / 8 + i % 8) % 2 == 0 {
                    o.m[i] = Some(V[(m & 3) as usize]);
                    m >>= 2;
                }
            }
        }
    }
    o
}

/// position of a block in the data: bits of y and x in turn, then the rest of the longer side
fn morton(x: usize, y: usize, nx: usize, ny: usize) -> usize {
    let (mut at, mut shift, mut bit) = (0, 0, 1);
    let small = nx.min(ny);
    while bit < small {
        at |= ((y & bit != 0) as usize) << shift | ((x & bit != 0) as usize) << (shift + 1);
        shift += 2;
        bit *= 2;
    }
    let long = if nx > ny { x } else { y };
    at | long / small << shift
}

pub fn image(d: &[u8], w: usize, h: usize, two: bool) -> Vec<Texel> {
    let (bw, bh) = (if two { 8 } else { 4 }, 4);
    let (nx, ny) = (w.div_ceil(bw), h.div_ceil(bh));
    let mut blocks: Vec<Block> = vec![];
    for y in 0..ny {
        for x in 0..nx {
            let i = morton(x, y, nx, ny) * 8;
            blocks.push(unpack(&d[i..i + 8], two));
        }
    }
    let (tw, th) = ((nx * bw) as i64, (ny * bh) as i64);
    let at_texel = |x: i64, y: i64| {
        let (x, y) = (x.rem_euclid(tw) as usize, y.rem_euclid(th) as usize);
        (&blocks[y / bh * nx + x / bw], y % bh * bw + x % bw)
    };
    let known = |x: i64, y: i64| {
        let (b, i) = at_texel(x, y);
        b.m[i].unwrap_or(0)
    };
    let mut out = vec![FREE; w * h];
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let (own, i) = at_texel(x, y);
            let m = own.m[i].unwrap_or_else(|| match own.mean {
                (true, true) => (known(x - 1, y) + known(x + 1, y) + known(x, y - 1) + known(x, y + 1) + 2) / 4,
                (true, false) => (known(x - 1, y) + known(x + 1, y) + 1) / 2,
                _ => (known(x, y - 1) + known(x, y + 1) + 1) / 2,
            });
            // the colours of a block belong to its middle
            let (fx, fy) = (x - bw as i64 / 2, y - bh as i64 / 2);
            let (px, py) = (fx.rem_euclid(bw as i64) as i32, fy.rem_euclid(bh as i64) as i32);
            let corner = |dx: i64, dy: i64| at_texel(fx + dx * bw as i64, fy + dy * bh as i64).0;
            let around = [(corner(0, 0), (bw as i32 - px) * (bh as i32 - py)), (corner(1, 0), px * (bh as i32 - py)),
                (corner(0, 1), (bw as i32 - px) * py), (corner(1, 1), px * py)];
            let mut t = [at(0); 4];
            for c in 0..4 {
                let sum = |f: &dyn Fn(&Block) -> i32| around.iter().map(|(b, w)| f(b) * w).sum::<i32>();
                let wide = |v: i32| match (two, c) {
                    (false, 3) => (v >> 4) + v,
                    (true, 3) => (v >> 5) + (v >> 1),
                    (false, _) => (v >> 6) + (v >> 1),
                    (true, _) => (v >> 7) + (v >> 2),
                };
                let (a, b) = (wide(sum(&|k| k.a[c])), wide(sum(&|k| k.b[c])));
                let v = (a * (8 - m) + b * m) / 8;
                t[c] = at(if c == 3 && own.punch[i] { 0 } else { v });
            }
            out[y as usize * w + x as usize] = t;
        }
    }
    out
}
