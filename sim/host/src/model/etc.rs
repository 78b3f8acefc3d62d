//! ETC1, ETC2 and EAC.
use super::*;

const MODS: [(i32, i32); 8] = [(2, 8), (5, 17), (9, 29), (13, 42), (18, 60), (24, 80), (33, 106), (47, 183)];
const DIST: [i32; 8] = [3, 6, 11, 16, 23, 32, 41, 64];
const EAC: [[i32; 8]; 16] = [
    [-3, -6, -9, -15, 2, 5, 8, 14],
    [-3, -7, -10, -13, 2, 6, 9, 12],
    [-2, -5, -8, -13, 1, 4, 7, 12],
    [-2, -4, -6, -13, 1, 3, 5, 12],
    [-3, -6, -8, -12, 2, 5, 7, 11],
    [-3, -7, -9, -11, 2, 6, 8, 10],
    [-4, -7, -8, -11, 3, 6, 7, 10],
    [-3, -5, -8, -11, 2, 4, 7, 10],
    [-2, -6, -8, -10, 1, 5, 7, 9],
    [-2, -5, -8, -10, 1, 4, 7, 9],
    [-2, -4, -8, -10, 1, 3, 7, 9],
    [-2, -5, -7, -10, 1, 4, 6, 9],
    [-3, -4, -7, -10, 2, 3, 6, 9],
    [-1, -2, -3, -10, 0, 1, 2, 9],
    [-4, -6, -8, -9, 3, 5, 7, 8],
    [-3, -5, -7, -9, 2, 4, 6, 8],
];

fn word(d: &[u8]) -> u64 {
    d[..8].iter().fold(0, |a, &x| a << 8 | x as u64)
}
fn get(v: u64, hi: u32, lo: u32) -> i32 {
    (v >> lo & ((1 << (hi - lo + 1)) - 1)) as i32
}
fn e4(x: i32) -> i32 {
    x * 17
}
fn e5(x: i32) -> i32 {
    x << 3 | x >> 2
}
fn signed3(x: i32) -> i32 {
    if x >= 4 {
        x - 8
    } else {
        x
    }
}
fn add(c: [i32; 3], m: i32) -> Texel {
    px(c[0] + m, c[1] + m, c[2] + m, 255)
}
/// alpha 0; the colour of what cannot be seen is left open
const CLEAR: Texel = [ANY, ANY, ANY, (0, 0)];

/// `f(x, y, index)` for each texel; indices go down the columns
fn texels(v: u64, out: &mut [Texel], f: impl Fn(usize, usize, usize) -> Texel) {
    for x in 0..4 {
        for y in 0..4 {
            let i = x * 4 + y;
            let k = (v >> (16 + i) & 1) << 1 | (v >> i & 1);
            out[y * 4 + x] = f(x, y, k as usize);
        }
    }
}

fn halves(v: u64, out: &mut [Texel], c: [[i32; 3]; 2], opaque: bool) {
    let flip = get(v, 32, 32) == 1;
    let t = [MODS[get(v, 39, 37) as usize], MODS[get(v, 36, 34) as usize]];
    texels(v, out, |x, y, k| {
        let s = if flip { y / 2 } else { x / 2 };
        let (a, b) = t[s];
        match (k, opaque) {
            (0, true) => add(c[s], a),
            (0, false) => add(c[s], 0),
            (1, _) => add(c[s], b),
            (2, true) => add(c[s], -a),
            (2, false) => CLEAR,
            _ => add(c[s], -b),
        }
    });
}

fn individual(v: u64, out: &mut [Texel]) {
    let c = [
        [get(v, 63, 60), get(v, 55, 52), get(v, 47, 44)].map(e4),
        [get(v, 59, 56), get(v, 51, 48), get(v, 43, 40)].map(e4),
    ];
    halves(v, out, c, true);
}

fn base_and_sum(v: u64) -> ([i32; 3], [i32; 3]) {
    let b = [get(v, 63, 59), get(v, 55, 51), get(v, 47, 43)];
    let d = [get(v, 58, 56), get(v, 50, 48), get(v, 42, 40)].map(signed3);
    (b, [b[0] + d[0], b[1] + d[1], b[2] + d[2]])
}

pub fn etc1(d: &[u8], out: &mut [Texel]) {
    let v = word(d);
    if get(v, 33, 33) == 0 {
        return individual(v, out);
    }
    let (b, s) = base_and_sum(v);
    if s.iter().any(|x| !(0..32).contains(x)) {
        // ETC1 does not allow it
        out.fill([ANY, ANY, ANY, (255, 255)]);
        return;
    }
    halves(v, out, [b.map(e5), s.map(e5)], true);
}

pub fn etc2(d: &[u8], out: &mut [Texel], punch: bool) {
    let v = word(d);
    let bit = get(v, 33, 33) == 1;
    if !punch && !bit {
        return individual(v, out);
    }
    let opaque = !punch || bit;
    let (b, s) = base_and_sum(v);
    let bad = |i: usize| !(0..32).contains(&s[i]);
    let see = |k: usize, t: Texel| if k == 2 && !opaque { CLEAR } else { t };
    if bad(0) {
        let c1 = [get(v, 60, 59) << 2 | get(v, 57, 56), get(v, 55, 52), get(v, 51, 48)].map(e4);
        let c2 = [get(v, 47, 44), get(v, 43, 40), get(v, 39, 36)].map(e4);
        let m = DIST[(get(v, 35, 34) << 1 | get(v, 32, 32)) as usize];
        let p = [add(c1, 0), add(c2, m), add(c2, 0), add(c2, -m)];
        texels(v, out, |_, _, k| see(k, p[k]));
    } else if bad(1) {
        let g1 = get(v, 58, 56) << 1 | get(v, 52, 52);
        let b1 = get(v, 51, 51) << 3 | get(v, 49, 48) << 1 | get(v, 47, 47);
        let g2 = get(v, 42, 40) << 1 | get(v, 39, 39);
        let (c1, c2) = ([get(v, 62, 59), g1, b1], [get(v, 46, 43), g2, get(v, 38, 35)]);
        let m = DIST[(get(v, 34, 34) << 2 | get(v, 32, 32) << 1 | (c1 >= c2) as i32) as usize];
        let (c1, c2) = (c1.map(e4), c2.map(e4));
        let p = [add(c1, m), add(c1, -m), add(c2, m), add(c2, -m)];
        texels(v, out, |_, _, k| see(k, p[k]));
    } else if bad(2) {
        let e6 = |x: i32| x << 2 | x >> 4;
        let e7 = |x: i32| x << 1 | x >> 6;
        let bo = get(v, 48, 48) << 5 | get(v, 44, 43) << 3 | get(v, 41, 40) << 1 | get(v, 39, 39);
        let o = [e6(get(v, 62, 57)), e7(get(v, 56, 56) << 6 | get(v, 54, 49)), e6(bo)];
        let h = [e6(get(v, 38, 34) << 1 | get(v, 32, 32)), e7(get(v, 31, 25)), e6(get(v, 24, 19))];
        let w = [e6(get(v, 18, 13)), e7(get(v, 12, 6)), e6(get(v, 5, 0))];
        texels(v, out, |x, y, _| {
            let c = |i: usize| (x as i32 * (h[i] - o[i]) + y as i32 * (w[i] - o[i]) + 4 * o[i] + 2) >> 2;
            px(c(0), c(1), c(2), 255)
        });
    } else {
        halves(v, out, [b.map(e5), s.map(e5)], opaque);
    }
}

/// the modifier of each texel
fn modifiers(v: u64, f: impl FnMut(usize, i32)) {
    let mut f = f;
    let t = EAC[get(v, 51, 48) as usize];
    for i in 0..16 {
        f(i % 4 * 4 + i / 4, t[(v >> (45 - 3 * i) & 7) as usize]);
    }
}

pub fn alpha(d: &[u8], out: &mut [Texel]) {
    let v = word(d);
    let (base, mul) = (get(v, 63, 56), get(v, 55, 52));
    modifiers(v, |i, m| out[i][3] = at(base + mul * m));
}

pub fn eac(d: &[u8], out: &mut [Texel], ch: usize) {
    let v = word(d);
    let (base, mul) = (get(v, 63, 56), get(v, 55, 52));
    modifiers(v, |i, m| {
        let x = (base * 8 + 4 + m * if mul == 0 { 1 } else { mul * 8 }).clamp(0, 2047) as i64;
        // of 2047 or its upper eight bits
        let (a, b) = (ratio(x * 255, 2047), ratio(x >> 3, 1));
        out[i][ch] = (a.0.min(b.0), a.1.max(b.1));
    });
}

/// -1..1 is kept as 0..255
pub fn eac_signed(d: &[u8], out: &mut [Texel], ch: usize) {
    let v = word(d);
    let (base, mul) = (get(v, 63, 56) as u8 as i8 as i32, get(v, 55, 52));
    modifiers(v, |i, m| {
        let mut t = (255, 0);
        for b in [base, base.max(-127)] {
            let x = (b * 8 + m * if mul == 0 { 1 } else { mul * 8 }).clamp(-1023, 1023) as i64 + 1023;
            let (p, q) = (ratio(x * 255, 2046), ratio(x >> 3, 1));
            t = (p.0.min(q.0).min(t.0), p.1.max(q.1).max(t.1));
        }
        out[i][ch] = t;
    });
}
