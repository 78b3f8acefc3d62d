//! Reference model of the Crunch and Unity Crunch containers: the blocks of the first face of level 0.
//! None wherever the container is not one that an encoder writes.
use crate::crn::{field, head, level};

const ORDER: [usize; 21] = [17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16];

/// a string of bits, the highest bit of a byte first, continued with zeros
struct Src<'a> {
    d: &'a [u8],
    n: usize,
}

impl Src<'_> {
    fn bit(&mut self) -> u32 {
        let b = self.d.get(self.n / 8).map_or(0, |b| b >> (7 - self.n % 8) & 1);
        self.n += 1;
        b as u32
    }
    fn bits(&mut self, k: usize) -> usize {
        (0..k).fold(0, |a, _| a << 1 | self.bit() as usize)
    }
}

/// a canonical prefix code: symbols by length of their code, in order
struct Code {
    by_len: Vec<Vec<usize>>,
}

impl Code {
    fn new(sizes: &[usize]) -> Option<Code> {
        let mut by_len = vec![vec![]; 17];
        for (s, &l) in sizes.iter().enumerate() {
            if l > 0 {
                by_len[l].push(s);
            }
        }
        let kraft: usize = (1..17).map(|l| by_len[l].len() << (16 - l)).sum();
        (1..=1 << 16).contains(&kraft).then_some(Code { by_len })
    }
    fn get(&self, s: &mut Src) -> Option<usize> {
        let (mut code, mut first) = (0, 0);
        for l in 1..17 {
            code = code << 1 | s.bit() as usize;
            first <<= 1;
            let n = self.by_len[l].len();
            if code - first < n {
                return Some(self.by_len[l][code - first]);
            }
            first += n;
        }
        None
    }
    /// the code that the bits start with; all its symbols lie below `limit`
    fn read(s: &mut Src, limit: usize) -> Option<Code> {
        let total = s.bits(14);
        let n = s.bits(5);
        if total == 0 || total > 8192 || n == 0 || n > 21 {
            return None;
        }
        let mut lens = [0; 21];
        for &c in &ORDER[..n] {
            lens[c] = s.bits(3);
        }
        let code = Code::new(&lens)?;
        let mut sizes: Vec<usize> = vec![];
        while sizes.len() < total {
            let (v, k) = match code.get(s)? {
                17 => (0, 3 + s.bits(3)),
                18 => (0, 11 + s.bits(7)),
                x @ 19.. => {
                    let v = *sizes.last()?;
                    if v == 0 {
                        return None;
                    }
                    (v, if x == 19 { 3 + s.bits(2) } else { 7 + s.bits(6) })
                }
                l => (l, 1),
            };
            sizes.resize(sizes.len() + k, v);
        }
        if sizes.len() > total || sizes.iter().skip(limit).any(|&l| l > 0) {
            return None;
        }
        Code::new(&sizes)
    }
}

/// 0..=3 from dark to bright, as BC1 codes it
const BC1: [u64; 4] = [0, 2, 3, 1];
const BC3: [u64; 8] = [0, 2, 3, 4, 5, 6, 7, 1];

fn section(d: &[u8], at: usize) -> Option<(Src<'_>, usize)> {
    let (o, n) = (field(d, at, 3), field(d, at + 3, 3));
    Some((Src { d: d.get(o..o + n)?, n: 0 }, field(d, at + 6, 2)))
}

/// sixteen selectors each, row by row
fn selectors(d: &[u8], at: usize, unity: bool, bits: usize) -> Option<Vec<[u8; 16]>> {
    let (mut s, n) = section(d, at)?;
    let top = 1 << bits;
    let side = 2 * top - 1;
    let code = Code::read(&mut s, if unity { top * top } else { side * side })?;
    let mut cur = [0u8; 16];
    let mut out = vec![];
    for _ in 0..n {
        for j in 0..8 {
            let x = code.get(&mut s)?;
            if unity {
                cur[2 * j] ^= (x % top) as u8;
                cur[2 * j + 1] ^= (x / top) as u8;
            } else {
                let step = |v: &mut u8, by: usize| *v = ((*v as usize + top + by - (top - 1)) % top) as u8;
                step(&mut cur[2 * j], x % side);
                step(&mut cur[2 * j + 1], x / side);
            }
        }
        out.push(cur);
    }
    Some(out)
}

fn alpha_ends(d: &[u8]) -> Option<Vec<[u8; 2]>> {
    let (mut s, n) = section(d, 49)?;
    let code = Code::read(&mut s, 256)?;
    let mut e = [0u8; 2];
    let mut out = vec![];
    for _ in 0..n {
        for x in &mut e {
            *x = x.wrapping_add(code.get(&mut s)? as u8);
        }
        out.push(e);
    }
    Some(out)
}

/// the four bytes a BC1 block begins with
fn bc_ends(d: &[u8]) -> Option<Vec<[u8; 4]>> {
    let (mut s, n) = section(d, 33)?;
    let code = [Code::read(&mut s, 32)?, Code::read(&mut s, 64)?];
    let mut e = [0u16; 6];
    let mut out = vec![];
    for _ in 0..n {
        for (i, x) in e.iter_mut().enumerate() {
            let green = i % 3 == 1;
            *x = (*x + code[green as usize].get(&mut s)? as u16) % if green { 64 } else { 32 };
        }
        let pack = |e: &[u16]| (e[0] << 11 | e[1] << 5 | e[2]).to_le_bytes();
        let (a, b) = (pack(&e[..3]), pack(&e[3..]));
        out.push([a[0], a[1], b[0], b[1]]);
    }
    Some(out)
}

/// red, green, blue, table
fn etc_ends(d: &[u8]) -> Option<Vec<[u8; 4]>> {
    let (mut s, n) = section(d, 33)?;
    let code = Code::read(&mut s, 32)?;
    let mut e = [0u8; 4];
    let mut out = vec![];
    for _ in 0..n {
        for x in &mut e {
            *x = (*x + code.get(&mut s)? as u8) % 32;
        }
        out.push(e);
    }
    Some(out)
}

fn bc_color(sel: &[u8; 16]) -> [u8; 4] {
    (sel.iter().enumerate().fold(0, |a, (i, &s)| a | BC1[s as usize] << (2 * i)) as u32).to_le_bytes()
}
fn bc_alpha(sel: &[u8; 16]) -> [u8; 6] {
    let v = sel.iter().enumerate().fold(0, |a, (i, &s)| a | BC3[s as usize] << (3 * i));
    v.to_le_bytes()[..6].try_into().unwrap()
}
fn turned(sel: &[u8; 16]) -> [u8; 16] {
    std::array::from_fn(|i| sel[i % 4 * 4 + i / 4])
}
/// dark to bright is modifier index 3 2 0 1; texels go down the columns
fn etc_color(sel: &[u8; 16]) -> [u8; 4] {
    let mut v = 0u32;
    for (i, &s) in sel.iter().enumerate() {
        let (x, y) = (i % 4, i / 4);
        let m = [3, 2, 0, 1][s as usize];
        v |= (m >> 1) << (16 + 4 * x + y) | (m & 1) << (4 * x + y);
    }
    v.to_be_bytes()
}
/// dark to bright is modifier index 3 2 1 0 4 5 6 7
fn etc_alpha(sel: &[u8; 16]) -> [u8; 6] {
    let mut v = 0u64;
    for (i, &s) in sel.iter().enumerate() {
        let (x, y) = (i % 4, i / 4);
        let m = if s < 4 { 3 - s } else { s };
        v |= (m as u64) << (45 - 3 * (4 * x + y));
    }
    v.to_be_bytes()[2..].try_into().unwrap()
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// one color block
    Color,
    /// alpha block and color block
    AlphaColor,
    Alpha,
    TwoAlphas,
}
use Kind::*;

/// tiles of the four blocks of a chunk
const TILES: [[usize; 4]; 8] =
    [[0, 0, 0, 0], [0, 0, 1, 1], [0, 1, 0, 1], [0, 0, 1, 2], [1, 2, 0, 0], [0, 1, 0, 2], [1, 0, 2, 0], [0, 1, 2, 3]];

struct Pal {
    /// the first four bytes of BC1 blocks, or red, green, blue and table
    color: Vec<Vec<u8>>,
    color_sel: Vec<[u8; 16]>,
    alpha: Vec<[u8; 2]>,
    alpha_sel: Vec<[u8; 16]>,
}

/// a code stream continues with zeros; but where a recorded size that is too small cuts it off, what
/// follows are the rest of the codes
fn ended(s: &Src, cut: bool) -> bool {
    !cut || s.n <= 8 * s.d.len()
}

/// the blocks of the first face and the decoder they are for
pub fn blocks(d: &[u8], unity: bool) -> Option<(u32, Vec<u8>)> {
    let (w, h, levels, faces, format, end) = head(d);
    if d.len() < 74 || !d.starts_with(b"Hx") || field(d, 2, 2) < 74 || end > d.len() || w == 0 || h == 0 {
        return None;
    }
    if !(1..=16).contains(&levels) || !(1..=6).contains(&faces) {
        return None;
    }
    let (kind, f) = match format {
        0 => (Color, 2),
        2..=6 => (AlphaColor, 5),
        7 | 8 => (TwoAlphas, 7),
        9 => (Alpha, 6),
        10 | 13 if unity => (Color, 11),
        11 if unity => (Color, 12),
        12 | 14 if unity => (AlphaColor, 14),
        _ => return None,
    };
    let etc = format >= 10;
    let halves = matches!(format, 10..=12);
    let (color, alpha) = (matches!(kind, Color | AlphaColor), kind != Color);
    let mut tables = Src { d: d.get(field(d, 67, 3)..)?.get(..field(d, 65, 2))?, n: 0 };
    let first = Code::read(&mut tables, if unity { 256 } else { 512 })?;
    let mut codes = vec![];
    // a palette that the format has no use for is read all the same
    for (at, need) in [(33, color), (49, alpha)] {
        let n = field(d, at + 6, 2);
        if (n > 0) != need {
            return None;
        }
        codes.push(if need {
            let e = Code::read(&mut tables, n)?;
            Some((e, Code::read(&mut tables, field(d, at + 14, 2))?))
        } else {
            None
        });
    }
    let pal = Pal {
        color: match (color, etc) {
            (false, _) => vec![],
            (_, false) => bc_ends(d)?.iter().map(|e| e.to_vec()).collect(),
            _ => etc_ends(d)?.iter().map(|e| e.to_vec()).collect(),
        },
        color_sel: if color { selectors(d, 41, unity, 2)? } else { vec![] },
        alpha: if alpha { alpha_ends(d)? } else { vec![] },
        alpha_sel: if alpha { selectors(d, 57, unity, 3)? } else { vec![] },
    };
    let (a, b) = level(d, 0);
    let mut s = Src { d: d.get(a..b.min(end))?, n: 0 };
    let cut = end < d.len();
    let (nx, ny) = (w.div_ceil(4), h.div_ceil(4));
    let mut out = vec![vec![]; nx * ny];
    let bc = |p: &Pal, c: (usize, usize)| [p.color[c.0].clone(), bc_color(&p.color_sel[c.1]).to_vec()].concat();
    let al = |p: &Pal, c: (usize, usize), turn: bool| {
        let s = &p.alpha_sel[c.1];
        let s = match (etc, turn) {
            (false, _) => bc_alpha(s),
            (_, true) => etc_alpha(&turned(s)),
            _ => etc_alpha(s),
        };
        [p.alpha[c.0].to_vec(), s.to_vec()].concat()
    };
    // which palettes the blocks of a texel block index, in the order of their endpoints
    let ends: &[usize] = match kind {
        Color => &[0],
        Alpha => &[1],
        TwoAlphas => &[1, 1],
        AlphaColor if unity => &[0, 1],
        AlphaColor => &[1, 0],
    };
    let num = [pal.color.len(), pal.alpha.len()];
    let sels = [pal.color_sel.len(), pal.alpha_sel.len()];
    let put = |p: &Pal, e: &[usize], c: &[usize]| match kind {
        Color => bc(p, (e[0], c[0])),
        Alpha => al(p, (e[0], c[0]), false),
        TwoAlphas => [al(p, (e[0], c[0]), false), al(p, (e[1], c[1]), false)].concat(),
        AlphaColor => {
            let i = unity as usize;
            [al(p, (e[i], c[i]), false), bc(p, (e[1 - i], c[1 - i]))].concat()
        }
    };
    if !unity {
        let (mut e, mut c) = (vec![0; ends.len()], vec![0; ends.len()]);
        let mut group = 1;
        let cx = nx.div_ceil(2);
        for y in 0..ny.div_ceil(2) {
            for i in 0..cx {
                let x = if y % 2 == 1 { cx - 1 - i } else { i };
                if group == 1 {
                    group = 512 | first.get(&mut s)?;
                }
                let tiles = TILES[group % 8];
                group /= 8;
                let n = tiles.iter().max()? + 1;
                let mut of = vec![vec![0; ends.len()]; n];
                for (k, &p) in ends.iter().enumerate() {
                    for t in of.iter_mut() {
                        e[k] = (e[k] + codes[p].as_ref()?.0.get(&mut s)?) % num[p];
                        t[k] = e[k];
                    }
                }
                for (j, &t) in tiles.iter().enumerate() {
                    for (k, &p) in ends.iter().enumerate() {
                        c[k] = (c[k] + codes[p].as_ref()?.1.get(&mut s)?) % sels[p];
                    }
                    let (bx, by) = (2 * x + j % 2, 2 * y + j / 2);
                    if bx < nx && by < ny {
                        out[by * nx + bx] = put(&pal, &of[t], &c);
                    }
                }
            }
        }
        return ended(&s, cut).then(|| (f, out.concat()));
    }
    let (px, py) = (nx.next_multiple_of(2), ny.next_multiple_of(2));
    let mut e = vec![0; ends.len()];
    let mut above = vec![e.clone(); px];
    if !halves {
        let mut below = vec![0; px];
        let mut group = 0;
        for y in 0..py {
            for x in 0..px {
                if y % 2 == 0 && x % 2 == 0 {
                    group = first.get(&mut s)?;
                }
                let r = if y % 2 == 0 {
                    below[x] = group >> 2 & 3;
                    let r = group & 3;
                    group >>= 4;
                    r
                } else {
                    below[x]
                };
                match r {
                    0 => {
                        for (k, &p) in ends.iter().enumerate() {
                            e[k] = (e[k] + codes[p].as_ref()?.0.get(&mut s)?) % num[p];
                        }
                    }
                    1 => (),
                    _ => e.clone_from(&above[x]),
                }
                above[x].clone_from(&e);
                let mut c = vec![];
                for &p in ends {
                    c.push(codes[p].as_ref()?.1.get(&mut s)?);
                }
                if x < nx && y < ny {
                    out[y * nx + x] = if etc {
                        // both halves of an ETC1 block alike, differential
                        let q = &pal.color[e[0]];
                        let mut v = if alpha { al(&pal, (e[1], c[1]), false) } else { vec![] };
                        let t = q[3] & 7;
                        v.extend([q[0] << 3, q[1] << 3, q[2] << 3, t << 5 | t << 2 | 2]);
                        v.extend(etc_color(&pal.color_sel[c[0]]));
                        v
                    } else {
                        put(&pal, &e, &c)
                    };
                }
            }
        }
        return ended(&s, cut).then(|| (f, out.concat()));
    }
    // ETC1 blocks with two halves: the second half is coded against the first one
    let mut corner = e.clone();
    let mut second = above.clone();
    let mut below = vec![0; px];
    for y in 0..py {
        for x in 0..px {
            let r = if y % 2 == 0 {
                let g = first.get(&mut s)?;
                below[x] = g >> 2 & 3 | g >> 4 & 12;
                g & 3 | g >> 2 & 12
            } else {
                below[x]
            };
            let step = |s: &mut Src, e: &mut [usize], k: usize| {
                let p = ends[k];
                e[k] = (e[k] + codes[p].as_ref()?.0.get(s)?) % num[p];
                Some(())
            };
            match r & 3 {
                0 => (0..ends.len()).try_for_each(|k| step(&mut s, &mut e, k))?,
                1 => (),
                2 => e.clone_from(&above[x]),
                _ => e.clone_from(&corner),
            }
            above[x].clone_from(&e);
            let e0 = &pal.color[e[0]];
            let mut c = vec![];
            for &p in ends {
                c.push(codes[p].as_ref()?.1.get(&mut s)?);
            }
            if r >> 2 != 0 {
                step(&mut s, &mut e, 0)?;
            }
            corner = std::mem::replace(&mut second[x], e.clone());
            let e1 = &pal.color[e[0]];
            if x < nx && y < ny {
                let flip = (r >> 3 ^ 1) as u8;
                let by = |i: usize| e1[i] as i32 - e0[i] as i32;
                let diff = (0..3).all(|i| (-4..4).contains(&by(i)));
                let mut v = if alpha { al(&pal, (e[1], c[1]), flip == 0) } else { vec![] };
                v.extend((0..3).map(|i| if diff { e0[i] << 3 | (by(i) & 7) as u8 } else { (e0[i] >> 1) << 4 | e1[i] >> 1 }));
                v.push(e0[3] << 5 | e1[3] << 2 | (diff as u8) << 1 | flip);
                let sel = &pal.color_sel[c[0]];
                v.extend(etc_color(&if flip == 1 { *sel } else { turned(sel) }));
                out[y * nx + x] = v;
            }
        }
    }
    ended(&s, cut).then(|| (f, out.concat()))
}
