//! Writes valid Crunch and Unity Crunch containers: complete prefix codes over allowed symbols make
//! every bit string a valid stream, so the streams themselves are random.
use crate::rng::Rng;

const PROBABLE: [usize; 21] = [17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16];

struct Bits {
    v: Vec<u8>,
    n: usize,
}

impl Bits {
    fn put(&mut self, val: u32, bits: usize) {
        for i in (0..bits).rev() {
            if self.n % 8 == 0 {
                self.v.push(0);
            }
            let b = (val >> i & 1) as u8;
            *self.v.last_mut().unwrap() |= b << (7 - self.n % 8);
            self.n += 1;
        }
    }
}

/// lengths of a complete prefix code of n >= 2 leaves
fn lengths(rng: &mut Rng, n: usize, max: usize) -> Vec<usize> {
    let mut l = vec![1usize, 1];
    let skew = rng.below(3);
    while l.len() < n {
        let mut i = match skew {
            0 => rng.idx(l.len()),
            1 => l.len() - 1,
            _ => (0..l.len()).min_by_key(|&i| l[i]).unwrap(),
        };
        if l[i] >= max {
            i = (0..l.len()).min_by_key(|&i| l[i]).unwrap();
        }
        l[i] += 1;
        let x = l[i];
        l.push(x);
    }
    // any leaf may belong to any symbol
    for i in (1..l.len()).rev() {
        l.swap(i, rng.idx(i + 1));
    }
    l
}

fn canonical(sizes: &[usize]) -> Vec<u32> {
    let mut codes = vec![0; sizes.len()];
    let mut cur = 0u32;
    for len in 1..=16 {
        for (i, &s) in sizes.iter().enumerate() {
            if s == len {
                codes[i] = cur;
                cur += 1;
            }
        }
        cur <<= 1;
    }
    codes
}

/// a code that does not fit: unused codes, too many codes, symbols that mean nothing
fn spoil(rng: &mut Rng, sizes: &mut Vec<usize>, limit: usize, max: usize) {
    for _ in 0..rng.range(1, 2) {
        let used: Vec<usize> = (0..sizes.len()).filter(|&i| sizes[i] != 0).collect();
        if used.is_empty() {
            return;
        }
        let i = rng.pick(&used);
        match rng.below(4) {
            0 => sizes[i] = 0,
            1 => sizes[i] = (sizes[i] + rng.range(1, 3)).min(max),
            2 => sizes[i] = rng.range(1, sizes[i]),
            _ => {
                if max == 16 && rng.chance(50) {
                    sizes.resize((limit + rng.range(1, 20)).clamp(sizes.len(), 8192), 0);
                }
                let j = sizes.len() - 1 - rng.idx(sizes.len().min(20));
                sizes.swap(i, j);
            }
        }
    }
}

/// one model that codes some of the symbols 0..limit; returns whether only zero bits are safe behind it
fn model(rng: &mut Rng, b: &mut Bits, limit: usize, bad: u64) -> bool {
    sized_model(rng, b, limit, bad).0
}

/// the same and its longest code
fn sized_model(rng: &mut Rng, b: &mut Bits, limit: usize, bad: u64) -> (bool, usize) {
    let limit = limit.clamp(1, 8192);
    let used = match rng.below(4) {
        0 => limit.min(2),
        1 => limit.min(rng.range(2, 40)),
        2 => limit,
        _ => rng.range(1.max(limit / 2), limit),
    }
    .min(600);
    let mut syms: Vec<usize> = if used == limit || rng.chance(30) {
        (0..used).collect()
    } else {
        let mut s: Vec<usize> = (0..used).map(|_| rng.idx(limit)).collect();
        s.sort_unstable();
        s.dedup();
        s
    };
    if syms.is_empty() {
        syms.push(0);
    }
    let total = match rng.below(3) {
        0 => syms[syms.len() - 1] + 1,
        1 => limit,
        // symbols that are never coded may lie behind the palette
        _ => (limit + rng.idx(20)).min(8192),
    };
    let mut sizes = vec![0usize; total];
    if syms.len() == 1 {
        sizes[syms[0]] = 1;
    } else {
        for (s, l) in syms.iter().zip(lengths(rng, syms.len(), 16)) {
            sizes[*s] = l;
        }
    }
    if rng.chance(bad) {
        spoil(rng, &mut sizes, limit, 16);
    }
    // run lengths
    let mut ops: Vec<(usize, u32, usize)> = vec![];
    let total = sizes.len();
    let mut i = 0;
    let plain = rng.chance(20) && total < 300;
    while i < total {
        let z = sizes[i..].iter().take_while(|&&x| x == 0).count();
        if z >= 3 && !plain {
            let n = if z >= 11 && !rng.chance(10) { z.min(138) } else { z.min(10) };
            if n >= 11 {
                ops.push((18, n as u32 - 11, 7));
            } else {
                ops.push((17, n as u32 - 3, 3));
            }
            i += n;
            continue;
        }
        if i > 0 && sizes[i - 1] != 0 && !plain {
            let r = sizes[i..].iter().take_while(|&&x| x == sizes[i - 1]).count();
            if r >= 3 {
                let n = if r >= 7 && !rng.chance(10) { r.min(70) } else { r.min(6) };
                if n >= 7 {
                    ops.push((20, n as u32 - 7, 6));
                } else {
                    ops.push((19, n as u32 - 3, 2));
                }
                i += n;
                continue;
            }
        }
        ops.push((sizes[i], 0, 0));
        i += 1;
    }
    let mut cl: Vec<usize> = ops.iter().map(|o| o.0).collect();
    cl.sort_unstable();
    cl.dedup();
    while cl.len() < 2 {
        cl.push((cl[0] + 1) % 21);
    }
    let mut clen = vec![0usize; 21];
    for (s, l) in cl.iter().zip(lengths(rng, cl.len(), 7)) {
        clen[*s] = l;
    }
    if rng.chance(bad / 4) {
        spoil(rng, &mut clen, 21, 7);
    }
    let codes = canonical(&clen);
    let told = if rng.chance(bad / 8) { rng.pick(&[0, 1, 8192, 8193, 16383, total / 2, total + 1]) } else { total };
    b.put(told as u32, 14);
    let n = if rng.chance(bad / 8) {
        21 + rng.idx(11)
    } else if rng.chance(30) { 21 } else { PROBABLE.iter().rposition(|&s| clen[s] != 0).map_or(1, |i| i + 1) };
    b.put(n as u32, 5);
    for i in 0..n {
        b.put(PROBABLE.get(i).map_or(0, |&s| clen[s]) as u32, 3);
    }
    for (s, v, n) in ops {
        b.put(codes[s], clen[s]);
        b.put(v, n);
    }
    (syms.len() == 1, sizes.iter().copied().max().unwrap_or(1).max(1))
}

fn stream(rng: &mut Rng, b: &mut Bits, bits: usize, zero: bool) {
    let end = b.n + bits + 8;
    // the longest codes are the ones of many ones
    let long = rng.below(6) == 0;
    while b.n < end {
        let x = match rng.u64() {
            _ if zero => 0,
            x if long && x >> 63 == 0 => u32::MAX,
            x => x as u32,
        };
        b.put(x, 32);
    }
}

fn put(v: &mut [u8], off: usize, len: usize, val: usize) {
    let b = (val as u64).to_be_bytes();
    v[off..off + len].copy_from_slice(&b[8 - len..]);
}

pub struct Spec {
    pub unity: bool,
    pub format: usize,
    pub w: usize,
    pub h: usize,
    pub levels: usize,
    pub faces: usize,
}

pub fn spec(rng: &mut Rng, unity: bool) -> Spec {
    let format = if unity {
        rng.pick(&[0, 0, 2, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 10, 11, 12, 12, 13, 14, 14])
    } else {
        rng.pick(&[0, 0, 2, 2, 3, 4, 5, 6, 7, 8, 9, 9])
    };
    let dim = |rng: &mut Rng| match rng.below(6) {
        0 => rng.range(1, 4),
        1 => 4 * rng.range(1, 6),
        2 => 8 * rng.range(1, 4),
        3 => rng.range(30, 70),
        _ => rng.range(1, 30),
    };
    let (mut w, mut h) = (dim(rng), dim(rng));
    if rng.below(120) == 0 {
        // across the limits of narrow counters
        (w, h) = rng.pick(&[(1021, 3), (1024, 5), (1025, 9), (4, 1029), (9, 2041), (2052, 4), (4097, 1), (3, 4100), (200, 130), (260, 260)]);
    }
    Spec {
        unity,
        format,
        w,
        h,
        levels: match rng.below(20) {
            0..=7 => 1,
            8 => rng.range(6, 16),
            _ => rng.range(1, 5),
        },
        faces: if rng.chance(70) { 1 } else { rng.range(1, 6) },
    }
}

pub fn has_color(s: &Spec) -> bool {
    !matches!(s.format, 7..=9)
}
pub fn has_alpha(s: &Spec) -> bool {
    !matches!(s.format, 0 | 10 | 11 | 13)
}

/// `bad`: percent chance for each code table not to fit
pub fn container(rng: &mut Rng, s: &Spec, bad: u64) -> Vec<u8> {
    let mut head = vec![0u8; 70 + 4 * s.levels];
    let num = |rng: &mut Rng| match rng.below(80) {
        0..=19 => rng.range(1, 2),
        20..=39 => rng.range(1, 200),
        // more than a byte can count, seldom as many as a model can code
        40 | 41 => rng.range(250, 700),
        42 if rng.chance(20) => rng.range(700, 8192),
        _ => rng.range(2, 24),
    };
    let mut pal: Vec<(usize, usize)> = vec![]; // header offset, entries
    let (ce, cs, ae, as_) = (num(rng), num(rng), num(rng), num(rng));
    if has_color(s) {
        pal.push((33, ce));
        pal.push((41, cs));
    }
    if has_alpha(s) {
        pal.push((49, ae));
        pal.push((57, as_));
    }
    let etc = (10..=14).contains(&s.format);
    let mut sections: Vec<(usize, usize, Vec<u8>)> = vec![]; // header offset, entries, bytes
    for &(at, n) in &pal {
        let mut b = Bits { v: vec![], n: 0 };
        let mut zero;
        let syms;
        match at {
            33 if etc => {
                zero = model(rng, &mut b, 32, bad);
                syms = 4;
            }
            33 => {
                zero = model(rng, &mut b, 32, bad);
                zero |= model(rng, &mut b, 64, bad);
                syms = 6;
            }
            41 => {
                zero = model(rng, &mut b, if s.unity { 16 } else { 49 }, bad);
                syms = 8;
            }
            49 => {
                zero = model(rng, &mut b, 256, bad);
                syms = 2;
            }
            _ => {
                zero = model(rng, &mut b, if s.unity { 64 } else { 225 }, bad);
                syms = 8;
            }
        }
        stream(rng, &mut b, n * syms * 16, zero);
        sections.push((at, n, b.v));
    }
    let mut zero = false;
    // the most bits that the symbols of a block take
    let mut block_bits = 1;
    {
        let mut b = Bits { v: vec![], n: 0 };
        let mut add = |z: (bool, usize), times: usize| {
            zero |= z.0;
            block_bits += z.1 * times;
        };
        add(sized_model(rng, &mut b, if s.unity { 256 } else { 512 }, bad), 1);
        if has_color(s) {
            add(sized_model(rng, &mut b, ce, bad), 1);
            add(sized_model(rng, &mut b, cs, bad), 1);
        }
        if has_alpha(s) {
            add(sized_model(rng, &mut b, ae, bad), 2);
            add(sized_model(rng, &mut b, as_, bad), 2);
        }
        sections.push((65, 0, b.v));
    }
    let large = s.w * s.h * s.faces > 1 << 14;
    // any order in the file
    for i in (1..sections.len()).rev() {
        sections.swap(i, rng.idx(i + 1));
    }
    let mut body: Vec<u8> = vec![];
    for (at, n, bytes) in &sections {
        if rng.chance(20) {
            let pad = rng.idx(6);
            body.extend(rng.bytes(pad));
        }
        let off = head.len() + body.len();
        if *at == 65 {
            put(&mut head, 65, 2, bytes.len());
            put(&mut head, 67, 3, off);
        } else {
            put(&mut head, *at, 3, off);
            put(&mut head, at + 3, 3, bytes.len());
            put(&mut head, at + 6, 2, *n);
        }
        body.extend_from_slice(bytes);
    }
    for l in 0..s.levels {
        let (w, h) = ((s.w >> l).max(1), (s.h >> l).max(1));
        let blocks = w.div_ceil(8) * 2 * h.div_ceil(8) * 2 * s.faces;
        let off = head.len() + body.len();
        put(&mut head, 70 + 4 * l, 4, off);
        let mut b = Bits { v: vec![], n: 0 };
        // at most: reference, three endpoints, three selectors of 16 bits each
        stream(rng, &mut b, blocks * if large { block_bits } else { 7 * 16 }, zero);
        body.extend(b.v);
    }
    let total = head.len() + body.len();
    head[0] = b'H';
    head[1] = b'x';
    let hs = head.len().max(74);
    put(&mut head, 2, 2, hs);
    put(&mut head, 6, 4, total);
    put(&mut head, 12, 2, s.w);
    put(&mut head, 14, 2, s.h);
    head[16] = s.levels as u8;
    head[17] = s.faces as u8;
    head[18] = s.format as u8;
    let ud = rng.bytes(8);
    head[25..33].copy_from_slice(&ud);
    head.extend(body);
    seal(&mut head, 0);
    head
}

fn crc16(d: &[u8]) -> usize {
    let mut crc = 0xffffu16;
    for &b in d {
        let q = b as u16 ^ (crc >> 8);
        let k = (q >> 4) ^ q;
        crc = (((crc << 8) ^ k) ^ (k << 5)) ^ (k << 12);
    }
    !crc as usize
}

/// the checksums of a container the way the crunch library computes them, over `gap` bytes less than it has
fn sums(d: &[u8], gap: usize) -> Option<(usize, usize)> {
    let (hs, end) = (field(d, 2, 2), field(d, 6, 4).checked_sub(gap)?);
    if hs < 12 || hs > end || end > d.len() {
        return None;
    }
    Some((crc16(&d[6..hs]), crc16(&d[hs..end])))
}

/// stores them
pub fn seal(d: &mut [u8], gap: usize) {
    let Some((_, data)) = sums(d, gap) else { return };
    put(d, 10, 2, data);
    if let Some((head, _)) = sums(d, gap) {
        put(d, 4, 2, head);
    }
}

/// whether it is as it was made
pub fn intact(d: &[u8], gap: usize) -> bool {
    sums(d, gap).is_some_and(|s| s == (field(d, 4, 2), field(d, 10, 2)))
}

pub fn field(d: &[u8], off: usize, len: usize) -> usize {
    d.get(off..off + len).map_or(0, |b| b.iter().fold(0, |a, &x| a << 8 | x as usize))
}
/// width, height, levels, faces, format, end of the container
pub fn head(d: &[u8]) -> (usize, usize, usize, usize, usize, usize) {
    (field(d, 12, 2), field(d, 14, 2), field(d, 16, 1), field(d, 17, 1), field(d, 18, 1), field(d, 6, 4))
}
/// The same container with its palettes and code tables elsewhere in the file. None when its header does
/// not add up.
pub fn relocate(rng: &mut Rng, d: &[u8]) -> Option<Vec<u8>> {
    spread(rng, d, 0).map(|x| x.0)
}

/// The same with up to `room` zeros somewhere between its sections: the bytes without these zeros, how many
/// zeros, how many bytes stand behind them.
pub fn spread(rng: &mut Rng, d: &[u8], room: usize) -> Option<(Vec<u8>, usize, usize)> {
    let (_, _, levels, _, _, end) = head(d);
    let n = 70 + 4 * levels;
    let first = level(d, 0).0;
    if levels == 0 || end > d.len() || n > d.len() {
        return None;
    }
    let ofs: Vec<usize> = (0..levels).map(|l| level(d, l).0).collect();
    if first < n || ofs.windows(2).any(|w| w[0] > w[1]) || *ofs.last()? > end {
        return None;
    }
    let mut parts: Vec<(usize, &[u8])> = vec![];
    for at in [33, 41, 49, 57, 65] {
        let (o, s) = if at == 65 { (field(d, 67, 3), field(d, 65, 2)) } else { (field(d, at, 3), field(d, at + 3, 3)) };
        if s > 0 {
            parts.push((at, d.get(o..o + s)?));
        }
    }
    for i in (1..parts.len()).rev() {
        parts.swap(i, rng.idx(i + 1));
    }
    let mut out = d[..n].to_vec();
    // so many sections stand before the gap
    let before = if rng.chance(50) { parts.len() } else { rng.idx(parts.len() + 1) };
    let limit = if before < parts.len() { room.min((1 << 24) - 1).saturating_sub(d.len() + 400) } else { room };
    let mut gap = match limit {
        0 | 1 => 0,
        _ if rng.chance(50) => limit - rng.idx(limit / 2),
        _ => rng.idx(limit) >> rng.idx(limit.ilog2() as usize),
    };
    let mut cut = 0;
    for (i, (at, b)) in parts.into_iter().enumerate() {
        if i == before {
            cut = out.len();
        }
        let pad = if rng.chance(50) { rng.idx(40) } else { 0 };
        out.extend(rng.bytes(pad));
        let o = out.len() + if i >= before { gap } else { 0 };
        put(&mut out, if at == 65 { 67 } else { at }, 3, o);
        out.extend_from_slice(b);
    }
    if cut == 0 {
        cut = out.len();
    }
    let pad = if rng.chance(50) { rng.idx(40) } else { 0 };
    out.extend(rng.bytes(pad));
    gap = gap.min((1 << 32) - 1 - out.len() - (end - first));
    let base = out.len() + gap;
    out.extend_from_slice(&d[first..end]);
    if out.len() >= 1 << 24 {
        return None;
    }
    for (l, o) in ofs.iter().enumerate() {
        put(&mut out, 70 + 4 * l, 4, base + o - first);
    }
    let total = out.len() + gap;
    put(&mut out, 6, 4, total);
    seal(&mut out, gap);
    let late = out.len() - cut;
    Some((out, gap, late))
}

/// start and end of the data of a mip level
pub fn level(d: &[u8], l: usize) -> (usize, usize) {
    let (_, _, levels, _, _, end) = head(d);
    let a = field(d, 70 + 4 * l, 4);
    let b = if l + 1 < levels { field(d, 74 + 4 * l, 4) } else { end };
    (a, b)
}
/// header fields: offset, length
pub const FIELDS: [(usize, usize); 32] = [
    (0, 2), (2, 2), (4, 2), (6, 4), (10, 2), (12, 2), (14, 2), (16, 1), (17, 1), (18, 1), (19, 2), (21, 4),
    (33, 3), (36, 3), (39, 2), (41, 3), (44, 3), (47, 2), (49, 3), (52, 3), (55, 2), (57, 3), (60, 3),
    (63, 2), (65, 2), (67, 3), (70, 4), (74, 4), (78, 4), (82, 4), (86, 4), (25, 4),
];
