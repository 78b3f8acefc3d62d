//! The public API as the simulator sees it, and the reference model of sizes.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Fixed,
    Pvrtc,
    Crunch,
    Unity,
    Info,
    Block,
}

pub const NAMES: [(u32, &str); 67] = [
    (0, "atc_rgb4"), (1, "atc_rgba8"), (2, "bc1"), (3, "bc1a"), (4, "bc2"), (5, "bc3"), (6, "bc4"),
    (7, "bc5"), (8, "bc6_signed"), (9, "bc6_unsigned"), (10, "bc7"), (11, "etc1"), (12, "etc2_rgb"),
    (13, "etc2_rgba1"), (14, "etc2_rgba8"), (15, "eacr"), (16, "eacr_signed"), (17, "eacrg"),
    (18, "eacrg_signed"), (19, "pvrtc_2bpp"), (20, "pvrtc_4bpp"), (21, "astc_4_4"), (22, "astc_5_4"),
    (23, "astc_5_5"), (24, "astc_6_5"), (25, "astc_6_6"), (26, "astc_8_5"), (27, "astc_8_6"),
    (28, "astc_8_8"), (29, "astc_10_5"), (30, "astc_10_6"), (31, "astc_10_8"), (32, "astc_10_10"),
    (33, "astc_12_10"), (34, "astc_12_12"), (35, "astc"), (36, "bc6"), (37, "pvrtc"), (40, "crunch"),
    (41, "unity_crunch"), (42, "texture_info"), (60, "atc_rgb4_block"), (61, "atc_rgba8_block"),
    (62, "bc1_block"), (63, "bc1a_block"), (64, "bc2_block"), (65, "bc3_block"), (66, "bc4_block"),
    (67, "bc5_block"), (68, "bc6_block_signed"), (69, "bc6_block_unsigned"), (70, "bc7_block"),
    (71, "etc1_block"), (72, "etc2_rgb_block"), (73, "etc2_rgba1_block"), (74, "etc2_rgba8_block"),
    (75, "eacr_block"), (76, "eacr_signed_block"), (77, "eacrg_block"), (78, "eacrg_signed_block"),
    (79, "etc2_a8_block"), (80, "astc_block"), (81, "bc6_block"), (82, "eac_block"),
    (83, "eac_signed_block"), (98, "none"), (99, "none"),
];

pub const BLOCKS: [u32; 24] = [
    60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83,
];
pub const ASTC_SIZES: [(usize, usize); 14] = [
    (4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8), (10, 10),
    (12, 10), (12, 12),
];

pub fn name(f: u32) -> &'static str {
    NAMES.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or("none")
}
pub fn by_name(s: &str) -> u32 {
    NAMES.iter().find(|x| x.1 == s).map(|x| x.0).unwrap_or(99)
}
pub fn class(f: u32) -> Class {
    match f {
        19 | 20 | 37 => Class::Pvrtc,
        40 => Class::Crunch,
        41 => Class::Unity,
        42 => Class::Info,
        60..=83 => Class::Block,
        _ => Class::Fixed,
    }
}
pub fn is_astc(f: u32) -> bool {
    (21..=35).contains(&f) || f == 80
}
/// texels a block covers
pub fn block_dims(f: u32, bw: usize, bh: usize) -> Option<(usize, usize)> {
    match f {
        21..=34 => Some(ASTC_SIZES[f as usize - 21]),
        35 | 80 => (bw >= 2 && bh >= 2 && bw.checked_mul(bh)? <= 144).then_some((bw, bh)),
        19 => Some((8, 4)),
        37 if bw & 1 == 1 => Some((8, 4)),
        40..=42 => None,
        _ => Some((4, 4)),
    }
}
/// bytes of a block
pub fn block_bytes(f: u32) -> usize {
    match f {
        0 | 2 | 3 | 6 | 11 | 12 | 13 | 15 | 16 | 19 | 20 | 37 => 8,
        60 | 62 | 63 | 66 | 71 | 72 | 73 | 75 | 76 | 79 | 82 | 83 => 8,
        _ => 16,
    }
}
/// blocks in x and y
pub fn grid(f: u32, w: usize, h: usize, bw: usize, bh: usize) -> Option<(usize, usize)> {
    let (x, y) = block_dims(f, bw, bh)?;
    Some((w.div_ceil(x), h.div_ceil(y)))
}
/// bytes of data that an image of this size needs
pub fn need(f: u32, w: usize, h: usize, bw: usize, bh: usize) -> Option<usize> {
    if w == 0 || h == 0 {
        return Some(0);
    }
    let (x, y) = grid(f, w, h, bw, bh)?;
    x.checked_mul(y)?.checked_mul(block_bytes(f))
}
