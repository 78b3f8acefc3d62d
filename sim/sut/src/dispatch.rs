//! Every call of the public API of texture2ddecoder by number.
use texture2ddecoder::*;

type Whole = fn(&[u8], usize, usize, &mut [u32]) -> Result<(), &'static str>;
type Block = fn(&[u8], &mut [u32]);

fn whole(id: u32) -> Option<Whole> {
    Some(match id {
        0 => decode_atc_rgb4,
        1 => decode_atc_rgba8,
        2 => decode_bc1,
        3 => decode_bc1a,
        4 => decode_bc2,
        5 => decode_bc3,
        6 => decode_bc4,
        7 => decode_bc5,
        8 => decode_bc6_signed,
        9 => decode_bc6_unsigned,
        10 => decode_bc7,
        11 => decode_etc1,
        12 => decode_etc2_rgb,
        13 => decode_etc2_rgba1,
        14 => decode_etc2_rgba8,
        15 => decode_eacr,
        16 => decode_eacr_signed,
        17 => decode_eacrg,
        18 => decode_eacrg_signed,
        19 => decode_pvrtc_2bpp,
        20 => decode_pvrtc_4bpp,
        21 => decode_astc_4_4,
        22 => decode_astc_5_4,
        23 => decode_astc_5_5,
        24 => decode_astc_6_5,
        25 => decode_astc_6_6,
        26 => decode_astc_8_5,
        27 => decode_astc_8_6,
        28 => decode_astc_8_8,
        29 => decode_astc_10_5,
        30 => decode_astc_10_6,
        31 => decode_astc_10_8,
        32 => decode_astc_10_10,
        33 => decode_astc_12_10,
        34 => decode_astc_12_12,
        #[cfg(feature = "alloc")]
        40 => decode_crunch,
        #[cfg(feature = "alloc")]
        41 => decode_unity_crunch,
        _ => return None,
    })
}

fn block(id: u32) -> Option<Block> {
    Some(match id {
        60 => decode_atc_rgb4_block,
        61 => decode_atc_rgba8_block,
        62 => decode_bc1_block,
        63 => decode_bc1a_block,
        64 => decode_bc2_block,
        65 => decode_bc3_block,
        66 => decode_bc4_block,
        67 => decode_bc5_block,
        68 => decode_bc6_block_signed,
        69 => decode_bc6_block_unsigned,
        70 => decode_bc7_block,
        71 => decode_etc1_block,
        72 => decode_etc2_rgb_block,
        73 => decode_etc2_rgba1_block,
        74 => decode_etc2_rgba8_block,
        75 => decode_eacr_block,
        76 => decode_eacr_signed_block,
        77 => decode_eacrg_block,
        78 => decode_eacrg_signed_block,
        79 => decode_etc2_a8_block,
        _ => return None,
    })
}

/// None = not in this build
#[allow(clippy::too_many_arguments)]
pub fn dispatch(
    id: u32,
    data: &[u8],
    w: usize,
    h: usize,
    bw: usize,
    bh: usize,
    image: &mut [u32],
) -> Option<Result<(), &'static str>> {
    if let Some(f) = whole(id) {
        return Some(f(data, w, h, image));
    }
    if let Some(f) = block(id) {
        f(data, image);
        return Some(Ok(()));
    }
    Some(match id {
        35 => decode_astc(data, w, h, bw, bh, image),
        36 => decode_bc6(data, w, h, image, bw & 1 == 1),
        37 => decode_pvrtc(data, w, h, image, bw & 1 == 1),
        #[cfg(feature = "alloc")]
        42 => {
            // the caller's structure held something before; `w` is the size the caller claims
            let mut info = CrnTextureInfo::default();
            if let [a, b, c, d, e, f, g, ..] = *image {
                (info.width, info.height, info.levels, info.faces) = (a, b, c, d);
                (info.bytes_per_block, info.userdata0, info.userdata1) = (e, f, g);
            }
            if info.crnd_get_texture_info(data, if w == 0 { data.len() as u32 } else { w as u32 }) {
                let v = [
                    info.width,
                    info.height,
                    info.levels,
                    info.faces,
                    info.bytes_per_block,
                    info.userdata0,
                    info.userdata1,
                    info.struct_size,
                    info.format as u32,
                ];
                for (o, v) in image.iter_mut().zip(v) {
                    *o = v;
                }
                Ok(())
            } else {
                Err("invalid texture info")
            }
        }
        80 => {
            decode_astc_block(data, bw, bh, image);
            Ok(())
        }
        81 => {
            decode_bc6_block(data, image, bw & 1 == 1);
            Ok(())
        }
        82 => {
            decode_eac_block(data, bw % 4, image);
            Ok(())
        }
        83 => {
            decode_eac_signed_block(data, bw % 4, image);
            Ok(())
        }
        _ => return None,
    })
}
