//! Linear budgets of steps, heap and stack. Constants come from `simhost calibrate` times a margin.
use crate::fmt::{self, Class};
use crate::plan::*;

pub const STACK: u64 = 256 << 10;

/// steps per pixel
fn per_pixel(f: u32) -> u64 {
    match f {
        21..=35 | 80 => 600,
        8 | 9 | 19 | 20 | 36 | 37 => 300,
        _ => 150,
    }
}

/// `entries`: palette entries that the container announces, at most four times 65535
pub fn steps(f: u32, pixels: u64, data: u64, entries: u64) -> u64 {
    match fmt::class(f) {
        Class::Block => 50_000,
        Class::Info => 5_000 + 10 * data,
        Class::Crunch | Class::Unity => 600_000 + 1_500 * data + 100 * pixels + 600 * entries,
        _ => 40_000 + per_pixel(f) * pixels + 100 * data,
    }
}

/// per call: pixels asked for (as far as there is an image for them) and bytes of data
fn sizes(plan: &Plan) -> Vec<(u32, u64, u64, u64)> {
    let contents = plan.contents_at_calls();
    plan.calls()
        .iter()
        .zip(contents)
        .map(|((_, _, c), d)| {
            let tail = plan.objs.get(c.obj).map_or(0, |o| o.tail);
            let data = (d.len() + tail).saturating_sub(c.off).min(c.len) as u64;
            // decoding only starts when the image is large enough
            let px = (c.w as u64).saturating_mul(c.h as u64).min(c.img as u64);
            let be = |o: usize| d.get(o).copied().unwrap_or(0) as u64 * 256 + d.get(o + 1).copied().unwrap_or(0) as u64;
            let entries = be(39) + be(47) + be(55) + be(63);
            (c.f, px, data, entries)
        })
        .collect()
}

pub fn limits(plan: &Plan, factor: u64) -> Vec<u64> {
    sizes(plan).into_iter().map(|(f, p, d, n)| steps(f, p, d, n) * factor).collect()
}

pub fn heap(plan: &Plan) -> Vec<u64> {
    sizes(plan).into_iter().map(|(_, p, d, _)| (4 << 20) + 256 * d + 32 * p).collect()
}
