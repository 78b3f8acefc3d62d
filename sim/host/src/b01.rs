//! Histories for the Python binding, with the native decoder's answers, one JSON line each.
use crate::crn;
use crate::exec::*;
use crate::fmt::{self, Class};
use crate::gen;
use crate::json::{hex, J};
use crate::plan::*;
use crate::props::{self, Ctx};
use crate::rng::{mix, Rng};
use std::io::Write;

fn crc(d: &[u8]) -> u32 {
    let mut t = [0u32; 256];
    for (i, x) in t.iter_mut().enumerate() {
        let mut c = i as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
        }
        *x = c;
    }
    !d.iter().fold(!0u32, |c, &b| c >> 8 ^ t[((c ^ b as u32) & 255) as usize])
}

fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in d {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

/// what the native decoder answers, alone in a fresh process
fn native(cx: &mut Ctx, v: usize, data: &[u8], c: &Call) -> J {
    let size = c.w.checked_mul(c.h).filter(|&n| n <= 1 << 22);
    let Some(n) = size else { return J::Arr(vec![J::s("any_error")]) };
    let mut p = Plan::new("solo", 0);
    p.objs.push(Obj::new(data.to_vec(), "stored"));
    p.threads = vec![vec![Op::Call(Call { img: n, obj: 0, slot: 0, fill: Some(0), len: ALL, ..c.clone() })]];
    let h = cx.run(v, &p, &Opts { keep_raw: true, ..Opts::default() });
    let r = &h.calls[0];
    match r.ret {
        OK => {
            let b: Vec<u8> = cx.eng.raw(r).iter().flat_map(|x| x.to_le_bytes()).collect();
            J::Arr(vec![J::s("ok"), J::n(b.len()), J::n(crc(&b)), J::n(adler(&b))])
        }
        ERR => J::Arr(vec![J::s("error"), J::s(&r.msg())]),
        // whatever the binding does then follows from other properties
        _ => J::Arr(vec![J::s("unknown")]),
    }
}

pub fn emit(cx: &mut Ctx, seed: u64, shard: u64, runs: u64) -> i32 {
    let out = std::io::stdout();
    let mut out = out.lock();
    for run in 0..runs {
        let rseed = mix(mix(seed ^ 0xb01) ^ shard << 40 ^ run) >> 8;
        let mut rng = Rng::new(rseed);
        let rng = &mut rng;
        let v = rng.pick(&["chk", "rel"]);
        let Some(v) = cx.sut(v) else { continue };
        let variant = cx.suts[v].name.clone();
        let mut datas: Vec<Vec<u8>> = vec![];
        let mut pool: Vec<Call> = vec![];
        for _ in 0..rng.range(1, 3) {
            let (mut o, mut c) = loop {
                let (o, c) = if rng.chance(30) { props::crn_case(rng, &cx.world, 2) } else { props::rate_case(rng, &cx.world, true) };
                if !matches!(c.f, 36 | 37) {
                    break (o, c);
                }
            };
            let crunch = matches!(fmt::class(c.f), Class::Crunch | Class::Unity);
            if rng.chance(25) {
                props::damage(rng, &mut o, crunch, fmt::block_bytes(c.f), 1, 3);
            }
            let mut p = Plan::new("B01", rseed);
            p.objs.push(o.clone());
            let d = p.stored(&o);
            c.obj = datas.len();
            datas.push(d);
            pool.push(c);
        }
        let n = rng.range(1, 8);
        let mut calls = vec![];
        for _ in 0..n {
            let mut c = rng.pick(&(0..pool.len()).collect::<Vec<_>>());
            if rng.chance(40) {
                c = 0;
            }
            let mut c = pool[c].clone();
            let mut big: [Option<i128>; 2] = [None, None];
            let mut fault = J::Null;
            match rng.below(12) {
                0 => c.w = gen::odd_size(rng),
                1 => c.h = gen::odd_size(rng),
                2 => {
                    c.w = gen::near(rng, c.w);
                    c.h = gen::near(rng, c.h);
                }
                3 if c.f == 35 => {
                    c.bw = rng.pick(&[0, 1, 3, 13, 255, usize::MAX, 4, 12]);
                    c.bh = rng.pick(&[0, 1, 3, 13, 255, usize::MAX, 4, 12]);
                }
                4 => {
                    // not a usize at all
                    let x = rng.pick(&[-1i128, -5, 1 << 64, (1 << 64) + 4, 1 << 100, -(1 << 63)]);
                    big[rng.idx(2)] = Some(x);
                }
                5 | 6 => fault = J::n(rng.pick(&[0u32, 0, 0, 1, 2])),
                7 => {
                    if rng.chance(50) {
                        c.w = 0
                    } else {
                        c.h = 0
                    }
                }
                8 if matches!(fmt::class(c.f), Class::Crunch | Class::Unity) => {
                    let (w, h, ..) = crn::head(&datas[c.obj]);
                    c.w = w + rng.range(0, 5);
                    c.h = h + rng.range(0, 5);
                }
                _ => {}
            }
            let expect = if big[0].is_some() || big[1].is_some() {
                J::Arr(vec![J::s("any_error")])
            } else {
                native(cx, v, &datas[c.obj].clone(), &c)
            };
            let num = |b: Option<i128>, x: usize| b.map(J::Int).unwrap_or(J::n(x));
            calls.push(J::obj(vec![
                ("fn", J::s(fmt::name(c.f))),
                ("data", J::n(c.obj)),
                ("w", num(big[0], c.w)),
                ("h", num(big[1], c.h)),
                ("bw", J::n(c.bw)),
                ("bh", J::n(c.bh)),
                ("fault", fault),
                ("expect", expect),
            ]));
        }
        let j = J::obj(vec![
            ("property", J::s("B01")),
            ("seed", J::n(seed)),
            ("shard", J::n(shard)),
            ("run", J::n(run)),
            ("run_seed", J::n(rseed)),
            ("variant", J::s(&variant)),
            ("datas", J::Arr(datas.iter().map(|d| J::Str(hex(d))).collect())),
            ("calls", J::Arr(calls)),
        ]);
        if writeln!(out, "{}", j.text()).is_err() {
            return 0;
        }
    }
    0
}
