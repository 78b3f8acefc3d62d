//! What a run of each property looks like (`make`) and when it breaks the property (`check`).
use crate::budget;
use crate::crn;
use crate::exec::*;
use crate::fmt::{self, Class};
use crate::gen::{self, World};
use crate::lib_sut::Sut;
use crate::model;
use crate::plan::*;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub skipped: u64,
    pub calls: u64,
    pub by_fn: BTreeMap<&'static str, u64>,
    pub outcome: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub switches: u64,
    pub statics: u64,
    pub extra: BTreeMap<String, u64>,
}

impl Stats {
    pub fn fault(&mut self, k: &str, n: u64) {
        *self.faults.entry(k.to_string()).or_default() += n;
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.extra.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
}

pub struct Ctx {
    pub eng: Engine,
    pub suts: Vec<Sut>,
    pub world: World,
    pub stats: Stats,
    pub cov: Vec<Vec<u8>>,
    pub new_edges: u64,
    pub edges: u64,
    pub sig: u64,
    memo: HashMap<(u64, usize), (CallRes, u64)>,
    pub log: Option<Vec<String>>,
    pub event: u64,
}

#[derive(Default)]
pub struct Out {
    pub viol: Option<String>,
    pub nontrivial: bool,
    pub sched: Option<Vec<Switch>>,
}

fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = crate::rng::fold(h.rotate_left(29) ^ u64::from_le_bytes(x));
    }
    mix(h ^ b.len() as u64)
}

impl Ctx {
    pub fn new(suts: Vec<Sut>, world: World) -> Ctx {
        let cov = suts.iter().map(|_| vec![0u8; 1 << 16]).collect();
        Ctx {
            eng: Engine::new(),
            suts,
            world,
            stats: Stats::default(),
            cov,
            new_edges: 0,
            edges: 0,
            sig: 0,
            memo: HashMap::new(),
            log: None,
            event: 0,
        }
    }
    /// after a fork: pages of its own to share with its universes
    pub fn own(&mut self) {
        self.eng = Engine::renew();
        for s in &mut self.suts {
            s.own();
        }
    }
    pub fn sut(&self, name: &str) -> Option<usize> {
        self.suts.iter().position(|s| s.name == name)
    }
    /// forgets what was covered and cached: the next shard starts from nothing
    pub fn reset(&mut self, cov: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
        self.memo.clear();
        std::mem::replace(&mut self.cov, cov)
    }
    pub fn run(&mut self, v: usize, plan: &Plan, opts: &Opts) -> History {
        let h = self.eng.run(&self.suts[v], plan, opts);
        let g = unsafe { (*self.suts[v].rt).guards as usize + 1 }.min(1 << 16);
        let map = unsafe { std::slice::from_raw_parts(self.suts[v].map, g) };
        let cov = &mut self.cov[v];
        let mut sig = 0u64;
        for (i, c) in map.chunks(8).enumerate() {
            if c.iter().all(|&x| x == 0) {
                continue;
            }
            for (j, &x) in c.iter().enumerate() {
                if x != 0 {
                    let k = i * 8 + j;
                    sig = sig.wrapping_add(mix(k as u64));
                    if cov[k] == 0 {
                        cov[k] = 1;
                        self.new_edges += 1;
                        self.edges += 1;
                    }
                }
            }
        }
        self.sig = mix(self.sig ^ sig);
        self.stats.switches += h.switches;
        self.stats.statics += h.statics;
        if h.futex_waits > 0 {
            self.stats.note("lock_waits", h.futex_waits);
        }
        for ((_, _, c), r) in plan.calls().iter().zip(&h.calls) {
            self.stats.calls += 1;
            *self.stats.by_fn.entry(fmt::name(c.f)).or_default() += 1;
            *self.stats.outcome.entry(ret_name(r.ret).to_string()).or_default() += 1;
            self.sig = mix(self.sig ^ r.ret as u64);
            self.event = mix(self.event ^ r.ret as u64 ^ r.hash ^ r.steps << 7 ^ r.begin << 20 ^ r.end << 33 ^ r.changed << 50);
        }
        for s in &h.sched {
            self.event = mix(self.event ^ s.at ^ (s.to as u64) << 50 ^ (s.stall as u64) << 60);
        }
        if let Some(l) = &mut self.log {
            l.push(format!("run in build {} with {} thread(s), {} schedule decision(s)", self.suts[v].name, plan.threads.len(), h.sched.len()));
            for s in &h.sched {
                l.push(format!("  clock {}: {} thread {}", s.at, if s.stall { "stall, go on with" } else { "switch to" }, s.to));
            }
            for d in describe(plan, &h) {
                l.push(format!("  {}", d));
            }
            if h.sig != 0 {
                l.push(format!("  signal {} at {:#x}", h.sig, h.addr));
            }
        }
        h
    }
    pub fn count_faults(&mut self, plan: &Plan) -> u64 {
        let mut fired = 0;
        for o in &plan.objs {
            let mut d = o.base.clone();
            for f in &o.faults {
                if f.apply(&mut d, &plan.objs) {
                    self.stats.fault(FAULT_KINDS[f.kind()], 1);
                    fired += 1;
                }
            }
        }
        for ops in &plan.threads {
            for op in ops {
                match op {
                    Op::Hit { fault, .. } => {
                        self.stats.fault(FAULT_KINDS[fault.kind()], 1);
                        fired += 1;
                    }
                    Op::Heal { .. } => self.stats.fault("heal_in_place", 1),
                    Op::Reload { .. } => self.stats.fault("buffer_reuse", 1),
                    _ => {}
                }
            }
        }
        fired
    }
    /// the call alone in a fresh process
    pub fn solo(&mut self, v: usize, c: &Call, content: &[u8]) -> CallRes {
        let mut c = c.clone();
        c.slot = 0;
        c.obj = 0;
        c.times = 1;
        if fmt::class(c.f) != Class::Block {
            c.fill = Some(0x5eed);
        }
        let mut key = hash_bytes(v as u64, content);
        for x in [c.f as usize, c.off, c.len, c.w, c.h, c.bw, c.bh, c.img, c.fill.unwrap_or(0) as usize] {
            key = mix(key ^ x as u64);
        }
        if let Some(r) = self.memo.get(&(key, content.len())) {
            self.event = mix(self.event ^ r.1);
            return r.0.clone();
        }
        let mut p = Plan::new("solo", 0);
        p.objs.push(Obj::new(content.to_vec(), "stored"));
        p.heap_fill = 0;
        p.threads = vec![vec![Op::Call(c)]];
        let sig = self.sig;
        let h = self.run(v, &p, &Opts::default());
        self.sig = sig;
        let r = h.calls[0].clone();
        if self.memo.len() > 600 {
            self.memo.clear();
        }
        self.memo.insert((key, content.len()), (r.clone(), mix(r.hash ^ r.steps)));
        r
    }
    fn solos(&mut self, v: usize, plan: &Plan) -> Vec<CallRes> {
        let contents = plan.contents_at_calls();
        plan.calls().iter().zip(contents).map(|((_, _, c), d)| self.solo(v, c, &d)).collect()
    }
}

pub const PROPS: [&str; 15] =
    ["S01", "S02", "S03", "F01", "F02", "F03", "F04", "F05", "F06", "F07", "C01", "C02", "D01", "D02", "A01"];

// ------------------------------------------------------------------ generation

pub fn rate_case(rng: &mut Rng, w: &World, legal: bool) -> (Obj, Call) {
    let (f, bw, bh) = gen::rate_fn(rng, legal);
    let (x, y) = gen::dims(rng, f, bw, bh);
    let o = gen::fixed_obj(f, bw, bh, x, y, rng, w);
    let c = gen::call(f, 0, x, y, bw, bh, x * y, gen::fill(rng));
    (o, c)
}

/// an image of 2^18 to 2^22 texels
fn large_case(rng: &mut Rng, w: &World) -> (Obj, Call) {
    let (f, bw, bh) = if rng.chance(40) { gen::pvrtc_fn(rng) } else { gen::rate_fn(rng, true) };
    let (x, y) = fmt::block_dims(f, bw, bh).unwrap_or((4, 4));
    let most = ((1usize << 21) / (x * y)).min(68_000);
    let (gx, gy) = if fmt::class(f) == Class::Pvrtc {
        let (a, b) = rng.pick(&[(7, 7), (8, 7), (8, 8), (8, 8), (9, 8), (14, 3)]);
        if rng.chance(50) { (1 << a, 1 << b) } else { (1 << b, 1 << a) }
    } else {
        let gx = 1 + (rng.idx(most) >> rng.idx(16));
        (gx, most / gx)
    };
    let (iw, ih) = (gx * x - rng.idx(x), gy * y - rng.idx(y));
    let o = Obj::new(gen::blocks(f, bw, bh, gx * gy, rng, w), &format!("{} {}x{}", fmt::name(f), iw, ih));
    let c = gen::call(f, 0, iw, ih, bw, bh, iw * ih, gen::fill(rng));
    (o, c)
}

pub fn crn_case(rng: &mut Rng, w: &World, real: u64) -> (Obj, Call) {
    bad_crn_case(rng, w, real, 0)
}

/// `bad`: percent chance of code tables that do not fit
pub fn bad_crn_case(rng: &mut Rng, w: &World, real: u64, bad: u64) -> (Obj, Call) {
    let (f, o) = gen::crn_obj(rng, w, real, bad);
    let (cw, ch, ..) = crn::head(&o.base);
    let (x, y) = match rng.below(6) {
        0 => (rng.range(1, cw), rng.range(1, ch)),
        1 => (cw.div_ceil(4) * 4, ch.div_ceil(4) * 4),
        _ => (cw, ch),
    };
    let c = gen::call(f, 0, x, y, 0, 0, x * y, gen::fill(rng));
    (o, c)
}

fn info_call(rng: &mut Rng, obj: usize) -> Call {
    gen::call(42, obj, 0, 0, 0, 0, 9, gen::fill(rng))
}

/// the same texture, damaged
pub fn damage(rng: &mut Rng, o: &mut Obj, crunch: bool, unit: usize, others: usize, max: usize) {
    let whole = o.what.contains("_block");
    for _ in 0..rng.range(1, max) {
        let f = if crunch { gen::crn_fault(rng, &o.base, others) } else { gen::fault(rng, o.base.len(), unit, others) };
        // a block decoder must be given a whole block
        if !(whole && matches!(f, Fault::Truncate { .. })) {
            o.faults.push(f);
        }
    }
}

fn any_case(rng: &mut Rng, w: &World, crunch: u64) -> (Obj, Call) {
    if rng.chance(crunch) {
        crn_case(rng, w, 3)
    } else {
        rate_case(rng, w, true)
    }
}

fn block_case(rng: &mut Rng, w: &World) -> (Obj, Call) {
    let f = rng.pick(&fmt::BLOCKS);
    let (bw, bh) = match f {
        80 => {
            if rng.chance(80) {
                rng.pick(&fmt::ASTC_SIZES)
            } else {
                (rng.range(2, 12), rng.range(2, 12))
            }
        }
        81 => (rng.idx(2), 0),
        82 | 83 => (rng.idx(4), 0),
        _ => (0, 0),
    };
    let (x, y) = fmt::block_dims(f, bw, bh).unwrap();
    let mut d = gen::block(f, bw, bh, rng, w);
    if rng.chance(30) {
        let n = rng.range(1, 40);
        d.extend(rng.bytes(n));
    }
    let o = Obj::new(d, fmt::name(f));
    let img = x * y + if rng.chance(30) { rng.range(1, 40) } else { 0 };
    (o, gen::call(f, 0, 0, 0, bw, bh, img, gen::fill(rng)))
}

/// arguments that do not fit each other
pub fn mismatch(rng: &mut Rng, o: &Obj, c: &mut Call) {
    let n = o.base.len();
    match rng.below(10) {
        0 => c.w = gen::odd_size(rng),
        1 => c.h = gen::odd_size(rng),
        2 => {
            c.w = gen::odd_size(rng);
            c.h = gen::odd_size(rng);
        }
        3 => c.img = gen::near(rng, c.img),
        4 => c.img = rng.idx(c.img + 1),
        5 => c.len = rng.idx(n + 1),
        6 => c.len = gen::near(rng, n),
        7 => {
            c.w = gen::near(rng, c.w);
            c.h = gen::near(rng, c.h);
        }
        8 => {
            c.len = 0;
            c.img = if rng.chance(50) { 0 } else { c.img };
            if rng.chance(50) {
                c.w = 0;
            }
            if rng.chance(50) {
                c.h = gen::odd_size(rng);
            }
        }
        _ => std::mem::swap(&mut c.w, &mut c.h),
    }
    if c.f == 35 && rng.chance(20) {
        c.bw = gen::odd_size(rng);
    }
    c.img = c.img.min(1 << 20);
}

fn many_blocks(rng: &mut Rng, w: &World) -> (Obj, Call) {
    let (f, bw, bh) = gen::rate_fn(rng, true);
    let (x, y) = fmt::block_dims(f, bw, bh).unwrap();
    let (gx, gy) = if fmt::class(f) == Class::Pvrtc {
        (1 << rng.range(2, 4), 1 << rng.range(2, 4))
    } else {
        (rng.range(6, 16), rng.range(4, 12))
    };
    let (iw, ih) = (gx * x, gy * y);
    let mut o = gen::fixed_obj(f, bw, bh, iw, ih, rng, w);
    o.at_end = rng.chance(80);
    o.shift = rng.idx(9);
    (o, gen::call(f, 0, iw, ih, bw, bh, iw * ih, gen::fill(rng)))
}

fn f01(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "chk", "chk", "chk", "rel", "nchk", "nrel"]).to_string();
    let (mut o, mut c) = match rng.below(10) {
        0 | 1 => block_case(rng, w),
        2 | 3 => rate_case(rng, w, false),
        _ => many_blocks(rng, w),
    };
    if fmt::class(c.f) != Class::Block {
        if rng.chance(60) {
            damage(rng, &mut o, false, fmt::block_bytes(c.f), 1, 4);
        }
        if rng.chance(30) {
            mismatch(rng, &o, &mut c);
            if rng.chance(30) {
                mismatch(rng, &o, &mut c);
            }
        }
    } else if rng.chance(50) {
        for _ in 0..rng.range(1, 3) {
            o.faults.push(Fault::BitFlip { off: rng.idx(fmt::block_bytes(c.f)), bit: rng.below(8) as u8 });
        }
    }
    o.at_end = rng.chance(80);
    o.shift = rng.idx(9);
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
}

fn f02(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "chk", "rel"]).to_string();
    let (mut o, mut c) = bad_crn_case(rng, w, 3, 20);
    let tables = o.what.ends_with("tables");
    if rng.chance(2) {
        let n = rng.range(0, 300);
        o.base = rng.bytes(n);
        if n > 2 && rng.chance(80) {
            o.base[0] = b'H';
            o.base[1] = b'x';
        }
    }
    if rng.chance(if tables { 30 } else { 90 }) {
        damage(rng, &mut o, true, 16, 1, 4);
    }
    if rng.chance(15) {
        mismatch(rng, &o, &mut c);
    }
    if rng.chance(10) {
        c.f = 81 - c.f;
    }
    o.at_end = rng.chance(80);
    o.shift = rng.idx(9);
    p.objs.push(o);
    let i = info_call(rng, 0);
    // sometimes the caller states another size than the slice has
    let w = if rng.chance(12) { gen::odd_size(rng) as u32 as usize } else { 0 };
    p.threads[0].push(Op::Call(Call { slot: 1, len: c.len, w, ..i }));
    p.threads[0].push(Op::Call(c));
}

/// some objects elsewhere in their pages
fn place(rng: &mut Rng, p: &mut Plan) {
    for o in &mut p.objs {
        if rng.chance(30) {
            o.at_end = false;
            o.shift = rng.idx(17);
        }
    }
}

/// a small texture before and after more blocks than 16 bits can count
fn flood(rng: &mut Rng, cx: &mut Ctx, p: &mut Plan) {
    let (o, mut c) = any_case(rng, &cx.world, 10);
    let f = rng.range(0, 18) as u32;
    let rows = rng.range(256, 270);
    let (x, y) = if rng.chance(50) { (1024, 4 * rows) } else { (4 * rows, 1024) };
    let big = gen::fixed_obj(f, 0, 0, x, y, rng, &cx.world);
    let mut a = gen::call(f, 1, x, y, 0, 0, x * y, gen::fill(rng));
    a.slot = 1;
    c.obj = 0;
    c.fill = Some(gen::fill(rng));
    p.objs = vec![o, big];
    p.threads = vec![vec![Op::Call(c.clone()), Op::Call(a), Op::Call(c)]];
}

/// the same call more often than 16 bits can count
fn again(rng: &mut Rng, cx: &mut Ctx, p: &mut Plan) {
    let n = rng.range(65_600, 70_000);
    for _ in 0..20 {
        let (o, mut c) = match rng.below(3) {
            0 => block_case(rng, &cx.world),
            1 => bad_crn_case(rng, &cx.world, 1, 3),
            _ => any_case(rng, &cx.world, 10),
        };
        c.obj = 0;
        c.fill = Some(gen::fill(rng));
        if c.img > 4096 {
            continue;
        }
        let v = cx.sut(&p.variant).unwrap_or(0);
        p.objs = vec![o];
        let steps = cx.solo(v, &c, &p.stored(&p.objs[0].clone())).steps;
        c.times = n.min(400_000_000 / (steps + 60) as usize);
        p.threads = vec![vec![Op::Call(c)]];
        if steps < 4000 {
            break;
        }
    }
}

fn s01(rng: &mut Rng, cx: &mut Ctx, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel"]).to_string();
    let w = &cx.world;
    let nobj = rng.range(1, 3);
    let mut pool: Vec<Call> = vec![];
    let mode = rng.below(6);
    for i in 0..nobj {
        let (mut o, mut c) = match mode {
            0 | 1 => bad_crn_case(rng, w, 1, 4),
            2 => {
                if i == 0 || rng.chance(30) {
                    rate_case(rng, w, true)
                } else {
                    // the same decoder on different data
                    let k: &Call = &pool[0];
                    let (x, y) = gen::dims(rng, k.f, k.bw, k.bh);
                    if fmt::class(k.f) == Class::Crunch || fmt::class(k.f) == Class::Unity {
                        crn_case(rng, w, 1)
                    } else {
                        let o = gen::fixed_obj(k.f, k.bw, k.bh, x, y, rng, w);
                        (o, gen::call(k.f, 0, x, y, k.bw, k.bh, x * y, 0))
                    }
                }
            }
            3 => block_case(rng, w),
            _ => any_case(rng, w, 25),
        };
        let crunch = matches!(c.f, 40 | 41);
        if rng.chance(25) {
            damage(rng, &mut o, crunch, fmt::block_bytes(c.f), nobj, 2);
        }
        c.obj = i;
        p.objs.push(o);
        pool.push(c);
    }
    let n = rng.pick(&[2, 2, 2, 3, 4]);
    let each = rng.pick(&[1, 1, 2, 3, 5]);
    let (n, each) = if pool.iter().any(|c| c.w * c.h > 20000) { (2, each.min(2)) } else { (n, each) };
    p.threads = (0..n)
        .map(|t| {
            (0..rng.range(1, each))
                .map(|_| {
                    let mut c = rng.pick(&(0..pool.len()).collect::<Vec<_>>());
                    if rng.chance(50) {
                        c = 0;
                    }
                    let mut c = pool[c].clone();
                    if matches!(c.f, 40 | 41) && rng.chance(12) {
                        c = info_call(rng, c.obj);
                    }
                    c.slot = t;
                    c.fill = Some(gen::fill(rng));
                    if rng.chance(5) && fmt::class(c.f) != Class::Block {
                        c.img = c.img.saturating_sub(1);
                    }
                    Op::Call(c)
                })
                .collect()
        })
        .collect();
    p.first = rng.idx(n);
    if let Some(v) = cx.sut(&p.variant) {
        let solos = cx.solos(v, p);
        let total: u64 = solos.iter().map(|s| s.steps).sum::<u64>().max(2);
        let k = rng.pick(&[1, 2, 3, 4, 6, 10, 20, 40]);
        let mut at: Vec<u64> = (0..k).map(|_| 1 + rng.below(total)).collect();
        at.sort_unstable();
        p.sched = at.into_iter().map(|at| Switch { at, to: rng.idx(n), stall: false }).collect();
        if rng.chance(25) {
            let i = rng.idx(k);
            p.sched[i].stall = true;
        }
        if rng.chance(55) {
            p.race = Some((rng.pick(&[1, 3, 10, 30, 60, 100]), rng.u64() >> 4));
            if rng.chance(35) {
                p.race_stall = rng.pick(&[3, 15, 50, 100]);
            }
        }
        p.extra = vec![total];
    }
    place(rng, p);
    p.heap_fill = rng.u64() as u8;
    p.dirty_stack = rng.chance(20);
}

fn s02(rng: &mut Rng, cx: &mut Ctx, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel"]).to_string();
    match rng.below(500) {
        0 => return flood(rng, cx, p),
        1 => return again(rng, cx, p),
        _ => {}
    }
    let w = &cx.world;
    let nobj = rng.range(1, 3);
    let mut pool: Vec<Call> = vec![];
    let mode = rng.below(5);
    for i in 0..nobj {
        let (mut o, mut c) = match mode {
            0 => bad_crn_case(rng, w, 1, 6),
            1 if i > 0 => {
                // a near duplicate of the first object
                let mut o = p.objs[0].clone();
                let mut c = pool[0].clone();
                for _ in 0..rng.range(1, 2) {
                    let f = gen::fault(rng, o.base.len(), fmt::block_bytes(c.f), 1);
                    if !matches!(f, Fault::Truncate { .. } | Fault::Extend { .. }) {
                        f.apply(&mut o.base, &[]);
                    }
                }
                o.what += " with a difference";
                if rng.chance(30) && fmt::class(c.f) == Class::Fixed {
                    (c.w, c.h) = (c.h, c.w);
                    if fmt::need(c.f, c.w, c.h, c.bw, c.bh).unwrap_or(usize::MAX) > o.base.len() {
                        (c.w, c.h) = (c.h, c.w);
                    }
                }
                (o, c)
            }
            2 => block_case(rng, w),
            _ => any_case(rng, w, 30),
        };
        if rng.chance(15) {
            damage(rng, &mut o, matches!(c.f, 40 | 41), fmt::block_bytes(c.f), nobj, 2);
        }
        // the same address before and after damage, repair and reuse
        o.at_end = rng.chance(30);
        o.shift = if rng.chance(50) { rng.idx(17) } else { 0 };
        c.obj = i;
        p.objs.push(o);
        pool.push(c);
    }
    let long = rng.chance(12);
    let n = if long { rng.range(20, 300) } else { rng.range(2, 9) };
    let small = pool.iter().all(|c| c.w * c.h < 3000);
    let n = if long && !small { n / 8 + 2 } else { n };
    let n = if pool.iter().any(|c| c.w * c.h > 20000) { n.min(4) } else { n };
    let mut ops = vec![];
    let mut bad: Vec<Fault> = vec![];
    for _ in 0..n {
        let i = if rng.chance(50) { 0 } else { rng.idx(nobj) };
        let mut c = pool[i].clone();
        match rng.below(if long { 40 } else { 12 }) {
            0 | 1 => {
                let f = match bad.len() {
                    // few distinct contents keep long histories cheap
                    3.. => bad[rng.idx(bad.len())].clone(),
                    _ if matches!(c.f, 40 | 41) => gen::crn_fault(rng, &p.objs[i].base, nobj),
                    _ => gen::fault(rng, p.objs[i].base.len(), fmt::block_bytes(c.f), nobj),
                };
                bad.push(f.clone());
                ops.push(Op::Hit { obj: i, fault: f });
                if rng.chance(60) {
                    ops.push(Op::Call(c.clone()));
                    ops.push(Op::Heal { obj: i });
                }
            }
            2 => ops.push(Op::Heal { obj: i }),
            3 => ops.push(Op::Reload { obj: i, from: rng.idx(nobj) }),
            4 if fmt::class(c.f) != Class::Block => match rng.below(3) {
                0 => c.img = c.img.saturating_sub(1),
                1 => c.len = p.objs[i].base.len().saturating_sub(rng.range(1, 16)),
                _ => {
                    c.w += 1;
                }
            },
            5 if matches!(c.f, 40 | 41) => c = info_call(rng, i),
            6 if fmt::class(c.f) == Class::Fixed => {
                // another format on the same bytes
                let d = pool[rng.idx(pool.len())].clone();
                if fmt::class(d.f) == Class::Fixed {
                    c = Call { obj: i, ..d };
                }
            }
            _ => {}
        }
        c.fill = if rng.chance(30) && fmt::class(c.f) != Class::Block { None } else { Some(gen::fill(rng)) };
        if c.f >= 60 && !long {
            c.fill = Some(gen::fill(rng));
        } else if c.f >= 60 {
            c.fill = Some(7);
        }
        ops.push(Op::Call(c));
        if ops.iter().filter(|o| matches!(o, Op::Call(_))).count() > MAX_CALLS - 4 {
            break;
        }
    }
    // block decoders get damage in place only: their data must not become shorter than a block
    if pool.iter().any(|c| c.f >= 60) {
        ops.retain(|o| !matches!(o, Op::Hit { fault: Fault::Truncate { .. }, .. } | Op::Reload { .. }));
    }
    p.threads = vec![ops];
    if rng.chance(15) {
        // a call that never finishes
        let mut c = pool[rng.idx(pool.len())].clone();
        c.slot = 1;
        c.fill = Some(gen::fill(rng));
        let v = cx.sut(&p.variant).unwrap_or(0);
        let d = p.stored(&p.objs[c.obj].clone());
        let s = cx.solo(v, &c, &d);
        if s.steps > 2 {
            p.threads.push(vec![Op::Call(c)]);
            p.first = 1;
            p.sched = vec![Switch { at: 1 + rng.below(s.steps - 1), to: 0, stall: true }];
        }
    }
    if rng.chance(30) {
        p.img_shift = rng.idx(9);
    }
    p.heap_fill = rng.u64() as u8;
    p.dirty_stack = rng.chance(30);
}

fn s03(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "rel"]).to_string();
    let (mut o, c) = match rng.below(8) {
        0 => many_blocks(rng, w),
        1..=3 => bad_crn_case(rng, w, 2, 10),
        _ => rate_case(rng, w, true),
    };
    let crunch = matches!(c.f, 40 | 41);
    if rng.chance(30) {
        damage(rng, &mut o, crunch, fmt::block_bytes(c.f), 1, 3);
    }
    let mut c2 = c.clone();
    if rng.chance(20) {
        // an image with a margin
        c2.img += rng.range(1, 30);
    }
    if rng.chance(25) {
        // a call that fails or decodes another size leaves its marks in the image first
        let mut e = c.clone();
        mismatch(rng, &o, &mut e);
        e.img = e.img.min(c2.img);
        p.threads[0].push(Op::Call(e));
    }
    p.objs.push(o);
    p.threads[0].push(Op::Call(c2));
    place(rng, p);
    p.heap_fill = rng.u64() as u8;
    p.dirty_stack = rng.chance(30);
}

fn f04(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel", "nchk"]).to_string();
    let (mut o, mut c) = if rng.chance(45) { bad_crn_case(rng, w, 2, 15) } else { rate_case(rng, w, true) };
    let crunch = matches!(c.f, 40 | 41);
    if crunch {
        p.variant = rng.pick(&["chk", "rel"]).to_string();
        if rng.chance(if o.what.ends_with("tables") { 20 } else { 70 }) {
            damage(rng, &mut o, true, 16, 1, 3);
        } else {
            // bigger than the container
            c.w += rng.range(0, 9);
            c.h += rng.range(0, 9);
            c.img = c.w * c.h;
        }
    } else if rng.chance(20) {
        damage(rng, &mut o, false, 16, 1, 2);
    }
    match rng.below(5) {
        0 if crunch => {}
        0 | 1 => c.len = o.base.len().saturating_sub(rng.range(1, 1 + o.base.len().min(40))),
        2 => c.img = c.img.saturating_sub(rng.range(1, 1 + c.img.min(40))),
        3 => mismatch(rng, &o, &mut c),
        _ => {
            if fmt::class(c.f) == Class::Pvrtc {
                let (x, y) = (rng.range(1, 60), rng.range(1, 60));
                (c.w, c.h, c.img) = (x, y, x * y);
            } else {
                c.w += rng.range(1, 13);
                c.img = c.w.saturating_mul(c.h).min(1 << 20);
            }
        }
    }
    if rng.chance(30) {
        c.img += rng.range(1, 50);
    }
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
}

fn f05(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel", "nchk"]).to_string();
    let (mut o, mut c) = match rng.below(10) {
        0 => many_blocks(rng, w),
        1..=3 => crn_case(rng, w, 3),
        _ => rate_case(rng, w, true),
    };
    let crunch = matches!(c.f, 40 | 41);
    if crunch {
        p.variant = rng.pick(&["chk", "rel"]).to_string();
    } else {
        if rng.chance(30) {
            // damage, but no byte more or less than the image needs
            damage(rng, &mut o, false, fmt::block_bytes(c.f), 1, 3);
            o.faults.retain(|f| !matches!(f, Fault::Truncate { .. } | Fault::Extend { .. }));
        }
        // sometimes a smaller image from the same data: the rest belongs to others
        if rng.chance(25) && fmt::class(c.f) != Class::Pvrtc {
            c.w = rng.range(1, c.w);
            c.h = rng.range(1, c.h);
        }
        if rng.chance(5) {
            if rng.chance(50) {
                c.w = 0;
            } else {
                c.h = 0;
            }
        }
    }
    c.img = c.w * c.h
        + match rng.below(5) {
            0 => 0,
            1 => 1,
            2 => rng.range(1, 16),
            3 => c.w * rng.range(1, 5),
            _ => rng.range(1, 400),
        };
    o.at_end = true;
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
    if rng.below(60) == 0 {
        // more than 32 bits can count, in all or behind
        let have = p.objs[0].base.len();
        let (a, b) = (rng.idx(1 << 20), rng.idx(1 << 32));
        p.objs[0].tail = (1 << 32) - have + rng.pick(&[0, 1, have / 2, have, 100, a, b]);
    }
    // how the tail goes on
    p.extra = vec![rng.pick(&[1, 3, 8, 15, 16, 17, 64, 300, 5000]), rng.u64() >> 8 | 4, rng.u64() >> 8 | 4];
}

fn f06(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel", "nchk", "nrel"]).to_string();
    if rng.chance(30) {
        p.variant = rng.pick(&["chk", "rel"]).to_string();
        let (mut o, c) = crn_case(rng, w, 6);
        let n = o.base.len();
        match rng.below(9) {
            0 => {}
            1 => o.faults.push(Fault::Truncate { len: n - 1 }),
            2 => o.faults.push(Fault::Truncate { len: rng.idx(120.min(n)) }),
            3 => o.faults.push(Fault::Truncate { len: n.saturating_sub(rng.range(1, 20)) }),
            4 => {
                let (a, b) = crn::level(&o.base, 0);
                o.faults.push(Fault::Truncate { len: rng.range(a.min(n - 1), b.min(n - 1).max(a.min(n - 1))) })
            }
            5 => o.faults.push(Fault::Truncate { len: rng.idx(n / 512 + 1) * 512 }),
            _ => o.faults.push(Fault::Truncate { len: rng.idx(n) }),
        }
        if let Some(Fault::Truncate { len }) = o.faults.first() {
            if *len >= n {
                o.faults.clear();
            }
        }
        let (cw, ch, ..) = crn::head(&o.base);
        let mut c = Call { w: cw, h: ch, img: cw * ch, ..c };
        let mut i = info_call(rng, 0);
        if o.faults.is_empty() && p.prop == "F06" && rng.chance(30) {
            // a large container, sometimes cut off
            let room = 1 << rng.range(12, 32);
            if let Some((d, tail, late)) = crn::spread(rng, &o.base, room) {
                let n = d.len() + tail;
                o.base = d;
                (o.tail, o.late) = (tail, if tail > 0 { late } else { 0 });
                if rng.chance(60) {
                    let k = n >> rng.idx(n.ilog2() as usize + 1);
                    c.len = n - 1 - rng.idx(k);
                    i.len = c.len;
                }
            }
        }
        p.objs.push(o);
        let w = if rng.chance(20) { rng.pick(&[n - 1, n / 2, n, 73, 74, 75, 1, n - n.min(4)]) } else { 0 };
        p.threads[0].push(Op::Call(Call { slot: 1, w, ..i }));
        p.threads[0].push(Op::Call(c));
        return;
    }
    let (o, mut c) = rate_case(rng, w, true);
    let need = o.base.len();
    let bb = fmt::block_bytes(c.f);
    let short = |rng: &mut Rng, n: usize, unit: usize| match rng.below(7) {
        0 => n - 1,
        1 => n.saturating_sub(unit),
        2 => n.saturating_sub(rng.range(1, unit)),
        3 => rng.idx(n),
        4 => n / 2,
        5 => n / 8,
        _ => n.saturating_sub(unit * rng.range(1, 5)),
    };
    match rng.below(8) {
        0 | 1 => {}
        2 | 3 => c.len = short(rng, need, bb),
        4 => {
            let u = c.w;
            c.img = short(rng, c.img, u)
        }
        5 => {
            let wide = c.w;
            c.len = short(rng, need, bb);
            c.img = short(rng, c.img, wide);
        }
        6 => {
            if rng.chance(50) {
                c.w = 0;
            } else {
                c.h = 0;
            }
            if rng.chance(70) {
                c.len = 0;
            }
            if rng.chance(50) {
                c.img = 0;
            }
            if rng.chance(20) {
                c.w = if c.w == 0 { 0 } else { gen::odd_size(rng) };
            }
        }
        _ => {
            if rng.chance(70) {
                c.w = gen::odd_size(rng);
            }
            if rng.chance(70) {
                c.h = gen::odd_size(rng);
            }
            c.img = c.w.saturating_mul(c.h).min(1 << 16);
        }
    }
    if rng.chance(15) {
        c.img += rng.range(1, 9);
    }
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
}

/// sizes of 2^16 to 2^23 texels, exact or short by little; zeros after the first blocks
fn f06_large(rng: &mut Rng, w: &World, p: &mut Plan) {
    let (f, bw, bh) = gen::rate_fn(rng, true);
    let (x, y) = fmt::block_dims(f, bw, bh).unwrap_or((4, 4));
    let exact = rng.chance(25);
    let log = rng.range(12, if exact { 17 } else { 20 });
    // blocks: a power of two in each direction for PVRTC
    let a = rng.idx(log + 1);
    let (mut gx, mut gy) = (1usize << a, 1usize << (log - a));
    let pvrtc = fmt::class(f) == Class::Pvrtc;
    if !pvrtc {
        gx += rng.idx(gx.div_ceil(2));
        gy += rng.idx(gy.div_ceil(4));
    }
    while gx * x * gy * y > 1 << if exact { 21 } else { 23 } {
        if gx > gy {
            gx /= 2
        } else {
            gy /= 2
        }
    }
    let (iw, ih) = (gx * x - rng.idx(x), gy * y - rng.idx(y));
    let mut o = gen::fixed_obj(f, bw, bh, (4 * x).min(iw), y.min(ih), rng, w);
    let need = fmt::need(f, iw, ih, bw, bh).unwrap_or(0);
    let bb = fmt::block_bytes(f);
    let have = o.base.len();
    o.tail = need.saturating_sub(have) + rng.pick(&[0, 0, 1, bb, 4096]);
    let mut c = gen::call(f, 0, iw, ih, bw, bh, iw * ih, gen::fill(rng));
    let less = |rng: &mut Rng, n: usize, unit: usize| {
        let d = rng.pick(&[1, 1, unit, n >> 16, n >> 8, n / 2]);
        n - (1 + rng.idx(d.max(1))).min(n)
    };
    c.len = need;
    if !exact {
        if rng.chance(50) {
            c.len = less(rng, need, bb);
        } else {
            c.img = less(rng, iw * ih, iw);
        }
    }
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
}

fn f07(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "rel"]).to_string();
    if rng.chance(15) {
        let (f, mut o) = loop {
            let (f, o) = gen::crn_obj(rng, w, 4, 0);
            if crn::head(&o.base).2 > 1 {
                break (f, o);
            }
        };
        let (cw, ch, ..) = crn::head(&o.base);
        let (a, _) = crn::level(&o.base, 1);
        let n = o.base.len();
        for _ in 0..rng.range(1, 4) {
            match gen::fault(rng, n - a, 16, 1) {
                Fault::BitFlip { off, bit } => o.faults.push(Fault::BitFlip { off: a + off, bit }),
                Fault::Byte { off, val } => o.faults.push(Fault::Byte { off: a + off, val }),
                Fault::Sector { off, len, kind } => o.faults.push(Fault::Sector { off: a + off, len, kind }),
                Fault::Torn { off, kind } => o.faults.push(Fault::Torn { off: a + off, kind }),
                Fault::Swap { a: x, b: y, len } => o.faults.push(Fault::Swap { a: a + x, b: a + y, len }),
                Fault::Misdirect { src, dst, len } => {
                    o.faults.push(Fault::Misdirect { src: a + src, dst: a + dst, len })
                }
                _ => o.faults.push(Fault::BitFlip { off: a + rng.idx(n - a), bit: rng.below(8) as u8 }),
            }
        }
        p.objs.push(o);
        p.threads[0].push(Op::Call(gen::call(f, 0, cw, ch, 0, 0, cw * ch, gen::fill(rng))));
        return;
    }
    let (mut o, c) = if rng.chance(15) { many_blocks(rng, w) } else { rate_case(rng, w, true) };
    if fmt::class(c.f) == Class::Pvrtc && rng.chance(30) {
        p.variant = rng.pick(&["nchk", "nrel"]).to_string();
    }
    damage(rng, &mut o, false, fmt::block_bytes(c.f), 1, 3);
    o.faults.retain(|f| !matches!(f, Fault::Truncate { .. } | Fault::Extend { .. }));
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
    p.extra = vec![rng.u64() >> 4];
}

fn c01(rng: &mut Rng, cx: &mut Ctx, p: &mut Plan) {
    match rng.below(10) {
        0..=4 => f01(rng, &cx.world, p),
        5..=7 => f02(rng, &cx.world, p),
        8 => f06(rng, &cx.world, p),
        _ => f05(rng, &cx.world, p),
    }
    p.extra.clear();
    p.variant = "all".to_string();
    p.heap_fill = rng.u64() as u8;
    p.dirty_stack = rng.chance(30);
}

fn c02(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel", "nchk", "nrel"]).to_string();
    let kind = rng.below(11);
    if kind < 2 {
        // what the header says
        p.variant = rng.pick(&["chk", "rel"]).to_string();
        let (mut o, _) = crn_case(rng, w, 8);
        if rng.chance(50) {
            damage(rng, &mut o, true, 16, 1, 2);
        }
        o.at_end = rng.chance(50);
        p.objs.push(o);
        let c = info_call(rng, 0);
        p.threads[0].push(Op::Call(c));
        return;
    }
    if kind < 4 {
        // the same container in another order
        p.variant = rng.pick(&["chk", "rel"]).to_string();
        let (mut o, mut c) = bad_crn_case(rng, w, 4, 10);
        if rng.chance(40) {
            // damage behind the header
            let n = 70 + 4 * crn::head(&o.base).2;
            for _ in 0..rng.range(1, 3) {
                match crn::level(&o.base, 0).0 {
                    a if a > n && rng.chance(60) => {
                        o.faults.push(Fault::BitFlip { off: rng.range(n, a), bit: rng.below(8) as u8 })
                    }
                    _ => o.faults.push(Fault::Byte { off: rng.range(n, o.base.len()), val: rng.u64() as u8 }),
                }
            }
        }
        o.base = p.stored(&o);
        o.faults.clear();
        let room = if rng.below(12) == 0 { 1 << rng.range(12, 32) } else { 0 };
        if let Some((d, tail, late)) = crn::spread(rng, &o.base, room) {
            c.fill = Some(gen::fill(rng));
            let mut b = c.clone();
            (b.obj, b.slot) = (1, 1);
            let mut o2 = Obj::new(d, "the same container with its sections moved");
            (o2.tail, o2.late) = (tail, if tail > 0 { late } else { 0 });
            p.objs = vec![o, o2];
            p.threads[0] = vec![Op::Call(c), Op::Call(b)];
        }
        return;
    }
    let (mut o, a, b) = match kind {
        4 | 5 => {
            // a block decoder and a one-block image, or the parts of a block
            let (mut o, mut a) = block_case(rng, w);
            if a.f == 80 && !((4..=12).contains(&a.bw) && (4..=12).contains(&a.bh)) {
                (a.bw, a.bh) = rng.pick(&fmt::ASTC_SIZES);
                o.base = gen::block(80, a.bw, a.bh, rng, w);
            }
            let (x, y) = fmt::block_dims(a.f, a.bw, a.bh).unwrap();
            a.fill = Some(BLACK);
            a.img = x * y;
            let like = a.clone();
            let eac = |c: u32, off: usize, ch: usize| Call { f: c, off, bw: ch, ..like.clone() };
            let b = match a.f {
                75 | 76 if rng.chance(30) => vec![eac(a.f + 7, 0, 2)],
                77 | 78 if rng.chance(30) => vec![eac(a.f + 5, 0, 2), eac(a.f + 5, 8, 1)],
                82 | 83 => {
                    a.bw = 2;
                    vec![Call { f: a.f - 67, w: x, h: y, bw: 0, ..a.clone() }]
                }
                74 if rng.chance(30) => vec![eac(72, 8, 0), eac(79, 0, 0)],
                79 => {
                    a.f = 74;
                    o.base = gen::block(74, 0, 0, rng, w);
                    vec![eac(72, 8, 0), eac(79, 0, 0)]
                }
                80 => vec![Call { f: 35, w: x, h: y, ..a.clone() }],
                81 => vec![Call { f: 36, w: x, h: y, ..a.clone() }],
                f => vec![Call { f: f - 60, w: x, h: y, ..a.clone() }],
            };
            (o, a, b)
        }
        _ => {
            let (f, bw, bh) = match rng.below(5) {
                0 => (rng.pick(&[8, 9]), 0, 0),
                1 => (rng.pick(&[19, 20]), 0, 0),
                _ => (rng.range(21, 34) as u32, 0, 0),
            };
            let (x, y) = gen::dims(rng, f, bw, bh);
            let mut o = gen::fixed_obj(f, bw, bh, x, y, rng, w);
            let mut a = gen::call(f, 0, x, y, bw, bh, x * y, gen::fill(rng));
            if rng.chance(35) {
                damage(rng, &mut o, false, fmt::block_bytes(f), 1, 3);
            }
            if rng.chance(20) {
                mismatch(rng, &o, &mut a);
            }
            let g = match f {
                8 | 9 => (36, (f == 8) as usize, 0),
                19 | 20 => (37, (f == 19) as usize, 0),
                _ => {
                    let (i, j) = fmt::ASTC_SIZES[f as usize - 21];
                    (35, i, j)
                }
            };
            let b = Call { f: g.0, bw: g.1, bh: g.2, ..a.clone() };
            (o, a, vec![b])
        }
    };
    o.at_end = rng.chance(60);
    o.shift = rng.idx(9);
    p.objs.push(o);
    p.threads[0].push(Op::Call(a));
    for (i, mut c) in b.into_iter().enumerate() {
        c.slot = 1;
        if i > 0 {
            c.fill = None;
        }
        p.threads[0].push(Op::Call(c));
    }
}

/// blocks and images in the sizes the formats have
fn d01(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel", "nchk", "nrel"]).to_string();
    let (mut o, mut c) = match rng.below(10) {
        4 if rng.below(600) == 0 => {
            p.variant = rng.pick(&["rel", "nrel"]).to_string();
            large_case(rng, w)
        }
        0..=3 => block_case(rng, w),
        4 | 5 => rate_case(rng, w, true),
        _ => many_blocks(rng, w),
    };
    if fmt::class(c.f) == Class::Block {
        if c.f == 80 && !((4..=12).contains(&c.bw) && (4..=12).contains(&c.bh)) {
            (c.bw, c.bh) = rng.pick(&fmt::ASTC_SIZES);
            o.base = gen::block(80, c.bw, c.bh, rng, w);
            c.img = c.bw * c.bh;
        }
        // some block decoders only write their channels
        c.fill = Some(BLACK);
        if rng.chance(40) {
            for _ in 0..rng.range(1, 3) {
                o.faults.push(Fault::BitFlip { off: rng.idx(fmt::block_bytes(c.f)), bit: rng.below(8) as u8 });
            }
        }
    } else {
        if rng.chance(50) {
            damage(rng, &mut o, false, fmt::block_bytes(c.f), 1, 4);
        }
        if rng.chance(15) {
            mismatch(rng, &o, &mut c);
        }
    }
    o.at_end = rng.chance(60);
    o.shift = rng.idx(9);
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
}

/// containers of all formats
fn d02(rng: &mut Rng, w: &World, p: &mut Plan) {
    p.variant = rng.pick(&["chk", "chk", "rel"]).to_string();
    let bad = rng.pick(&[0, 0, 0, 10]);
    let (mut o, mut c) = bad_crn_case(rng, w, 2, bad);
    (c.w, c.h, ..) = crn::head(&o.base);
    c.img = c.w * c.h;
    if rng.chance(8) {
        damage(rng, &mut o, true, 16, 1, 3);
    } else if rng.chance(40) {
        // behind the header, most of it still means something
        let n = o.base.len();
        let a = (70 + 4 * crn::head(&o.base).2).min(n - 1);
        for _ in 0..rng.range(1, 3) {
            let off = rng.range(a, n - 1);
            o.faults.push(match rng.below(3) {
                0 => Fault::Byte { off, val: rng.u64() as u8 },
                _ => Fault::BitFlip { off, bit: rng.below(8) as u8 },
            });
        }
    } else if rng.chance(20) {
        let room = if rng.below(20) == 0 { 1 << rng.pick(&[13, 17, 20, 24, 25]) } else { 0 };
        if let Some((d, tail, late)) = crn::spread(rng, &o.base, room) {
            o.base = d;
            (o.tail, o.late) = (tail, if tail > 0 { late } else { 0 });
        }
    } else if rng.chance(8) && crn::head(&o.base).2 > 1 {
        // the second level begins inside the first, which ends there
        let (a, b) = crn::level(&o.base, 0);
        o.faults.push(Fault::Field { off: 74, len: 4, val: rng.range(a + 1, b.max(a + 2)) as u64 });
    }
    o.at_end = rng.chance(60);
    o.shift = rng.idx(9);
    p.objs.push(o);
    p.threads[0].push(Op::Call(c));
}

/// small calls for a simulated machine
fn c03(rng: &mut Rng, w: &World, p: &mut Plan) {
    match rng.below(10) {
        0..=3 => f01(rng, w, p),
        4..=6 => f02(rng, w, p),
        7 => f06(rng, w, p),
        _ => {
            let (mut o, mut c) = if rng.chance(70) { block_case(rng, w) } else { rate_case(rng, w, true) };
            if rng.chance(60) {
                let bb = fmt::block_bytes(c.f).max(8);
                damage(rng, &mut o, false, bb, 1, 3);
            }
            c.fill = Some(gen::fill(rng));
            p.objs.push(o);
            p.threads[0].push(Op::Call(c));
        }
    }
    p.extra.clear();
    for t in &mut p.threads {
        for op in t {
            if let Op::Call(c) = op {
                // most images are small, so that many fit into the time
                if c.img == c.w.saturating_mul(c.h) && c.img > 600 && rng.chance(80) && !matches!(fmt::class(c.f), Class::Pvrtc) {
                    c.w = c.w.min(rng.range(1, 24));
                    c.h = c.h.min(rng.range(1, 24));
                    c.img = c.w * c.h;
                }
            }
        }
    }
}

fn a01(rng: &mut Rng, w: &World, p: &mut Plan) {
    f01(rng, w, p);
    let Op::Call(c) = &p.threads[0][0] else { return };
    p.variant = match fmt::class(c.f) {
        Class::Pvrtc => rng.pick(&["nchk", "nrel"]),
        _ => rng.pick(&["chk", "rel", "nchk"]),
    }
    .to_string();
    p.alloc_fail = true;
}

fn f03(rng: &mut Rng, w: &World, p: &mut Plan) {
    if rng.below(100) == 0 {
        // a container large enough to tell linear from worse
        let unity = rng.chance(55);
        let mut s = crn::spec(rng, unity);
        (s.w, s.h) = rng.pick(&[(1024, 1024), (2048, 512), (512, 2048), (4096, 128), (128, 4096), (2048, 1024), (65535, 8), (8, 65535)]);
        s.levels = rng.range(1, 2);
        s.faces = if rng.chance(85) { 1 } else { 2 };
        let f = if s.unity { 41 } else { 40 };
        let name = format!("generated {} format {} {}x{} levels {} faces {}", fmt::name(f), s.format, s.w, s.h, s.levels, s.faces);
        let mut d = crn::container(rng, &s, 0);
        if rng.chance(30) {
            let n = rng.range(1, 8) << 16;
            d.extend(rng.bytes(n));
        }
        p.objs.push(Obj::new(d, &name));
        let img = if rng.chance(50) { 8 } else { s.w * s.h };
        p.threads[0].push(Op::Call(gen::call(f, 0, s.w, s.h, 0, 0, img, gen::fill(rng))));
        p.variant = "chk".to_string();
        return;
    }
    match rng.below(4) {
        0 => f02(rng, w, p),
        1 => f01(rng, w, p),
        2 => {
            f02(rng, w, p);
            // sizes and counts above all
            let o = &mut p.objs[0];
            for _ in 0..rng.range(1, 3) {
                let (off, len) = rng.pick(&[(12usize, 2usize), (14, 2), (17, 1), (16, 1), (39, 2), (47, 2), (55, 2), (63, 2), (36, 3), (44, 3), (52, 3), (60, 3), (65, 2), (6, 4), (70, 4), (74, 4)]);
                let max = (1u64 << (8 * len)) - 1;
                let val = rng.pick(&[0, 1, 2, 255, 256, 4095, 4096, 32767, 32768, 65535, u64::MAX]) & max;
                o.faults.push(Fault::Field { off, len, val });
            }
        }
        _ if rng.chance(8) => {
            // large enough to tell linear from worse
            let (f, bw, bh) = gen::rate_fn(rng, true);
            let (x, y) = rng.pick(&[(512, 512), (4096, 8), (8, 4096), (8, 16384), (2048, 64), (64, 1024), (1024, 128)]);
            let o = gen::fixed_obj(f, bw, bh, x, y, rng, w);
            p.threads[0].push(Op::Call(gen::call(f, 0, x, y, bw, bh, x * y, gen::fill(rng))));
            p.objs.push(o);
        }
        _ => {
            let (o, c) = if rng.chance(50) { many_blocks(rng, w) } else { any_case(rng, w, 30) };
            p.objs.push(o);
            p.threads[0].push(Op::Call(c));
        }
    }
    p.variant = "chk".to_string();
}

/// a history of calls like this one, each with a texture of its own
fn other_textures(plan: &Plan, like: &Call, w: &World) -> Plan {
    const OBJS: usize = 40;
    let mut p = Plan::new("F03", plan.seed);
    p.variant = plan.variant.clone();
    let mut rng = Rng::new(mix(plan.seed ^ 0xf03));
    let class = fmt::class(like.f);
    let mut calls = vec![];
    for obj in 0..OBJS {
        let (o, c) = if matches!(like.f, 40..=42) {
            let (f, o) = gen::crn_obj(&mut rng, w, 10, 0);
            let (cw, ch, ..) = crn::head(&o.base);
            (o, if like.f == 42 { Call { off: 0, len: ALL, ..like.clone() } } else { gen::call(f, 0, cw, ch, 0, 0, cw * ch, 0) })
        } else if like.f >= 60 {
            (Obj::new(rng.bytes(64), "a block"), Call { off: 0, len: ALL, ..like.clone() })
        } else {
            let n = if class == Class::Pvrtc { 64 } else { 90 };
            let o = gen::fixed_obj(like.f, like.bw, like.bh, n, n, &mut rng, w);
            (o, gen::call(like.f, 0, n, n, like.bw, like.bh, n * n, 0))
        };
        p.objs.push(o);
        calls.push(Call { obj, times: 1, ..c });
    }
    for k in 0..MAX_CALLS {
        let obj = k % OBJS;
        let n = p.objs[obj].base.len();
        let mut c = Call { fill: Some(gen::fill(&mut rng)), ..calls[obj].clone() };
        if k >= OBJS {
            p.threads[0].push(Op::Heal { obj });
            let fault = if matches!(like.f, 40..=42) {
                Fault::BitFlip { off: rng.idx(n), bit: rng.below(8) as u8 }
            } else {
                Fault::Sector { off: rng.idx(n.min(64)), len: n, kind: 2 + rng.below(1 << 30) }
            };
            p.threads[0].push(Op::Hit { obj, fault });
        }
        if like.f < 40 {
            let mut size = || if class == Class::Pvrtc { 1 << rng.range(3, 6) } else { rng.range(40, 90) };
            (c.w, c.h) = (size(), size());
            c.img = c.w * c.h;
        }
        p.threads[0].push(Op::Call(c));
    }
    p
}

/// Variation of a run that reached something new.
fn mutate(rng: &mut Rng, base: &Plan, seed: u64, w: &World) -> Plan {
    let mut p = base.clone();
    p.seed = seed;
    let crunch = p.calls().iter().any(|c| matches!(c.2.f, 40..=42));
    for _ in 0..rng.range(1, 3) {
        match rng.below(12) {
            0..=5 => {
                let n = p.objs.len();
                if let Some(o) = p.objs.first_mut() {
                    let blocks = base.calls().iter().any(|c| c.2.f >= 60);
                    let f = if crunch { gen::crn_fault(rng, &o.base, n) } else { gen::fault(rng, o.base.len(), 16, n) };
                    if !(blocks && matches!(f, Fault::Truncate { .. })) {
                        o.faults.push(f);
                    }
                }
            }
            6 => {
                if let Some(o) = p.objs.first_mut() {
                    if !o.faults.is_empty() {
                        let i = rng.idx(o.faults.len());
                        o.faults.remove(i);
                    }
                }
            }
            7 => {
                // another block in place of one
                if let (Some(o), Some(c)) = (p.objs.first_mut(), base.calls().first().map(|c| c.2.clone())) {
                    let bb = fmt::block_bytes(c.f);
                    if !crunch && o.base.len() >= bb && fmt::block_dims(c.f, c.bw, c.bh).is_some() {
                        let k = rng.idx(o.base.len() / bb) * bb;
                        let b = gen::block(c.f, c.bw, c.bh, rng, w);
                        o.base[k..k + bb].copy_from_slice(&b);
                    }
                }
            }
            8 => {
                // one block everywhere, each with another bit turned
                if let (Some(o), Some(c)) = (p.objs.first_mut(), base.calls().first().map(|c| c.2.clone())) {
                    let bb = fmt::block_bytes(c.f);
                    if !crunch && o.base.len() >= bb {
                        let k = rng.idx(o.base.len() / bb) * bb;
                        let b = o.base[k..k + bb].to_vec();
                        for x in o.base.chunks_mut(bb) {
                            let m = x.len();
                            x.copy_from_slice(&b[..m]);
                            x[rng.idx(m)] ^= 1 << rng.below(8);
                        }
                    }
                }
            }
            9 => {
                let o = p.objs[0].clone();
                for ops in &mut p.threads {
                    for op in ops {
                        if let Op::Call(c) = op {
                            if !matches!(c.f, 42 | 60..=83) {
                                mismatch(rng, &o, c);
                            }
                        }
                    }
                }
            }
            10 => {
                p.heap_fill = rng.u64() as u8;
                p.dirty_stack = !p.dirty_stack;
            }
            _ => {
                for ops in &mut p.threads {
                    for op in ops {
                        if let Op::Call(c) = op {
                            if c.fill.is_some() {
                                c.fill = Some(gen::fill(rng));
                            }
                        }
                    }
                }
            }
        }
    }
    for o in &mut p.objs {
        if o.faults.len() > 12 {
            o.faults.drain(..o.faults.len() - 12);
        }
    }
    p
}

/// which properties build on runs that reached new code
pub fn feedback(prop: &str) -> bool {
    matches!(prop, "F01" | "F02" | "F03" | "C01" | "C03" | "D01" | "D02" | "A01")
}

pub fn make(prop: &str, seed: u64, cx: &mut Ctx, corpus: &[Plan]) -> Plan {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    if feedback(prop) && !corpus.is_empty() && rng.chance(45) {
        let i = if rng.chance(50) { rng.idx(corpus.len()) } else { corpus.len() - 1 - rng.idx(corpus.len().min(8)) };
        return mutate(rng, &corpus[i], seed, &cx.world);
    }
    let mut p = Plan::new(prop, seed);
    match prop {
        "S01" => s01(rng, cx, &mut p),
        "S02" => s02(rng, cx, &mut p),
        "S03" => s03(rng, &cx.world, &mut p),
        "F01" => f01(rng, &cx.world, &mut p),
        "F02" => f02(rng, &cx.world, &mut p),
        "F03" => f03(rng, &cx.world, &mut p),
        "F04" => f04(rng, &cx.world, &mut p),
        "F05" => f05(rng, &cx.world, &mut p),
        "F06" if rng.below(2000) == 0 => f06_large(rng, &cx.world, &mut p),
        "F06" => f06(rng, &cx.world, &mut p),
        "F07" => f07(rng, &cx.world, &mut p),
        "C01" => c01(rng, cx, &mut p),
        "C02" => c02(rng, &cx.world, &mut p),
        "C03" => c03(rng, &cx.world, &mut p),
        "D01" => d01(rng, &cx.world, &mut p),
        "D02" => d02(rng, &cx.world, &mut p),
        "A01" => a01(rng, &cx.world, &mut p),
        _ => {}
    }
    p
}

// ------------------------------------------------------------------ judgement

fn who(plan: &Plan, i: usize) -> String {
    let calls = plan.calls();
    let (t, k, c) = &calls[i];
    format!("call {} of thread {}: {} {}x{}", k, t, fmt::name(c.f), c.w, c.h)
}

fn compare(cx: &mut Ctx, plan: &Plan, v: usize) -> Out {
    let solos = cx.solos(v, plan);
    if solos.iter().any(|s| !matches!(s.ret, OK | ERR)) {
        cx.stats.skipped += 1;
        return Out::default();
    }
    let total: u64 = solos.iter().map(|s| s.steps).sum();
    let multi = plan.threads.len() > 1;
    let opts = Opts {
        limits: solos.iter().map(|s| 20 * s.steps + 2_000_000).collect(),
        quantum: if multi { 50_000 + 2 * total } else { u64::MAX },
        heap_limit: solos.iter().map(|s| 8 * s.heap_peak).sum::<u64>() + (1 << 30),
        ..Opts::default()
    };
    let h = cx.run(v, plan, &opts);
    let stalled: HashSet<usize> = h.stalled.iter().copied().collect();
    if !stalled.is_empty() {
        cx.stats.fault("stalled_forever", stalled.len() as u64);
    }
    cx.stats.fault("preemption", h.sched.iter().filter(|s| !s.stall).count() as u64);
    if plan.race.is_some() && h.statics > 0 {
        cx.stats.note("runs_with_static_accesses", 1);
    }
    let calls = plan.calls();
    // the verdict of the first call that ended badly explains the rest
    let mut viol = None;
    for (i, r) in h.calls.iter().enumerate() {
        let t = calls[i].0;
        match r.ret {
            OK | ERR => {
                if !r.same(&solos[i]) {
                    viol = Some(format!("{} returned {} but {} when it ran alone", who(plan, i), r.outcome(), solos[i].outcome()));
                }
            }
            STALLED | NOTRUN if stalled.contains(&t) => {}
            STALLED | NOTRUN => continue,
            x => {
                viol = Some(format!(
                    "{} ended with {} ({}) but {} when it ran alone",
                    who(plan, i),
                    ret_name(x),
                    match x {
                        STEPS => "it ran more than 20 times the steps it needs".to_string(),
                        BLOCKED => "it waits for another call".to_string(),
                        PANIC => r.msg(),
                        _ => format!("signal {}", h.sig),
                    },
                    solos[i].outcome()
                ))
            }
        }
        if viol.is_some() {
            break;
        }
    }
    if viol.is_none() {
        for (i, r) in h.calls.iter().enumerate() {
            if matches!(r.ret, STALLED | NOTRUN) && !stalled.contains(&calls[i].0) {
                viol = Some(format!("{} never finished (signal {})", who(plan, i), h.sig));
                break;
            }
        }
    }
    Out {
        viol,
        nontrivial: h.sched.iter().any(|s| s.at > 0) || calls.len() > 1,
        sched: Some(h.sched),
    }
}

fn bad(r: u32) -> bool {
    !matches!(r, OK | ERR | ABSENT | NOTRUN)
}

pub fn check(cx: &mut Ctx, plan: &Plan) -> Out {
    cx.stats.runs += 1;
    let fired = cx.count_faults(plan);
    let v = match plan.variant.as_str() {
        "all" => 0,
        name => match cx.sut(name) {
            Some(v) => v,
            None => {
                cx.stats.skipped += 1;
                return Out::default();
            }
        },
    };
    if plan.calls().is_empty() {
        return Out::default();
    }
    let mut out = Out { nontrivial: fired > 0, ..Out::default() };
    match plan.prop.as_str() {
        "S01" | "S02" => return compare(cx, plan, v),
        "S03" => {
            let last = plan.calls().len() - 1;
            let mut img: Vec<(u32, u64, Vec<u32>)> = vec![];
            for flip in [0, 1] {
                let mut q = plan.clone();
                let ops = &mut q.threads[0];
                for op in ops.iter_mut() {
                    if let Op::Call(c) = op {
                        c.fill = c.fill.map(|f| f << 1 | flip);
                    }
                }
                q.heap_fill ^= if flip == 1 { 0xff } else { 0 };
                // the marks of the first call stay in the image
                if last > 0 {
                    if let Some(Op::Call(c)) = q.threads[0].last_mut() {
                        c.fill = None;
                    }
                }
                // the fill of the first call only covers its own image
                let h = cx.run(v, &q, &Opts { keep_raw: true, ..Opts::default() });
                let r = &h.calls[last];
                img.push((r.ret, r.hash, if r.ret == OK { cx.eng.raw(r).to_vec() } else { vec![] }));
            }
            if img[0].0 == OK && img[1].0 == OK {
                out.nontrivial = true;
                if img[0].1 != img[1].1 {
                    let region = plan.calls()[last].2.region();
                    let w = plan.calls()[last].2.w.max(1);
                    let n = (0..region).filter(|&i| img[0].2[i] != img[1].2[i]).count();
                    let i = (0..region).find(|&i| img[0].2[i] != img[1].2[i]).unwrap_or(0);
                    out.viol = Some(format!(
                        "{} succeeded, but {} pixel(s) depend on what the buffer held before, first at x={} y={}",
                        who(plan, last), n, i % w, i / w
                    ));
                }
            } else if img[0].0 != img[1].0 && !bad(img[0].0) && !bad(img[1].0) {
                out.viol = Some(format!("{} succeeds or fails depending on what the buffers held before", who(plan, last)));
            }
            if bad(img[0].0) {
                cx.stats.skipped += 1;
            }
        }
        "F01" | "F02" => {
            let opts = Opts { limits: budget::limits(plan, 12), ..Opts::default() };
            let h = cx.run(v, plan, &opts);
            out.nontrivial = true;
            for (i, r) in h.calls.iter().enumerate() {
                if bad(r.ret) && r.ret != HEAP {
                    out.viol = Some(format!(
                        "{} in build {} did not return: {}{}",
                        who(plan, i),
                        plan.variant,
                        r.outcome(),
                        if r.ret == CRASH { format!(" (signal {} at {:#x})", h.sig, h.addr) } else { String::new() }
                    ));
                    break;
                }
            }
        }
        "F03" => {
            let lim = budget::limits(plan, 1);
            let heap = budget::heap(plan);
            let opts = Opts { limits: lim.clone(), heap_limit: heap.iter().copied().max().unwrap_or(0), ..Opts::default() };
            let h = cx.run(v, plan, &opts);
            out.nontrivial = true;
            for (i, r) in h.calls.iter().enumerate() {
                let c = plan.calls()[i].2.clone();
                cx.stats.max("largest_share_of_step_budget_permille", if r.ret == OK || r.ret == ERR { r.steps * 1000 / lim[i].max(1) } else { 0 });
                if r.ret == OK || r.ret == ERR {
                    cx.stats.max(&format!("largest_share_of_step_budget_permille {}", fmt::name(c.f)), r.steps * 1000 / lim[i].max(1));
                    cx.stats.max(&format!("largest_share_of_heap_budget_permille {}", fmt::name(c.f)), r.heap_peak * 1000 / heap[i].max(1));
                }
                cx.stats.max("largest_stack_bytes", r.stack);
                cx.stats.max("largest_heap_bytes", r.heap_peak);
                let size = plan.objs[c.obj].base.len();
                if r.ret == STEPS {
                    out.viol = Some(format!("{} on {} bytes ran more than {} steps", who(plan, i), size, lim[i]));
                } else if r.ret == HEAP || r.heap_peak > heap[i] {
                    out.viol = Some(format!("{} on {} bytes allocated {} bytes, more than {}", who(plan, i), size, r.heap_peak, heap[i]));
                } else if r.stack > budget::STACK && r.ret != PANIC {
                    out.viol = Some(format!("{} on {} bytes used {} bytes of stack, more than {}", who(plan, i), size, r.stack, budget::STACK));
                } else if r.ret == BLOCKED || r.ret == STUCK {
                    out.viol = Some(format!("{} on {} bytes never finished ({})", who(plan, i), size, ret_name(r.ret)));
                } else if matches!(r.ret, OK | ERR) && r.heap_left > 0 {
                    // a table that is built once may stay, what every call leaves behind piles up
                    let mut again = plan.clone();
                    let ops = again.threads[0].clone();
                    for _ in 0..3 {
                        again.threads[0].extend(ops.iter().cloned());
                    }
                    let h = cx.run(v, &again, &Opts { limits: vec![], ..opts.clone() });
                    let n = plan.calls().len();
                    let left = h.calls.iter().skip(3 * n).map(|r| r.heap_left).max().unwrap_or(0);
                    if left > 0 {
                        out.viol = Some(format!("{} keeps {} bytes of heap after it returned, also when it is repeated", who(plan, i), left));
                        break;
                    }
                    // what every other texture leaves behind piles up as well
                    let others = other_textures(plan, &c, &cx.world);
                    let h = cx.run(v, &others, &Opts::default());
                    let sixth = MAX_CALLS / 6;
                    let sum = |from: usize| h.calls.iter().skip(from).take(sixth).map(|r| r.heap_left).sum::<i64>();
                    let (first, last) = (sum(0), sum(5 * sixth));
                    if h.calls.iter().all(|r| matches!(r.ret, OK | ERR)) && last > 0 && last * 10 > first * 7 {
                        out.viol = Some(format!(
                            "{} keeps heap after it returned, and so does every call with another texture: {} bytes after the first {} of {} calls, {} after the last {}",
                            who(plan, i), first, sixth, h.calls.len(), last, sixth
                        ));
                    }
                }
                if out.viol.is_some() {
                    break;
                }
            }
        }
        "F04" => {
            let h = cx.run(v, plan, &Opts::default());
            for (i, r) in h.calls.iter().enumerate() {
                if r.ret == ERR {
                    out.nontrivial = true;
                    if r.changed != 0 {
                        out.viol = Some(format!("{} reported \"{}\" and changed {} element(s) of the image", who(plan, i), r.msg(), r.changed));
                    }
                } else {
                    out.nontrivial = false;
                }
            }
        }
        "F05" => {
            let c = plan.calls()[0].2.clone();
            let crunch = matches!(c.f, 40 | 41);
            let stored = plan.stored(&plan.objs[0]);
            let need = if crunch {
                stored.len()
            } else {
                fmt::need(c.f, c.w, c.h, c.bw, c.bh).unwrap_or(0).min(stored.len())
            };
            let (n, a, b) = (plan.extra[0] as usize, plan.extra[1], plan.extra[2]);
            let mut res = vec![];
            for k in 0..3 {
                let mut q = plan.clone();
                q.objs[0].base = stored[..need].to_vec();
                q.objs[0].faults = match k {
                    0 => vec![],
                    1 => vec![Fault::Extend { len: n, kind: a }],
                    _ => vec![Fault::Extend { len: n, kind: if a & 4 == 0 { 0 } else { b } }],
                };
                if k > 0 {
                    cx.stats.fault("trailing_data", 1);
                } else {
                    q.objs[0].tail = 0;
                }
                let h = cx.run(v, &q, &Opts::default());
                res.push((h.calls[0].clone(), h));
            }
            out.nontrivial = true;
            for (k, (r, h)) in res.iter().enumerate() {
                let what = ["exactly the data it needs", "other data behind it", "yet other data behind it"][k];
                if bad(r.ret) {
                    if h.sig == libc::SIGSEGV as u32 && r.ret == CRASH {
                        out.viol = Some(format!("{} with {} left its memory (address {:#x})", who(plan, 0), what, h.addr));
                    } else if !bad(res[0].0.ret) {
                        out.viol = Some(format!("{} with {}: {}, without: {}", who(plan, 0), what, r.outcome(), res[0].0.outcome()));
                    } else {
                        cx.stats.skipped += 1;
                    }
                    break;
                }
                if r.beyond != 0 {
                    out.viol = Some(format!("{} with {} changed {} element(s) behind width x height", who(plan, 0), what, r.beyond));
                } else if !r.same(&res[0].0) {
                    out.viol = Some(format!("{} with {}: {}, without: {}", who(plan, 0), what, r.outcome(), res[0].0.outcome()));
                }
                if out.viol.is_some() {
                    break;
                }
            }
        }
        "F06" => {
            let h = cx.run(v, plan, &Opts { limits: budget::limits(plan, 12), ..Opts::default() });
            out.nontrivial = true;
            for (i, (_, _, c)) in plan.calls().iter().enumerate() {
                let r = &h.calls[i];
                let o = &plan.objs[c.obj];
                let have = (plan.stored(o).len() + o.tail).saturating_sub(c.off).min(c.len);
                let expect = expected(plan, c, have);
                let good = match expect {
                    Some(true) => r.ret == OK,
                    Some(false) => r.ret == ERR,
                    None => true,
                };
                match expect {
                    Some(true) => cx.stats.note("exact_or_more", 1),
                    Some(false) => cx.stats.note("too_short", 1),
                    None => {}
                }
                if !good && r.ret != ABSENT && r.ret != HEAP {
                    out.viol = Some(format!(
                        "{} with {} byte(s) of data and {} element(s) of image must {}, but: {}",
                        who(plan, i),
                        have,
                        c.img,
                        if expect == Some(true) { "succeed" } else { "report an error" },
                        r.outcome()
                    ));
                    break;
                }
            }
        }
        "F07" => return local(cx, plan, v, out),
        "C01" => {
            let opts = Opts { limits: budget::limits(plan, 12), ..Opts::default() };
            let hs: Vec<(usize, History)> = (0..cx.suts.len()).map(|i| (i, cx.run(i, plan, &opts))).collect();
            out.nontrivial = true;
            for (i, (_, _, c)) in plan.calls().iter().enumerate() {
                let have: Vec<_> = hs.iter().filter(|(_, h)| !matches!(h.calls[i].ret, ABSENT | NOTRUN)).collect();
                if let Some((a, ha)) = have.first() {
                    for (b, hb) in &have[1..] {
                        let (x, y) = (&ha.calls[i], &hb.calls[i]);
                        if matches!(x.ret, STEPS | HEAP) || matches!(y.ret, STEPS | HEAP) {
                            continue;
                        }
                        if !x.same(y) || (x.ret == ERR || x.ret == OK) && (x.changed, x.beyond) != (y.changed, y.beyond) {
                            out.viol = Some(format!(
                                "{}: {} (changed {}) in build {}, {} (changed {}) in build {}",
                                who(plan, i), x.outcome(), x.changed, cx.suts[*a].name, y.outcome(), y.changed, cx.suts[*b].name
                            ));
                        }
                    }
                }
                let _ = c;
                if out.viol.is_some() {
                    break;
                }
            }
        }
        "C02" => {
            let opts = Opts { limits: budget::limits(plan, 12), keep_raw: true, ..Opts::default() };
            let h = cx.run(v, plan, &opts);
            out.nontrivial = true;
            let a = &h.calls[0];
            let last = h.calls.len() - 1;
            let b = &h.calls[last];
            if plan.calls()[0].2.f == 42 {
                if a.ret == OK {
                    let d = plan.stored(&plan.objs[0]);
                    let (w, h, levels, faces, format, _) = crn::head(&d);
                    let size = if matches!(format, 0 | 9 | 10 | 11 | 13) { 8 } else { 16 };
                    let want: Vec<u32> =
                        [w, h, levels, faces, size, crn::field(&d, 25, 4), crn::field(&d, 29, 4)].iter().map(|&x| x as u32).collect();
                    let got = cx.eng.raw(a);
                    if got.get(..7) != Some(&want[..]) || got.get(8) != Some(&(format as u32)) {
                        out.viol = Some(format!("{} reported {:?}, the header says {:?} and format {}", who(plan, 0), got, want, format));
                    }
                }
            } else if last > 0 && (bad(a.ret) || bad(b.ret)) {
                if bad(a.ret) != bad(b.ret) {
                    out.viol = Some(format!("{}: {}, {}: {}", who(plan, 0), a.outcome(), who(plan, last), b.outcome()));
                } else {
                    cx.stats.skipped += 1;
                }
            } else if last > 0 && (a.ret != b.ret || a.ret == OK && a.hash != b.hash) {
                out.viol = Some(format!(
                    "{} ({}): {}, but {} ({}): {}",
                    who(plan, 0), plan.objs[plan.calls()[0].2.obj].what, a.outcome(),
                    who(plan, last), plan.objs[plan.calls()[last].2.obj].what, b.outcome()
                ));
            }
        }
        "D01" | "D02" => {
            let opts = Opts { limits: budget::limits(plan, 12), keep_raw: true, ..Opts::default() };
            let h = cx.run(v, plan, &opts);
            let mut data = plan.contents_at_calls();
            for (i, r) in h.calls.iter().enumerate() {
                let c = &plan.calls()[i].2;
                let o = &plan.objs[c.obj];
                if o.late > 0 && o.tail <= 1 << 26 {
                    // the model has to see the zeros
                    let at = data[i].len().saturating_sub(o.late);
                    let behind = data[i].split_off(at);
                    data[i].resize(at + o.tail, 0);
                    data[i].extend(behind);
                }
                let have = data[i].len().saturating_sub(c.off).min(c.len);
                let must = fmt::class(c.f) == Class::Block || expected(plan, c, have) == Some(true);
                if !matches!(r.ret, OK | ABSENT | HEAP) && must && !o.what.contains("damaged code tables") {
                    out.viol = Some(format!("{}: {} from a decoder that has all it needs", who(plan, i), r.outcome()));
                    break;
                }
                if r.ret != OK {
                    continue;
                }
                let got = cx.eng.raw(r);
                out.nontrivial = true;
                match refine(c, &data[i], got) {
                    Some(n) => cx.stats.note("texels_compared_with_the_model", n),
                    None => {
                        out.viol = Some(format!("{}: {}", who(plan, i), differs(c, &data[i], got)));
                        break;
                    }
                }
            }
        }
        "A01" => {
            let solos = cx.solos(v, plan);
            if solos.iter().any(|s| bad(s.ret)) {
                cx.stats.skipped += 1;
                return Out::default();
            }
            let h = cx.run(v, plan, &Opts { limits: budget::limits(plan, 12), ..Opts::default() });
            cx.stats.fault("allocations_refused", h.alloc_failed);
            cx.stats.fault("heap_exhausted_during_call", 1);
            out.nontrivial = true;
            for (i, r) in h.calls.iter().enumerate() {
                if r.allocs > 0 || !r.same(&solos[i]) {
                    out.viol = Some(format!(
                        "{} in build {} with an exhausted heap: {} after {} request(s) for memory; with memory: {}",
                        who(plan, i), plan.variant, r.outcome(), r.allocs, solos[i].outcome()
                    ));
                    break;
                }
            }
        }
        _ => {}
    }
    out
}

/// the texels of a call that the model of the formats speaks of, and where they are in the image
fn modelled(c: &Call, data: &[u8]) -> Option<(usize, Vec<model::Texel>)> {
    let d = data.get(c.off.min(data.len())..)?;
    let d = &d[..c.len.min(d.len())];
    if fmt::is_astc(c.f) && (c.f == 35 || c.f == 80) && !((4..=12).contains(&c.bw) && (4..=12).contains(&c.bh)) {
        return None;
    }
    if fmt::class(c.f) == Class::Block {
        if d.len() < fmt::block_bytes(c.f) {
            return None;
        }
        let (x, y) = fmt::block_dims(c.f, c.bw, c.bh)?;
        let mut t = model::block(c.f, c.bw, d, x, y)?;
        if c.fill != Some(BLACK) {
            // what these leave of the buffer
            let keeps: &[usize] = match c.f {
                66 | 75 | 76 => &[1, 2, 3],
                67 | 77 | 78 => &[2, 3],
                _ => &[],
            };
            t.iter_mut().for_each(|t| keeps.iter().for_each(|&k| t[k] = model::ANY));
        }
        return Some((x, t));
    }
    if matches!(c.f, 40 | 41) {
        return Some((c.w, model::container(c.f == 41, c.w, c.h, d)?));
    }
    if c.w == 0 || c.h == 0 || d.len() < fmt::need(c.f, c.w, c.h, c.bw, c.bh)? {
        return None;
    }
    Some((c.w, model::image(c.f, c.w, c.h, c.bw, c.bh, d)?))
}

fn strays(t: &model::Texel, p: u32) -> bool {
    [p >> 16, p >> 8, p, p >> 24].iter().zip(t).any(|(v, t)| !(t.0..=t.1).contains(&(*v as u8)))
}

/// how many texels agree, unless one does not
fn refine(c: &Call, data: &[u8], got: &[u32]) -> Option<u64> {
    let Some((_, want)) = modelled(c, data) else { return Some(0) };
    want.iter().zip(got).all(|(t, p)| !strays(t, *p)).then_some(want.len() as u64)
}

fn differs(c: &Call, data: &[u8], got: &[u32]) -> String {
    let Some((w, want)) = modelled(c, data) else { return String::new() };
    let n = want.iter().zip(got).filter(|(t, p)| strays(t, **p)).count();
    let Some(i) = want.iter().zip(got).position(|(t, p)| strays(t, *p)) else { return String::new() };
    let (t, p) = (&want[i], got[i]);
    let span = |t: (u8, u8)| if t.0 == t.1 { t.0.to_string() } else { format!("{}..{}", t.0, t.1) };
    format!(
        "texel {},{} is {} {} {} {} in R G B A, the format says {} {} {} {} ({} of {} texels differ)",
        i % w, i / w, p >> 16 & 255, p >> 8 & 255, p & 255, p >> 24,
        span(t[0]), span(t[1]), span(t[2]), span(t[3]), n, want.len()
    )
}

/// reference model of sizes: Some(true) must succeed, Some(false) must fail
fn expected(plan: &Plan, c: &Call, have: usize) -> Option<bool> {
    match fmt::class(c.f) {
        Class::Fixed | Class::Pvrtc => {
            if c.f == 35 && !((4..=12).contains(&c.bw) && (4..=12).contains(&c.bh)) {
                return None;
            }
            if c.w == 0 || c.h == 0 {
                return Some(true);
            }
            let size = c.w.checked_mul(c.h);
            let need = fmt::need(c.f, c.w, c.h, c.bw, c.bh);
            if need.map_or(true, |n| have < n) || size.map_or(true, |n| c.img < n) {
                return Some(false);
            }
            if fmt::class(c.f) == Class::Pvrtc {
                let (x, y) = fmt::grid(c.f, c.w, c.h, c.bw, c.bh)?;
                return (x.is_power_of_two() && y.is_power_of_two()).then_some(true);
            }
            Some(true)
        }
        Class::Crunch | Class::Unity | Class::Info => {
            let o = &plan.objs[c.obj];
            let (w, h, _, _, _, end) = crn::head(&o.base);
            // the size the caller states
            let told = if c.f == 42 && c.w != 0 { c.w } else { have };
            match o.faults.as_slice() {
                [] if told < end => Some(false),
                _ if told > have => None,
                [] if have == o.base.len() + o.tail && have == end && crn::intact(&o.base, o.tail) => {
                    (c.f == 42 || (c.w, c.h) == (w, h) && c.img >= w * h).then_some(true)
                }
                [Fault::Truncate { len }] if *len < end => Some(false),
                _ => None,
            }
        }
        Class::Block => None,
    }
}

fn local(cx: &mut Ctx, plan: &Plan, v: usize, mut out: Out) -> Out {
    let c = plan.calls()[0].2.clone();
    let damaged = plan.stored(&plan.objs[0]);
    let intact = plan.objs[0].base.clone();
    let mut imgs = vec![];
    for d in [&intact, &damaged] {
        let mut q = plan.clone();
        q.objs[0].base = d.clone();
        q.objs[0].faults.clear();
        let h = cx.run(v, &q, &Opts { keep_raw: true, ..Opts::default() });
        let r = h.calls[0].clone();
        if r.ret == ABSENT || (bad(r.ret) && imgs.is_empty()) {
            cx.stats.skipped += 1;
            return Out::default();
        }
        imgs.push((r.clone(), if r.ret == OK { cx.eng.raw(&r).to_vec() } else { vec![] }));
    }
    if matches!(c.f, 40 | 41) {
        let (a, _) = crn::level(&intact, 1);
        if intact.len() != damaged.len() || intact[..a.min(intact.len())] != damaged[..a.min(intact.len())] {
            cx.stats.skipped += 1;
            return Out::default();
        }
        if !imgs[0].0.same(&imgs[1].0) && !(imgs[0].0.ret == ERR && imgs[1].0.ret == ERR) {
            out.viol = Some(format!(
                "{}: damage behind level 0 changed {} into {}",
                who(plan, 0), imgs[0].0.outcome(), imgs[1].0.outcome()
            ));
        }
        return out;
    }
    if imgs.iter().any(|i| i.0.ret != OK) {
        if imgs[0].0.ret != imgs[1].0.ret {
            out.viol = Some(format!("{}: {} intact, {} damaged", who(plan, 0), imgs[0].0.outcome(), imgs[1].0.outcome()));
        }
        return out;
    }
    let bb = fmt::block_bytes(c.f);
    let (bx, by) = match fmt::block_dims(c.f, c.bw, c.bh) {
        Some(d) => d,
        None => return out,
    };
    let (gx, gy) = (c.w.div_ceil(bx), c.h.div_ceil(by));
    let hit: Vec<bool> =
        (0..gx * gy).map(|i| intact.get(i * bb..i * bb + bb) != damaged.get(i * bb..i * bb + bb)).collect();
    let pvrtc = fmt::class(c.f) == Class::Pvrtc;
    let mut touched = vec![false; gx * gy];
    for (i, &h) in hit.iter().enumerate() {
        if !h {
            continue;
        }
        cx.stats.note("damaged_blocks", 1);
        if pvrtc {
            let (x, y) = unmorton(i, gx, gy);
            for dy in [gy - 1, 0, 1] {
                for dx in [gx - 1, 0, 1] {
                    touched[(y + dy) % gy * gx + (x + dx) % gx] = true;
                }
            }
        } else {
            touched[i] = true;
        }
    }
    for y in 0..c.h {
        for x in 0..c.w {
            let i = y * c.w + x;
            if !touched[y / by * gx + x / bx] && imgs[0].1[i] != imgs[1].1[i] {
                out.viol = Some(format!(
                    "{}: damage to other blocks changed pixel x={} y={} from {:08x} to {:08x}",
                    who(plan, 0), x, y, imgs[0].1[i], imgs[1].1[i]
                ));
                return out;
            }
        }
    }
    if pvrtc {
        return out;
    }
    // intact blocks, each alone
    let mut list: Vec<usize> = (0..gx * gy).collect();
    let mut rng = Rng::new(plan.extra.first().copied().unwrap_or(0));
    while list.len() > 48 {
        let i = rng.idx(list.len());
        list.swap_remove(i);
    }
    let mut q = plan.clone();
    q.objs[0].base = damaged.clone();
    q.objs[0].faults.clear();
    q.threads = vec![list
        .iter()
        .map(|&i| {
            Op::Call(Call { off: i * bb, len: bb, w: bx, h: by, img: bx * by, fill: Some(9), ..c.clone() })
        })
        .collect()];
    let h = cx.run(v, &q, &Opts { keep_raw: true, ..Opts::default() });
    for (k, &i) in list.iter().enumerate() {
        let r = &h.calls[k];
        if r.ret != OK {
            continue;
        }
        cx.stats.note("blocks_decoded_alone", 1);
        let lone = cx.eng.raw(r);
        for y in 0..by {
            for x in 0..bx {
                let (px, py) = (i % gx * bx + x, i / gx * by + y);
                if px < c.w && py < c.h && imgs[1].1[py * c.w + px] != lone[y * bx + x] {
                    out.viol = Some(format!(
                        "{}: block {} (column {} row {}) decodes to {:08x} at its pixel {},{} but to {:08x} when it is decoded alone",
                        who(plan, 0), i, i % gx, i / gx, imgs[1].1[py * c.w + px], x, y, lone[y * bx + x]
                    ));
                    return out;
                }
            }
        }
    }
    out
}

/// block position of the i-th PVRTC block: interleaved bits (y lowest) of the square part, then the longer side
fn unmorton(i: usize, gx: usize, gy: usize) -> (usize, usize) {
    let m = gx.min(gy);
    let (mut x, mut y) = (0, 0);
    let mut bit = 1;
    let mut k = 0;
    let mut r = i;
    while bit < m {
        y |= (r & 1) << k;
        x |= (r >> 1 & 1) << k;
        r >>= 2;
        bit <<= 1;
        k += 1;
    }
    if gx > gy {
        x |= r << k;
    } else {
        y |= r << k;
    }
    (x, y)
}
