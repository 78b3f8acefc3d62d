//! A plan is one simulated run: stored objects, per-thread operations, faults and the schedule.
//! Executing a plan is a pure function of the plan and of the code under test.
use crate::fmt;
use crate::json::{hex, unhex, J};
use crate::rng::{mix, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// one stored bit reads back inverted
    BitFlip { off: usize, bit: u8 },
    /// one stored byte reads back as another value
    Byte { off: usize, val: u8 },
    /// a sector reads back as zeroes (0), ones (1) or garbage
    Sector { off: usize, len: usize, kind: u64 },
    /// the write stopped here: everything behind is zeroes (0) or garbage
    Torn { off: usize, kind: u64 },
    /// a sector holds older data (here: the bytes of another object)
    Stale { off: usize, len: usize, from: usize },
    /// a sector was read from (or written to) another place
    Misdirect { src: usize, dst: usize, len: usize },
    /// two sectors changed places
    Swap { a: usize, b: usize, len: usize },
    /// the object ends early
    Truncate { len: usize },
    /// something follows the object
    Extend { len: usize, kind: u64 },
    /// a metadata field holds another value (big endian)
    Field { off: usize, len: usize, val: u64 },
}

pub const FAULT_KINDS: [&str; 10] = [
    "bit_flip", "byte_overwrite", "bad_sector", "torn_write", "stale_sector", "misdirected_sector",
    "swapped_sectors", "truncation", "trailing_data", "metadata_field",
];

pub fn garbage(kind: u64, n: usize) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => vec![255; n],
        k => Rng::new(k).bytes(n),
    }
}

impl Fault {
    pub fn kind(&self) -> usize {
        match self {
            Fault::BitFlip { .. } => 0,
            Fault::Byte { .. } => 1,
            Fault::Sector { .. } => 2,
            Fault::Torn { .. } => 3,
            Fault::Stale { .. } => 4,
            Fault::Misdirect { .. } => 5,
            Fault::Swap { .. } => 6,
            Fault::Truncate { .. } => 7,
            Fault::Extend { .. } => 8,
            Fault::Field { .. } => 9,
        }
    }
    /// returns whether any byte changed
    pub fn apply(&self, d: &mut Vec<u8>, others: &[Obj]) -> bool {
        let before_len = d.len();
        let mut changed = false;
        let mut put = |d: &mut Vec<u8>, off: usize, b: &[u8]| {
            for (i, &x) in b.iter().enumerate() {
                if let Some(p) = d.get_mut(off + i) {
                    changed |= *p != x;
                    *p = x;
                }
            }
        };
        match *self {
            Fault::BitFlip { off, bit } => {
                if let Some(&x) = d.get(off) {
                    put(d, off, &[x ^ (1 << (bit & 7))]);
                }
            }
            Fault::Byte { off, val } => put(d, off, &[val]),
            Fault::Sector { off, len, kind } => put(d, off, &garbage(kind, len)),
            Fault::Torn { off, kind } => {
                if off < d.len() {
                    let n = d.len() - off;
                    put(d, off, &garbage(kind, n))
                }
            }
            Fault::Stale { off, len, from } => {
                if let Some(o) = others.get(from) {
                    let o = &o.base;
                    if off < o.len() {
                        put(d, off, &o[off..(off + len).min(o.len())].to_vec());
                    }
                }
            }
            Fault::Misdirect { src, dst, len } => {
                if src < d.len() {
                    let s = d[src..(src + len).min(d.len())].to_vec();
                    put(d, dst, &s);
                }
            }
            Fault::Swap { a, b, len } => {
                if a + len <= d.len() && b + len <= d.len() {
                    let x = d[a..a + len].to_vec();
                    let y = d[b..b + len].to_vec();
                    put(d, a, &y);
                    put(d, b, &x);
                }
            }
            Fault::Truncate { len } => d.truncate(len),
            Fault::Extend { len, kind } => d.extend_from_slice(&garbage(kind, len)),
            Fault::Field { off, len, val } => {
                let b = val.to_be_bytes();
                put(d, off, &b[8 - len.min(8)..]);
            }
        }
        changed | (d.len() != before_len)
    }
    pub fn json(&self) -> J {
        let k = J::s(FAULT_KINDS[self.kind()]);
        let v = match *self {
            Fault::BitFlip { off, bit } => vec![J::n(off), J::n(bit)],
            Fault::Byte { off, val } => vec![J::n(off), J::n(val)],
            Fault::Sector { off, len, kind } => vec![J::n(off), J::n(len), J::n(kind)],
            Fault::Torn { off, kind } => vec![J::n(off), J::n(kind)],
            Fault::Stale { off, len, from } => vec![J::n(off), J::n(len), J::n(from)],
            Fault::Misdirect { src, dst, len } => vec![J::n(src), J::n(dst), J::n(len)],
            Fault::Swap { a, b, len } => vec![J::n(a), J::n(b), J::n(len)],
            Fault::Truncate { len } => vec![J::n(len)],
            Fault::Extend { len, kind } => vec![J::n(len), J::n(kind)],
            Fault::Field { off, len, val } => vec![J::n(off), J::n(len), J::n(val)],
        };
        J::Arr([vec![k], v].concat())
    }
    pub fn parse(j: &J) -> Fault {
        let a = j.arr();
        let n = |i: usize| a.get(i).map(|x| x.us()).unwrap_or(0);
        let k = |i: usize| a.get(i).map(|x| x.u64()).unwrap_or(0);
        match FAULT_KINDS.iter().position(|x| *x == a[0].str()).unwrap_or(0) {
            0 => Fault::BitFlip { off: n(1), bit: n(2) as u8 },
            1 => Fault::Byte { off: n(1), val: n(2) as u8 },
            2 => Fault::Sector { off: n(1), len: n(2), kind: k(3) },
            3 => Fault::Torn { off: n(1), kind: k(2) },
            4 => Fault::Stale { off: n(1), len: n(2), from: n(3) },
            5 => Fault::Misdirect { src: n(1), dst: n(2), len: n(3) },
            6 => Fault::Swap { a: n(1), b: n(2), len: n(3) },
            7 => Fault::Truncate { len: n(1) },
            8 => Fault::Extend { len: n(1), kind: k(2) },
            _ => Fault::Field { off: n(1), len: n(2), val: k(3) },
        }
    }
}

/// more than 32 bits can count
pub const MAX_TAIL: usize = 9 << 30;

#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    /// what was meant to be stored
    pub base: Vec<u8>,
    /// where it came from, for the reader
    pub what: String,
    pub faults: Vec<Fault>,
    /// place the data right before an unreadable page (true) or near the one before it (false)
    pub at_end: bool,
    /// how many bytes away from it
    pub shift: usize,
    /// zeros behind the data that only exist as address space
    pub tail: usize,
    /// how many bytes of the data stand behind these zeros
    pub late: usize,
}

impl Obj {
    pub fn new(base: Vec<u8>, what: &str) -> Obj {
        Obj { base, what: what.to_string(), faults: vec![], at_end: true, shift: 0, tail: 0, late: 0 }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub f: u32,
    pub obj: usize,
    /// data slice inside the object as stored at the time (clipped to it)
    pub off: usize,
    pub len: usize,
    pub w: usize,
    pub h: usize,
    pub bw: usize,
    pub bh: usize,
    pub slot: usize,
    pub img: usize,
    /// what the image holds before: a seed, or what is there already
    pub fill: Option<u64>,
    /// made this often, the image filled anew each time; the record is that of the first repetition with
    /// another outcome, if there is one
    pub times: usize,
}

pub const ALL: usize = 1 << 40;

impl Call {
    /// elements of the image that the call owns
    pub fn region(&self) -> usize {
        match fmt::class(self.f) {
            fmt::Class::Info => 9,
            fmt::Class::Block => fmt::block_dims(self.f, self.bw, self.bh).map_or(0, |(w, h)| w * h),
            _ => self.w.saturating_mul(self.h),
        }
        .min(self.img)
    }
    pub fn json(&self) -> J {
        let mut v = vec![
            ("call", J::s(fmt::name(self.f))),
            ("obj", J::n(self.obj)),
            ("w", J::n(self.w)),
            ("h", J::n(self.h)),
            ("slot", J::n(self.slot)),
            ("img", J::n(self.img)),
        ];
        if self.off != 0 {
            v.push(("off", J::n(self.off)));
        }
        if self.len != ALL {
            v.push(("len", J::n(self.len)));
        }
        if self.bw != 0 || self.bh != 0 {
            v.push(("bw", J::n(self.bw)));
            v.push(("bh", J::n(self.bh)));
        }
        if self.times > 1 {
            v.push(("times", J::n(self.times)));
        }
        if let Some(f) = self.fill {
            v.push(("fill", J::n(f)));
        }
        J::obj(v)
    }
    pub fn parse(j: &J) -> Call {
        Call {
            f: fmt::by_name(j.get("call").str()),
            obj: j.get("obj").us(),
            off: j.get("off").us(),
            len: if *j.get("len") == J::Null { ALL } else { j.get("len").us() },
            w: j.get("w").us(),
            h: j.get("h").us(),
            bw: j.get("bw").us(),
            bh: j.get("bh").us(),
            slot: j.get("slot").us(),
            img: j.get("img").us(),
            fill: if *j.get("fill") == J::Null { None } else { Some(j.get("fill").u64()) },
            times: if *j.get("times") == J::Null { 1 } else { j.get("times").us() },
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Call(Call),
    /// damage the stored object between two calls
    Hit { obj: usize, fault: Fault },
    /// the object is written again, intact
    Heal { obj: usize },
    /// another object's bytes now live in this buffer
    Reload { obj: usize, from: usize },
}

/// at clock `at` the running thread is parked and thread `to` goes on; with `stall` it never comes back
#[derive(Clone, Debug, PartialEq)]
pub struct Switch {
    pub at: u64,
    pub to: usize,
    pub stall: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub variant: String,
    pub objs: Vec<Obj>,
    pub threads: Vec<Vec<Op>>,
    pub first: usize,
    pub sched: Vec<Switch>,
    /// percent chance (drawn from this seed) to switch on accesses to static memory
    pub race: Option<(u64, u64)>,
    /// percent chance that such a switch is for ever (at most once)
    pub race_stall: u64,
    /// elements between the end of an image and the unreadable page
    pub img_shift: usize,
    /// byte that fresh heap memory holds
    pub heap_fill: u8,
    pub dirty_stack: bool,
    pub alloc_fail: bool,
    /// property specific extra
    pub extra: Vec<u64>,
}

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.to_string(),
            seed,
            variant: "chk".to_string(),
            objs: vec![],
            threads: vec![vec![]],
            first: 0,
            sched: vec![],
            race: None,
            race_stall: 0,
            img_shift: 0,
            heap_fill: 0xa5,
            dirty_stack: false,
            alloc_fail: false,
            extra: vec![],
        }
    }
    pub fn json(&self) -> J {
        let objs = self
            .objs
            .iter()
            .map(|o| {
                let mut v = vec![
                    ("what", J::s(&o.what)),
                    ("bytes", J::Str(hex(&o.base))),
                    ("at_end", J::Bool(o.at_end)),
                ];
                if o.shift != 0 {
                    v.push(("shift", J::n(o.shift)));
                }
                if o.tail != 0 {
                    v.push(("tail", J::n(o.tail)));
                    if o.late != 0 {
                        v.push(("late", J::n(o.late)));
                    }
                }
                if !o.faults.is_empty() {
                    v.push(("faults", J::Arr(o.faults.iter().map(|f| f.json()).collect())));
                }
                J::obj(v)
            })
            .collect();
        let threads = self
            .threads
            .iter()
            .map(|t| {
                J::Arr(
                    t.iter()
                        .map(|op| match op {
                            Op::Call(c) => c.json(),
                            Op::Hit { obj, fault } => J::obj(vec![("hit", J::n(*obj)), ("fault", fault.json())]),
                            Op::Heal { obj } => J::obj(vec![("heal", J::n(*obj))]),
                            Op::Reload { obj, from } => J::obj(vec![("reload", J::n(*obj)), ("from", J::n(*from))]),
                        })
                        .collect(),
                )
            })
            .collect();
        let mut v = vec![
            ("property", J::s(&self.prop)),
            ("seed", J::n(self.seed)),
            ("variant", J::s(&self.variant)),
            ("objects", J::Arr(objs)),
            ("threads", J::Arr(threads)),
            ("first", J::n(self.first)),
            (
                "schedule",
                J::Arr(
                    self.sched
                        .iter()
                        .map(|s| J::Arr(vec![J::n(s.at), J::n(s.to), J::s(if s.stall { "stall" } else { "switch" })]))
                        .collect(),
                ),
            ),
            ("heap_fill", J::n(self.heap_fill)),
            ("dirty_stack", J::Bool(self.dirty_stack)),
            ("alloc_fail", J::Bool(self.alloc_fail)),
            ("extra", J::Arr(self.extra.iter().map(|x| J::n(*x)).collect())),
        ];
        if let Some((p, s)) = self.race {
            v.push(("race", J::Arr(vec![J::n(p), J::n(s), J::n(self.race_stall)])));
        }
        if self.img_shift != 0 {
            v.push(("img_shift", J::n(self.img_shift)));
        }
        J::obj(v)
    }
    pub fn parse(j: &J) -> Plan {
        let mut p = Plan::new(j.get("property").str(), j.get("seed").u64());
        p.variant = j.get("variant").str().to_string();
        p.objs = j
            .get("objects")
            .arr()
            .iter()
            .map(|o| Obj {
                base: unhex(o.get("bytes").str()),
                what: o.get("what").str().to_string(),
                faults: o.get("faults").arr().iter().map(Fault::parse).collect(),
                at_end: o.get("at_end").int() != 0,
                shift: o.get("shift").us() % 64,
                tail: o.get("tail").us().min(MAX_TAIL),
                late: o.get("late").us(),
            })
            .collect();
        p.threads = j
            .get("threads")
            .arr()
            .iter()
            .map(|t| {
                t.arr()
                    .iter()
                    .map(|o| {
                        if *o.get("hit") != J::Null {
                            Op::Hit { obj: o.get("hit").us(), fault: Fault::parse(o.get("fault")) }
                        } else if *o.get("heal") != J::Null {
                            Op::Heal { obj: o.get("heal").us() }
                        } else if *o.get("reload") != J::Null {
                            Op::Reload { obj: o.get("reload").us(), from: o.get("from").us() }
                        } else {
                            Op::Call(Call::parse(o))
                        }
                    })
                    .collect()
            })
            .collect();
        p.first = j.get("first").us();
        p.sched = j
            .get("schedule")
            .arr()
            .iter()
            .map(|s| Switch { at: s.arr()[0].u64(), to: s.arr()[1].us(), stall: s.arr()[2].str() == "stall" })
            .collect();
        if let [a, b, c] = j.get("race").arr() {
            p.race = Some((a.u64(), b.u64()));
            p.race_stall = c.u64();
        }
        p.img_shift = j.get("img_shift").us() % 64;
        p.heap_fill = j.get("heap_fill").int() as u8;
        p.dirty_stack = j.get("dirty_stack").int() != 0;
        p.alloc_fail = j.get("alloc_fail").int() != 0;
        p.extra = j.get("extra").arr().iter().map(|x| x.u64()).collect();
        p
    }
    pub fn calls(&self) -> Vec<(usize, usize, &Call)> {
        let mut v = vec![];
        for (t, ops) in self.threads.iter().enumerate() {
            for (i, op) in ops.iter().enumerate() {
                if let Op::Call(c) = op {
                    v.push((t, i, c));
                }
            }
        }
        v
    }
    /// content of every object when each call (in `calls` order) starts
    pub fn contents_at_calls(&self) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for ops in &self.threads {
            let mut cur: Vec<Vec<u8>> = self.objs.iter().map(|o| self.stored(o)).collect();
            for op in ops {
                match op {
                    Op::Call(c) => out.push(cur.get(c.obj).cloned().unwrap_or_default()),
                    Op::Hit { obj, fault } => {
                        if let Some(d) = cur.get_mut(*obj) {
                            fault.apply(d, &self.objs);
                        }
                    }
                    Op::Heal { obj } => {
                        if let Some(o) = self.objs.get(*obj) {
                            cur[*obj] = o.base.clone();
                        }
                    }
                    Op::Reload { obj, from } => {
                        if let (true, Some(o)) = (*obj < cur.len(), self.objs.get(*from)) {
                            cur[*obj] = o.base.clone();
                        }
                    }
                }
            }
        }
        out
    }
    pub fn stored(&self, o: &Obj) -> Vec<u8> {
        let mut d = o.base.clone();
        for f in &o.faults {
            f.apply(&mut d, &self.objs);
        }
        d
    }
}

/// an image of opaque black
pub const BLACK: u64 = 1 << 62;

/// the element `i` of an image filled with `seed`; an odd seed is the complement of the even one before it
pub fn fill_at(seed: u64, i: usize) -> u32 {
    if seed == BLACK {
        return 0xff00_0000;
    }
    let v = mix((seed >> 1).wrapping_mul(0x9e3779b97f4a7c15) ^ i as u64) as u32;
    if seed & 1 == 1 {
        !v
    } else {
        v
    }
}
