//! Executes one plan as one deterministic universe: a forked process image in which the simulator
//! owns threads, schedule, clock, storage and memory.
use crate::fmt;
use crate::lib_sut::{shared, Rt, Sut};
use crate::plan::*;
use crate::rng::{mix, Rng};
use std::cell::Cell;
use std::ptr::{addr_of_mut, null_mut};

pub const MAX_CALLS: usize = 400;
pub const MAX_SW: usize = 4000;
const ARENA: usize = 0x2000_0000_0000;
const ARENA_LEN: usize = 1 << 34;
const STACK: usize = 4 << 20;
const PAGE: usize = 4096;
pub const RAW_LEN: usize = 1 << 31;

pub const OK: u32 = 0;
pub const ERR: u32 = 1;
pub const PANIC: u32 = 2;
pub const ABSENT: u32 = 3;
pub const CRASH: u32 = 4;
pub const STEPS: u32 = 5;
pub const HEAP: u32 = 6;
pub const BLOCKED: u32 = 7;
pub const STUCK: u32 = 8;
pub const STALLED: u32 = 9;
pub const NOTRUN: u32 = 10;

pub fn ret_name(r: u32) -> &'static str {
    [
        "ok", "error", "panic", "absent", "crash", "step_limit", "heap_limit", "blocked", "stuck", "stalled",
        "not_run",
    ][r as usize]
}

#[repr(C)]
#[derive(Clone)]
pub struct CallRes {
    pub state: u32,
    pub ret: u32,
    pub err: [u8; 160],
    pub hash: u64,
    /// elements behind the region that changed
    pub beyond: u64,
    /// elements in front of the image that changed cannot exist: there is a guard page
    pub changed: u64,
    pub steps: u64,
    pub heap_peak: u64,
    pub heap_left: i64,
    pub allocs: u64,
    pub stack: u64,
    pub begin: u64,
    pub end: u64,
    pub raw: u64,
    pub raw_len: u64,
}

#[repr(C)]
struct Shared {
    fin: u32,
    sig: u32,
    addr: u64,
    cur: u32,
    nsw: u32,
    clock: u64,
    statics: u64,
    switches: u64,
    futex_waits: u64,
    alloc_failed: u64,
    sw: [(u64, u32, u32); MAX_SW],
    calls: [CallRes; MAX_CALLS],
}

#[derive(Clone, Default)]
pub struct History {
    pub calls: Vec<CallRes>,
    pub sig: u32,
    pub addr: u64,
    pub clock: u64,
    pub statics: u64,
    pub switches: u64,
    pub futex_waits: u64,
    pub alloc_failed: u64,
    /// the schedule that was actually executed (explicit and race directed switches)
    pub sched: Vec<Switch>,
    /// threads that were parked for good
    pub stalled: Vec<usize>,
}

impl CallRes {
    pub fn msg(&self) -> String {
        let n = self.err.iter().position(|&c| c == 0).unwrap_or(160);
        String::from_utf8_lossy(&self.err[..n]).to_string()
    }
    pub fn outcome(&self) -> String {
        match self.ret {
            OK => format!("ok {:016x}", self.hash),
            ERR | PANIC => format!("{} \"{}\"", ret_name(self.ret), self.msg()),
            r => ret_name(r).to_string(),
        }
    }
    /// same observable behaviour
    pub fn same(&self, o: &CallRes) -> bool {
        self.ret == o.ret
            && match self.ret {
                OK => self.hash == o.hash,
                ERR => self.err == o.err,
                _ => true,
            }
    }
}

#[derive(Clone)]
pub struct Opts {
    pub step_limit: u64,
    /// per call step limits (calls order), overriding `step_limit`
    pub limits: Vec<u64>,
    pub heap_limit: u64,
    pub keep_raw: bool,
    pub quantum: u64,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { step_limit: 400_000_000, limits: vec![], heap_limit: 3 << 30, keep_raw: false, quantum: u64::MAX }
    }
}

pub struct Engine {
    sh: *mut Shared,
    raw: *mut u8,
    pub forks: u64,
    pub steps: u64,
}

// ---------------------------------------------------------------- state inside a universe

#[derive(Clone, Copy, PartialEq)]
enum Ts {
    Ready,
    Stalled,
    Done,
}

struct Th {
    sem: libc::sem_t,
    st: Ts,
    steps: u64,
    limit: u64,
    min_sp: usize,
    sp0: usize,
    call: usize,
    cur_heap: i64,
}

struct Universe {
    rt: *mut Rt,
    call: crate::lib_sut::CallFn,
    sh: *mut Shared,
    raw: *mut u8,
    raw_pos: usize,
    th: Vec<Th>,
    cur: usize,
    slice: u64,
    sched: Vec<Switch>,
    next_sw: usize,
    quantum: u64,
    race: Option<(u64, Rng)>,
    race_stall: u64,
    plan: Plan,
    opts: Opts,
    bufs: Vec<(usize, usize)>,
    lens: Vec<usize>,
    slots: Vec<(usize, usize)>,
    heap_fill: u8,
    fail: bool,
    futex_spin: u64,
    futex_clock: u64,
    slept: u64,
    random: Rng,
    main_sem: libc::sem_t,
}

static mut U: *mut Universe = null_mut();
thread_local! { static IN_SUT: Cell<bool> = const { Cell::new(false) }; }

unsafe fn u() -> &'static mut Universe {
    &mut *U
}

unsafe fn finish(ret: u32) -> ! {
    let u = u();
    let c = &mut (*u.sh).calls[u.th[u.cur].call];
    if c.state == 1 {
        c.ret = ret;
        c.state = 2;
        let rt = &*u.rt;
        c.steps = u.th[u.cur].steps + (rt.clock - u.slice);
        c.stack = u.th[u.cur].sp0.saturating_sub(rt.min_sp) as u64;
    }
    done()
}

unsafe fn done() -> ! {
    let u = u();
    (*u.sh).clock = (*u.rt).clock;
    (*u.sh).fin = 1;
    libc::_exit(0)
}

extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let u = u();
        (*u.sh).sig = sig as u32;
        (*u.sh).addr = (*info).si_addr() as u64;
        finish(if sig == libc::SIGALRM { STUCK } else { CRASH })
    }
}

unsafe fn set_next() {
    let u = u();
    let rt = &mut *u.rt;
    let t = &u.th[u.cur];
    let mut n = u.slice + t.limit.saturating_sub(t.steps).min(1 << 60);
    if let Some(s) = u.sched.get(u.next_sw) {
        n = n.min(s.at);
    }
    if u.quantum != u64::MAX {
        n = n.min(u.slice.saturating_add(u.quantum));
    }
    rt.next = n;
}

unsafe fn other_ready() -> Option<usize> {
    let u = u();
    let n = u.th.len();
    (1..n).map(|d| (u.cur + d) % n).find(|&t| u.th[t].st == Ts::Ready)
}

/// parks the running thread and lets `to` run; returns when this thread is scheduled again
unsafe fn switch_to(to: usize, stall: bool, note: bool) {
    let u = u();
    let rt = &mut *u.rt;
    let me = u.cur;
    u.th[me].steps += rt.clock - u.slice;
    u.th[me].min_sp = rt.min_sp;
    if stall {
        u.th[me].st = Ts::Stalled;
    }
    if note || stall {
        let sh = &mut *u.sh;
        if (sh.nsw as usize) < MAX_SW {
            sh.sw[sh.nsw as usize] = (rt.clock, to as u32, if stall { me as u32 + 1 } else { 0 });
            sh.nsw += 1;
        }
    }
    (*u.sh).switches += 1;
    resume(to);
    while libc::sem_wait(addr_of_mut!(u.th[me].sem)) != 0 {}
}

unsafe fn resume(to: usize) {
    let u = u();
    let rt = &mut *u.rt;
    u.cur = to;
    (*u.sh).cur = to as u32;
    u.slice = rt.clock;
    rt.min_sp = u.th[to].min_sp;
    set_next();
    libc::sem_post(addr_of_mut!(u.th[to].sem));
}

extern "C" fn hook() {
    unsafe {
        let was = IN_SUT.with(|f| f.replace(false));
        let u = u();
        let rt = &mut *u.rt;
        let c = rt.clock;
        if u.th[u.cur].steps + (c - u.slice) >= u.th[u.cur].limit {
            finish(STEPS);
        }
        let mut switched = false;
        while let Some(s) = u.sched.get(u.next_sw) {
            if s.at > c {
                break;
            }
            let (to, stall) = (s.to, s.stall);
            u.next_sw += 1;
            if to != u.cur && to < u.th.len() && u.th[to].st == Ts::Ready {
                switch_to(to, stall, true);
                switched = true;
                break;
            }
        }
        if !switched && c - u.slice >= u.quantum {
            if let Some(t) = other_ready() {
                switch_to(t, false, false);
            } else {
                u.th[u.cur].steps += c - u.slice;
                u.slice = c;
            }
        }
        set_next();
        IN_SUT.with(|f| f.set(was));
    }
}

extern "C" fn on_access(_addr: usize, _write: u32) {
    unsafe {
        let u = u();
        (*u.sh).statics += 1;
        let n = u.th.len();
        if let Some((p, rng)) = &mut u.race {
            if n > 1 && rng.chance(*p) {
                let ready: Vec<usize> =
                    (0..n).filter(|&t| t != u.cur && u.th[t].st == Ts::Ready).collect();
                if !ready.is_empty() && ((*u.sh).nsw as usize) < MAX_SW {
                    let t = rng.pick(&ready);
                    let stall = u.race_stall > 0 && rng.chance(u.race_stall);
                    if stall {
                        u.race_stall = 0;
                    }
                    let was = IN_SUT.with(|f| f.replace(false));
                    switch_to(t, stall, true);
                    set_next();
                    IN_SUT.with(|f| f.set(was));
                }
            }
        }
    }
}

/// A futex wait of the code under test: the thread lets another one run and then tries again.
unsafe fn futex_wait() {
    let u = u();
    let c = (*u.rt).clock;
    (*u.sh).futex_waits += 1;
    if c == u.futex_clock {
        u.futex_spin += 1;
    } else {
        u.futex_spin = 0;
        u.futex_clock = c;
    }
    match other_ready() {
        Some(t) if u.futex_spin < 64 => {
            let was = IN_SUT.with(|f| f.replace(false));
            switch_to(t, false, false);
            set_next();
            IN_SUT.with(|f| f.set(was));
        }
        _ => finish(BLOCKED),
    }
}

/// # Safety
/// raw system call, resolved by the code under test (and by std) instead of libc's wrapper
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && IN_SUT.with(|x| x.get()) {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            if *(a as *const u32) == c as u32 {
                futex_wait();
            }
            *libc::__errno_location() = libc::EAGAIN;
            return -1;
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// simulated nanoseconds: one per step, plus what was slept
unsafe fn sim_time() -> u64 {
    let u = u();
    1_700_000_000_000_000_000 + (*u.rt).clock + u.slept
}

unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize) -> i32 {
    syscall(n, a as i64, b as i64, c as i64, d as i64, 0, 0) as i32
}

/// lets another thread run, if there is one
unsafe fn pass() {
    if let Some(t) = other_ready() {
        let was = IN_SUT.with(|f| f.replace(false));
        switch_to(t, false, false);
        set_next();
        IN_SUT.with(|f| f.set(was));
    }
}

/// # Safety
/// libc's function, simulated inside a call of the code under test
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if IN_SUT.with(|x| x.get()) {
        let t = sim_time();
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        return 0;
    }
    raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0)
}

/// # Safety
/// libc's function, simulated inside a call of the code under test
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if IN_SUT.with(|x| x.get()) {
        u().slept += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        pass();
        return 0;
    }
    raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0)
}

/// # Safety
/// libc's function, simulated inside a call of the code under test
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if IN_SUT.with(|x| x.get()) {
        return nanosleep(req, rem);
    }
    raw6(libc::SYS_clock_nanosleep, id as usize, fl as usize, req as usize, rem as usize)
}

/// # Safety
/// libc's function, simulated inside a call of the code under test
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if IN_SUT.with(|x| x.get()) {
        pass();
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0)
}

/// # Safety
/// libc's function, simulated inside a call of the code under test: random bytes come from the plan
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if IN_SUT.with(|x| x.get()) {
        let u = u();
        for i in 0..n {
            *p.add(i) = u.random.u64() as u8;
        }
        return n as isize;
    }
    syscall(libc::SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0) as isize
}

extern "C" fn sut_alloc(size: usize, align: usize, zero: u32) -> *mut u8 {
    unsafe {
        let mut p: *mut u8;
        if IN_SUT.with(|f| f.get()) {
            let u = u();
            let fail = u.fail;
            let t = &mut u.th[u.cur];
            let sh = &mut *u.sh;
            let c = &mut sh.calls[t.call];
            c.allocs += 1;
            if fail {
                sh.alloc_failed += 1;
                return null_mut();
            }
            t.cur_heap += size as i64;
            if t.cur_heap > c.heap_peak as i64 {
                c.heap_peak = t.cur_heap as u64;
            }
            if t.cur_heap as u64 > u.opts.heap_limit && t.cur_heap > 0 {
                finish(HEAP);
            }
            p = raw_alloc(size, align, zero);
            if zero == 0 && !p.is_null() {
                std::ptr::write_bytes(p, u.heap_fill, size.min(1 << 24));
            }
        } else {
            p = raw_alloc(size, align, zero);
        }
        if p.is_null() {
            p = null_mut();
        }
        p
    }
}

unsafe fn raw_alloc(size: usize, align: usize, zero: u32) -> *mut u8 {
    if align <= 16 {
        if zero != 0 {
            libc::calloc(1, size) as *mut u8
        } else {
            libc::malloc(size) as *mut u8
        }
    } else {
        let mut p = null_mut();
        if libc::posix_memalign(&mut p, align, size) != 0 {
            return null_mut();
        }
        if zero != 0 {
            std::ptr::write_bytes(p as *mut u8, 0, size);
        }
        p as *mut u8
    }
}

extern "C" fn sut_free(p: *mut u8, size: usize, _align: usize) {
    unsafe {
        if !U.is_null() && IN_SUT.with(|f| f.get()) {
            let u = u();
            u.th[u.cur].cur_heap -= size as i64;
            std::ptr::write_bytes(p, !u.heap_fill, size.min(1 << 20));
        }
        libc::free(p as *mut _);
    }
}

#[inline(never)]
unsafe fn soil_stack(seed: u64) {
    let mut a = [0u64; 6144];
    for (i, x) in a.iter_mut().enumerate() {
        std::ptr::write_volatile(x, seed ^ (i as u64).wrapping_mul(0x0101_0101_0101_0101));
    }
    std::hint::black_box(&mut a);
}

unsafe fn protect(u: &Universe, obj: usize, prot: i32) {
    let (lo, n) = u.bufs[obj];
    libc::mprotect(lo as *mut _, n, prot);
}

/// bytes of the data behind the tail
fn late(u: &Universe, obj: usize) -> usize {
    let o = &u.plan.objs[obj];
    if o.tail > 0 {
        o.late.min(u.lens[obj])
    } else {
        0
    }
}

unsafe fn obj_ptr(u: &Universe, obj: usize) -> *mut u8 {
    let (lo, n) = u.bufs[obj];
    let len = u.lens[obj];
    if u.plan.objs[obj].at_end || u.plan.objs[obj].tail > 0 {
        (lo + n - (len - late(u, obj))) as *mut u8
    } else {
        (lo + u.plan.objs[obj].shift.min(n - len)) as *mut u8
    }
}

unsafe fn store(u: &mut Universe, obj: usize, d: &[u8]) {
    protect(u, obj, libc::PROT_READ | libc::PROT_WRITE);
    let d = &d[..d.len().min(u.bufs[obj].1)];
    u.lens[obj] = d.len();
    let (d, behind) = d.split_at(d.len() - late(u, obj));
    std::ptr::copy_nonoverlapping(d.as_ptr(), obj_ptr(u, obj), d.len());
    protect(u, obj, libc::PROT_READ);
    if !behind.is_empty() {
        let (lo, n) = u.bufs[obj];
        let at = lo + n + u.plan.objs[obj].tail;
        let page = at / PAGE * PAGE;
        let size = (at + behind.len() - page).div_ceil(PAGE) * PAGE;
        libc::mprotect(page as *mut _, size, libc::PROT_READ | libc::PROT_WRITE);
        std::ptr::copy_nonoverlapping(behind.as_ptr(), at as *mut u8, behind.len());
        libc::mprotect(page as *mut _, size, libc::PROT_READ);
    }
}

pub fn hash32(p: &[u32]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for &x in p {
        h = crate::rng::fold(h.rotate_left(29) ^ x as u64);
    }
    mix(h)
}

unsafe fn run_call(c: &Call, idx: usize, me: usize) {
    let u = u();
    let res = &mut (*u.sh).calls[idx];
    let len = if c.obj < u.lens.len() { u.lens[c.obj] + u.plan.objs[c.obj].tail } else { 0 };
    let off = c.off.min(len);
    let n = c.len.min(len - off);
    let data: *const u8 = if c.obj < u.lens.len() { obj_ptr(u, c.obj).add(off) } else { ARENA as *const u8 };
    let (slo, sn) = u.slots[c.slot];
    let img_n = c.img.min(sn / 4 - u.plan.img_shift);
    let img = (slo + sn - img_n * 4 - u.plan.img_shift * 4) as *mut u32;
    let image = std::slice::from_raw_parts_mut(img, img_n);
    if let Some(f) = c.fill {
        for (i, x) in image.iter_mut().enumerate() {
            *x = fill_at(f, i);
        }
    }
    let before: Vec<u32> = image.to_vec();
    let region = c.region().min(img_n);
    let rt = &mut *u.rt;
    let limit = u.opts.limits.get(idx).copied().unwrap_or(u.opts.step_limit);
    let heap0 = u.th[me].cur_heap;
    {
        let t = &mut u.th[me];
        t.call = idx;
        t.steps = 0;
        t.limit = limit;
        t.cur_heap = 0;
    }
    res.state = 1;
    res.begin = rt.clock;
    if u.plan.dirty_stack {
        soil_stack(u.plan.seed ^ idx as u64);
    }
    let mark = 0u8;
    let sp0 = &mark as *const u8 as usize;
    rt.min_sp = sp0;
    u.th[me].sp0 = sp0;
    let times = if c.fill.is_some() { c.times.max(1) } else { 1 };
    let (mut r, mut first) = (0, None);
    for k in 1..=times {
        if k > 1 {
            image.copy_from_slice(&before);
            u.th[me].steps = 0;
        }
        u.slice = rt.clock;
        set_next();
        IN_SUT.with(|f| f.set(true));
        r = (u.call)(c.f, data, n, c.w, c.h, c.bw, c.bh, img, img_n, res.err.as_mut_ptr());
        IN_SUT.with(|f| f.set(false));
        if times > 1 {
            let got = (r, hash32(&image[..region]));
            if *first.get_or_insert(got) != got {
                break;
            }
        }
    }
    let res = &mut (*u.sh).calls[idx];
    let t = &mut u.th[me];
    res.steps = t.steps + (rt.clock - u.slice);
    res.stack = sp0.saturating_sub(rt.min_sp) as u64;
    res.heap_left = t.cur_heap;
    t.cur_heap += heap0;
    t.limit = u64::MAX >> 2;
    t.steps = 0;
    rt.next = u64::MAX;
    res.end = rt.clock;
    res.ret = r as u32;
    res.hash = hash32(&image[..region]);
    res.changed = (0..img_n).filter(|&i| image[i] != before[i]).count() as u64;
    res.beyond = (region..img_n).filter(|&i| image[i] != before[i]).count() as u64;
    if u.opts.keep_raw && u.raw_pos + img_n * 4 <= RAW_LEN {
        res.raw = u.raw_pos as u64;
        res.raw_len = img_n as u64;
        std::ptr::copy_nonoverlapping(img as *const u8, u.raw.add(u.raw_pos), img_n * 4);
        u.raw_pos += img_n * 4;
    }
    res.state = 2;
}

extern "C" fn thread_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let me = arg as usize;
        let ss = libc::stack_t {
            ss_sp: libc::malloc(65536),
            ss_flags: 0,
            ss_size: 65536,
        };
        libc::sigaltstack(&ss, null_mut());
        let u = u();
        while libc::sem_wait(addr_of_mut!(u.th[me].sem)) != 0 {}
        let mut idx: usize =
            u.plan.threads[..me].iter().map(|t| t.iter().filter(|o| matches!(o, Op::Call(_))).count()).sum();
        let nops = u.plan.threads[me].len();
        for i in 0..nops {
            let op = u.plan.threads[me][i].clone();
            match op {
                Op::Call(c) => {
                    if idx < MAX_CALLS {
                        run_call(&c, idx, me);
                    }
                    idx += 1;
                }
                Op::Hit { obj, fault } if obj < u.lens.len() && late(u, obj) == 0 => {
                    let p = obj_ptr(u, obj);
                    let mut d = std::slice::from_raw_parts(p, u.lens[obj]).to_vec();
                    let objs = std::mem::take(&mut u.plan.objs);
                    fault.apply(&mut d, &objs);
                    u.plan.objs = objs;
                    store(u, obj, &d);
                }
                Op::Heal { obj } if obj < u.lens.len() => {
                    let d = u.plan.objs[obj].base.clone();
                    store(u, obj, &d);
                }
                Op::Reload { obj, from } if obj < u.lens.len() && from < u.lens.len() => {
                    let d = u.plan.objs[from].base.clone();
                    store(u, obj, &d);
                }
                _ => {}
            }
        }
        u.th[me].st = Ts::Done;
        match other_ready() {
            Some(t) => resume(t),
            None => {
                libc::sem_post(addr_of_mut!(u.main_sem));
            }
        }
        // the thread stays parked: nothing of it may run outside the schedule
        loop {
            libc::pause();
        }
    }
}

unsafe fn map_at(pos: &mut usize, n: usize) -> (usize, usize) {
    let n = n.max(1).div_ceil(PAGE) * PAGE;
    let at = *pos;
    assert!(at + n + PAGE <= ARENA + ARENA_LEN);
    let p = libc::mmap(
        at as *mut _,
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p as usize == at);
    *pos = at + n + PAGE;
    (at, n)
}

/// pages that can only be read need no memory
unsafe fn map_tail(pos: &mut usize, n: usize) {
    let n = n.div_ceil(PAGE) * PAGE;
    assert!(*pos + n + PAGE <= ARENA + ARENA_LEN);
    let p = libc::mmap(
        *pos as *mut _,
        n,
        libc::PROT_READ,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p as usize == *pos);
    *pos += n + PAGE;
}

impl Engine {
    pub fn new() -> Engine {
        unsafe {
            let p = libc::mmap(
                ARENA as *mut _,
                ARENA_LEN,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p as usize == ARENA, "cannot reserve the arena");
        }
        Engine::renew()
    }

    pub fn renew() -> Engine {
        Engine {
            sh: shared(std::mem::size_of::<Shared>()) as *mut Shared,
            raw: shared(RAW_LEN),
            forks: 0,
            steps: 0,
        }
    }

    pub fn raw(&self, c: &CallRes) -> &'static [u32] {
        unsafe { std::slice::from_raw_parts(self.raw.add(c.raw as usize) as *const u32, c.raw_len as usize) }
    }

    pub fn run(&mut self, sut: &Sut, plan: &Plan, opts: &Opts) -> History {
        let ncalls = plan.calls().len().min(MAX_CALLS);
        unsafe {
            let sh = &mut *self.sh;
            std::ptr::write_bytes(self.sh as *mut u8, 0, std::mem::offset_of!(Shared, sw));
            for c in sh.calls.iter_mut().take(ncalls) {
                std::ptr::write_bytes(c as *mut CallRes, 0, 1);
            }
            let g = (*sut.rt).guards as usize + 1;
            std::ptr::write_bytes(sut.map, 0, g.min(1 << 16));
            self.forks += 1;
            let pid = libc::fork();
            if pid == 0 {
                self.child(sut, plan, opts);
            }
            if pid < 0 {
                eprintln!("HARNESS-ERROR cannot fork");
                std::process::exit(3);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let sh = &mut *self.sh;
            let mut h = History {
                sig: sh.sig,
                addr: sh.addr,
                clock: sh.clock,
                statics: sh.statics,
                switches: sh.switches,
                futex_waits: sh.futex_waits,
                alloc_failed: sh.alloc_failed,
                ..Default::default()
            };
            if sh.fin == 0 {
                // the universe ended without a word: killed by a signal it could not handle
                h.sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) as u32 } else { 255 };
            }
            h.sched = sh.sw[..sh.nsw as usize]
                .iter()
                .map(|s| Switch { at: s.0, to: s.1 as usize, stall: s.2 != 0 })
                .collect();
            h.stalled = sh.sw[..sh.nsw as usize].iter().filter(|s| s.2 != 0).map(|s| s.2 as usize - 1).collect();
            for c in sh.calls.iter().take(ncalls) {
                let mut c = c.clone();
                if c.state == 0 {
                    c.ret = NOTRUN;
                } else if c.state == 1 {
                    c.ret = if sh.fin == 0 { CRASH } else { STALLED };
                }
                h.calls.push(c);
            }
            self.steps += h.clock;
            h
        }
    }

    unsafe fn child(&mut self, sut: &Sut, plan: &Plan, opts: &Opts) -> ! {
        let mut pos = ARENA + PAGE;
        let mut bufs = vec![];
        let mut lens = vec![];
        let mut contents = vec![];
        // capacity: the largest content that can be put into the buffer
        for (i, o) in plan.objs.iter().enumerate() {
            let d = plan.stored(o);
            let mut cap = d.len().max(o.base.len());
            for ops in &plan.threads {
                for op in ops {
                    match op {
                        Op::Hit { obj, fault: Fault::Extend { len, .. } } if *obj == i => cap += len,
                        Op::Reload { obj, from } if *obj == i => {
                            cap = cap.max(plan.objs.get(*from).map_or(0, |o| o.base.len()))
                        }
                        _ => {}
                    }
                }
            }
            bufs.push(map_at(&mut pos, cap + if o.at_end { 0 } else { o.shift }));
            if o.tail > 0 {
                pos -= PAGE;
                map_tail(&mut pos, o.tail + o.late.min(bufs.last().unwrap().1));
            }
            lens.push(0);
            contents.push(d);
        }
        let mut slots: Vec<(usize, usize)> = vec![];
        let nslots = plan.calls().iter().map(|c| c.2.slot + 1).max().unwrap_or(1);
        for s in 0..nslots {
            let n = plan.calls().iter().filter(|c| c.2.slot == s).map(|c| c.2.img).max().unwrap_or(0);
            let at = map_at(&mut pos, (n + plan.img_shift) * 4);
            if plan.calls().iter().any(|c| c.2.slot == s && c.2.img != n) {
                std::ptr::write_bytes(at.0 as *mut u8, plan.heap_fill ^ 0x5a, at.1);
            }
            slots.push(at);
        }
        let n = plan.threads.len();
        let mut th = vec![];
        for _ in 0..n {
            let mut t = Th {
                sem: std::mem::zeroed(),
                st: Ts::Ready,
                steps: 0,
                limit: u64::MAX >> 2,
                min_sp: usize::MAX,
                sp0: 0,
                call: 0,
                cur_heap: 0,
            };
            libc::sem_init(&mut t.sem, 0, 0);
            th.push(t);
        }
        let multi = n > 1;
        let uni = Box::new(Universe {
            rt: sut.rt,
            call: sut.call,
            sh: self.sh,
            raw: self.raw,
            raw_pos: 0,
            th,
            cur: 0,
            slice: 0,
            sched: plan.sched.clone(),
            next_sw: 0,
            quantum: if multi { opts.quantum } else { u64::MAX },
            race: plan.race.map(|(p, s)| (p, Rng::new(s))),
            race_stall: plan.race_stall,
            plan: plan.clone(),
            opts: opts.clone(),
            bufs,
            lens,
            slots,
            heap_fill: plan.heap_fill,
            fail: plan.alloc_fail,
            futex_spin: 0,
            futex_clock: 0,
            slept: 0,
            random: Rng::new(plan.seed),
            main_sem: std::mem::zeroed(),
        });
        U = Box::into_raw(uni);
        let u = u();
        libc::sem_init(&mut u.main_sem, 0, 0);
        for (i, d) in contents.iter().enumerate() {
            store(u, i, d);
        }
        let rt = &mut *sut.rt;
        rt.clock = 0;
        rt.next = u64::MAX;
        rt.hook = Some(hook);
        rt.access = Some(on_access);
        rt.alloc = Some(sut_alloc);
        rt.free = Some(sut_free);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP, libc::SIGALRM] {
            libc::sigaction(s, &sa, null_mut());
        }
        // a safety net only: hangs are found by the simulated clock
        libc::alarm(120);
        // stderr of a dying universe is noise
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 2);
        for t in 0..n {
            let (lo, sz) = map_at(&mut pos, STACK);
            let mut at: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut at);
            libc::pthread_attr_setstack(&mut at, lo as *mut _, sz);
            let mut id = 0;
            if libc::pthread_create(&mut id, &at, thread_main, t as *mut _) != 0 {
                libc::_exit(3);
            }
        }
        resume(plan.first.min(n - 1));
        while libc::sem_wait(&mut u.main_sem) != 0 {}
        done()
    }
}

pub fn describe(plan: &Plan, h: &History) -> Vec<String> {
    let mut v = vec![];
    for ((t, _, c), r) in plan.calls().iter().zip(&h.calls) {
        v.push(format!(
            "thread {} {} {}x{} [{}..{}] -> {} (steps {}, heap {}, stack {}, changed {}, beyond {})",
            t, fmt::name(c.f), c.w, c.h, r.begin, r.end, r.outcome(), r.steps, r.heap_peak, r.stack, r.changed, r.beyond
        ));
    }
    v
}
