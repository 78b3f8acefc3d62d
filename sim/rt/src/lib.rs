//! Runtime linked into the simulated library. Not instrumented itself.
//! It turns instrumented edges and memory accesses into clock ticks and calls into the simulator,
//! and routes every allocation of the library to the simulator.
use std::alloc::{GlobalAlloc, Layout, System};

pub const MAP_SIZE: usize = 1 << 16;

#[repr(C)]
pub struct Rt {
    /// simulated time: executed edges plus accesses to static memory
    pub clock: u64,
    /// the simulator wants control when the clock gets here
    pub next: u64,
    pub hook: Option<extern "C" fn()>,
    pub access: Option<extern "C" fn(usize, u32)>,
    pub map: *mut u8,
    pub stat_lo: usize,
    pub stat_len: usize,
    pub min_sp: usize,
    pub guards: u32,
    pub pad: u32,
    pub alloc: Option<extern "C" fn(usize, usize, u32) -> *mut u8>,
    pub free: Option<extern "C" fn(*mut u8, usize, usize)>,
}

static mut DUMMY: [u8; MAP_SIZE] = [0; MAP_SIZE];

pub static mut RT: Rt = Rt {
    clock: 0,
    next: u64::MAX,
    hook: None,
    access: None,
    map: unsafe { &raw mut DUMMY as *mut u8 },
    stat_lo: 0,
    stat_len: 0,
    min_sp: usize::MAX,
    guards: 0,
    pad: 0,
    alloc: None,
    free: None,
};

#[cold]
#[inline(never)]
unsafe fn call_hook() {
    match RT.hook {
        Some(h) => h(),
        None => RT.next = u64::MAX,
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        RT.guards += 1;
        *start = RT.guards;
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let rt = &raw mut RT;
    (*rt).clock += 1;
    *(*rt).map.add(*guard as usize & (MAP_SIZE - 1)) = 1;
    let sp = &rt as *const _ as usize;
    if sp < (*rt).min_sp {
        (*rt).min_sp = sp;
    }
    if (*rt).clock >= (*rt).next {
        call_hook();
    }
}

#[cold]
#[inline(never)]
unsafe fn static_access(addr: usize, write: u32) {
    RT.clock += 1;
    if let Some(f) = RT.access {
        f(addr, write);
    }
    if RT.clock >= RT.next {
        call_hook();
    }
}

macro_rules! access {
    ($($name:ident $write:expr),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(addr: usize) {
            if addr.wrapping_sub(RT.stat_lo) < RT.stat_len {
                static_access(addr, $write);
            }
        }
    )* };
}
access!(
    __sanitizer_cov_load1 0, __sanitizer_cov_load2 0, __sanitizer_cov_load4 0,
    __sanitizer_cov_load8 0, __sanitizer_cov_load16 0,
    __sanitizer_cov_store1 1, __sanitizer_cov_store2 1, __sanitizer_cov_store4 1,
    __sanitizer_cov_store8 1, __sanitizer_cov_store16 1
);

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match RT.alloc {
            Some(f) => f(l.size(), l.align(), 0),
            None => System.alloc(l),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        match RT.alloc {
            Some(f) => f(l.size(), l.align(), 1),
            None => System.alloc_zeroed(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match RT.free {
            Some(f) => f(p, l.size(), l.align()),
            None => System.dealloc(p, l),
        }
    }
}

// ---------------------------------------------------------------- bulk memory operations
// The linker sends the library's memcpy, memmove and memset (and bcmp, memcmp) here: they take time in
// proportion to their length, and those that touch static memory are preemptible in the middle.
const BYTES_PER_TICK: usize = 16;

extern "C" {
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}

#[inline(always)]
unsafe fn bulk(n: usize) {
    let rt = &raw mut RT;
    (*rt).clock += (n / BYTES_PER_TICK) as u64;
}

#[inline(always)]
unsafe fn in_static(p: *const u8) -> bool {
    (p as usize).wrapping_sub(RT.stat_lo) < RT.stat_len
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    if n > 0 && (in_static(d) || in_static(s)) {
        let (addr, w) = if in_static(d) { (d as usize, 1) } else { (s as usize, 0) };
        static_access(addr, w);
        let half = n / 2;
        __real_memcpy(d, s, half);
        if half > 0 {
            static_access(addr + half, w);
        }
        __real_memcpy(d.add(half), s.add(half), n - half);
        return d;
    }
    __real_memcpy(d, s, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    if n > 0 && (in_static(d) || in_static(s)) {
        static_access(if in_static(d) { d as usize } else { s as usize }, in_static(d) as u32);
    }
    __real_memmove(d, s, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    bulk(n);
    if n > 0 && in_static(d) {
        static_access(d as usize, 1);
        let half = n / 2;
        __real_memset(d, c, half);
        if half > 0 {
            static_access(d as usize + half, 1);
        }
        __real_memset(d.add(half), c, n - half);
        return d;
    }
    __real_memset(d, c, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    bulk(n);
    __real_memcmp(a, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    bulk(n);
    __real_bcmp(a, b, n)
}
