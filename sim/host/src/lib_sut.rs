//! Loads a build of the system under test and finds its writable static memory.
use std::ffi::CString;

#[repr(C)]
pub struct Rt {
    pub clock: u64,
    pub next: u64,
    pub hook: Option<extern "C" fn()>,
    pub access: Option<extern "C" fn(usize, u32)>,
    pub map: *mut u8,
    pub stat_lo: usize,
    pub stat_len: usize,
    pub min_sp: usize,
    pub guards: u32,
    pub pad: u32,
    pub alloc: Option<extern "C" fn(usize, usize, u32) -> *mut u8>,
    pub free: Option<extern "C" fn(*mut u8, usize, usize)>,
}

pub type CallFn = unsafe extern "C" fn(
    u32, *const u8, usize, usize, usize, usize, usize, *mut u32, usize, *mut u8,
) -> i32;

pub struct Sut {
    pub name: String,
    pub rt: *mut Rt,
    pub call: CallFn,
    pub map: *mut u8,
}

struct Find {
    path: Vec<u8>,
    lo: usize,
    hi: usize,
}

unsafe extern "C" fn phdr(info: *mut libc::dl_phdr_info, _: usize, data: *mut libc::c_void) -> i32 {
    let f = &mut *(data as *mut Find);
    let name = std::ffi::CStr::from_ptr((*info).dlpi_name);
    if name.to_bytes() == f.path {
        let ph = std::slice::from_raw_parts((*info).dlpi_phdr, (*info).dlpi_phnum as usize);
        let relro = ph.iter().find(|p| p.p_type == libc::PT_GNU_RELRO);
        for p in ph {
            if p.p_type == libc::PT_LOAD && p.p_flags & libc::PF_W != 0 {
                let mut lo = p.p_vaddr as usize;
                let hi = lo + p.p_memsz as usize;
                if let Some(r) = relro {
                    if (r.p_vaddr as usize) <= lo {
                        lo = lo.max((r.p_vaddr + r.p_memsz) as usize);
                    }
                }
                if hi > lo {
                    let b = (*info).dlpi_addr as usize;
                    if f.lo == 0 {
                        f.lo = b + lo;
                    }
                    f.hi = b + hi;
                }
            }
        }
        return 1;
    }
    0
}

pub fn shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "no shared memory");
        p as *mut u8
    }
}

impl Sut {
    pub fn load(name: &str, path: &str) -> Result<Sut, String> {
        unsafe {
            let c = CString::new(path).unwrap();
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                return Err(format!("cannot load {}: {:?}", path, std::ffi::CStr::from_ptr(libc::dlerror())));
            }
            let init = libc::dlsym(h, c"sut_init".as_ptr());
            let call = libc::dlsym(h, c"sut_call".as_ptr());
            if init.is_null() || call.is_null() {
                return Err(format!("{} lacks its entry points", path));
            }
            let init: extern "C" fn() -> *mut Rt = std::mem::transmute(init);
            let call: CallFn = std::mem::transmute(call);
            let rt = init();
            let mut f = Find { path: path.as_bytes().to_vec(), lo: 0, hi: 0 };
            libc::dl_iterate_phdr(Some(phdr), &mut f as *mut _ as *mut _);
            if f.lo == 0 {
                return Err(format!("no writable segment in {}", path));
            }
            (*rt).stat_lo = f.lo;
            (*rt).stat_len = f.hi - f.lo;
            let map = shared(1 << 16);
            (*rt).map = map;
            if (*rt).guards == 0 {
                return Err(format!("{} is not instrumented", path));
            }
            Ok(Sut { name: name.to_string(), rt, call, map })
        }
    }
    pub fn own(&mut self) {
        self.map = shared(1 << 16);
        unsafe { (*self.rt).map = self.map };
    }
}
