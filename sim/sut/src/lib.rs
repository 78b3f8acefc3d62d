//! The simulated system behind one C entry point: every call of the public API of texture2ddecoder.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

mod dispatch;

#[global_allocator]
static ALLOC: simrt::SimAlloc = simrt::SimAlloc;

thread_local! { static PANIC: RefCell<[u8; 160]> = const { RefCell::new([0; 160]) }; }

#[no_mangle]
pub extern "C" fn sut_init() -> *mut simrt::Rt {
    std::panic::set_hook(Box::new(|info| {
        use std::io::Write;
        let mut b = [0u8; 160];
        let mut w = &mut b[..159];
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .copied()
            .or_else(|| info.payload().downcast_ref::<String>().map(|s| s.as_str()))
            .unwrap_or("");
        if let Some(l) = info.location() {
            let f = l.file();
            let _ = write!(w, "{}:{}: ", f.rsplit("/src/").next().unwrap_or(f), l.line());
        }
        let _ = write!(w, "{}", msg);
        let _ = PANIC.try_with(|p| *p.borrow_mut() = b);
    }));
    &raw mut simrt::RT
}

/// 0 = ok, 1 = error (text in `err`), 2 = panic (text in `err`), 3 = not in this build
/// # Safety
/// the pointers must cover the lengths; `err` has 160 bytes
#[no_mangle]
#[allow(clippy::too_many_arguments)]
pub unsafe extern "C" fn sut_call(
    id: u32,
    data: *const u8,
    len: usize,
    w: usize,
    h: usize,
    bw: usize,
    bh: usize,
    image: *mut u32,
    image_len: usize,
    err: *mut u8,
) -> i32 {
    let data = std::slice::from_raw_parts(data, len);
    let image = std::slice::from_raw_parts_mut(image, image_len);
    let r = catch_unwind(AssertUnwindSafe(|| dispatch::dispatch(id, data, w, h, bw, bh, image)));
    let put = |s: &[u8]| {
        let n = s.len().min(159);
        std::ptr::copy_nonoverlapping(s.as_ptr(), err, n);
        *err.add(n) = 0;
    };
    match r {
        Ok(Some(Ok(()))) => 0,
        Ok(Some(Err(e))) => {
            put(e.as_bytes());
            1
        }
        Ok(None) => 3,
        Err(_) => {
            let b = PANIC.with(|p| *p.borrow());
            let n = b.iter().position(|&c| c == 0).unwrap_or(159);
            put(&b[..n]);
            2
        }
    }
}
