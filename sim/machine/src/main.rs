//! A program for a simulated machine: makes the calls of a file and prints what came out of each, so
//! that machines, or orders of execution, can be compared.
//! machine FILE [FROM TO] [dump]   one call after the other
//! machine - threads               the calls of several threads at the same time
//! machine - alone                 the same calls one after the other
//! (-: the file is the standard input, the program needs nothing else from outside)
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

#[path = "../../sut/src/dispatch.rs"]
mod dispatch;

struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn num(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn call(&mut self) -> Call {
        let f = self.num() as u32;
        let [w, h, bw, bh, img, len] = [0; 6].map(|_| self.num() as usize);
        let fill = self.num();
        Call { f, w, h, bw, bh, img, fill, data: self.take(len).into() }
    }
}

struct Call {
    f: u32,
    w: usize,
    h: usize,
    bw: usize,
    bh: usize,
    img: usize,
    fill: u64,
    data: Arc<[u8]>,
}

fn mix(x: u64) -> u64 {
    let x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    let x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

impl Call {
    fn make(&self) -> (u32, u64, &'static str, Vec<u32>) {
        let mut image: Vec<u32> =
            (0..self.img as u64).map(|k| if self.f == 42 { self.fill } else { mix(self.fill + k) } as u32).collect();
        let got = catch_unwind(AssertUnwindSafe(|| {
            dispatch::dispatch(self.f, &self.data, self.w, self.h, self.bw, self.bh, &mut image)
        }));
        let (code, text) = match got {
            Ok(Some(Ok(()))) => (0, ""),
            Ok(Some(Err(e))) => (1, e),
            Err(_) => (2, "panic"),
            Ok(None) => (3, "not built"),
        };
        let mut hash = 0xcbf2_9ce4_8422_2325u64;
        for x in &image {
            hash = (hash ^ *x as u64).wrapping_mul(0x0100_0000_01b3);
            hash ^= hash >> 29;
        }
        (code, hash, text, image)
    }
}

fn threads(mut r: In, alone: bool) {
    let mut me = 0;
    while !r.0.is_empty() {
        let n = r.num() as usize;
        let counts: Vec<usize> = (0..n).map(|_| r.num() as usize).collect();
        let mut all: Vec<Vec<Call>> = counts.iter().map(|&k| (0..k).map(|_| r.call()).collect()).collect();
        // threads that read the same data read it in the same place
        let mut seen: Vec<Arc<[u8]>> = vec![];
        for c in all.iter_mut().flatten() {
            match seen.iter().find(|d| ***d == *c.data) {
                Some(d) => c.data = d.clone(),
                None => seen.push(c.data.clone()),
            }
        }
        let start = Arc::new(Barrier::new(n));
        let work = |calls: Vec<Call>| calls.iter().map(|c| c.make()).map(|(a, b, c, _)| (a, b, c)).collect::<Vec<_>>();
        let got: Vec<Vec<_>> = if alone {
            all.into_iter().map(work).collect()
        } else {
            let t: Vec<_> = all
                .into_iter()
                .map(|calls| {
                    let start = start.clone();
                    std::thread::spawn(move || {
                        start.wait();
                        work(calls)
                    })
                })
                .collect();
            t.into_iter().map(|t| t.join().unwrap()).collect()
        };
        for (code, hash, text) in got.into_iter().flatten() {
            println!("{me} {code} {hash:016x} {text}");
            me += 1;
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let last = a.last().map_or("", |x| x.as_str());
    let mut file = vec![];
    if a[1] == "-" {
        std::io::stdin().read_to_end(&mut file).unwrap();
    } else {
        file = std::fs::read(&a[1]).unwrap();
    }
    let mut r = In(&file);
    if last == "threads" || last == "alone" {
        return threads(r, last == "alone");
    }
    let num = |i: usize, d: usize| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (from, to) = (num(2, 0), num(3, usize::MAX));
    let mut i = 0;
    while !r.0.is_empty() {
        let c = r.call();
        let me = i;
        i += 1;
        if me < from || me >= to {
            continue;
        }
        let (code, hash, text, image) = c.make();
        println!("{me} {code} {hash:016x} {text}");
        if last == "dump" {
            let hex: Vec<String> = image.iter().map(|x| format!("{x:08x}")).collect();
            println!("image {}", hex.join(" "));
        }
    }
}
