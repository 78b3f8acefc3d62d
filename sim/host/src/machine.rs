//! Calls for simulated machines: the native simulation looks for calls that do different things,
//! the programs on the machines then make exactly these.
use crate::exec::*;
use crate::fmt::{self, Class};
use crate::json::J;
use crate::plan::*;
use crate::props::{self, Ctx};
use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};

/// elements of the largest image and bytes of the largest object sent to a machine
const IMG: usize = 6000;
const DATA: usize = 6000;
const STEPS: u64 = 60_000;

/// the calls of a plan as the program on the machine reads them; none if it cannot make one of them
pub fn wire(p: &Plan) -> Option<Vec<u8>> {
    let mut out = vec![];
    for ((_, _, c), d) in p.calls().iter().zip(p.contents_at_calls()) {
        let off = c.off.min(d.len());
        let d = &d[off..off + c.len.min(d.len() - off)];
        let img = if fmt::class(c.f) == Class::Info { 9 } else { c.img };
        let small = [c.w, c.h, c.bw, c.bh].iter().all(|&x| x <= u32::MAX as usize);
        if img > IMG || d.len() > DATA || !small {
            return None;
        }
        for x in [c.f as usize, c.w, c.h, c.bw, c.bh, img, d.len()] {
            out.extend((x as u64).to_le_bytes());
        }
        out.extend((c.fill.unwrap_or(0)).to_le_bytes());
        out.extend(d);
    }
    Some(out)
}

/// writes FILE.bin and FILE.jsonl (one plan a line) with calls of about `budget` steps
pub fn emit(cx: &mut Ctx, seed: u64, shard: u64, budget: u64, runs: u64, file: &str) -> i32 {
    cx.reset(cx.suts.iter().map(|_| vec![0u8; 1 << 16]).collect());
    let Some(v) = cx.sut("chk").or(cx.sut("rel")) else { return 3 };
    let (mut corpus, mut seen, mut share): (Vec<Plan>, HashSet<u64>, BTreeMap<u32, u64>) = Default::default();
    let (mut bin, mut text, mut used, mut n) = (vec![], String::new(), 0, 0u64);
    let mut tried = 0;
    let mut by: BTreeMap<String, u64> = Default::default();
    for run in 0..runs {
        if used >= budget {
            break;
        }
        tried += 1;
        let rseed = mix(mix(mix(seed ^ 0xc03) ^ shard << 40) ^ run) >> 8;
        let p = props::make("C03", rseed, cx, &corpus);
        let Some(b) = wire(&p) else { continue };
        cx.sig = 0;
        cx.new_edges = 0;
        let h = cx.run(v, &p, &Opts::default());
        let new = cx.new_edges > 0;
        // what other properties forbid is theirs to report
        if h.calls.iter().any(|r| r.ret != OK && r.ret != ERR) {
            continue;
        }
        let steps: u64 = h.calls.iter().map(|r| r.steps + 500).sum();
        let f = p.calls()[0].2.f;
        let mine = share.entry(f).or_default();
        if steps > STEPS || !seen.insert(cx.sig) || (!new && *mine > used / 16 + budget / 200) {
            continue;
        }
        *mine += steps;
        cx.count_faults(&p);
        used += steps;
        n += p.calls().len() as u64;
        for (_, _, c) in p.calls() {
            *by.entry(fmt::name(c.f).to_string()).or_default() += 1;
        }
        if new {
            corpus.push(p.clone());
        }
        bin.extend(b);
        text += &p.json().text();
        text.push('\n');
    }
    let edges: u64 = cx.reset(vec![])[v].iter().filter(|&&x| x != 0).count() as u64;
    let sum = J::obj(vec![
        ("plans_tried", J::n(tried)),
        ("plans", J::n(seen.len())),
        ("calls", J::n(n)),
        ("steps", J::n(used)),
        ("edges", J::n(edges)),
        ("by_fn", J::map(&by)),
        ("faults", J::map(&cx.stats.faults)),
    ]);
    let ok = std::fs::write(format!("{}.bin", file), bin).is_ok()
        && std::fs::write(format!("{}.jsonl", file), text).is_ok()
        && std::fs::write(format!("{}.json", file), sum.pretty()).is_ok();
    !ok as i32
}

/// the threads of a plan as the program on the machine reads them: their number, how many calls each
/// makes, and the calls; none if a thread does anything but small calls
pub fn wire_threads(p: &Plan) -> Option<Vec<u8>> {
    let mut out = (p.threads.len() as u64).to_le_bytes().to_vec();
    for t in &p.threads {
        if t.iter().any(|o| !matches!(o, Op::Call(_))) {
            return None;
        }
        out.extend((t.len() as u64).to_le_bytes());
    }
    out.extend(wire(p)?);
    Some(out)
}

/// writes FILE.bin and FILE.jsonl with plans of threads that make small calls at the same time
pub fn emit_threads(cx: &mut Ctx, seed: u64, shard: u64, plans: u64, file: &str) -> i32 {
    cx.reset(cx.suts.iter().map(|_| vec![0u8; 1 << 16]).collect());
    let Some(v) = cx.sut("chk").or(cx.sut("rel")) else { return 3 };
    let (mut bin, mut text, mut n, mut steps, mut calls, mut tried) = (vec![], String::new(), 0, 0, 0, 0u64);
    let mut by: BTreeMap<String, u64> = Default::default();
    while n < plans && tried < 400 * plans + 4000 {
        tried += 1;
        let mut p = props::make("S01", mix(mix(mix(seed ^ 0x501) ^ shard << 40) ^ tried) >> 8, cx, &[]);
        for t in p.threads.iter_mut() {
            t.truncate(3);
        }
        p.threads.truncate(3);
        if p.threads.len() < 2 || p.threads.iter().any(|t| t.is_empty()) {
            continue;
        }
        let Some(b) = wire_threads(&p) else { continue };
        let calls_of: Vec<Call> = p.calls().into_iter().map(|x| x.2.clone()).collect();
        let contents = p.contents_at_calls();
        let r: Vec<CallRes> = calls_of.iter().zip(&contents).map(|(c, d)| cx.solo(v, c, d)).collect();
        let s: u64 = r.iter().map(|r| r.steps).sum();
        if r.iter().any(|r| r.ret != OK && r.ret != ERR) || s > 24_000 {
            continue;
        }
        for c in &calls_of {
            *by.entry(fmt::name(c.f).to_string()).or_default() += 1;
        }
        n += 1;
        steps += s;
        calls += r.len();
        bin.extend(b);
        text += &p.json().text();
        text.push('\n');
    }
    let sum = J::obj(vec![("plans", J::n(n)), ("calls", J::n(calls)), ("steps", J::n(steps)), ("by_fn", J::map(&by))]);
    let ok = std::fs::write(format!("{}.bin", file), bin).is_ok()
        && std::fs::write(format!("{}.jsonl", file), text).is_ok()
        && std::fs::write(format!("{}.json", file), sum.pretty()).is_ok();
    !ok as i32
}

/// a plan as a file of calls, or of threads
pub fn encode(plan: &str, file: &str) -> i32 {
    let threads = |p: Plan| if p.prop == "S01" { wire_threads(&p) } else { wire(&p) };
    match J::parse(plan).and_then(|j| threads(Plan::parse(&j))) {
        Some(b) => std::fs::write(file, b).is_err() as i32,
        None => 3,
    }
}

/// makes a plan smaller; the command `judge FILE` ends with 1 and a message if the calls of FILE are
/// still answered differently
pub fn shrunk(cx: &mut Ctx, plan: &str, out: &str, judge: &str, secs: f64) -> i32 {
    let Some(p) = J::parse(plan).map(|j| Plan::parse(&j)) else { return 3 };
    let bin = format!("{}.bin", out);
    let ask = |p: &Plan| -> Option<String> {
        std::fs::write(&bin, if p.prop == "S01" { wire_threads(p)? } else { wire(p)? }).ok()?;
        let o = std::process::Command::new("sh").args(["-c", &format!("{} {}", judge, bin)]).output().ok()?;
        (o.status.code() == Some(1)).then(|| String::from_utf8_lossy(&o.stdout).trim().to_string())
    };
    let (small, msg, tried) = crate::shrink::shrink(cx, p, "", 400, secs, Some(&ask));
    let _ = std::fs::remove_file(&bin);
    println!("{}", tried);
    println!("{}", msg);
    std::fs::write(out, small.json().text()).is_err() as i32
}
