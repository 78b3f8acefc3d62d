//! simhost: seeded search over simulated runs of texture2ddecoder, and exact replay of what it finds.
mod b01;
mod budget;
mod crn;
mod exec;
mod fmt;
mod gen;
mod json;
mod lib_sut;
mod machine;
mod model;
mod plan;
mod props;
mod rng;
mod shrink;

use json::{hex, J};
use lib_sut::{shared, Sut};
use plan::Plan;
use props::Ctx;
use rng::mix;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

const SHARDS: usize = 16;
const ROUND: u64 = 25;
const CORPUS: usize = 160;

struct Args(BTreeMap<String, String>, Vec<String>);

impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR {}", m);
    std::process::exit(3)
}

fn load(a: &Args) -> Ctx {
    let mut suts = vec![];
    for s in a.get("libs", "").split(',').filter(|s| !s.is_empty()) {
        let Some((n, p)) = s.split_once('=') else { die("--libs name=path,...") };
        match Sut::load(n, p) {
            Ok(s) => suts.push(s),
            Err(e) => die(&e),
        }
    }
    if suts.is_empty() {
        die("no library");
    }
    Ctx::new(suts, gen::World::load(&a.get("textures", "/repo/resources/tests/textures")))
}

fn run_seed(seed: u64, prop: &str, shard: usize, run: u64) -> u64 {
    let mut h = mix(seed ^ 0x7465_7832);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(mix(h ^ (shard as u64) << 40) ^ run) >> 8
}

#[derive(Default)]
struct Shard {
    run: u64,
    event: u64,
    cov: Vec<Vec<u8>>,
    corpus: Vec<Plan>,
    distinct: HashSet<u64>,
    inter: HashSet<u64>,
    samples: Vec<String>,
    nontrivial: u64,
    curve: Vec<(u64, u64)>,
    viol: Option<(u64, String, Plan)>,
    done: bool,
}

struct Job {
    prop: String,
    seed: u64,
    per_shard: u64,
    secs: f64,
    verbose: bool,
}

fn one(cx: &mut Ctx, j: &Job, id: usize, s: &mut Shard) {
    let seed = run_seed(j.seed, &j.prop, id, s.run);
    cx.sig = 0;
    cx.event = s.event;
    cx.new_edges = 0;
    let t = Instant::now();
    let plan = props::make(&j.prop, seed, cx, &s.corpus);
    cx.new_edges = 0;
    let o = props::check(cx, &plan);
    if j.verbose && t.elapsed().as_millis() > 1500 {
        eprintln!("slow: shard {} run {} {:?} {:?}", id, s.run, t.elapsed(), plan.calls().iter().map(|c| fmt::name(c.2.f)).collect::<Vec<_>>());
    }
    s.event = cx.event;
    if s.run < 2 {
        s.samples.push(sample(seed, &plan, &o));
    }
    if let Some(v) = &o.sched {
        let mut k = plan.first as u64;
        for e in v {
            k = mix(k ^ e.at ^ (e.to as u64) << 56 ^ (e.stall as u64) << 62);
        }
        if !v.is_empty() {
            s.inter.insert(k);
        }
        for e in v {
            cx.sig = mix(cx.sig ^ e.at ^ (e.to as u64) << 56 ^ (e.stall as u64) << 62);
        }
    }
    if o.nontrivial {
        s.nontrivial += 1;
        s.distinct.insert(cx.sig);
    }
    if props::feedback(&j.prop) && cx.new_edges > 0 && o.viol.is_none() {
        if s.corpus.len() >= CORPUS {
            s.corpus.remove(0);
        }
        s.corpus.push(plan.clone());
    }
    if let Some(v) = o.viol {
        s.viol = Some((s.run, v, plan));
        s.done = true;
    }
    s.run += 1;
    if s.run % ROUND == 0 {
        s.curve.push((s.run, s.distinct.len() as u64));
    }
}

/// one run for the reader
fn sample(seed: u64, p: &Plan, o: &props::Out) -> String {
    let mut t = format!("run seed {} build {}:", seed, p.variant);
    for b in &p.objs {
        t += &format!(" object \"{}\" of {} bytes", b.what, b.base.len());
        for f in &b.faults {
            t += &format!(" fault {}", f.json().text());
        }
        t += ";";
    }
    for (i, ops) in p.threads.iter().enumerate() {
        t += &format!(" thread {}:", i);
        for op in ops.iter().take(6) {
            t += " ";
            t += &match op {
                plan::Op::Call(c) => format!("{} {}x{} of object {}", fmt::name(c.f), c.w, c.h, c.obj),
                plan::Op::Hit { obj, fault } => format!("damage object {} {}", obj, fault.json().text()),
                plan::Op::Heal { obj } => format!("repair object {}", obj),
                plan::Op::Reload { obj, from } => format!("load object {} over {}", from, obj),
            };
            t += ",";
        }
        if ops.len() > 6 {
            t += &format!(" and {} more,", ops.len() - 6);
        }
    }
    if let Some(s) = &o.sched {
        t += &format!(" executed switches {:?}", s.iter().take(4).map(|s| (s.at, s.to, s.stall)).collect::<Vec<_>>());
    }
    t += if o.viol.is_some() { " -> violation" } else { " -> holds" };
    t
}

fn worker(cx: &mut Ctx, j: &Job, mine: &[usize], best: &AtomicU64, t0: Instant) -> Vec<(usize, Shard)> {
    let fresh = || cx.suts.iter().map(|_| vec![0u8; 1 << 16]).collect::<Vec<_>>();
    let mut shards: Vec<(usize, Shard)> =
        mine.iter().map(|&i| (i, Shard { cov: fresh(), event: mix(j.seed), ..Default::default() })).collect();
    'all: loop {
        let mut left = false;
        for (id, s) in shards.iter_mut() {
            if s.done {
                continue;
            }
            let cov = std::mem::take(&mut s.cov);
            cx.reset(cov);
            for _ in 0..ROUND {
                if s.run >= j.per_shard || s.run > best.load(Ordering::SeqCst) {
                    s.done = true;
                }
                if s.done {
                    break;
                }
                if t0.elapsed().as_secs_f64() > j.secs {
                    break 'all;
                }
                one(cx, j, *id, s);
                if s.viol.is_some() {
                    best.fetch_min(s.run - 1, Ordering::SeqCst);
                }
            }
            s.cov = cx.reset(vec![]);
            left |= !s.done;
        }
        if !left {
            break;
        }
    }
    shards
}

fn result(cx: &Ctx, j: &Job, shards: &[(usize, Shard)]) -> J {
    let s = &cx.stats;
    let list = shards
        .iter()
        .map(|(id, s)| {
            let mut v = vec![
                ("shard", J::n(*id)),
                ("runs", J::n(s.run)),
                ("nontrivial", J::n(s.nontrivial)),
                ("event", J::Str(format!("{:016x}", s.event))),
                ("distinct", J::Arr(s.distinct.iter().map(|x| J::n(*x)).collect())),
                ("inter", J::Arr(s.inter.iter().map(|x| J::n(*x)).collect())),
                ("samples", J::Arr(s.samples.iter().map(|x| J::s(x)).collect())),
                ("curve", J::Arr(s.curve.iter().map(|(a, b)| J::Arr(vec![J::n(*a), J::n(*b)])).collect())),
            ];
            if !s.cov.is_empty() {
                v.push(("cov", J::Arr(s.cov.iter().map(|c| J::Str(hex(&pack(c)))).collect())));
            }
            if let Some((run, msg, plan)) = &s.viol {
                v.push(("violation", J::Arr(vec![J::n(*run), J::s(msg), plan.json()])));
            }
            J::obj(v)
        })
        .collect();
    let by: BTreeMap<String, u64> = s.by_fn.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    J::obj(vec![
        ("property", J::s(&j.prop)),
        ("shards", J::Arr(list)),
        ("runs", J::n(s.runs)),
        ("skipped", J::n(s.skipped)),
        ("calls", J::n(s.calls)),
        ("forks", J::n(cx.eng.forks)),
        ("steps", J::n(cx.eng.steps)),
        ("switches", J::n(s.switches)),
        ("static_accesses", J::n(s.statics)),
        ("by_fn", J::map(&by)),
        ("outcome", J::map(&s.outcome)),
        ("faults", J::map(&s.faults)),
        ("extra", J::map(&s.extra)),
    ])
}

fn pack(c: &[u8]) -> Vec<u8> {
    let n = c.iter().rposition(|&x| x != 0).map_or(0, |n| n + 1);
    c[..n].chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, &x)| a | (x != 0) as u8 * (1 << i))).collect()
}

/// adds `o` into `a`: counters add up, except the ones called largest_*
fn merge(a: &mut BTreeMap<String, i128>, pre: &str, o: &J) {
    if let J::Obj(m) = o {
        for (k, v) in m {
            match v {
                J::Int(n) => {
                    let e = a.entry(format!("{}{}", pre, k)).or_default();
                    *e = if k.starts_with("largest") { (*e).max(*n) } else { *e + n };
                }
                J::Obj(_) => merge(a, &format!("{}{}.", pre, k), v),
                _ => {}
            }
        }
    }
}

fn unmerge(m: &BTreeMap<String, i128>, pre: &str) -> J {
    let p = format!("{}.", pre);
    J::Obj(m.iter().filter_map(|(k, v)| Some((k.strip_prefix(&p)?.to_string(), J::Int(*v)))).collect())
}

fn run(a: &Args) -> i32 {
    let t0 = Instant::now();
    let mut cx = load(a);
    let runs = a.num("runs", 1600);
    let j = Job {
        prop: a.get("prop", ""),
        seed: a.num("seed", 1),
        per_shard: runs.div_ceil(SHARDS as u64),
        secs: a.num("secs", 60) as f64,
        verbose: a.num("verbose", 0) != 0,
    };
    if !props::PROPS.contains(&j.prop.as_str()) {
        die("unknown property");
    }
    let nw = (a.num("workers", 8) as usize).clamp(1, SHARDS);
    let out = a.get("out", "/tmp/simhost.json");
    let best: &AtomicU64 = unsafe { &*(shared(4096) as *const AtomicU64) };
    best.store(u64::MAX - 1, Ordering::SeqCst);
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let mine: Vec<usize> = (0..SHARDS).filter(|s| s % nw == w).collect();
            // every worker has its own pages shared with its universes
            let mut cx2 = cx;
            cx2.own();
            let shards = worker(&mut cx2, &j, &mine, best, t0);
            let r = result(&cx2, &j, &shards);
            let ok = std::fs::write(format!("{}.w{}", out, w), r.text()).is_ok();
            std::process::exit(!ok as i32);
        }
        pids.push(pid);
    }
    let mut failed = false;
    for p in pids {
        let mut st = 0;
        while unsafe { libc::waitpid(p, &mut st, 0) } < 0 {}
        failed |= st != 0;
    }
    if failed {
        die("a worker died");
    }
    let search = t0.elapsed().as_secs_f64();
    let mut sum = BTreeMap::new();
    let mut distinct = HashSet::new();
    let mut inter = HashSet::new();
    let mut samples = vec![];
    let mut shards: Vec<J> = vec![];
    let mut cov: Vec<Vec<u8>> = vec![vec![]; cx.suts.len()];
    for w in 0..nw {
        let f = format!("{}.w{}", out, w);
        let Some(r) = std::fs::read_to_string(&f).ok().and_then(|s| J::parse(&s)) else { die("no result of a worker") };
        let _ = std::fs::remove_file(&f);
        merge(&mut sum, "", &r);
        shards.extend(r.get("shards").arr().iter().cloned());
    }
    shards.sort_by_key(|s| s.get("shard").us());
    let mut ev = 0u64;
    let mut curve: BTreeMap<u64, u64> = BTreeMap::new();
    let mut nontrivial = 0;
    let mut viol: Option<(u64, usize, &J)> = None;
    for s in &shards {
        nontrivial += s.get("nontrivial").u64();
        distinct.extend(s.get("distinct").arr().iter().map(|x| x.u64()));
        inter.extend(s.get("inter").arr().iter().map(|x| x.u64()));
        if samples.len() < 6 {
            samples.extend(s.get("samples").arr().iter().cloned());
        }
        ev = mix(ev ^ u64::from_str_radix(s.get("event").str(), 16).unwrap_or(0));
        for c in s.get("curve").arr() {
            *curve.entry(c.arr()[0].u64()).or_default() += c.arr()[1].u64();
        }
        for (i, c) in s.get("cov").arr().iter().enumerate() {
            let b = json::unhex(c.str());
            if cov[i].len() < b.len() {
                cov[i].resize(b.len(), 0);
            }
            for (k, x) in b.iter().enumerate() {
                cov[i][k] |= x;
            }
        }
        if let [run, _, _] = s.get("violation").arr() {
            let key = (run.u64(), s.get("shard").us());
            if viol.is_none_or(|v| key < (v.0, v.1)) {
                viol = Some((key.0, key.1, s));
            }
        }
    }
    let mut replay = J::Null;
    let mut code = 0;
    if let Some((run, shard, s)) = viol {
        code = 1;
        let v = s.get("violation").arr();
        let plan = Plan::parse(&v[2]);
        println!("found by seed {} shard {} run {}: {}", j.seed, shard, run, v[1].str());
        let (small, msg, tried) = shrink::shrink(&mut cx, plan, v[1].str(), a.num("shrink", 400), a.num("shrink-secs", 40) as f64, None);
        let dir = a.get("replays", "/tmp");
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{}/{}-{}-{}-{}.json", dir, j.prop, j.seed, shard, run);
        let (log, event) = logged(&mut cx, &small);
        let text = J::obj(vec![
            ("property", J::s(&j.prop)),
            ("violation", J::s(&msg)),
            ("seed", J::n(j.seed)),
            ("shard", J::n(shard)),
            ("run", J::n(run)),
            ("run_seed", J::n(run_seed(j.seed, &j.prop, shard, run))),
            ("minimised_with", J::n(tried)),
            ("event_digest", J::Str(format!("{:016x}", event))),
            ("plan", small.json()),
            ("trace", J::Arr(log.iter().map(|l| J::s(l)).collect())),
        ]);
        if std::fs::write(&file, text.pretty()).is_err() {
            die("cannot write the replay file");
        }
        println!("{}", msg);
        println!("VIOLATION property={} replay={}", j.prop, file);
        replay = J::Str(file);
    }
    let edges: Vec<J> = cov
        .iter()
        .zip(&cx.suts)
        .map(|(c, s)| {
            J::Arr(vec![
                J::s(&s.name),
                J::n(c.iter().map(|x| x.count_ones()).sum::<u32>()),
                J::n(unsafe { (*s.rt).guards }),
            ])
        })
        .collect();
    if a.0.contains_key("cov") {
        // development only: which edges were executed, as bits
        let text: Vec<String> = cov.iter().zip(&cx.suts).map(|(c, s)| format!("{} {}", s.name, hex(c))).collect();
        let _ = std::fs::write(a.get("cov", ""), text.join("\n"));
    }
    let g = |k: &str| J::Int(sum.get(k).copied().unwrap_or(0));
    let res = J::obj(vec![
        ("property", J::s(&j.prop)),
        ("seed", J::n(j.seed)),
        ("workers", J::n(nw)),
        ("search_s", J::Num(search)),
        ("wall_s", J::Num(t0.elapsed().as_secs_f64())),
        ("runs", g("runs")),
        ("planned_runs", J::n(j.per_shard * SHARDS as u64)),
        ("skipped", g("skipped")),
        ("nontrivial", J::n(nontrivial)),
        ("distinct", J::n(distinct.len())),
        ("interleavings", J::n(inter.len())),
        ("samples", J::Arr(samples)),
        ("calls", g("calls")),
        ("universes", g("forks")),
        ("steps", g("steps")),
        ("switches", g("switches")),
        ("static_accesses", g("static_accesses")),
        ("by_fn", unmerge(&sum, "by_fn")),
        ("outcome", unmerge(&sum, "outcome")),
        ("faults", unmerge(&sum, "faults")),
        ("extra", unmerge(&sum, "extra")),
        ("edges", J::Arr(edges)),
        ("curve", J::Arr(curve.iter().map(|(a, b)| J::Arr(vec![J::n(a * SHARDS as u64), J::n(*b)])).collect())),
        ("event_digest", J::Str(format!("{:016x}", ev))),
        ("violations", J::n(viol.is_some() as u32)),
        ("replay", replay),
    ]);
    if std::fs::write(&out, res.pretty()).is_err() {
        die("cannot write the result");
    }
    println!(
        "{} seed {} runs {} skipped {} distinct {} digest {:016x} {:.1}s",
        j.prop, j.seed, g("runs").int(), g("skipped").int(), distinct.len(), ev, search
    );
    code
}

fn logged(cx: &mut Ctx, p: &Plan) -> (Vec<String>, u64) {
    cx.reset(cx.suts.iter().map(|_| vec![0u8; 1 << 16]).collect());
    cx.log = Some(vec![]);
    cx.event = 0;
    let o = props::check(cx, p);
    let mut l = cx.log.take().unwrap_or_default();
    l.push(match o.viol {
        Some(v) => format!("verdict: {}", v),
        None => "verdict: the property holds in this run".to_string(),
    });
    (l, cx.event)
}

fn replay(a: &Args) -> i32 {
    let Some(file) = a.1.first() else { die("replay FILE") };
    let Some(j) = std::fs::read_to_string(file).ok().and_then(|s| J::parse(&s)) else { die("cannot read the file") };
    let mut cx = load(a);
    let p = Plan::parse(if *j.get("plan") == J::Null { &j } else { j.get("plan") });
    let (log, event) = logged(&mut cx, &p);
    for l in &log {
        println!("{}", l);
    }
    let want = j.get("event_digest").str();
    let now = format!("{:016x}", event);
    if !want.is_empty() {
        println!("event digest {} ({})", now, if want == now { "exactly as recorded" } else { "not the recorded one" });
    }
    if log.last().is_some_and(|l| l.contains("holds in this run")) {
        return 0;
    }
    println!("VIOLATION property={} replay={}", p.prop, file);
    1
}

/// prints the plan of one run, or the outcomes of the first runs
fn show(a: &Args) -> i32 {
    let mut cx = load(a);
    let prop = a.get("prop", "");
    for run in a.num("from", 0)..a.num("from", 0) + a.num("n", 10) {
        let seed = run_seed(a.num("seed", 1), &prop, 0, run);
        let p = props::make(&prop, seed, &mut cx, &[]);
        if a.num("plan", 0) != 0 {
            println!("{}", p.json().pretty());
        }
        cx.sig = 0;
        let (log, _) = logged(&mut cx, &p);
        println!("run {} seed {}", run, seed);
        for o in &p.objs {
            println!("  object {} ({} bytes) {:?}", o.what, o.base.len(), o.faults);
        }
        for l in log {
            println!("  {}", l);
        }
    }
    0
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = Args(BTreeMap::new(), vec![]);
    while let Some(k) = it.next() {
        match k.strip_prefix("--") {
            Some(k) => {
                let v = it.next().unwrap_or_default();
                a.0.insert(k.to_string(), v);
            }
            None => a.1.push(k),
        }
    }
    std::process::exit(match cmd.as_str() {
        "run" => run(&a),
        "replay" => replay(&a),
        "show" => show(&a),
        "b01" => b01::emit(&mut load(&a), a.num("seed", 1), a.num("shard", 0), a.num("runs", 10)),
        "machine" => machine::emit(
            &mut load(&a),
            a.num("seed", 1),
            a.num("shard", 0),
            a.num("budget", 1_000_000),
            a.num("runs", 20_000),
            &a.get("out", "/tmp/machine"),
        ),
        "threads" => machine::emit_threads(
            &mut load(&a),
            a.num("seed", 1),
            a.num("shard", 0),
            a.num("runs", 6),
            &a.get("out", "/tmp/machine"),
        ),
        "encode" | "mshrink" => {
            let Some(t) = a.1.first().and_then(|f| std::fs::read_to_string(f).ok()) else { die("encode FILE") };
            let out = a.get("out", "/tmp/machine");
            match cmd.as_str() {
                "encode" => machine::encode(&t, &out),
                _ => machine::shrunk(&mut load(&a), &t, &out, &a.get("judge", "false"), a.num("shrink-secs", 40) as f64),
            }
        }
        _ => die("run | replay | show"),
    })
}
