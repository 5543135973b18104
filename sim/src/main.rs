#![feature(alloc_error_hook)]
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dangerous_implicit_autorefs, dead_code)]

mod alloc;
mod effects;
mod exec;
mod gen;
mod judge;
mod minimize;
mod model;
mod plan;
mod plans;
mod raw;
mod rng;
mod sched;
mod sys;

use judge::{judge, Base, Verdict};
use plan::{fk_name, Plan, FK, FKS, K};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

const WORKERS: usize = 8;

/// What one worker found.
#[derive(Default)]
struct Tally {
    runs: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    ops: u64,
    steps: u64,
    switches: u64,
    preempts: u64,
    blocks: u64,
    stalls: u64,
    pauses: u64,
    clock: u64,
    base_runs: u64,
    rechecked: u64,
    fired: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    cover: Vec<u8>,
    samples: Vec<String>,
    bad: Option<(u64, String, String)>,
    known: BTreeMap<String, u64>,
    harness: Option<String>,
}

impl Tally {
    fn to_text(&self) -> String {
        let mut s = String::new();
        for (k, v) in [
            ("runs", self.runs),
            ("discards", self.discards),
            ("ops", self.ops),
            ("steps", self.steps),
            ("switches", self.switches),
            ("preempts", self.preempts),
            ("blocks", self.blocks),
            ("stalls", self.stalls),
            ("pauses", self.pauses),
            ("clock", self.clock),
            ("base_runs", self.base_runs),
            ("rechecked", self.rechecked),
        ] {
            writeln!(s, "n {} {}", k, v).unwrap();
        }
        for x in &self.nontrivial {
            writeln!(s, "x {:x}", x).unwrap();
        }
        for x in &self.traces {
            writeln!(s, "t {:x}", x).unwrap();
        }
        for (k, v) in &self.fired {
            writeln!(s, "f {} {}", k, v).unwrap();
        }
        for (k, v) in &self.kinds {
            writeln!(s, "k {} {}", k, v).unwrap();
        }
        s.push_str("c ");
        for b in &self.cover {
            s.push((b'0' + *b) as char);
        }
        s.push('\n');
        for (k, v) in &self.known {
            writeln!(s, "w {} {}", plan::esc(k.as_bytes()), v).unwrap();
        }
        for x in &self.samples {
            writeln!(s, "s {}", plan::esc(x.as_bytes())).unwrap();
        }
        if let Some((i, c, d)) = &self.bad {
            writeln!(s, "b {} {}", i, plan::esc(format!("{}\n{}", c, d).as_bytes())).unwrap();
        }
        if let Some(h) = &self.harness {
            writeln!(s, "h {}", plan::esc(h.as_bytes())).unwrap();
        }
        s.push_str("done\n");
        s
    }
    fn absorb(&mut self, text: &str) -> bool {
        let un = |s: &str| String::from_utf8_lossy(&plan::unesc(s)).into_owned();
        for l in text.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "n" => {
                    let (n, v) = r.split_once(' ').unwrap();
                    let v: u64 = v.parse().unwrap();
                    match n {
                        "runs" => self.runs += v,
                        "discards" => self.discards += v,
                        "ops" => self.ops += v,
                        "steps" => self.steps += v,
                        "switches" => self.switches += v,
                        "preempts" => self.preempts += v,
                        "blocks" => self.blocks += v,
                        "stalls" => self.stalls += v,
                        "pauses" => self.pauses += v,
                        "clock" => self.clock += v,
                        "base_runs" => self.base_runs += v,
                        _ => self.rechecked += v,
                    }
                }
                "x" => {
                    self.nontrivial.insert(u64::from_str_radix(r, 16).unwrap());
                }
                "t" => {
                    self.traces.insert(u64::from_str_radix(r, 16).unwrap());
                }
                "f" | "k" => {
                    let (n, v) = r.rsplit_once(' ').unwrap();
                    let m = if k == "f" { &mut self.fired } else { &mut self.kinds };
                    *m.entry(n.into()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "c" => {
                    self.cover.resize(1 << 16, 0);
                    for (i, b) in r.bytes().enumerate() {
                        self.cover[i] |= b - b'0';
                    }
                }
                "w" => {
                    let (n, v) = r.rsplit_once(' ').unwrap();
                    *self.known.entry(un(n)).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "s" => self.samples.push(un(r)),
                "b" => {
                    let (i, d) = r.split_once(' ').unwrap();
                    let i: u64 = i.parse().unwrap();
                    let d = un(d);
                    let (c, d) = d.split_once('\n').unwrap();
                    if self.bad.as_ref().is_none_or(|b| b.0 > i) {
                        self.bad = Some((i, c.into(), d.into()));
                    }
                }
                "h" => self.harness = Some(un(r)),
                "done" => return true,
                _ => {}
            }
        }
        false
    }
}

extern "C" {
    fn pipe(fds: *mut i32) -> i32;
}

fn read_fd(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = vec![0u8; 1 << 16];
    loop {
        let r = unsafe { raw::sc3(raw::SYS_READ, fd as i64, b.as_mut_ptr() as i64, b.len() as i64) };
        if r == -(raw::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return v;
        }
        v.extend_from_slice(&b[..r as usize]);
    }
}

struct Job<'a> {
    prop: &'a str,
    seed: u64,
    runs: u64,
    thorough: bool,
    wall_ns: u64,
}

fn note_faults(t: &mut Tally, p: &Plan, out: &exec::RunOut) -> u64 {
    let mut n = 0;
    let mut add = |t: &mut Tally, k: FK, c: u64| {
        if c > 0 {
            *t.fired.entry(fk_name(k).into()).or_insert(0) += c;
            n += c;
        }
    };
    for r in &out.recs {
        for f in &r.fired {
            add(t, *f, 1);
        }
        add(t, FK::Oom, r.oom as u64);
    }
    add(t, FK::Stall, out.stalls as u64);
    add(t, FK::Pause, out.pauses as u64);
    for th in &p.threads {
        for o in th {
            if o.k == K::Load {
                add(t, FK::Damage, o.c as u64);
            }
        }
    }
    n
}

fn work(job: &Job, w: usize, lowest: *mut u64, start: u64) -> Tally {
    let mut t = Tally::default();
    let mut base = Base::new();
    exec::init_shared();
    let mut i = w as u64;
    while i < job.runs {
        if raw::real_now() - start > job.wall_ns {
            break;
        }
        if unsafe { std::ptr::read_volatile(lowest) } < i {
            break;
        }
        let p = plans::make(job.prop, job.seed, i, job.thorough);
        let out = exec::run(&p);
        t.runs += 1;
        t.steps += out.total;
        t.switches += out.switches as u64;
        t.preempts += out.preempts as u64;
        t.blocks += out.blocks as u64;
        t.stalls += out.stalls as u64;
        t.pauses += out.pauses as u64;
        t.clock += out.clock;
        for th in &p.threads {
            for o in th {
                t.ops += o.rep.max(1) as u64;
                let n = plan::KS.iter().find(|k| k.0 == o.k).unwrap().1;
                *t.kinds.entry(n.into()).or_insert(0) += 1;
            }
        }
        let faults = note_faults(&mut t, &p, &out);
        let verdict = judge(&p, &out, &mut base);
        let discarded = matches!(verdict, Verdict::Discard);
        if discarded {
            t.discards += 1;
        } else {
            if faults > 0 || out.preempts > 0 || p.threads[0].len() > 1 {
                t.nontrivial.insert(out.digest ^ rng::fnv(0, p.to_text().as_bytes()));
            }
            if out.preempts > 0 {
                t.traces.insert(out.trace);
            }
            if w < 3 && t.samples.is_empty() && faults + out.preempts as u64 > 0 {
                let mut s = p.to_text();
                if s.len() > 1500 {
                    let mut k = 1500;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                    s.push_str("...");
                }
                t.samples.push(format!("run {} of seed {}: {}\n{}", i, job.seed, out.status_text(), s));
            }
        }
        if i % 61 == 7 {
            t.rechecked += 1;
            let again = exec::run(&p);
            if again.digest != out.digest {
                t.harness = Some(format!("run {} of seed {} is not repeatable", i, job.seed));
                break;
            }
        }
        if let Verdict::Bad { class, detail } = verdict {
            if let Some(what) = known(job.prop, &class, &detail) {
                *t.known.entry(what).or_insert(0) += 1;
                i += WORKERS as u64;
                continue;
            }
            t.bad = Some((i, class, detail));
            unsafe {
                // a lost update here only costs some extra runs
                if i < std::ptr::read_volatile(lowest) {
                    std::ptr::write_volatile(lowest, i);
                }
            }
            break;
        }
        i += WORKERS as u64;
    }
    t.base_runs = base.runs;
    t.cover = unsafe { (*sched::SHM).cover.to_vec() };
    t
}

fn explore(job: &Job) -> Tally {
    let lowest = raw::map(0, 4096, true) as *mut u64;
    unsafe { *lowest = u64::MAX };
    let start = raw::real_now();
    let mut kids = vec![];
    for w in 0..WORKERS {
        let mut fds = [0i32; 2];
        unsafe {
            if pipe(fds.as_mut_ptr()) != 0 {
                raw::complain("msim: pipe failed");
                raw::exit_now(2);
            }
            let pid = raw::fork();
            if pid < 0 {
                raw::complain("msim: fork failed");
                raw::exit_now(2);
            }
            if pid == 0 {
                raw::sc3(raw::SYS_CLOSE, fds[0] as i64, 0, 0);
                let t = work(job, w, lowest, start);
                raw::write_all(fds[1], t.to_text().as_bytes());
                raw::exit_now(0);
            }
            raw::sc3(raw::SYS_CLOSE, fds[1] as i64, 0, 0);
            kids.push((pid, fds[0]));
        }
    }
    let mut all = Tally::default();
    for (w, (pid, fd)) in kids.into_iter().enumerate() {
        let b = read_fd(fd);
        let mut st = 0;
        unsafe {
            raw::waitpid(pid, &mut st, 0);
            raw::sc3(raw::SYS_CLOSE, fd as i64, 0, 0);
        }
        if !all.absorb(&String::from_utf8_lossy(&b)) {
            all.harness = Some(format!("worker {} died (status {:x})", w, st));
        }
    }
    all
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(job: &Job, t: &Tally, wall: f64, violations: u64) -> String {
    let mut s = String::new();
    let obj = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let edges = t.cover.iter().filter(|&&b| b != 0).count();
    let not: Vec<String> = FKS
        .iter()
        .filter(|f| !t.fired.contains_key(f.1))
        .map(|f| js(f.1))
        .collect();
    let (rule, real, stub) = texts(job.prop);
    writeln!(s, "{{").unwrap();
    writeln!(s, "  \"property\": {},", js(job.prop)).unwrap();
    writeln!(s, "  \"tier\": {},", js(if job.thorough { "thorough" } else { "quick" })).unwrap();
    writeln!(s, "  \"seed\": {},", job.seed).unwrap();
    writeln!(s, "  \"level\": \"exploration\",").unwrap();
    writeln!(s, "  \"coverage\": {{").unwrap();
    writeln!(s, "    \"evaluations\": {},", t.runs).unwrap();
    writeln!(s, "    \"distinct_nontrivial\": {},", t.nontrivial.len()).unwrap();
    writeln!(s, "    \"rule\": {},", js(rule)).unwrap();
    let sm: Vec<String> = t.samples.iter().map(|x| js(x)).collect();
    writeln!(s, "    \"samples\": [{}],", sm.join(", ")).unwrap();
    writeln!(s, "    \"discarded_runs\": {},", t.discards).unwrap();
    writeln!(s, "    \"operations\": {},", t.ops).unwrap();
    writeln!(s, "    \"operations_by_kind\": {},", obj(&t.kinds)).unwrap();
    writeln!(s, "    \"baseline_processes\": {},", t.base_runs).unwrap();
    writeln!(s, "    \"runs_executed_twice_for_determinism\": {},", t.rechecked).unwrap();
    let hours = if wall > 0.0 { wall / 3600.0 } else { 1.0 };
    writeln!(s, "    \"simulated_runs_per_hour_one_seed_each\": {},", (t.runs as f64 / hours) as u64).unwrap();
    writeln!(s, "    \"simulated_steps\": {},", t.steps).unwrap();
    writeln!(s, "    \"simulated_time_s\": {:.6},", t.clock as f64 / 1e9).unwrap();
    writeln!(s, "    \"context_switches\": {},", t.switches).unwrap();
    writeln!(s, "    \"preemptions\": {},", t.preempts).unwrap();
    writeln!(s, "    \"futex_waits\": {},", t.blocks).unwrap();
    writeln!(s, "    \"threads_stalled\": {},", t.stalls).unwrap();
    writeln!(s, "    \"distinct_interleavings\": {},", t.traces.len()).unwrap();
    writeln!(
        s,
        "    \"interleaving_measure\": {},",
        js("hash of the sequence of (next thread, edge, step count) over all context switches of a run, among runs with at least one preemption")
    )
    .unwrap();
    writeln!(s, "    \"code_edges_reached\": {},", edges).unwrap();
    writeln!(s, "    \"code_edges_total\": {},", unsafe { sched::GUARDS }).unwrap();
    writeln!(s, "    \"faults_injected\": {},", obj(&t.fired)).unwrap();
    writeln!(s, "    \"fault_kinds_not_injected\": [{}],", not.join(", ")).unwrap();
    writeln!(s, "    \"real_components\": {},", js(real)).unwrap();
    writeln!(s, "    \"stubbed_components\": {}", js(stub)).unwrap();
    writeln!(s, "  }},").unwrap();
    writeln!(
        s,
        "  \"assumptions\": [{}, {}, {}],",
        js("memory is sequentially consistent: weak-memory reorderings are not simulated"),
        js("the interposed libc calls and the allocator behave as the simulator models them"),
        js("the reference model shares the lexical primitives of the read_token dependency with the library")
    )
    .unwrap();
    writeln!(s, "  \"wall_s\": {:.3},", wall).unwrap();
    writeln!(s, "  \"violations\": {}", violations).unwrap();
    writeln!(s, "}}").unwrap();
    s
}

fn texts(prop: &str) -> (&'static str, &'static str, &'static str) {
    let rule = match prop {
        "C01" | "C02" => "a run is a seeded plan of 2-5 threads with generated grammars, documents and calls and a seeded preemption schedule; non-trivial when a thread was preempted inside the library or several calls ran",
        "C03" => "as C01, with threads suspended for ever at seeded steps and calls unwound by writer panics, callback panics and failed allocations; non-trivial when a fault fired, a thread was preempted or several calls ran",
        "C04" => "a run is a seeded history of calls in one process with faults and freed arguments, each call compared with the same call alone in a fresh process; non-trivial when a fault fired or several calls ran",
        "C05" => "a run is a seeded history of parses into shared vectors with failures and failed allocations, compared with a reference interpreter; non-trivial when a fault fired or several calls ran",
        "C11" => "a run is a history of many rounds of the same kinds of calls with new texts and faults, with live memory and descriptors read after each round; non-trivial as every run has several rounds",
        "C13" => "a run is a seeded script of reads, skips and moves over four copies of a cursor in 1-4 threads, compared with a reference cursor and with the same script alone; non-trivial when a thread was preempted or several calls ran",
        "C14" => "a run is a seeded plan of calls run in three environments (clock, clock jumps, randomness, memory, environment variables, terminal, descriptors, file metadata), whose records and streams must be equal; non-trivial when a fault fired, a thread was preempted or several calls ran",
        "C15" => "a run is a seeded plan of calls of every kind with every kind of fault; non-trivial when a fault fired, a thread was preempted or several calls ran",
        "C16" => "a run is a seeded session of calls repeated with an allocation failing at seeded depths, or all allocations from one on; non-trivial when an allocation failed or several calls ran",
        "C17" => "a run is a seeded history of parses, grammar readings and loads of texts with mistakes in them, under failed allocations, file faults and other threads, with every reported reason compared with what a reference interpreter finds wrong at the farthest place; non-trivial when a fault fired or several calls ran",
        _ => "a run is a seeded plan of calls with faults at seeded byte offsets, compared with a reference; non-trivial when a fault fired, a thread was preempted or several calls ran",
    };
    let real = "piston_meta, piston_meta_search, read_token, range, lazy_static and the Rust standard library above libc (io, fs, sync, panic unwinding, collections), compiled from source at /repo and the cargo cache or shipped with the toolchain";
    let stub = "thread scheduler, futex, clock, randomness, allocator, files under /simfs, descriptors 0 to 2, environment variables, terminal, processor count, process id, working directory, callers' writers and callbacks";
    (rule, real, stub)
}

fn silent_oom(_: std::alloc::Layout) {
    alloc::IN_LIB.with(|c| c.set(0));
    alloc::FAIL_AT.with(|c| c.set(0));
    std::panic::resume_unwind(Box::new(exec::SimOom));
}

fn arg(n: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}

/// Addresses of code and stacks must not vary between runs; re-executes
/// without address randomisation where the system allows it.
fn fixed_addresses() {
    const NO_RANDOMIZE: i64 = 0x0040000;
    unsafe {
        // the model recurses with the documents it reads
        let mut l = [0u64; 2];
        if raw::getrlimit(3, &mut l) == 0 && l[0] < 1 << 30 {
            l[0] = l[1].min(1 << 30);
            raw::setrlimit(3, &l);
        }
    }
    if std::env::var("MSIM_FIXED").is_ok() {
        return;
    }
    unsafe {
        let r = raw::sc3(raw::SYS_PERSONALITY, 0xffff_ffff, 0, 0);
        if r < 0 || r & NO_RANDOMIZE != 0 {
            return;
        }
        if raw::sc3(raw::SYS_PERSONALITY, r | NO_RANDOMIZE, 0, 0) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let mut a = std::env::args_os();
    a.next();
    let _ = std::process::Command::new("/proc/self/exe").args(a).env("MSIM_FIXED", "1").exec();
}

fn model_ok() -> bool {
    // the self syntax, read by the reference meta language, is the self syntax
    match model::grammar(model::SELF) {
        model::Res::Ok(g) => g == model::self_syntax(),
        _ => false,
    }
}

fn main() {
    fixed_addresses();
    std::panic::set_hook(Box::new(|i| {
        let _p = alloc::pause();
        effects::hook();
        if std::env::var("MSIM_DEBUG").is_ok() {
            raw::complain(&format!("msim: {}", i));
        }
    }));
    std::alloc::set_alloc_error_hook(silent_oom);
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("show") => {
            let i = a[3].parse().unwrap();
            let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            raw::say(&plans::make(&a[2], seed, i, false).to_text());
            0
        }
        Some("selftest") => {
            if model_ok() {
                raw::say("model: self syntax ok");
                0
            } else {
                raw::say("model: self syntax is not a fixed point");
                2
            }
        }
        _ => {
            raw::complain("usage: msim check <property> --tier quick|thorough [--runs n] | replay <file>");
            2
        }
    };
    raw::exit_now(code)
}

fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C01" => 12_000,
        "C02" => 9_000,
        "C03" => 10_000,
        "C04" => 4_000,
        "C05" => 120_000,
        "C06" => 100_000,
        "C07" => 300_000,
        "C08" => 240_000,
        "C11" => 20_000,
        "C12" => 100_000,
        "C13" => 100_000,
        "C14" => 40_000,
        "C15" => 24_000,
        "C16" => 24_000,
        "C17" => 100_000,
        _ => 70_000,
    }
}

fn known(prop: &str, class: &str, detail: &str) -> Option<String> {
    let path = arg("--known")?;
    let s = std::fs::read_to_string(path).ok()?;
    for l in s.lines() {
        // finding: property=<id> class=<class> match=<text in the detail> :: <what fails>
        if let Some(r) = l.strip_prefix(&format!("finding: property={} ", prop)) {
            if let Some((head, what)) = r.split_once(" :: ") {
                if let Some((c, m)) = head.split_once(" match=") {
                    if c.strip_prefix("class=") == Some(class) && detail.contains(m) {
                        return Some(what.into());
                    }
                }
            }
        }
    }
    None
}

fn check(prop: &str) -> i32 {
    if !model_ok() {
        raw::complain("msim: the reference model does not read its own syntax");
        return 2;
    }
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        quick_runs(prop) * if thorough { 20 } else { 1 }
    });
    let wall = if thorough { 780 } else { 150 };
    let job = Job { prop, seed: rng::mix(seed, rng::fnv(0, prop.as_bytes())), runs, thorough, wall_ns: wall * 1_000_000_000 };
    let t0 = raw::real_now();
    let t = explore(&job);
    let wall = (raw::real_now() - t0) as f64 / 1e9;
    let mut code = 0;
    if let Some(h) = &t.harness {
        raw::complain(&format!("msim: {}", h));
        code = 2;
    }
    let job2 = Job { seed, ..job };
    if let Some(path) = arg("--evidence") {
        let s = evidence(&job2, &t, wall, t.bad.is_some() as u64);
        if std::fs::write(&path, s).is_err() {
            raw::complain("msim: cannot write the evidence file");
            return 2;
        }
    }
    raw::say(&format!(
        "{} {}: {} runs ({} discarded), {} operations, {} distinct non-trivial, {} interleavings, {} faults, {:.1} s",
        prop,
        if thorough { "thorough" } else { "quick" },
        t.runs,
        t.discards,
        t.ops,
        t.nontrivial.len(),
        t.traces.len(),
        t.fired.values().sum::<u64>(),
        wall
    ));
    for (what, n) in &t.known {
        raw::say(&format!("KNOWN-FINDING: property={} {} ({} runs)", prop, what, n));
    }
    if let Some((i, class, detail)) = &t.bad {
        exec::init_shared();
        let p = plans::make(prop, job.seed, *i, thorough);
        let mut base = Base::new();
        let min = if arg("--no-min").is_some() { p.clone() } else { minimize::minimize(&p, class, &mut base) };
        let out = exec::run(&min);
        let detail2 = match judge(&min, &out, &mut base) {
            Verdict::Bad { detail, .. } => detail,
            _ => detail.clone(),
        };
        let dir = arg("--replays").unwrap_or_else(|| ".".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.plan", dir, prop, seed, i);
        let mut s = format!("# property {}: {}\n", prop, class);
        for l in detail2.lines() {
            writeln!(s, "# {}", l).unwrap();
        }
        writeln!(s, "# seed {} run {} digest {:016x}", seed, i, out.digest).unwrap();
        writeln!(s, "# replay: bin/replay.sh {}", path).unwrap();
        s.push_str(&min.to_text());
        let _ = std::fs::write(&path, s);
        raw::say(&format!("{}: {}", class, detail2));
        raw::say(&format!("VIOLATION property={} replay={}", prop, path));
        return 1;
    }
    code
}

fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(_) => {
            raw::complain("msim: cannot read the replay file");
            return 2;
        }
    };
    let p = match Plan::from_text(&s) {
        Ok(p) => p,
        Err(e) => {
            raw::complain(&format!("msim: {}", e));
            return 2;
        }
    };
    exec::init_shared();
    let mut base = Base::new();
    let out = exec::run(&p);
    let again = exec::run(&p);
    raw::say(&format!("digest {:016x}, {}", out.digest, out.status_text()));
    if again.digest != out.digest {
        raw::complain("msim: the run is not repeatable");
        return 2;
    }
    if arg("-v").is_some() {
        for r in &out.recs {
            raw::say(&format!("{}.{} rep {} {} {} steps {} allocs {} oom {}", r.thread, r.op, r.rep, r.tag, judge::show(&r.body), r.steps, r.allocs, r.oom));
        }
    }
    match judge(&p, &out, &mut base) {
        Verdict::Bad { class, detail } => {
            raw::say(&format!("{}: {}", class, detail));
            raw::say(&format!("VIOLATION property={} replay={}", p.prop, path));
            1
        }
        Verdict::Discard => {
            raw::say("outside what the property covers");
            0
        }
        Verdict::Ok => {
            raw::say("the property held");
            0
        }
    }
}
