//! A plan is everything that decides one simulated run: inputs, operations
//! per thread, schedule, stalls and faults.  It has a text form, which is the
//! replay file.

use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum FK {
    // on an output stream
    Cut,
    Intr,
    Zero,
    Err,
    Panic,
    // on a load
    OpenIntr,
    OpenErr,
    StatErr,
    StatSize,
    SeekErr,
    ReadCut,
    ReadIntr,
    ReadErr,
    Swap,
    Eof,
    // counted, but not part of a fault list
    Oom,
    Stall,
    CbErr,
    CbPanic,
    Damage,
    // on an output stream: the writer makes a call itself (val: which)
    Nest,
    // counted
    Pause,
}
pub const FKS: [(FK, &str); 22] = [
    (FK::Cut, "cut"),
    (FK::Intr, "intr"),
    (FK::Zero, "zero"),
    (FK::Err, "err"),
    (FK::Panic, "panic"),
    (FK::OpenIntr, "openintr"),
    (FK::OpenErr, "openerr"),
    (FK::StatErr, "staterr"),
    (FK::StatSize, "statsize"),
    (FK::SeekErr, "seekerr"),
    (FK::ReadCut, "readcut"),
    (FK::ReadIntr, "readintr"),
    (FK::ReadErr, "readerr"),
    (FK::Swap, "swap"),
    (FK::Eof, "eof"),
    (FK::Oom, "oom"),
    (FK::Stall, "stall"),
    (FK::CbErr, "cberr"),
    (FK::CbPanic, "cbpanic"),
    (FK::Damage, "damage"),
    (FK::Nest, "nest"),
    (FK::Pause, "pause"),
];
pub fn fk_name(k: FK) -> &'static str {
    FKS.iter().find(|x| x.0 == k).unwrap().1
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fault {
    pub k: FK,
    /// Byte offset.
    pub at: u64,
    /// Error number, repeat count, size or text number.
    pub val: i64,
    /// How many times (open, stat, seek faults).
    pub val2: i64,
    pub sticky: bool,
    /// For loads: 0 = grammar file, 1 = document file.  For reports: which report.
    pub which: u8,
}

impl Fault {
    pub fn new(k: FK, at: u64, val: i64) -> Fault {
        Fault { k, at, val, val2: 1, sticky: false, which: 0 }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    /// a = text (grammar), b = slot, c = 1: error as string
    Syntax,
    /// b = slot
    Optimize,
    /// b = slot
    DropSlot,
    /// b = slot, c = slot to clone into
    CloneSlot,
    /// a = metadata text, b = slot
    Convert,
    /// a = shared grammar (>= 0) or slot (-1 - slot), b = document, c = buffer, d = variant
    /// (1: error as string, 2: with indent, 3: both), sub[0] = indent settings
    Parse,
    /// c = buffer: clear it
    Clear,
    /// c = buffer: fill with metadata a through the harness
    Fill,
    /// c = buffer: hand over to the mailbox
    Send,
    /// drop everything in the mailbox
    DropMail,
    /// a = metadata text, d = 1: on a copy made for this call (also Convert, Print, Search)
    Json,
    /// a = text
    JsonStr,
    /// a = text, sub = list of [offset, length, kind, text]; faults per report
    Report,
    /// a = metadata text
    Print,
    /// a = text, sub[0] = error
    ErrStderr,
    /// a = text, sub = [] (Ok) or error
    Unwrap,
    /// a = grammar file text, b = document file text, d = path number
    Load,
    /// a = metadata text, sub = script
    Search,
    /// marks the end of a round (C11)
    Mark,
    /// b = slot for a copy of the built-in meta grammar
    Rules,
    /// The thread ends here; what follows happens on a new thread that takes
    /// over what it held.
    Exit,
    /// a = metadata text, sub = script over conversion cursors
    Walk,
    /// b = slot: put its grammar together again by hand, rule by rule (c = 1:
    /// another rule last)
    Rebuild,
}
pub const KS: [(K, &str); 23] = [
    (K::Syntax, "syntax"),
    (K::Optimize, "optimize"),
    (K::DropSlot, "dropslot"),
    (K::CloneSlot, "cloneslot"),
    (K::Convert, "convert"),
    (K::Parse, "parse"),
    (K::Clear, "clear"),
    (K::Fill, "fill"),
    (K::Send, "send"),
    (K::DropMail, "dropmail"),
    (K::Json, "json"),
    (K::JsonStr, "jsonstr"),
    (K::Report, "report"),
    (K::Print, "print"),
    (K::ErrStderr, "errstderr"),
    (K::Unwrap, "unwrap"),
    (K::Load, "load"),
    (K::Search, "search"),
    (K::Mark, "mark"),
    (K::Rules, "rules"),
    (K::Exit, "exit"),
    (K::Walk, "walk"),
    (K::Rebuild, "rebuild"),
];

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub d: i64,
    pub oom: u64,
    pub max: u32,
    /// Run this operation this many times (0 and 1: once).
    pub rep: u32,
    pub faults: Vec<Fault>,
    pub sub: Vec<[i64; 4]>,
}

impl Op {
    pub fn new(k: K) -> Op {
        Op { k, a: 0, b: 0, c: 0, d: 0, oom: 0, max: 0, rep: 1, faults: vec![], sub: vec![] }
    }
    pub fn abcd(k: K, a: i64, b: i64, c: i64, d: i64) -> Op {
        Op { a, b, c, d, ..Op::new(k) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// The machine and the moment (see sys::set_env); 0 is the plain one.
    pub env: u64,
    /// Use the meta language once before the threads start.
    pub warm: bool,
    /// What time slices and stalls count; see the scheduler.
    pub fine: u8,
    pub limit: u64,
    pub texts: Vec<Vec<u8>>,
    /// Texts read as grammars by the main thread and shared by all threads.
    pub shared: Vec<usize>,
    pub threads: Vec<Vec<Op>>,
    pub sched: Vec<(u32, u32)>,
    pub stalls: Vec<(usize, u64)>,
    /// Thread, at which step, for how many steps of the run, clock jump (ns).
    pub pauses: Vec<(usize, u64, u64, u64)>,
    /// Operations that a caller's writer or callback makes (see FK::Nest).
    pub nested: Vec<Op>,
    /// Faults on descriptors 1 and 2 (which = 0 or 1), and the longest write.
    pub io: Vec<Fault>,
    pub iomax: u32,
    pub capture: bool,
}

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(),
            seed,
            env: 0,
            warm: true,
            fine: 0,
            limit: 50_000_000,
            texts: vec![],
            shared: vec![],
            threads: vec![],
            sched: vec![],
            stalls: vec![],
            pauses: vec![],
            nested: vec![],
            io: vec![],
            iomax: 0,
            capture: false,
        }
    }
    /// Adds a text (or finds it) and returns its number.
    pub fn text(&mut self, b: &[u8]) -> i64 {
        if let Some(i) = self.texts.iter().position(|t| t == b) {
            return i as i64;
        }
        self.texts.push(b.to_vec());
        self.texts.len() as i64 - 1
    }
    pub fn str(&self, i: i64) -> &str {
        std::str::from_utf8(&self.texts[i as usize]).unwrap_or("")
    }
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => write!(s, "\\x{:02x}", c).unwrap(),
        }
    }
    s
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            match b[i + 1] {
                b'n' => o.push(b'\n'),
                b'x' => {
                    o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(0));
                    i += 2;
                }
                c => o.push(c),
            }
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn faults_str(f: &[Fault]) -> String {
    let v: Vec<String> = f
        .iter()
        .map(|f| {
            format!("{}:{}:{}:{}:{}:{}", fk_name(f.k), f.at, f.val, f.val2, f.sticky as u8, f.which)
        })
        .collect();
    v.join(",")
}
fn parse_faults(s: &str) -> Vec<Fault> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let p: Vec<&str> = x.split(':').collect();
            Fault {
                k: FKS.iter().find(|k| k.1 == p[0]).unwrap().0,
                at: p[1].parse().unwrap(),
                val: p[2].parse().unwrap(),
                val2: p[3].parse().unwrap(),
                sticky: p[4] == "1",
                which: p[5].parse().unwrap(),
            }
        })
        .collect()
}

fn op_str(w: &mut String, what: &str, o: &Op) {
    let sub: Vec<String> =
        o.sub.iter().map(|x| format!("{}:{}:{}:{}", x[0], x[1], x[2], x[3])).collect();
    writeln!(
        w,
        "{} {} {} {} {} {} oom={} max={} rep={} f={} s={}",
        what,
        KS.iter().find(|k| k.0 == o.k).unwrap().1,
        o.a,
        o.b,
        o.c,
        o.d,
        o.oom,
        o.max,
        o.rep,
        faults_str(&o.faults),
        sub.join(",")
    )
    .unwrap();
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let w = &mut s;
        writeln!(w, "msim-plan 1").unwrap();
        writeln!(w, "prop {}", self.prop).unwrap();
        writeln!(w, "seed {}", self.seed).unwrap();
        writeln!(w, "env {}", self.env).unwrap();
        writeln!(w, "warm {}", self.warm as u8).unwrap();
        writeln!(w, "fine {}", self.fine).unwrap();
        writeln!(w, "limit {}", self.limit).unwrap();
        writeln!(w, "capture {}", self.capture as u8).unwrap();
        writeln!(w, "iomax {}", self.iomax).unwrap();
        writeln!(w, "io {}", faults_str(&self.io)).unwrap();
        for t in &self.texts {
            writeln!(w, "text {}", esc(t)).unwrap();
        }
        for t in &self.shared {
            writeln!(w, "shared {}", t).unwrap();
        }
        for o in &self.nested {
            op_str(w, "nested", o);
        }
        for (i, t) in self.threads.iter().enumerate() {
            writeln!(w, "thread {}", i).unwrap();
            for o in t {
                op_str(w, "op", o);
            }
        }
        let sc: Vec<String> = self.sched.iter().map(|x| format!("{}:{}", x.0, x.1)).collect();
        writeln!(w, "sched {}", sc.join(" ")).unwrap();
        for s in &self.stalls {
            writeln!(w, "stall {} {}", s.0, s.1).unwrap();
        }
        for x in &self.pauses {
            writeln!(w, "pause {} {} {} {}", x.0, x.1, x.2, x.3).unwrap();
        }
        writeln!(w, "end").unwrap();
        s
    }

    pub fn from_text(s: &str) -> Result<Plan, String> {
        let mut p = Plan::new("", 0);
        let mut lines = s.lines().skip_while(|l| l.starts_with('#'));
        if lines.next() != Some("msim-plan 1") {
            return Err("not a plan file".into());
        }
        for l in lines {
            let (k, r) = match l.find(' ') {
                Some(i) => (&l[..i], &l[i + 1..]),
                None => (l, ""),
            };
            match k {
                "prop" => p.prop = r.into(),
                "seed" => p.seed = r.parse().map_err(|_| "seed")?,
                "env" => p.env = r.parse().map_err(|_| "env")?,
                "warm" => p.warm = r == "1",
                "fine" => p.fine = r.parse().map_err(|_| "bad fine".to_string())?,
                "limit" => p.limit = r.parse().map_err(|_| "limit")?,
                "capture" => p.capture = r == "1",
                "iomax" => p.iomax = r.parse().map_err(|_| "iomax")?,
                "io" => p.io = parse_faults(r),
                "text" => p.texts.push(unesc(r)),
                "shared" => p.shared.push(r.parse().map_err(|_| "shared")?),
                "thread" => p.threads.push(vec![]),
                "op" | "nested" => {
                    let w: Vec<&str> = r.split(' ').collect();
                    let kind = KS.iter().find(|k| k.1 == w[0]).ok_or("op")?.0;
                    let n = |i: usize| w[i].parse::<i64>().unwrap();
                    let mut o = Op::abcd(kind, n(1), n(2), n(3), n(4));
                    for x in &w[5..] {
                        if let Some(v) = x.strip_prefix("oom=") {
                            o.oom = v.parse().unwrap();
                        } else if let Some(v) = x.strip_prefix("max=") {
                            o.max = v.parse().unwrap();
                        } else if let Some(v) = x.strip_prefix("rep=") {
                            o.rep = v.parse().unwrap();
                        } else if let Some(v) = x.strip_prefix("f=") {
                            o.faults = parse_faults(v);
                        } else if let Some(v) = x.strip_prefix("s=") {
                            for q in v.split(',').filter(|q| !q.is_empty()) {
                                let z: Vec<i64> =
                                    q.split(':').map(|y| y.parse().unwrap()).collect();
                                o.sub.push([z[0], z[1], z[2], z[3]]);
                            }
                        }
                    }
                    if k == "nested" {
                        p.nested.push(o);
                    } else {
                        p.threads.last_mut().ok_or("op before thread")?.push(o);
                    }
                }
                "sched" => {
                    for x in r.split(' ').filter(|x| !x.is_empty()) {
                        let (a, b) = x.split_once(':').ok_or("sched")?;
                        p.sched.push((a.parse().unwrap(), b.parse().unwrap()));
                    }
                }
                "pause" => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    if v.len() != 4 {
                        return Err("pause".into());
                    }
                    p.pauses.push((v[0] as usize, v[1], v[2], v[3]));
                }
                "stall" => {
                    let (a, b) = r.split_once(' ').ok_or("stall")?;
                    p.stalls.push((a.parse().unwrap(), b.parse().unwrap()));
                }
                _ => {}
            }
        }
        Ok(p)
    }
}
