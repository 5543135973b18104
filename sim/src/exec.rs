//! Executes a plan: one forked process per simulated run.

use crate::model::{self, ME, MK};
use crate::plan::{Fault, Op, Plan, FK, K};
use crate::sched::{self, Shared, SHM};
use crate::sys::{self, Act, Stream};
use crate::{alloc, effects, raw};
use piston_meta::meta_rules::{self, IndentSettings};
use piston_meta::{MetaData, ParseError, Syntax};
use piston_meta_search::Search;
use range::Range;
use shim::{Meta, PErr};
use std::io;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

// ------------------------------------------------------------ records

/// What one operation did, as seen by the simulator.
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub thread: u16,
    pub op: u16,
    pub rep: u32,
    /// ok, err, panic, skip, and so on
    pub tag: String,
    pub body: Vec<u8>,
    pub steps: u64,
    pub allocs: u64,
    /// Allocation failures that fired in this operation.
    pub oom: u32,
    pub fired: Vec<FK>,
}

#[derive(Clone, Debug)]
pub struct RunOut {
    pub status: u32,
    pub signal: i32,
    pub recs: Vec<Rec>,
    pub switches: u32,
    pub preempts: u32,
    pub stalls: u32,
    pub pauses: u32,
    pub blocks: u32,
    pub clock: u64,
    pub total: u64,
    pub trace: u64,
    /// Digest of the whole run: records, schedule and end state.
    pub digest: u64,
}

impl RunOut {
    pub fn status_text(&self) -> String {
        match (self.status, self.signal) {
            (sched::ST_OK, _) => "finished".into(),
            (sched::ST_STEPS, _) => "step limit reached (no progress)".into(),
            (sched::ST_DEADLOCK, _) => "deadlock: no thread can run".into(),
            (sched::ST_MEMORY, _) => "memory limit reached".into(),
            (sched::ST_HARNESS, _) => "harness error".into(),
            (_, 14) | (_, 24) => "no progress (processor time)".into(),
            (_, s) => format!("process killed by signal {}", s),
        }
    }
    pub fn rec(&self, thread: usize, op: usize) -> Option<&Rec> {
        self.recs.iter().find(|r| r.thread as usize == thread && r.op as usize == op)
    }
}

unsafe fn put(b: &[u8]) {
    let s = &mut *SHM;
    let at = s.out_len as usize;
    if at + b.len() > sched::OUT_CAP {
        s.overflow = 1;
        return;
    }
    let base = std::ptr::addr_of_mut!(s.out) as *mut u8;
    std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(at), b.len());
    s.out_len = (at + b.len()) as u64;
}

fn emit(r: &Rec) {
    unsafe {
        if (*SHM).out_len as usize + r.body.len() + 256 > sched::OUT_CAP {
            (*SHM).overflow = 1;
            return;
        }
        put(&r.thread.to_le_bytes());
        put(&r.op.to_le_bytes());
        put(&r.rep.to_le_bytes());
        put(&(r.tag.len() as u32).to_le_bytes());
        put(r.tag.as_bytes());
        put(&(r.body.len() as u32).to_le_bytes());
        put(&r.body);
        put(&r.steps.to_le_bytes());
        put(&r.allocs.to_le_bytes());
        put(&r.oom.to_le_bytes());
        put(&(r.fired.len() as u32).to_le_bytes());
        for f in &r.fired {
            put(&[*f as u8]);
        }
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
}

fn read_recs(b: &[u8]) -> Vec<Rec> {
    let mut r = Rd(b);
    let mut v = vec![];
    while !r.0.is_empty() {
        let thread = r.u16();
        let op = r.u16();
        let rep = r.u32();
        let n = r.u32() as usize;
        let tag = String::from_utf8_lossy(r.take(n)).into_owned();
        let n = r.u32() as usize;
        let body = r.take(n).to_vec();
        let steps = r.u64();
        let allocs = r.u64();
        let oom = r.u32();
        let n = r.u32() as usize;
        let fired = r.take(n).iter().map(|&x| crate::plan::FKS[x as usize].0).collect();
        v.push(Rec { thread, op, rep, tag, body, steps, allocs, oom, fired });
    }
    v
}

// ------------------------------------------------------------ parent side

pub fn init_shared() {
    unsafe {
        SHM = raw::map(0, std::mem::size_of::<Shared>(), true) as *mut Shared;
    }
}

/// Runs the plan in a fresh process and collects what happened.
pub fn run(plan: &Plan) -> RunOut {
    unsafe {
        let s = &mut *SHM;
        s.status = sched::ST_NONE;
        s.switches = 0;
        s.preempts = 0;
        s.stalls_hit = 0;
        s.pauses_hit = 0;
        s.blocks = 0;
        s.clock = 0;
        s.total = 0;
        s.trace = 0;
        s.steps = [0; sched::MAXT];
        s.out_len = 0;
        s.overflow = 0;
        let pid = raw::fork();
        if pid < 0 {
            raw::complain("msim: fork failed");
            raw::exit_now(2);
        }
        if pid == 0 {
            child(plan);
        }
        let mut st = 0i32;
        while raw::waitpid(pid, &mut st, 0) != pid {}
        let signal = st & 0x7f;
        if s.overflow != 0 {
            raw::complain("msim: result buffer overflow");
            raw::exit_now(2);
        }
        let base = std::ptr::addr_of!(s.out) as *const u8;
        let bytes = std::slice::from_raw_parts(base, s.out_len as usize);
        // a process killed by a signal may have been cut inside a record
        let recs = if signal == 0 || s.status != 0 {
            read_recs(bytes)
        } else {
            catch_unwind(|| read_recs(bytes)).unwrap_or_default()
        };
        let mut d = crate::rng::fnv(0, bytes);
        for x in [s.status as u64, signal as u64, s.trace, s.total, s.switches as u64] {
            d = crate::rng::fnv(d, &x.to_le_bytes());
        }
        RunOut {
            status: if signal != 0 { 0 } else { s.status },
            signal,
            recs,
            switches: s.switches,
            preempts: s.preempts,
            stalls: s.stalls_hit,
            pauses: s.pauses_hit,
            blocks: s.blocks,
            clock: s.clock,
            total: s.total,
            trace: s.trace,
            digest: d,
        }
    }
}

// ------------------------------------------------------------ child side

pub struct Th {
    slots: Vec<Option<Syntax>>,
    bufs: Vec<Meta>,
    rounds: Vec<(i64, i64, i64)>,
    /// The operation a new thread goes on with.
    next: usize,
}

struct Ctx {
    plan: Plan,
    shared: Vec<Option<Syntax>>,
    metas: Vec<Option<Meta>>,
    threads: Vec<Th>,
    mail: Vec<Meta>,
}

static mut CTX: Option<Ctx> = None;
static mut PADS: [Vec<u8>; 2 * sched::MAXT] = [const { Vec::new() }; 2 * sched::MAXT];
/// Whether the thread is in a call that a writer or callback made, what such
/// calls took, and what they gave so far.
static mut NEST: [bool; sched::MAXT] = [false; sched::MAXT];
static mut NEST_STEPS: [u64; sched::MAXT] = [0; sched::MAXT];
static mut NEST_SEEN: Vec<(usize, i64, u64)> = Vec::new();

fn ctx() -> &'static mut Ctx {
    unsafe { (*std::ptr::addr_of_mut!(CTX)).as_mut().unwrap() }
}

pub const SLOTS: usize = 4;
pub const BUFS: usize = 4;
/// Where calls made by writers and callbacks keep what they make.
pub const NEST_SLOT: i64 = SLOTS as i64;
pub const NEST_BUF: i64 = BUFS as i64 - 1;
/// Added to the number of such a call in its record.
pub const NEST_OP: u16 = 20_000;

unsafe fn child(plan: &Plan) -> ! {
    // processor time, so that a busy machine raises no alarm; wall time as a
    // last resort
    raw::setrlimit(0, &[40, 60]);
    raw::alarm(300);
    sys::set_env(plan.env, plan.seed);
    alloc::enter_sim_arena();
    let plan = plan.clone();
    sys::TEXTS = plan.texts.clone();
    sys::CAPTURE = plan.capture;
    effects::HOOKED = plan.prop == "C15";
    for i in 0..2 {
        let f: Vec<Fault> = plan.io.iter().filter(|f| f.which == i as u8).cloned().collect();
        sys::STREAMS[i] = Stream::with(&f, plan.iomax);
    }
    if plan.warm {
        let _ = shim::read_syntax("1 a = \"a\"");
    }
    let shared: Vec<Option<Syntax>> = plan
        .shared
        .iter()
        .map(|&t| catch_unwind(|| shim::read_syntax(plan.str(t as i64)).ok()).unwrap_or(None))
        .collect();
    let mut metas: Vec<Option<Meta>> = vec![];
    metas.resize_with(plan.texts.len(), || None);
    for t in plan.threads.iter().chain(std::iter::once(&plan.nested)) {
        for o in t {
            if matches!(o.k, K::Json | K::Convert | K::Print | K::Search | K::Walk | K::Fill) {
                let i = o.a as usize;
                if metas[i].is_none() {
                    metas[i] = Some(build_meta(&model::meta_from_text(plan.str(o.a))));
                }
            }
        }
    }
    let n = plan.threads.len();
    let longest = plan.texts.iter().map(|t| t.len()).max().unwrap_or(0);
    for i in 0..n {
        PADS[i].reserve(longest + 16);
        PADS[i + sched::MAXT].reserve(longest + 16);
    }
    let setup = sched::Setup {
        threads: n,
        fine: plan.fine,
        sched: plan.sched.clone(),
        stalls: plan.stalls.clone(),
        pauses: plan.pauses.clone(),
        limit: plan.limit,
    };
    let mut threads = vec![];
    for _ in 0..n {
        let mut slots = vec![];
        slots.resize_with(SLOTS + 1, || None);
        threads.push(Th { slots, bufs: vec![vec![]; BUFS], rounds: vec![], next: 0 });
    }
    CTX = Some(Ctx { plan, shared, metas, threads, mail: vec![] });
    sched::run(setup, body);
    if effects::HOOKED && !effects::probe() {
        aux(300, 0, "effects", b"replaced the panic hook".to_vec());
    }
    let c = ctx();
    // metadata lent to the library must be what it was
    for (i, m) in c.metas.iter().enumerate() {
        if let Some(m) = m {
            let now = meta_of(m);
            let want = model::meta_from_text(c.plan.str(i as i64));
            if model::meta_text(&now) != model::meta_text(&want) {
                aux(200, i as u16, "metachanged", model::meta_text(&now).into_bytes());
            }
        }
    }
    for i in 0..2 {
        let s = &*std::ptr::addr_of!(sys::STREAMS[i]);
        let mut b = vec![];
        b.extend_from_slice(&(s.chunks.len() as u32).to_le_bytes());
        for (t, n) in &s.chunks {
            b.push(*t);
            b.extend_from_slice(&n.to_le_bytes());
        }
        b.extend_from_slice(&s.got);
        let mut r = mk(100 + i as u16, 0, "stream", b);
        r.fired = s.fired.clone();
        emit(&r);
    }
    for (i, t) in c.threads.iter().enumerate() {
        if !t.rounds.is_empty() {
            let mut b = vec![];
            for (x, y, z) in &t.rounds {
                b.extend_from_slice(&x.to_le_bytes());
                b.extend_from_slice(&y.to_le_bytes());
                b.extend_from_slice(&z.to_le_bytes());
            }
            emit(&mk(110, i as u16, "rounds", b));
        }
    }
    sched::publish(sched::ST_OK);
    raw::exit_now(0)
}

fn mk(thread: u16, op: u16, tag: &str, body: Vec<u8>) -> Rec {
    Rec { thread, op, rep: 0, tag: tag.into(), body, steps: 0, allocs: 0, oom: 0, fired: vec![] }
}
fn aux(thread: u16, op: u16, tag: &str, body: Vec<u8>) {
    emit(&mk(thread, op, tag, body));
}

pub fn build_meta(v: &[ME]) -> Meta {
    v.iter()
        .map(|e| {
            let a = |s: &str| Arc::new(s.to_string());
            Range::new(e.off, e.len).wrap(match &e.k {
                MK::Start(n) => MetaData::StartNode(a(n)),
                MK::End(n) => MetaData::EndNode(a(n)),
                MK::Bool(n, v) => MetaData::Bool(a(n), *v),
                MK::Num(n, v) => MetaData::F64(a(n), *v),
                MK::Str(n, v) => MetaData::String(a(n), a(v)),
            })
        })
        .collect()
}
pub fn meta_of(m: &[Range<MetaData>]) -> Vec<ME> {
    m.iter()
        .map(|r| ME {
            off: r.offset,
            len: r.length,
            k: match &r.data {
                MetaData::StartNode(n) => MK::Start(n.to_string()),
                MetaData::EndNode(n) => MK::End(n.to_string()),
                MetaData::Bool(n, v) => MK::Bool(n.to_string(), *v),
                MetaData::F64(n, v) => MK::Num(n.to_string(), *v),
                MetaData::String(n, v) => MK::Str(n.to_string(), v.to_string()),
            },
        })
        .collect()
}

fn perr(e: &PErr) -> String {
    sched::masked(|| format!("{},{} {:?}", e.offset, e.length, e.data))
}

fn make_err(kind: i64, id: i64, text: &str) -> ParseError {
    let id = id as usize;
    let s = Arc::new(text.to_string());
    match kind {
        0 => ParseError::ExpectedWhitespace(id),
        1 => ParseError::ExpectedNewLine(id),
        2 => ParseError::ExpectedSomething(id),
        3 => ParseError::ExpectedNumber(id),
        4 => ParseError::ParseNumberError(read_token::ParseNumberError::ExpectedDigits, id),
        5 => ParseError::ParseNumberError(read_token::ParseNumberError::Invalid, id),
        6 => ParseError::ExpectedText(id),
        7 => ParseError::EmptyTextNotAllowed(id),
        8 => ParseError::ParseStringError(read_token::ParseStringError::ExpectedHexadecimal, id),
        9..=12 => ParseError::ExpectedTag(s, id),
        13 => ParseError::DidNotExpectTag(s, id),
        14 => ParseError::InvalidRule("bad rule", id),
        15 => ParseError::NoRules,
        16 => ParseError::ExpectedEnd,
        _ => ParseError::Conversion(text.to_string()),
    }
}

// ------------------------------------------------------------ faults from callers

pub struct SimPanic(pub i64);
pub struct SimOom;

#[derive(Debug)]
pub struct SimErr(pub i64);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}
impl std::error::Error for SimErr {}

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
];
/// Below 1000: an OS error number; otherwise a custom error whose kind and
/// identity are derived from the number.
pub fn sim_io_error(v: i64) -> io::Error {
    if v < 1000 {
        io::Error::from_raw_os_error(v as i32)
    } else {
        io::Error::new(KINDS[(v % 8) as usize], SimErr(v))
    }
}
fn io_err_id(e: &io::Error) -> String {
    if let Some(n) = e.raw_os_error() {
        return format!("E{}", n);
    }
    if let Some(x) = e.get_ref().and_then(|x| x.downcast_ref::<SimErr>()) {
        let want = KINDS[(x.0 % 8) as usize];
        return format!("E{}{}", x.0, if e.kind() == want { "" } else { " kind changed" });
    }
    format!("other {:?}", e.kind())
}

/// A caller's writer.
pub struct Sink {
    pub s: Stream,
    flip: bool,
}
impl Sink {
    fn new(faults: &[Fault], max: u32) -> Sink {
        Sink { s: Stream::with(faults, max), flip: false }
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _p = alloc::pause();
        sched::env_point();
        if b.is_empty() {
            return Ok(0);
        }
        let act = loop {
            match self.s.act(b.len()) {
                Act::Nest(v) => nested(v),
                a => break a,
            }
        };
        match act {
            Act::Nest(_) => unreachable!(),
            Act::Take(n) => {
                self.s.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Act::Intr => {
                self.flip = !self.flip;
                if self.flip {
                    Err(io::Error::from(io::ErrorKind::Interrupted))
                } else {
                    Err(io::Error::from_raw_os_error(raw::EINTR))
                }
            }
            Act::Zero => Ok(0),
            Act::Err(e) => Err(sim_io_error(e)),
            Act::Panic => effects::throw(SimPanic(self.s.got.len() as i64)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A call made by the caller's own writer or callback, in the middle of
/// another call of the same thread.
fn nested(v: i64) {
    let _p = alloc::pause();
    let id = match sched::me() {
        Some(i) => i,
        None => return,
    };
    unsafe {
        if NEST[id] || v < 0 || v as usize >= ctx().plan.nested.len() {
            return;
        }
        NEST[id] = true;
        let saved = (
            alloc::COUNT.with(|c| c.get()),
            alloc::FAIL_AT.with(|c| c.get()),
            alloc::FIRED.with(|c| c.replace(0)),
        );
        let s0 = sched::my_steps();
        let op = ctx().plan.nested[v as usize].clone();
        let may = effects::MAY[id];
        let o = exec(id, 0, &op);
        effects::MAY[id] = may;
        if op.k == K::Parse {
            ctx().threads[id].bufs[NEST_BUF as usize] = vec![];
        }
        let steps = sched::my_steps() - s0;
        NEST_STEPS[id] += steps;
        let h = crate::rng::fnv(crate::rng::fnv(0, o.tag.as_bytes()), &o.body);
        let seen = &mut *std::ptr::addr_of_mut!(NEST_SEEN);
        if !seen.contains(&(id, v, h)) {
            seen.push((id, v, h));
            emit(&Rec {
                thread: id as u16,
                op: NEST_OP + v as u16,
                rep: 0,
                tag: o.tag,
                body: o.body,
                steps,
                allocs: o.allocs,
                oom: 0,
                fired: o.fired,
            });
        }
        alloc::COUNT.with(|c| c.set(saved.0));
        alloc::FAIL_AT.with(|c| c.set(saved.1));
        alloc::FIRED.with(|c| c.set(saved.2));
        NEST[id] = false;
    }
}

struct Out {
    tag: String,
    body: Vec<u8>,
    fired: Vec<FK>,
    oom: u32,
    allocs: u64,
}

/// Calls into the library; the allocation `oom` of the call fails.
fn lib<R>(oom: u64, f: impl FnOnce() -> R) -> Result<R, String> {
    alloc::COUNT.with(|c| c.set(0));
    alloc::FAIL_AT.with(|c| c.set(oom));
    alloc::IN_LIB.with(|c| c.set(1));
    let r = catch_unwind(AssertUnwindSafe(f));
    alloc::IN_LIB.with(|c| c.set(0));
    alloc::FAIL_AT.with(|c| c.set(0));
    r.map_err(|p| {
        if let Some(x) = p.downcast_ref::<SimPanic>() {
            format!("simpanic {}", x.0)
        } else if p.is::<SimOom>() {
            "simoom".to_string()
        } else {
            if let Some(id) = sched::me() {
                unsafe { effects::PANICS[id] += 1 };
            }
            "panic".to_string()
        }
    })
}

/// What an operation did besides what it is for.
fn beyond(id: usize, i: usize) {
    unsafe {
        effects::settle(id);
        let n = effects::HOOKS[id] as i64 - effects::THROWN[id] as i64 - effects::PANICS[id] as i64;
        if n != 0 && effects::HOOKED {
            effects::note(id, match n > 0 {
                true => format!("the panic hook ran {} times without a panic", n),
                false => format!("the panic hook did not run at {} panics", -n),
            });
            effects::HOOKS[id] = (effects::HOOKS[id] as i64 - n) as u64;
        }
        let v = std::mem::take(&mut (*std::ptr::addr_of_mut!(effects::SEEN))[id]);
        if !v.is_empty() {
            aux(300 + id as u16, i as u16, "effects", v.join("; ").into_bytes());
        }
    }
}

/// Which of descriptors 1 and 2 an operation writes to.
fn streams(op: &Op) -> u8 {
    match op.k {
        K::Print => 2,
        K::ErrStderr | K::Load => 4,
        K::Unwrap if !op.sub.is_empty() => 4,
        _ => 0,
    }
}

fn body(id: usize) {
    let n = ctx().plan.threads[id].len();
    for i in ctx().threads[id].next..n {
        let op = ctx().plan.threads[id][i].clone();
        if op.k == K::Exit {
            aux(id as u16, i as u16, "ok", vec![]);
            if i + 1 < n {
                ctx().threads[id].next = i + 1;
                sched::succeed();
                return;
            }
            continue;
        }
        let mut first: Option<(String, Vec<u8>)> = None;
        for rep in 0..op.rep.max(1) {
            alloc::FIRED.with(|c| c.set(0));
            alloc::COUNT.with(|c| c.set(0));
            unsafe { NEST_STEPS[id] = 0 };
            let s0 = sched::my_steps();
            let o = exec(id, i, &op);
            let s0 = s0 + unsafe { NEST_STEPS[id] };
            let same = match &first {
                None => false,
                Some((t, b)) => *t == o.tag && *b == o.body,
            };
            if op.rep > 1 && op.k == K::Parse {
                ctx().threads[id].bufs[op.c as usize].clear();
            }
            if !same {
                if first.is_none() {
                    first = Some((o.tag.clone(), o.body.clone()));
                }
                emit(&Rec {
                    thread: id as u16,
                    op: i as u16,
                    rep,
                    tag: o.tag,
                    body: o.body,
                    steps: sched::my_steps() - s0,
                    allocs: o.allocs,
                    oom: o.oom,
                    fired: o.fired,
                });
                if rep > 0 {
                    break;
                }
            }
        }
        beyond(id, i);
    }
}

fn syntax_text(s: &Syntax) -> String {
    let mut o = format!("{}", s.rules.len());
    for n in &s.names {
        o.push('\t');
        o.push_str(&crate::plan::esc(n.as_bytes()));
    }
    // the numbers that errors refer to, rule by rule
    for r in &s.rules {
        let mut v = vec![];
        ids(r, &mut v);
        let shown: Vec<String> = v.iter().take(12).map(|n| n.to_string()).collect();
        let b: Vec<u8> = v.iter().flat_map(|n| (*n as u64).to_le_bytes()).collect();
        o.push_str(&format!("\n{} {:x}", shown.join(" "), crate::rng::fnv(0, &b)));
    }
    o
}

/// The debug ids in a rule, and where nodes in it lead.
fn ids(r: &meta_rules::Rule, v: &mut Vec<usize>) {
    use meta_rules::Rule::*;
    match r {
        Whitespace(x) => v.push(x.debug_id),
        Tag(x) => v.push(x.debug_id),
        UntilAny(x) => v.push(x.debug_id),
        UntilAnyOrWhitespace(x) => v.push(x.debug_id),
        Text(x) => v.push(x.debug_id),
        Number(x) => v.push(x.debug_id),
        Select(x) => {
            v.push(x.debug_id);
            x.args.iter().for_each(|r| ids(r, v));
        }
        FastSelect(x) => {
            v.push(x.debug_id);
            x.args.iter().for_each(|r| ids(r, v));
        }
        Sequence(x) => {
            v.push(x.debug_id);
            x.args.iter().for_each(|r| ids(r, v));
        }
        SeparateBy(x) => {
            v.push(x.debug_id);
            ids(&x.by, v);
            ids(&x.rule, v);
        }
        Repeat(x) => {
            v.push(x.debug_id);
            ids(&x.rule, v);
        }
        Lines(x) => {
            v.push(x.debug_id);
            ids(&x.rule, v);
        }
        Node(x) => v.extend([x.debug_id, x.index.map_or(0, |i| i + 1)]),
        Optional(x) => {
            v.push(x.debug_id);
            ids(&x.rule, v);
        }
        Not(x) => {
            v.push(x.debug_id);
            ids(&x.rule, v);
        }
        #[allow(unreachable_patterns)]
        _ => {}
    }
}

fn sink_out(o: &mut Vec<u8>, res: &Result<io::Result<()>, String>, s: &Sink) {
    let code = match res {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err {}", io_err_id(e)),
        Err(p) => p.clone(),
    };
    o.extend_from_slice(format!("{}\n{}\n", code, s.s.got.len()).as_bytes());
    o.extend_from_slice(&s.s.got);
    o.push(b'\n');
}

/// Splits what `sink_out` wrote: (result, accepted bytes) per report.
pub fn split_sinks(mut b: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    while !b.is_empty() {
        let i = b.iter().position(|&c| c == b'\n').unwrap();
        let code = String::from_utf8_lossy(&b[..i]).into_owned();
        b = &b[i + 1..];
        let i = b.iter().position(|&c| c == b'\n').unwrap();
        let n: usize = std::str::from_utf8(&b[..i]).unwrap().parse().unwrap();
        b = &b[i + 1..];
        v.push((code, b[..n].to_vec()));
        b = &b[n + 1..];
    }
    v
}

/// The text at the place where this thread keeps every text it passes: what
/// is remembered about an earlier text by its address is wrong now.
fn pad(id: usize, s: &str) -> &'static str {
    unsafe {
        let id = if NEST[id] { id + sched::MAXT } else { id };
        let p = &mut (*std::ptr::addr_of_mut!(PADS))[id];
        p.clear();
        p.resize(sys::TEXT_SKEW, b'x');
        p.extend_from_slice(s.as_bytes());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p.as_ptr().add(sys::TEXT_SKEW), s.len()))
    }
}

/// A copy of metadata made for one call.
struct Own(Option<Meta>);
impl Own {
    fn take(op: &Op) -> Own {
        Own(if op.d == 1 { Some(build_meta(&model::meta_from_text(ctx().plan.str(op.a)))) } else { None })
    }
    fn get(&self, op: &Op) -> &[Range<MetaData>] {
        match &self.0 {
            Some(m) => m,
            None => ctx().metas[op.a as usize].as_ref().unwrap(),
        }
    }
    fn check(&self, op: &Op, out: &mut Out) {
        if let Some(m) = &self.0 {
            let want = model::meta_text(&model::meta_from_text(ctx().plan.str(op.a)));
            if model::meta_text(&meta_of(m)) != want {
                out.tag = "damaged".into();
                out.body = b"metadata passed in changed".to_vec();
            }
        }
    }
}

fn exec(id: usize, _i: usize, op: &Op) -> Out {
    let c = ctx();
    unsafe { effects::MAY[id] = streams(op) };
    let mut out = Out { tag: "ok".into(), body: vec![], fired: vec![], oom: 0, allocs: 0 };
    let th = &mut c.threads[id];
    let plan = &c.plan;
    match op.k {
        K::Rules => {
            if let Some(s) = th.slots[op.b as usize].take() {
                shim::drop_syntax(s);
            }
            match lib(op.oom, shim::boot_rules) {
                Ok(s) => {
                    out.body = syntax_text(&s).into_bytes();
                    th.slots[op.b as usize] = Some(s);
                }
                Err(p) => out.tag = p,
            }
        }
        K::Syntax => {
            let text = pad(id, plan.str(op.a));
            if let Some(s) = th.slots[op.b as usize].take() {
                shim::drop_syntax(s);
            }
            let r: Result<Result<Syntax, String>, String> = lib(op.oom, || {
                if op.c == 1 {
                    shim::read_syntax_errstr(text)
                } else {
                    shim::read_syntax(text).map_err(|e| {
                        let _p = alloc::pause();
                        perr(&e)
                    })
                }
            });
            match r {
                Ok(Ok(s)) => {
                    out.body = syntax_text(&s).into_bytes();
                    th.slots[op.b as usize] = Some(s);
                }
                Ok(Err(e)) => {
                    out.tag = "err".into();
                    out.body = e.into_bytes();
                }
                Err(p) => out.tag = p,
            }
        }
        K::Optimize => match th.slots[op.b as usize].take() {
            None => out.tag = "skip".into(),
            Some(s) => match lib(op.oom, || shim::optimize(s)) {
                Ok(s) => {
                    out.body = syntax_text(&s).into_bytes();
                    th.slots[op.b as usize] = Some(s);
                }
                Err(p) => out.tag = p,
            },
        },
        K::CloneSlot => match &th.slots[op.b as usize] {
            None => out.tag = "skip".into(),
            Some(s) => {
                let r = lib(op.oom, || shim::clone_syntax(s));
                match r {
                    Ok(s) => {
                        out.body = syntax_text(&s).into_bytes();
                        th.slots[op.c as usize] = Some(s);
                    }
                    Err(p) => out.tag = p,
                }
            }
        },
        K::DropSlot => match th.slots[op.b as usize].take() {
            None => out.tag = "skip".into(),
            Some(s) => {
                if let Err(p) = lib(0, || shim::drop_syntax(s)) {
                    out.tag = p;
                }
            }
        },
        K::Convert => {
            let own = Own::take(op);
            let m = own.get(op);
            let mut ignored = vec![Range::new(7, 9)];
            if let Some(s) = th.slots[op.b as usize].take() {
                shim::drop_syntax(s);
            }
            match lib(op.oom, || shim::convert(m, &mut ignored)) {
                Ok(Ok(s)) => {
                    let mut b = syntax_text(&s);
                    for r in &ignored {
                        b.push_str(&format!("\n{} {}", r.offset, r.length));
                    }
                    out.body = b.into_bytes();
                    th.slots[op.b as usize] = Some(s);
                }
                Ok(Err(())) => out.tag = "err".into(),
                Err(p) => out.tag = p,
            }
            own.check(op, &mut out);
        }
        K::Parse => {
            let g: Option<&Syntax> = if op.a >= 0 {
                c.shared[op.a as usize].as_ref()
            } else {
                th.slots[(-1 - op.a) as usize].as_ref()
            };
            let g = match g {
                None => {
                    out.tag = "skip".into();
                    return out;
                }
                Some(g) => g,
            };
            let text = pad(id, plan.str(op.b));
            let buf = &mut th.bufs[op.c as usize];
            let before = buf.len();
            let pre = model::meta_text(&meta_of(buf));
            let ind = op.sub.first().map(|s| IndentSettings {
                indent: s[0] as u32,
                align_first: s[1] != 0,
                tab_spaces: s[2] as u8,
            });
            let ind = ind.unwrap_or_default();
            let saved = (ind.indent, ind.align_first, ind.tab_spaces);
            let r: Result<Result<(), String>, String> = lib(op.oom, || {
                let pe = |e: PErr| {
                    let _p = alloc::pause();
                    perr(&e)
                };
                match op.d {
                    1 => shim::parse_str(g, text, buf),
                    2 => shim::parse_ind(g, text, buf, &ind).map_err(pe),
                    3 => shim::parse_str_ind(g, text, buf, &ind),
                    _ => shim::parse_plain(g, text, buf).map_err(pe),
                }
            });
            let bad = if buf.len() < before {
                "prefix lost"
            } else if model::meta_text(&meta_of(&buf[..before])) != pre {
                "prefix changed"
            } else if saved != (ind.indent, ind.align_first, ind.tab_spaces) {
                "indent settings changed"
            } else {
                ""
            };
            match r {
                Ok(Ok(())) => {
                    if bad.is_empty() {
                        out.body = model::meta_text(&meta_of(&buf[before..])).into_bytes();
                    }
                }
                Ok(Err(e)) => {
                    out.tag = "err".into();
                    out.body = e.into_bytes();
                }
                Err(p) => out.tag = p,
            }
            if !bad.is_empty() {
                out.body = format!("{} (result {})", bad, out.tag).into_bytes();
                out.tag = "damaged".into();
            }
        }
        K::Clear => {
            th.bufs[op.c as usize] = vec![];
        }
        K::Fill => {
            let m = c.metas[op.a as usize].as_ref().unwrap();
            th.bufs[op.c as usize] = m.clone();
        }
        K::Send => {
            let b = std::mem::take(&mut th.bufs[op.c as usize]);
            c.mail.push(b);
        }
        K::DropMail => {
            let m = std::mem::take(&mut c.mail);
            if let Err(p) = lib(0, || {
                for x in m {
                    shim::drop_meta(x)
                }
            }) {
                out.tag = p;
            }
        }
        K::Json | K::JsonStr => {
            let mut s = Sink::new(&op.faults, op.max);
            if op.k == K::Json {
                let own = Own::take(op);
                let m = own.get(op);
                let r = lib(op.oom, || shim::json_write(&mut s, m));
                sink_out(&mut out.body, &r, &s);
                own.check(op, &mut out);
            } else {
                let t = pad(id, plan.str(op.a));
                let r = lib(op.oom, || shim::json_string(&mut s, t));
                sink_out(&mut out.body, &r, &s);
            };
            out.fired = s.s.fired;
        }
        K::Report => {
            let text = pad(id, plan.str(op.a));
            let mut allocs = 0;
            match lib(if op.b < 0 { op.oom } else { 0 }, || shim::handler(text)) {
                Err(p) => out.tag = p,
                Ok(mut h) => {
                    for (k, e) in op.sub.iter().enumerate() {
                        let f: Vec<Fault> =
                            op.faults.iter().filter(|f| f.which == k as u8).cloned().collect();
                        let mut s = Sink::new(&f, op.max);
                        let (kind, eid) = (e[2] % 100, e[2] / 100);
                        let range = Range::new(e[0] as usize, e[1] as usize);
                        let msg = plan.str(e[3]);
                        let oom = if op.b == k as i64 { op.oom } else { 0 };
                        let r = if kind == 20 {
                            lib(oom, || shim::report_msg(&mut h, &mut s, range, msg))
                        } else {
                            let e = make_err(kind, eid, msg);
                            lib(oom, || shim::report(&mut h, &mut s, range.wrap(e)))
                        };
                        allocs += alloc::COUNT.with(|c| c.get());
                        sink_out(&mut out.body, &r, &s);
                        out.fired.extend_from_slice(&s.s.fired);
                    }
                }
            }
            alloc::COUNT.with(|c| c.set(allocs));
        }
        K::Print => {
            let own = Own::take(op);
            let m = own.get(op);
            let w = Watch::start(id);
            if let Err(p) = lib(op.oom, || shim::json_print(m)) {
                out.tag = p;
            }
            out.body = w.end("");
            own.check(op, &mut out);
        }
        K::ErrStderr => {
            let text = pad(id, plan.str(op.a));
            let e = op.sub[0];
            let err = make_err(e[2] % 100, e[2] / 100, plan.str(e[3]));
            let range = Range::new(e[0] as usize, e[1] as usize);
            let w = Watch::start(id);
            let r = lib(op.oom, || {
                let mut h = shim::handler(text);
                shim::report_stderr(&mut h, range.wrap(err))
            });
            if let Err(p) = r {
                out.tag = p;
            }
            out.body = w.end("");
        }
        K::Unwrap => {
            let text = pad(id, plan.str(op.a));
            let w = Watch::start(id);
            let r = match op.sub.first() {
                None => lib(op.oom, || shim::unwrap_i64(text, Ok(op.b))),
                Some(e) => {
                    let err = make_err(e[2] % 100, e[2] / 100, plan.str(e[3]));
                    let range = Range::new(e[0] as usize, e[1] as usize);
                    lib(op.oom, || shim::unwrap_i64(text, Err(range.wrap(err))))
                }
            };
            match r {
                Ok(v) => out.body = w.end(&v.to_string()),
                Err(p) => {
                    out.tag = p;
                    out.body = w.end("");
                }
            }
        }
        K::Load => load(id, op, &mut out),
        K::Search => {
            let own = Own::take(op);
            let m = own.get(op);
            let mut log = String::new();
            let r = lib(op.oom, || {
                let mut s = shim::search_new(m);
                let mut pos = 0;
                let _p = alloc::pause();
                script(&mut s, m, &op.sub, &mut pos, &mut log)
            });
            if let Err(p) = r {
                out.tag = p;
            }
            out.body = log.into_bytes();
            own.check(op, &mut out);
            for l in op.sub.iter() {
                if l[0] == 99 && l[1] == 1 {
                    out.fired.push(FK::CbErr);
                }
                if l[0] == 99 && l[1] == 2 {
                    out.fired.push(FK::CbPanic);
                }
            }
        }
        K::Exit => {}
        K::Rebuild => match th.slots[op.b as usize].take() {
            None => out.tag = "skip".into(),
            Some(s) => {
                let r = lib(op.oom, || shim::rebuild(&s, op.c));
                shim::drop_syntax(s);
                match r {
                    Ok(s) => {
                        out.body = syntax_text(&s).into_bytes();
                        th.slots[op.b as usize] = Some(s);
                    }
                    Err(p) => out.tag = p,
                }
            }
        },
        K::Walk => {
            let own = Own::take(op);
            let m = own.get(op);
            let all = model::meta_from_text(plan.str(op.a));
            let want = model::walk(&all, &op.sub, &|i| plan.str(i).to_string());
            let mut log = String::new();
            let r = lib(op.oom, || walk(m, &op.sub, &want, &mut log));
            if let Err(p) = r {
                out.tag = p;
            }
            out.body = log.into_bytes();
            own.check(op, &mut out);
        }
        K::Mark => {
            let own: i64 = unsafe {
                (*std::ptr::addr_of!(sys::STREAMS))
                    .iter()
                    .map(|s| (s.got.capacity() + s.chunks.capacity() * 8 + s.fired.capacity()) as i64)
                    .sum()
            };
            let (b, n) = alloc::live();
            let b = b - own;
            let open = unsafe {
                (*std::ptr::addr_of!(sys::FILES)).iter().filter(|f| f.open).count() as i64
                    + sys::REAL_OPEN
            };
            // reserve first, so that recording does not count as growth
            if th.rounds.capacity() == 0 {
                th.rounds.reserve(4096);
                let (b, n) = alloc::live();
                th.rounds.push((b - own, n, open));
            } else {
                th.rounds.push((b, n, open));
            }
        }
    }
    out.oom = alloc::FIRED.with(|c| c.get());
    out.allocs = alloc::COUNT.with(|c| c.get());
    out
}

/// What reaches the process streams during one operation: a value, the bytes
/// on descriptors 1 and 2, and how many refused writes this thread saw.
struct Watch(usize, usize, usize, u64);
impl Watch {
    fn start(id: usize) -> Watch {
        unsafe {
            let s = &*std::ptr::addr_of!(sys::STREAMS);
            Watch(id, s[0].got.len(), s[1].got.len(), sys::HARD[id])
        }
    }
    fn end(self, value: &str) -> Vec<u8> {
        unsafe {
            let s = &*std::ptr::addr_of!(sys::STREAMS);
            let hard = (sys::HARD[self.0] - self.3).to_string();
            pack(&[value.as_bytes(), &s[0].got[self.1..], &s[1].got[self.2..], hard.as_bytes()])
        }
    }
}

fn load(id: usize, op: &Op, out: &mut Out) {
    unsafe {
        let mut l: Vec<(u8, Fault)> = op.faults.iter().map(|f| (f.which, *f)).collect();
        l.sort_by_key(|f| f.1.at);
        sys::LOAD[id] = l;
        let from = (*std::ptr::addr_of!(sys::FILES)).len();
        sys::LOADS += 1;
        let err0 = (*std::ptr::addr_of!(sys::STREAMS[1])).got.len();
        let real0 = sys::REAL_OPEN;
        (*std::ptr::addr_of_mut!(sys::SYS_FIRED[id])).clear();
        let a = format!("/simfs/a{}", op.d);
        let b = format!("/simfs/b{}", op.d);
        sys::CURRENT[id] = [op.a as usize, op.b as usize];
        sys::LOADING[id] = true;
        let wrote = effects::WROTE[id][2];
        let r = lib(op.oom, || shim::load(&a, &b));
        sys::LOADING[id] = false;
        if r.is_ok() && effects::WROTE[id][2] > wrote {
            effects::note(id, "wrote to descriptor 2 although loading succeeded".into());
        }
        sys::LOAD[id] = vec![];
        let mut text = String::new();
        match r {
            Ok(m) => {
                text = model::meta_text(&meta_of(&m));
                lib(0, || shim::drop_meta(m)).ok();
            }
            Err(p) => out.tag = p,
        }
        out.fired = (*std::ptr::addr_of!(sys::SYS_FIRED[id])).clone();
        // body: delivered bytes of both files, leaked descriptors, stderr, metadata
        let mut del: [Vec<u8>; 2] = [vec![], vec![]];
        let mut eof = [false; 2];
        let mut open = sys::REAL_OPEN - real0;
        for f in (*std::ptr::addr_of!(sys::FILES))[from..].iter() {
            if f.owner == id && f.disk != usize::MAX {
                open += f.open as i64;
            } else if f.owner == id {
                del[f.which as usize] = f.delivered.clone();
                eof[f.which as usize] = f.eof;
                open += f.open as i64;
            }
        }
        // the table itself is the simulator's; give its memory back when idle
        let files = &mut *std::ptr::addr_of_mut!(sys::FILES);
        sys::LOADS -= 1;
        if sys::LOADS == 0 && files.iter().all(|f| !f.open) {
            *files = Vec::new();
            sys::forget_fds();
            *std::ptr::addr_of_mut!(sys::SYS_FIRED[id]) = Vec::new();
        }
        let st = &mut *std::ptr::addr_of_mut!(sys::STREAMS[1]);
        let err = st.got[err0..].to_vec();
        out.body = pack(&[
            &del[0],
            &del[1],
            &[eof[0] as u8, eof[1] as u8],
            open.to_string().as_bytes(),
            &err,
            text.as_bytes(),
        ]);
    }
}

pub fn pack(v: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![];
    for x in v {
        o.extend_from_slice(&(x.len() as u32).to_le_bytes());
        o.extend_from_slice(x);
    }
    o
}
pub fn unpack(b: &[u8]) -> Vec<Vec<u8>> {
    let mut r = Rd(b);
    let mut v = vec![];
    while !r.0.is_empty() {
        let n = r.u32() as usize;
        v.push(r.take(n).to_vec());
    }
    v
}

// ------------------------------------------------------------ searching

fn where_is(s: &Search, all: &[Range<MetaData>]) -> String {
    let sz = std::mem::size_of::<Range<MetaData>>();
    let d = (s.data.as_ptr() as usize).wrapping_sub(all.as_ptr() as usize);
    let at = if d % sz == 0 && d / sz <= all.len() { (d / sz) as i64 } else { -1 };
    let r = match s.range {
        None => "-".to_string(),
        Some(r) => format!("{},{}", r.offset, r.length),
    };
    format!("@{}+{} {}", at, s.data.len(), r)
}

/// Runs script lines from `pos` until the end marker of this level.  Returns
/// what the callback at this level returns.
/// A script over conversion cursors; steps that the model gives no meaning
/// are left out.
fn walk(m: &[Range<MetaData>], sub: &[[i64; 4]], want: &[Option<String>], log: &mut String) {
    let plan = &ctx().plan;
    let mut reg = [shim::conv_new(m); model::CURSORS];
    for (l, w) in sub.iter().zip(want) {
        if w.is_none() {
            let _p = alloc::pause();
            log.push('\n');
            continue;
        }
        if l[0] == 98 {
            nested(l[1]);
            continue;
        }
        let i = l[1] as usize % model::CURSORS;
        let j = l[2] as usize % model::CURSORS;
        let c = reg[i];
        let name = if (1..=5).contains(&l[0]) { plan.str(l[2]) } else { "" };
        let mut to: Option<Range> = None;
        let text = match l[0] {
            0 => {
                reg[j] = reg[i];
                String::new()
            }
            1 | 2 => {
                let r = if l[0] == 1 { shim::conv_start(&c, name) } else { shim::conv_end(&c, name) };
                let _p = alloc::pause();
                r.map_or("-".into(), |r| {
                    to = Some(r);
                    format!("{},{} ", r.offset, r.length)
                })
            }
            3 => {
                let r = shim::conv_bool(&c, name);
                let _p = alloc::pause();
                r.map_or("-".into(), |(r, v)| {
                    to = Some(r);
                    format!("{},{} {}", r.offset, r.length, v)
                })
            }
            4 => {
                let r = shim::conv_f64(&c, name);
                let _p = alloc::pause();
                r.map_or("-".into(), |(r, v)| {
                    to = Some(r);
                    format!("{},{} {:x}", r.offset, r.length, v.to_bits())
                })
            }
            5 => {
                let r = shim::conv_string(&c, name);
                let _p = alloc::pause();
                r.map_or("-".into(), |(r, v)| {
                    to = Some(r);
                    format!("{},{} {}", r.offset, r.length, v)
                })
            }
            6 => {
                let r = shim::conv_ignore(&c);
                let _p = alloc::pause();
                to = Some(r);
                format!("{},{}", r.offset, r.length)
            }
            7 => {
                let r = shim::conv_subtract(c, reg[j]);
                let _p = alloc::pause();
                format!("{},{}", r.offset, r.length)
            }
            8 => {
                let r = shim::conv_source(c, reg[j]);
                let _p = alloc::pause();
                r.map_or("none".into(), |r| format!("{},{}", r.offset, r.length))
            }
            9 => {
                let n = shim::conv_left(&c);
                let _p = alloc::pause();
                format!("left {}", n)
            }
            10 => {
                reg[i] = shim::conv_new(&m[l[2] as usize % (m.len() + 1)..]);
                String::new()
            }
            11 => {
                // what a copy has read is taken over
                let r = shim::conv_subtract(reg[j], c);
                shim::conv_update(&mut reg[i], r);
                let _p = alloc::pause();
                format!("{},{}", r.offset, r.length)
            }
            _ => String::new(),
        };
        if let (1, Some(r)) = (l[3], to) {
            shim::conv_update(&mut reg[i], r);
        }
        let _p = alloc::pause();
        log.push_str(&text);
        log.push('\n');
        drop(text);
        sched::env_point();
    }
}

fn script<'a>(
    s: &mut Search<'a>,
    all: &[Range<MetaData>],
    sub: &[[i64; 4]],
    pos: &mut usize,
    log: &mut String,
) -> Result<String, PErr> {
    let plan = &ctx().plan;
    while *pos < sub.len() {
        let l = sub[*pos];
        *pos += 1;
        let name = if l[0] >= 98 { "" } else { plan.str(l[1]) };
        macro_rules! call {
            ($e:expr) => {{
                alloc::IN_LIB.with(|c| c.set(1));
                let r = $e;
                alloc::IN_LIB.with(|c| c.set(0));
                r
            }};
        }
        match l[0] {
            0 => {
                let r = call!(shim::get_bool(s, name));
                log.push_str(&format!("bool {} {}\n", show(r.map(|v| v.to_string())), where_is(s, all)));
            }
            1 => {
                let r = call!(shim::get_f64(s, name));
                log.push_str(&format!(
                    "f64 {} {}\n",
                    show(r.map(|v| format!("{:x}", v.to_bits()))),
                    where_is(s, all)
                ));
            }
            2 => {
                let r = call!(shim::get_string(s, name));
                log.push_str(&format!("string {} {}\n", show(r.map(|v| v.to_string())), where_is(s, all)));
            }
            3 => {
                let r = call!(shim::get_node(s, name));
                log.push_str(&format!("node {} {}\n", show(r.map(|_| String::new())), where_is(s, all)));
            }
            4 => {
                let r = call!(shim::get_end(s, name));
                log.push_str(&format!("end {} {}\n", show(r.map(|_| String::new())), where_is(s, all)));
            }
            10..=14 => {
                let start = *pos;
                let mut ran = 0;
                let mut inner_end = start;
                let inner_log = std::cell::RefCell::new(String::new());
                let r = {
                    let s2: &Search = &*s;
                    let mut cb = |mut inner: Search| -> Result<String, PErr> {
                        let _p = alloc::pause();
                        sched::env_point();
                        ran += 1;
                        let mut lg = inner_log.borrow_mut();
                        lg.push_str(&format!("in {}\n", where_is(&inner, all)));
                        let mut p = start;
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            script(&mut inner, all, sub, &mut p, &mut lg)
                        }));
                        inner_end = p;
                        drop(lg);
                        match r {
                            Ok(r) => r,
                            Err(e) => resume_unwind(e),
                        }
                    };
                    alloc::IN_LIB.with(|c| c.set(1));
                    let r = catch_unwind(AssertUnwindSafe(|| match l[0] {
                        10 => shim::for_string(s2, name, plan.str(l[2]), &mut cb),
                        11 => shim::for_f64(s2, name, num(plan.str(l[2])), &mut cb),
                        12 => shim::for_bool(s2, name, l[2] != 0, &mut cb),
                        13 => shim::for_node(s2, name, &mut cb),
                        _ => shim::for_end_node(s2, name, &mut cb),
                    }));
                    alloc::IN_LIB.with(|c| c.set(0));
                    r
                };
                log.push_str(&inner_log.into_inner());
                let res = match r {
                    Ok(r) => show(r),
                    Err(p) => match p.downcast_ref::<SimPanic>() {
                        Some(x) => format!("simpanic {}", x.0),
                        None => "panic".into(),
                    },
                };
                log.push_str(&format!("for ran {} {} {}\n", ran, res, where_is(s, all)));
                // skip the nested lines whether or not the callback ran
                let _ = inner_end;
                let mut depth = 1;
                let mut p = start;
                while p < sub.len() && depth > 0 {
                    match sub[p][0] {
                        10..=14 => depth += 1,
                        99 => depth -= 1,
                        _ => {}
                    }
                    p += 1;
                }
                *pos = p;
            }
            98 => nested(l[1]),
            99 => {
                return match l[1] {
                    1 => Err(cb_err(&l)),
                    2 => effects::throw(SimPanic(l[2])),
                    _ => Ok(format!("value {}", l[2])),
                };
            }
            _ => {}
        }
    }
    Ok("end".into())
}

pub fn num(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        return f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0));
    }
    s.parse().unwrap_or(0.0)
}

/// Results, with errors made by the library reduced to their place and errors
/// made by callbacks kept apart.
fn show(r: Result<String, PErr>) -> String {
    match r {
        Ok(v) => format!("Ok({})", crate::plan::esc(v.as_bytes())),
        Err(e) => match &e.data {
            // the library makes no other kind of error here
            ParseError::Conversion(m) if !m.starts_with("callback ") => format!("Err({},{})", e.offset, e.length),
            x => format!("CbErr({},{},{:?})", e.offset, e.length, x),
        },
    }
}

/// The error a callback fails with.
fn cb_err(l: &[i64; 4]) -> PErr {
    let e = l[3];
    let off = if e & 1 == 1 { 0 } else { l[2] as usize };
    let len = [3, 0, 1, 1000][(e >> 1 & 3) as usize];
    let m = format!("callback {}", l[2]);
    Range::new(off, len).wrap(match e >> 3 {
        0 => ParseError::Conversion(m),
        k => make_err(k - 1, l[2], &m),
    })
}

/// The same script on a model cursor over the same entries.
pub struct Cursor<'a> {
    pub all: &'a [ME],
    pub texts: &'a [Vec<u8>],
    pub sub: &'a [[i64; 4]],
}
pub enum Ret {
    Ok(String),
    CbErr([i64; 4]),
    Panic(i64),
}
impl<'a> Cursor<'a> {
    fn name(&self, i: i64) -> String {
        String::from_utf8_lossy(&self.texts[i as usize]).into_owned()
    }
    pub fn run(&self, mut at: usize, mut range: Option<(usize, usize)>, pos: &mut usize, log: &mut String) -> Ret {
        let n = self.all.len();
        let place = |at: usize, range: Option<(usize, usize)>| {
            let r = match range {
                None => "-".to_string(),
                Some((a, b)) => format!("{},{}", a, b),
            };
            format!("@{}+{} {}", at, n - at, r)
        };
        while *pos < self.sub.len() {
            let l = self.sub[*pos];
            *pos += 1;
            match l[0] {
                0..=4 => {
                    let name = self.name(l[1]);
                    let hit = self.all.get(at).and_then(|e| match (&e.k, l[0]) {
                        (MK::Bool(x, v), 0) if *x == name => Some(v.to_string()),
                        (MK::Num(x, v), 1) if *x == name => Some(format!("{:x}", v.to_bits())),
                        (MK::Str(x, v), 2) if *x == name => Some(v.clone()),
                        (MK::Start(x), 3) if *x == name => Some(String::new()),
                        (MK::End(x), 4) if *x == name => Some(String::new()),
                        _ => None,
                    });
                    let res = match hit {
                        Some(v) => {
                            range = Some((self.all[at].off, self.all[at].len));
                            at += 1;
                            format!("Ok({})", crate::plan::esc(v.as_bytes()))
                        }
                        // at the entry that is there, or else the one before
                        None => {
                            let at = self.all.get(at).map(|e| (e.off, e.len)).or(range).unwrap_or((0, 0));
                            format!("Err({},{})", at.0, at.1)
                        }
                    };
                    let w = ["bool", "f64", "string", "node", "end"][l[0] as usize];
                    log.push_str(&format!("{} {} {}\n", w, res, place(at, range)));
                }
                10..=14 => {
                    let name = self.name(l[1]);
                    let start = *pos;
                    let val = if l[0] == 10 || l[0] == 11 { self.name(l[2]) } else { String::new() };
                    let found = (at..n).find(|&i| match (&self.all[i].k, l[0]) {
                        (MK::Str(x, v), 10) => *x == name && *v == val,
                        (MK::Num(x, v), 11) => *x == name && *v == num(&val),
                        (MK::Bool(x, v), 12) => *x == name && *v == (l[2] != 0),
                        (MK::Start(x), 13) => *x == name,
                        (MK::End(x), 14) => *x == name,
                        _ => false,
                    });
                    let (ran, res) = match found {
                        None => {
                            let at = range.unwrap_or((0, 0));
                            (0, format!("Err({},{})", at.0, at.1))
                        }
                        Some(i) => {
                            let r = Some((self.all[i].off, self.all[i].len));
                            log.push_str(&format!("in {}\n", place(i + 1, r)));
                            let mut p = start;
                            let r = match self.run(i + 1, r, &mut p, log) {
                                Ret::Ok(v) => format!("Ok({})", crate::plan::esc(v.as_bytes())),
                                Ret::CbErr(x) => show(Err(cb_err(&x))),
                                Ret::Panic(x) => format!("simpanic {}", x),
                            };
                            (1, r)
                        }
                    };
                    log.push_str(&format!("for ran {} {} {}\n", ran, res, place(at, range)));
                    let mut depth = 1;
                    let mut p = start;
                    while p < self.sub.len() && depth > 0 {
                        match self.sub[p][0] {
                            10..=14 => depth += 1,
                            99 => depth -= 1,
                            _ => {}
                        }
                        p += 1;
                    }
                    *pos = p;
                }
                99 => {
                    return match l[1] {
                        1 => Ret::CbErr(l),
                        2 => Ret::Panic(l[2]),
                        _ => Ret::Ok(format!("value {}", l[2])),
                    };
                }
                _ => {}
            }
        }
        Ret::Ok("end".into())
    }
}
