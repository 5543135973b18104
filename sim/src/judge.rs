//! Oracles: what a run must show for its property to have held.

use crate::exec::{self, run, split_sinks, unpack, Cursor, Rec, RunOut};
use crate::model::{self, Gram, Ind, Res, IND, ME};
use crate::plan::{Fault, Op, Plan, FK, K};
use crate::rng::fnv;
use crate::sched;
use std::collections::HashMap;
use std::rc::Rc;

pub enum Verdict {
    Ok,
    /// Outside what the property or the model covers.
    Discard,
    Bad { class: String, detail: String },
}

fn bad<T>(class: &str, detail: String) -> Result<T, Verdict> {
    Err(Verdict::Bad { class: class.into(), detail })
}

pub fn show(b: &[u8]) -> String {
    let s = crate::plan::esc(b);
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} bytes)", &s[..k], b.len())
    } else {
        s
    }
}

// ------------------------------------------------------------ baselines

/// The outcome of one operation alone in a fresh process.
pub struct BOut {
    pub ok: bool,
    pub tag: String,
    pub body: Vec<u8>,
    pub steps: u64,
}

pub struct Base {
    cache: HashMap<u64, Rc<BOut>>,
    pub runs: u64,
}

/// Applies `f` to every text number in the operation.
pub fn texts_of(o: &mut Op, f: &mut dyn FnMut(i64) -> i64) {
    match o.k {
        K::Syntax | K::Convert | K::Fill | K::Json | K::JsonStr | K::Print => o.a = f(o.a),
        K::Parse => o.b = f(o.b),
        K::Report | K::ErrStderr | K::Unwrap => {
            o.a = f(o.a);
            for s in &mut o.sub {
                s[3] = f(s[3]);
            }
        }
        K::Load => {
            o.a = f(o.a);
            o.b = f(o.b);
            for x in &mut o.faults {
                if x.k == FK::Swap {
                    x.val = f(x.val);
                }
            }
        }
        K::Search => {
            o.a = f(o.a);
            for s in &mut o.sub {
                if s[0] < 98 {
                    s[1] = f(s[1]);
                    if s[0] == 10 || s[0] == 11 {
                        s[2] = f(s[2]);
                    }
                }
            }
        }
        K::Walk => {
            o.a = f(o.a);
            for s in &mut o.sub {
                if (1..=5).contains(&s[0]) {
                    s[2] = f(s[2]);
                }
            }
        }
        _ => {}
    }
}

impl Base {
    pub fn new() -> Base {
        Base { cache: HashMap::new(), runs: 0 }
    }
    pub fn get(&mut self, plan: &Plan, recipe: &[Op], op: &Op) -> Rc<BOut> {
        let mut p = Plan::new("base", 0);
        p.env = plan.env;
        p.warm = false;
        p.capture = true;
        p.limit = 20_000_000;
        let mut ops: Vec<Op> = vec![];
        for o in recipe.iter().chain(std::iter::once(op)) {
            let mut o = o.clone();
            o.oom = 0;
            o.rep = 1;
            o.faults.retain(|f| f.k != FK::Nest);
            if matches!(o.k, K::Search | K::Walk) {
                o.sub.retain(|l| l[0] != 98);
            }
            texts_of(&mut o, &mut |i| p.text(&plan.texts[i as usize]));
            if o.k == K::Parse && o.a >= 0 {
                let t = p.text(&plan.texts[plan.shared[o.a as usize]]);
                p.shared = vec![t as usize];
                o.a = 0;
            }
            ops.push(o);
        }
        let n = ops.len() - 1;
        p.threads.push(ops);
        let key = fnv(0, p.to_text().as_bytes());
        if let Some(b) = self.cache.get(&key) {
            return b.clone();
        }
        if self.cache.len() > 4000 {
            self.cache.clear();
        }
        self.runs += 1;
        let out = run(&p);
        let b = match out.rec(0, n) {
            Some(r) if out.status == sched::ST_OK => {
                BOut { ok: true, tag: r.tag.clone(), body: r.body.clone(), steps: r.steps }
            }
            _ => BOut { ok: false, tag: out.status_text(), body: vec![], steps: 0 },
        };
        let b = Rc::new(b);
        self.cache.insert(key, b.clone());
        b
    }
}

fn trivial(k: K) -> bool {
    matches!(k, K::Clear | K::Fill | K::Send | K::DropMail | K::Mark | K::DropSlot | K::Exit)
}

fn describe(plan: &Plan, o: &Op) -> String {
    let t = |i: i64| show(&plan.texts[i as usize]);
    match o.k {
        K::Parse => {
            if o.a >= 0 {
                format!("parse of {} with shared grammar {}", t(o.b), t(plan.shared[o.a as usize] as i64))
            } else {
                format!("parse of {} with grammar in slot {}", t(o.b), -1 - o.a)
            }
        }
        K::Syntax => format!("reading grammar {}", t(o.a)),
        K::Load => format!("loading grammar file {} and document file {}", t(o.a), t(o.b)),
        K::Json | K::Print | K::Search | K::Walk | K::Convert | K::JsonStr | K::Report => {
            format!("{:?} of {}", o.k, t(o.a))
        }
        _ => format!("{:?}", o.k),
    }
}

/// Checks that the run ended as it should; a run that could not end even
/// alone is not this property's business.
fn ended(out: &RunOut) -> Result<(), Verdict> {
    if out.status == sched::ST_OK {
        return Ok(());
    }
    let class = match (out.status, out.signal) {
        (sched::ST_DEADLOCK, _) => "deadlock",
        (sched::ST_STEPS, _) => "no progress",
        (sched::ST_MEMORY, _) => "memory exhausted",
        (sched::ST_HARNESS, _) => return Err(Verdict::Discard),
        (_, 14) | (_, 24) => "no progress",
        _ => "crash",
    };
    let last = out.recs.last().map(|r| format!("; last completed: thread {} operation {}", r.thread, r.op));
    bad(class, format!("{}{}", out.status_text(), last.unwrap_or_default()))
}

fn unchanged_inputs(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    for r in &out.recs {
        if r.thread == 200 {
            return bad(
                "shared metadata changed",
                format!("metadata {} became {}", show(&plan.texts[r.op as usize]), show(&r.body)),
            );
        }
    }
    Ok(())
}

/// The part of an outcome that must equal the outcome alone.
fn essence(k: K, body: &[u8], multi: bool) -> Vec<u8> {
    match k {
        K::Load if multi => unpack(body).get(5).cloned().unwrap_or_default(),
        K::Print | K::ErrStderr | K::Unwrap if multi => unpack(body)[0].clone(),
        _ => body.to_vec(),
    }
}

/// Every operation gives what it gives alone in a fresh process.
fn same_as_alone(plan: &Plan, out: &RunOut, base: &mut Base, bound: bool) -> Result<(), Verdict> {
    // nothing to compare with if some operation has no outcome even alone
    for t in &plan.threads {
        let mut slots: Vec<Option<Vec<Op>>> = vec![None; exec::SLOTS];
        for o in t {
            if let Some((recipe, _)) = need(plan, o, &slots) {
                if !trivial(o.k) && !base.get(plan, &recipe, o).ok {
                    return Err(Verdict::Discard);
                }
            }
            advance(&mut slots, o, true);
        }
    }
    ended(out)?;
    unchanged_inputs(plan, out)?;
    let multi = plan.threads.len() > 1;
    for (ti, t) in plan.threads.iter().enumerate() {
        let stalled = plan.stalls.iter().any(|s| s.0 == ti);
        let mut slots: Vec<Option<Vec<Op>>> = vec![None; exec::SLOTS];
        for (i, o) in t.iter().enumerate() {
            let r = match out.rec(ti, i) {
                Some(r) => r,
                None => {
                    if stalled {
                        break;
                    }
                    return bad("operation missing", format!("thread {} operation {} has no outcome", ti, i));
                }
            };
            let mut made = r.tag == "ok";
            match need(plan, o, &slots) {
                None => {
                    if r.tag != "skip" {
                        return bad("unexpected outcome", format!("thread {} operation {}: {} without a grammar", ti, i, r.tag));
                    }
                    made = false;
                }
                Some((recipe, _)) => {
                    if trivial(o.k) {
                        if r.tag != "ok" {
                            return bad("unexpected outcome", format!("thread {} operation {} ({:?}): {}", ti, i, o.k, r.tag));
                        }
                    } else {
                        let b = base.get(plan, &recipe, o);
                        let same = r.tag == b.tag && essence(o.k, &r.body, multi) == essence(o.k, &b.body, multi);
                        let writer = matches!(o.k, K::Json | K::JsonStr | K::Report | K::Search | K::Print | K::ErrStderr | K::Unwrap);
                        if !same && (r.oom == 0 || (r.tag == "ok" && !writer)) {
                            return bad(
                                "differs from the same call alone",
                                format!(
                                    "thread {} operation {} ({}): here {} {}; alone {} {}",
                                    ti, i, describe(plan, o), r.tag,
                                    show(&essence(o.k, &r.body, multi)), b.tag,
                                    show(&essence(o.k, &b.body, multi))
                                ),
                            );
                        }
                        if bound && o.rep <= 1 {
                            let lim = if plan.fine > 0 { 60 } else { 8 } * b.steps + 20_000;
                            if r.steps > lim {
                                return bad(
                                    "too many steps",
                                    format!("thread {} operation {} ({}): {} steps here, {} alone", ti, i, describe(plan, o), r.steps, b.steps),
                                );
                            }
                        }
                    }
                }
            }
            advance(&mut slots, o, made);
        }
    }
    Ok(())
}

/// The operations that make the grammar `o` needs; None if there is none.
fn need(plan: &Plan, o: &Op, slots: &[Option<Vec<Op>>]) -> Option<(Vec<Op>, ())> {
    let s = match o.k {
        K::Parse if o.a < 0 => (-1 - o.a) as usize,
        K::Parse => {
            let t = &plan.texts[plan.shared[o.a as usize]];
            let _ = t;
            return Some((vec![], ()));
        }
        K::Optimize | K::Rebuild | K::DropSlot | K::CloneSlot => o.b as usize,
        _ => return Some((vec![], ())),
    };
    slots[s].clone().map(|r| (r, ()))
}

fn advance(slots: &mut [Option<Vec<Op>>], o: &Op, made: bool) {
    let b = o.b as usize;
    match o.k {
        K::Syntax | K::Convert | K::Rules => slots[b] = if made { Some(vec![o.clone()]) } else { None },
        K::Optimize | K::Rebuild => {
            if made {
                if let Some(v) = &mut slots[b] {
                    v.push(o.clone());
                }
            } else {
                slots[b] = None;
            }
        }
        K::CloneSlot => {
            if made {
                slots[o.c as usize] = slots[b].clone().map(|mut v| {
                    v.push(o.clone());
                    v
                });
            }
        }
        K::DropSlot => slots[b] = None,
        _ => {}
    }
}

// ------------------------------------------------------------ writers

/// A rendering `want`, written to a writer with these faults, that ended in
/// `code` with `got` accepted.
fn written(want: &[u8], faults: &[Fault], code: &str, got: &[u8], oom: u32) -> Result<(), Verdict> {
    let mut f = faults.to_vec();
    f.sort_by_key(|f| f.at);
    let hard = f
        .iter()
        .find(|f| matches!(f.k, FK::Zero | FK::Err | FK::Panic) && f.at < want.len() as u64);
    if !want.starts_with(got) {
        return bad(
            "bytes are not a prefix of the rendering",
            format!("result {}; wrote {}; complete rendering {}", code, show(got), show(want)),
        );
    }
    if code == "ok" && got != want {
        return bad(
            "success with output missing",
            format!("wrote {} of {} bytes: {}", got.len(), want.len(), show(got)),
        );
    }
    if oom > 0 {
        return Ok(());
    }
    match hard {
        None => {
            if code != "ok" {
                return bad("failed without a writer failure", format!("result {}; wrote {}", code, show(got)));
            }
        }
        Some(h) => {
            let fine = match h.k {
                FK::Err => code == format!("err E{}", h.val),
                FK::Zero => code.starts_with("err "),
                _ => code.starts_with("simpanic "),
            };
            if !fine {
                return bad(
                    "writer failure not passed on",
                    format!("writer failed with {} {} at byte {}; the call gave {}", crate::plan::fk_name(h.k), h.val, h.at, code),
                );
            }
        }
    }
    Ok(())
}

fn only<'a>(out: &'a RunOut, t: usize, i: usize) -> Result<&'a Rec, Verdict> {
    match out.rec(t, i) {
        Some(r) => Ok(r),
        None => bad("operation missing", format!("thread {} operation {} has no outcome", t, i)),
    }
}

fn json_want(plan: &Plan, o: &Op) -> String {
    if o.k == K::JsonStr {
        let mut s = String::new();
        model::json_string(&mut s, plan.str(o.a));
        s
    } else {
        model::json(&model::meta_from_text(plan.str(o.a)))
    }
}

fn report_want(plan: &Plan, text: i64, e: &[i64; 4]) -> String {
    let (kind, id) = (e[2] % 100, e[2] / 100);
    let msg = plan.str(e[3]);
    if kind == 20 {
        model::report(plan.str(text), e[0] as usize, e[1] as usize, msg, false, true)
    } else {
        let (m, tag) = model::err_text(kind, id, msg);
        model::report(plan.str(text), e[0] as usize, e[1] as usize, &m, tag, false)
    }
}

fn c06(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    ended(out)?;
    unchanged_inputs(plan, out)?;
    for (ti, t) in plan.threads.iter().enumerate() {
        for (i, o) in t.iter().enumerate() {
            let r = only(out, ti, i)?;
            if !matches!(o.k, K::Json | K::JsonStr) {
                continue;
            }
            let want = json_want(plan, o);
            for (code, got) in split_sinks(&r.body) {
                written(want.as_bytes(), &o.faults, &code, &got, r.oom)?;
            }
        }
    }
    Ok(())
}

fn c07(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    ended(out)?;
    for (ti, t) in plan.threads.iter().enumerate() {
        for (i, o) in t.iter().enumerate() {
            let r = only(out, ti, i)?;
            if o.k != K::Report {
                continue;
            }
            let v = split_sinks(&r.body);
            if r.tag != "ok" || v.len() != o.sub.len() {
                return bad("report handler failed", format!("{}: {} of {} reports", r.tag, v.len(), o.sub.len()));
            }
            for (k, (code, got)) in v.iter().enumerate() {
                let want = report_want(plan, o.a, &o.sub[k]);
                let f: Vec<Fault> = o.faults.iter().filter(|f| f.which == k as u8).cloned().collect();
                let oom = if o.b == k as i64 { r.oom } else { 0 };
                written(want.as_bytes(), &f, code, got, oom)?;
            }
        }
    }
    Ok(())
}

/// Is `b` an interleaving of the texts of the threads, each a list of texts of
/// which only those marked have to be there as a whole, and of the others any beginning?
fn merges(b: &[u8], t: &[Vec<(Vec<u8>, bool)>]) -> bool {
    let all: Vec<Vec<u8>> = t.iter().map(|x| x.iter().flat_map(|y| y.0.iter().copied()).collect()).collect();
    // where the text that a position is in may be left for
    let skip: Vec<Vec<usize>> = t
        .iter()
        .map(|x| {
            let mut v: Vec<usize> = vec![];
            for (y, whole) in x {
                let end = v.len() + y.len();
                for k in v.len()..end {
                    v.push(if *whole { k } else { end });
                }
            }
            v
        })
        .collect();
    // positions reached from one without a byte of output
    let reach = |i: usize, mut p: usize| {
        let mut v = vec![p];
        while p < skip[i].len() && skip[i][p] != p {
            p = skip[i][p];
            v.push(p);
        }
        v
    };
    let mut seen = std::collections::HashSet::new();
    let mut cur: Vec<Vec<usize>> = vec![vec![0; t.len()]];
    for &c in b {
        let mut next = vec![];
        seen.clear();
        for p in &cur {
            for i in 0..t.len() {
                for k in reach(i, p[i]) {
                    if k < all[i].len() && all[i][k] == c {
                        let mut q = p.clone();
                        q[i] = k + 1;
                        if seen.insert(q.clone()) {
                            next.push(q);
                        }
                    }
                }
            }
        }
        if next.is_empty() {
            return false;
        }
        cur = next;
    }
    cur.iter().any(|p| (0..t.len()).all(|i| *reach(i, p[i]).last().unwrap() == all[i].len()))
}

/// (descriptor, text) that a printing operation delivers when all is well.
fn printed(plan: &Plan, o: &Op) -> Option<(usize, String)> {
    match o.k {
        K::Print => Some((0, json_want(plan, o))),
        K::ErrStderr => Some((1, report_want(plan, o.a, &o.sub[0]))),
        K::Unwrap => o.sub.first().map(|e| (1, report_want(plan, o.a, e))),
        _ => None,
    }
}

fn c08(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    ended(out)?;
    unchanged_inputs(plan, out)?;
    let multi = plan.threads.len() > 1;
    let mut texts: [Vec<Vec<(Vec<u8>, bool)>>; 2] = [vec![], vec![]];
    // after a refused write, standard output may still hold undelivered bytes
    let mut leftover = [false; 2];
    for (ti, t) in plan.threads.iter().enumerate() {
        let mut mine = [vec![], vec![]];
        for (i, o) in t.iter().enumerate() {
            let r = only(out, ti, i)?;
            if !matches!(o.k, K::Print | K::ErrStderr | K::Unwrap) {
                continue;
            }
            let b = unpack(&r.body);
            let hard = b[3] != b"0";
            let want = printed(plan, o);
            let fails = hard || (o.k == K::Unwrap && !o.sub.is_empty());
            if fails && r.tag == "ok" {
                return bad(
                    if hard { "refused output not reported" } else { "unwrap returned an error's value" },
                    format!("thread {} operation {} ({}) returned", ti, i, describe(plan, o)),
                );
            }
            if !fails && r.tag != "ok" {
                return bad("failed without a refused write", format!("thread {} operation {} ({}): {}", ti, i, describe(plan, o), r.tag));
            }
            if o.k == K::Unwrap && o.sub.is_empty() {
                if b[0] != o.b.to_string().as_bytes() {
                    return bad("unwrap changed the value", format!("{} instead of {}", show(&b[0]), o.b));
                }
                if !multi && (!b[1].is_empty() || !b[2].is_empty()) {
                    return bad("unwrap wrote without an error", show(&[b[1].clone(), b[2].clone()].concat()));
                }
            }
            if let Some((fd, w)) = want {
                if !multi {
                    let got = &b[1 + fd];
                    let w = w.as_bytes();
                    if hard {
                        // what got out is a prefix of the text (after leftovers)
                        if !leftover[fd] && !w.starts_with(got) {
                            return bad("delivered bytes are not a prefix", format!("got {}; text {}", show(got), show(w)));
                        }
                        leftover[fd] = fd == 0;
                    } else {
                        let right = if leftover[fd] { got.ends_with(w) } else { got == w };
                        if !right {
                            return bad("output lost or changed", format!("got {}; text {}", show(got), show(w)));
                        }
                        leftover[fd] = false;
                    }
                    if !b[2 - fd].is_empty() {
                        return bad("output on the wrong stream", show(&b[2 - fd]));
                    }
                }
                mine[fd].push((w.into_bytes(), !hard));
            }
        }
        for fd in 0..2 {
            texts[fd].push(std::mem::take(&mut mine[fd]));
        }
    }
    if multi {
        for fd in 0..2 {
            let s = out.recs.iter().find(|r| r.thread == 100 + fd as u16).unwrap();
            let n = u32::from_le_bytes(s.body[..4].try_into().unwrap()) as usize;
            let got = &s.body[4 + 5 * n..];
            if !merges(got, &texts[fd]) {
                return bad(
                    "concurrent output lost or changed",
                    format!("descriptor {}: got {}; texts {}", fd + 1, show(got), texts[fd].iter().map(|t| t.iter().map(|x| format!("{}{}", show(&x.0), if x.1 { "" } else { " (refused)" })).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | ")),
                );
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ parsing against the model

fn ind_of(o: &Op) -> Ind {
    match (o.d, o.sub.first()) {
        (2, Some(s)) | (3, Some(s)) => Ind { indent: s[0] as u32, align: s[1] != 0, tab: s[2] as u8 },
        _ => IND,
    }
}

/// The grammar of a text of the plan; -1 is the meta language's own.
fn gram(plan: &Plan, t: i64) -> Result<Option<Gram>, Verdict> {
    let s = if t < 0 { model::SELF } else { plan.str(t) };
    if crate::gen::odd_space(s) {
        return Err(Verdict::Discard);
    }
    match model::grammar(s) {
        Res::Ok(g) => {
            if g.left_recursive() {
                Err(Verdict::Discard)
            } else {
                Ok(Some(g))
            }
        }
        Res::Fail => Ok(None),
        Res::Discard => Err(Verdict::Discard),
    }
}

/// What every parse of the plan means.
fn meanings(plan: &Plan) -> Result<Vec<Vec<Option<Res<String>>>>, Verdict> {
    let mut want: Vec<Vec<Option<Res<String>>>> = vec![];
    let mut shared = vec![];
    for &t in &plan.shared {
        shared.push(gram(plan, t as i64)?);
    }
    for t in &plan.threads {
        let mut slots: Vec<Option<Gram>> = vec![None; exec::SLOTS];
        let mut w = vec![];
        for o in t {
            let mut e = None;
            match o.k {
                K::Syntax => slots[o.b as usize] = gram(plan, o.a)?,
                K::Rules => {
                    let b = gram(plan, -1)?;
                    slots[o.b as usize] = b;
                }
                K::CloneSlot => {
                    if let Some(g) = slots[o.b as usize].clone() {
                        slots[o.c as usize] = Some(g);
                    }
                }
                K::Rebuild => {
                    if let Some(g) = &mut slots[o.b as usize] {
                        g.start_with(o.c);
                    }
                }
                K::DropSlot => slots[o.b as usize] = None,
                K::Parse => {
                    let g = if o.a >= 0 { &shared[o.a as usize] } else { &slots[(-1 - o.a) as usize] };
                    if crate::gen::odd_space(plan.str(o.b)) {
                        return Err(Verdict::Discard);
                    }
                    if let Some(g) = g {
                        let r = model::parse(g, plan.str(o.b), ind_of(o));
                        if r == Res::Discard {
                            return Err(Verdict::Discard);
                        }
                        e = Some(match r {
                            Res::Ok(v) => Res::Ok(model::meta_text(&v)),
                            _ => Res::Fail,
                        });
                    }
                }
                _ => {}
            }
            w.push(e);
        }
        want.push(w);
    }
    Ok(want)
}

fn c05(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    // discards first, before any verdict
    let want = meanings(plan)?;
    ended(out)?;
    for (ti, t) in plan.threads.iter().enumerate() {
        // slots that hold no grammar because making it was abandoned
        let mut lost = vec![false; exec::SLOTS];
        let mut have = vec![false; exec::SLOTS];
        for (i, o) in t.iter().enumerate() {
            let r = only(out, ti, i)?;
            if r.tag == "damaged" {
                return bad("caller's metadata damaged", format!("{}: {}", describe(plan, o), show(&r.body)));
            }
            match o.k {
                K::Syntax => {
                    let g = gram(plan, o.a)?;
                    have[o.b as usize] = g.is_some() && r.tag == "ok";
                    lost[o.b as usize] = r.oom > 0;
                    if r.oom == 0 {
                        let w = if g.is_some() { "ok" } else { "err" };
                        if r.tag != w {
                            return bad("grammar read wrongly", format!("{}: {} {}, expected {}", describe(plan, o), r.tag, show(&r.body), w));
                        }
                    }
                }
                K::Rules => {
                    lost[o.b as usize] = r.tag != "ok";
                }
                K::Optimize | K::Rebuild => {
                    if r.tag != "ok" {
                        lost[o.b as usize] = true;
                    }
                }
                K::CloneSlot => {
                    lost[o.c as usize] |= lost[o.b as usize] || r.tag != "ok";
                }
                K::DropSlot => lost[o.b as usize] = true,
                K::Parse => {
                    if o.a < 0 && lost[(-1 - o.a) as usize] {
                        continue;
                    }
                    let e = match &want[ti][i] {
                        None => {
                            if r.tag != "skip" {
                                return bad("unexpected outcome", format!("{}: {}", describe(plan, o), r.tag));
                            }
                            continue;
                        }
                        Some(e) => e,
                    };
                    if r.oom > 0 && r.tag != "ok" {
                        continue;
                    }
                    let good = match e {
                        Res::Ok(m) => r.tag == "ok" && r.body == m.as_bytes(),
                        _ => r.tag == "err",
                    };
                    if !good {
                        return bad(
                            "metadata differs from the grammar's meaning",
                            format!(
                                "{}: got {} {}; the grammar means {}",
                                describe(plan, o), r.tag, show(&r.body),
                                match e {
                                    Res::Ok(m) => format!("ok {}", show(m.as_bytes())),
                                    _ => "failure".into(),
                                }
                            ),
                        );
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ loading

enum Want {
    Meta(String),
    Panic,
}

/// What loading these bytes must give.
fn load_means(a: &[u8], b: &[u8]) -> Result<Want, Verdict> {
    let (a, b) = match (std::str::from_utf8(a), std::str::from_utf8(b)) {
        (Ok(a), Ok(b)) => (a, b),
        (Ok(a), _) => {
            // the grammar alone must not be outside the model
            if crate::gen::odd_space(a) {
                return Err(Verdict::Discard);
            }
            return match model::grammar(a) {
                Res::Discard => Err(Verdict::Discard),
                Res::Ok(g) if g.left_recursive() => Err(Verdict::Discard),
                _ => Ok(Want::Panic),
            };
        }
        _ => return Ok(Want::Panic),
    };
    if crate::gen::odd_space(a) || crate::gen::odd_space(b) {
        return Err(Verdict::Discard);
    }
    match model::grammar(a) {
        Res::Discard => Err(Verdict::Discard),
        Res::Fail => Ok(Want::Panic),
        Res::Ok(g) => {
            if g.left_recursive() {
                return Err(Verdict::Discard);
            }
            match model::parse(&g, b, IND) {
                Res::Discard => Err(Verdict::Discard),
                Res::Fail => Ok(Want::Panic),
                Res::Ok(v) => Ok(Want::Meta(model::meta_text(&v))),
            }
        }
    }
}

/// The bytes of file `which` as the simulated disk delivers them.
fn contents(plan: &Plan, o: &Op, which: u8) -> Vec<u8> {
    let t = if which == 0 { o.a } else { o.b };
    let mut v = plan.texts[t as usize].clone();
    let mut f: Vec<&Fault> =
        o.faults.iter().filter(|f| f.which == which && matches!(f.k, FK::Swap | FK::Eof)).collect();
    f.sort_by_key(|f| f.at);
    for x in f {
        let at = (x.at as usize).min(v.len());
        if x.at as usize > v.len() {
            // never reached: end of file comes first
            continue;
        }
        match x.k {
            FK::Eof => v.truncate(at),
            _ => {
                if (x.val as usize) < plan.texts.len() {
                    let n = &plan.texts[x.val as usize];
                    v.truncate(at);
                    if at < n.len() {
                        v.extend_from_slice(&n[at..]);
                    }
                }
            }
        }
    }
    v
}

fn is_hard(f: &FK) -> bool {
    matches!(f, FK::OpenErr | FK::ReadErr)
}

fn loads(plan: &Plan, out: &RunOut, base: &mut Base, report: bool) -> Result<(), Verdict> {
    let multi = plan.threads.len() > 1;
    let mut wants = vec![];
    for t in &plan.threads {
        let mut w = vec![];
        for o in t {
            if o.k == K::Load {
                w.push(Some(load_means(&contents(plan, o, 0), &contents(plan, o, 1))?));
            } else {
                w.push(None);
            }
        }
        wants.push(w);
    }
    ended(out)?;
    for (ti, t) in plan.threads.iter().enumerate() {
        for (i, o) in t.iter().enumerate() {
            let r = only(out, ti, i)?;
            if o.k != K::Load {
                continue;
            }
            let b = unpack(&r.body);
            let hard = r.fired.iter().any(is_hard);
            if !multi && b[3] != b"0" {
                return bad("descriptor left open", format!("{}: {} open after the load ended with {}", describe(plan, o), show(&b[3]), r.tag));
            }
            if hard {
                if r.tag == "ok" {
                    return bad(
                        "file failure ignored",
                        format!("{}: an open or read failed, but loading returned {}", describe(plan, o), show(&b[5])),
                    );
                }
                continue;
            }
            if r.oom > 0 && r.tag != "ok" {
                continue;
            }
            let want = wants[ti][i].as_ref().unwrap();
            match want {
                Want::Meta(m) => {
                    if r.tag != "ok" {
                        return bad("load failed without cause", format!("{}: {}; stderr {}", describe(plan, o), r.tag, show(&b[4])));
                    }
                    if b[5] != m.as_bytes() {
                        return bad("loaded metadata is wrong", format!("{}: got {}; the files mean {}", describe(plan, o), show(&b[5]), show(m.as_bytes())));
                    }
                }
                Want::Panic => {
                    if r.tag == "ok" {
                        return bad("load accepted what it must refuse", format!("{}: bytes {} / {}; got {}", describe(plan, o), show(&contents(plan, o, 0)), show(&contents(plan, o, 1)), show(&b[5])));
                    }
                    if r.tag != "panic" {
                        return bad("unexpected outcome", r.tag.clone());
                    }
                    if report && !multi {
                        refusal(plan, o, &b[4], base)?;
                    }
                }
            }
        }
    }
    Ok(())
}

/// A load that refuses a text writes the error of that text to stderr.
fn refusal(plan: &Plan, o: &Op, err: &[u8], base: &mut Base) -> Result<(), Verdict> {
    let (a, b) = (contents(plan, o, 0), contents(plan, o, 1));
    if std::str::from_utf8(&a).is_err() || std::str::from_utf8(&b).is_err() {
        return Ok(());
    }
    let mut p = Plan::new("x", 0);
    let ta = p.text(&a);
    let tb = p.text(&b);
    let syn = Op::abcd(K::Syntax, ta, 0, 1, 0);
    let s = base.get(&p, &[], &syn);
    let want = if s.tag == "ok" {
        let parse = Op::abcd(K::Parse, -1, tb, 0, 1);
        base.get(&p, &[syn], &parse)
    } else {
        s
    };
    if !want.ok {
        return Err(Verdict::Discard);
    }
    if want.tag != "err" {
        return bad("load refused what the calls accept", format!("{}: {}", describe(plan, o), want.tag));
    }
    if err != want.body {
        return bad(
            "parse error not written to standard error",
            format!("{}: stderr {}; expected {}", describe(plan, o), show(err), show(&want.body)),
        );
    }
    Ok(())
}

// ------------------------------------------------------------ resources

fn c11(plan: &Plan, out: &RunOut, base: &mut Base) -> Result<(), Verdict> {
    if out.status != sched::ST_OK && !plan.threads.is_empty() {
        // a parse that has no end even alone (empty repeats) is another matter
        let last = out.recs.iter().filter(|r| r.thread == 0).map(|r| r.op as usize + 1).max().unwrap_or(0);
        let mut slots: Vec<Option<Vec<Op>>> = vec![None; exec::SLOTS];
        for (i, o) in plan.threads[0].iter().enumerate() {
            if i == last && matches!(o.k, K::Parse | K::Syntax | K::Convert | K::Load) {
                if let Some((recipe, _)) = need(plan, o, &slots) {
                    let mut o = o.clone();
                    o.faults.clear();
                    if !base.get(plan, &recipe, &o).ok {
                        return Err(Verdict::Discard);
                    }
                }
            }
            let made = out.rec(0, i).map_or(false, |r| r.tag == "ok");
            advance(&mut slots, o, made);
        }
    }
    ended(out)?;
    for r in &out.recs {
        if r.thread != 110 {
            continue;
        }
        let v: Vec<i64> = r.body.chunks(8).map(|c| i64::from_le_bytes(c.try_into().unwrap())).collect();
        let n = v.len() / 3;
        if n < 16 {
            continue;
        }
        let at = |k: usize, f: usize| v[k * 3 + f];
        let ks = [n / 8, n / 4, n / 2, n - 1];
        for (f, name) in [(0, "bytes of memory"), (1, "memory blocks"), (2, "open descriptors")] {
            let x: Vec<i64> = ks.iter().map(|&k| at(k, f)).collect();
            if x[0] < x[1] && x[1] < x[2] && x[2] < x[3] {
                return bad(
                    "resources grow",
                    format!("{} held after round {}: {}, {}: {}, {}: {}, {}: {} (thread {})", name, ks[0], x[0], ks[1], x[1], ks[2], x[2], ks[3], x[3], r.op),
                );
            }
        }
    }
    let _ = plan;
    Ok(())
}

fn c12(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    ended(out)?;
    unchanged_inputs(plan, out)?;
    for (ti, t) in plan.threads.iter().enumerate() {
        for (i, o) in t.iter().enumerate() {
            let r = only(out, ti, i)?;
            if o.k != K::Search || r.oom > 0 {
                continue;
            }
            let all: Vec<ME> = model::meta_from_text(plan.str(o.a));
            let c = Cursor { all: &all, texts: &plan.texts, sub: &o.sub };
            let mut log = String::new();
            let mut pos = 0;
            let ret = c.run(0, None, &mut pos, &mut log);
            let tag = match ret {
                exec::Ret::Panic(x) => format!("simpanic {}", x),
                _ => "ok".into(),
            };
            if r.tag != tag || r.body != log.as_bytes() {
                return bad(
                    "search differs from a cursor",
                    format!("over {}: got {} {}; expected {} {}", show(plan.str(o.a).as_bytes()), r.tag, show(&r.body), tag, show(log.as_bytes())),
                );
            }
        }
    }
    Ok(())
}

fn c13(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    ended(out)?;
    unchanged_inputs(plan, out)?;
    for (ti, t) in plan.threads.iter().enumerate() {
        let stalled = plan.stalls.iter().any(|s| s.0 == ti);
        for (i, o) in t.iter().enumerate() {
            if stalled && out.rec(ti, i).is_none() {
                break;
            }
            let r = only(out, ti, i)?;
            if o.k != K::Walk {
                continue;
            }
            let all: Vec<ME> = model::meta_from_text(plan.str(o.a));
            let mut want = String::new();
            for (s, l) in o.sub.iter().zip(model::walk(&all, &o.sub, &|i| plan.str(i).to_string())) {
                if s[0] == 98 {
                    continue;
                }
                want.push_str(&l.unwrap_or_default());
                want.push('\n');
            }
            if r.tag != "ok" || r.body != want.as_bytes() {
                return bad(
                    "conversion differs from a cursor",
                    format!("over {}: got {} {}; expected {}", show(plan.str(o.a).as_bytes()), r.tag, show(&r.body), show(want.as_bytes())),
                );
            }
        }
    }
    Ok(())
}

/// No call damages what it was lent, and none gives another result when it
/// is made again.
fn steady(plan: &Plan, out: &RunOut, base: &mut Base) -> Result<(), Verdict> {
    for r in &out.recs {
        let (ti, i) = (r.thread as usize, r.op as usize);
        if r.op >= exec::NEST_OP && ti < plan.threads.len() {
            let o = &plan.nested[i - exec::NEST_OP as usize];
            let b = base.get(plan, &[], o);
            if b.ok && (r.tag != b.tag || r.body != b.body) {
                return bad(
                    "differs from the same call alone",
                    format!(
                        "thread {}, call made by a writer or callback ({}): here {} {}; alone {} {}",
                        ti, describe(plan, o), r.tag, show(&r.body), b.tag, show(&b.body)
                    ),
                );
            }
            continue;
        }
        let o = match plan.threads.get(ti).and_then(|t| t.get(i)) {
            Some(o) => o,
            None => continue,
        };
        if r.tag == "damaged" {
            return bad("caller's data damaged", format!("thread {} operation {} ({}): {}", ti, i, describe(plan, o), show(&r.body)));
        }
        if r.rep > 0 && o.oom == 0 {
            let f = out.rec(ti, i).unwrap();
            return bad(
                "result changed when repeated",
                format!(
                    "thread {} operation {} ({}): first {} {}; repetition {}: {} {}",
                    ti, i, describe(plan, o), f.tag, show(&f.body), r.rep, r.tag, show(&r.body)
                ),
            );
        }
    }
    Ok(())
}

/// The same run on other machines, at other times.
fn c14(plan: &Plan, out: &RunOut, base: &mut Base) -> Result<(), Verdict> {
    let multi = plan.threads.len() > 1;
    for k in 0..3 {
        let mut q = plan.clone();
        q.env = match k {
            0 => 0,
            k => 1 + crate::rng::mix(plan.env, k) % 100_000,
        };
        base.runs += 1;
        let other = run(&q);
        if out.status != sched::ST_OK || other.status != sched::ST_OK {
            let (a, b) = (out.status_text(), other.status_text());
            if a == b {
                return Err(Verdict::Discard);
            }
            return bad("ends differently elsewhere", format!("environment {}: {}; environment {}: {}", plan.env, a, q.env, b));
        }
        unchanged_inputs(plan, &other)?;
        for (ti, t) in plan.threads.iter().enumerate() {
            for (i, o) in t.iter().enumerate() {
                let (a, b) = (only(out, ti, i)?, only(&other, ti, i)?);
                let (x, y) = (essence(o.k, &a.body, multi), essence(o.k, &b.body, multi));
                if a.tag != b.tag || x != y {
                    return bad(
                        "differs in another environment",
                        format!(
                            "thread {} operation {} ({}): environment {} gives {} {}; environment {} gives {} {}",
                            ti, i, describe(plan, o), plan.env, a.tag, show(&x), q.env, b.tag, show(&y)
                        ),
                    );
                }
            }
        }
        if !multi {
            for fd in 0..2 {
                let got = |o: &RunOut| {
                    let r = o.recs.iter().find(|r| r.thread == 100 + fd)?;
                    let n = u32::from_le_bytes(r.body[..4].try_into().ok()?) as usize;
                    Some(r.body[4 + 5 * n..].to_vec())
                };
                if got(out) != got(&other) {
                    return bad(
                        "differs in another environment",
                        format!(
                            "descriptor {}: environment {} gets {}; environment {} gets {}",
                            fd + 1, plan.env, show(&got(out).unwrap_or_default()), q.env, show(&got(&other).unwrap_or_default())
                        ),
                    );
                }
            }
        }
    }
    Ok(())
}

/// What a call did besides returning.
fn c15(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    if out.signal != 0 && ![9, 11, 14, 24].contains(&out.signal) {
        // exhausted time, memory and stacks are for other properties
        ended(out)?;
    }
    for r in &out.recs {
        if r.thread < 300 {
            continue;
        }
        let (ti, i) = (r.thread as usize - 300, r.op as usize);
        let what = match plan.threads.get(ti).and_then(|t| t.get(i)) {
            Some(o) if r.tag == "effects" => format!("thread {} operation {} ({})", ti, i, describe(plan, o)),
            _ => "the run".into(),
        };
        return bad("effect beyond the result", format!("{}: {}", what, show(&r.body)));
    }
    Ok(())
}

/// A call that ran out of memory gives what it gives anyhow, or nothing.
fn c16(plan: &Plan, out: &RunOut, base: &mut Base) -> Result<(), Verdict> {
    same_as_alone(plan, out, base, false)?;
    let mut slots: Vec<Option<Vec<Op>>> = vec![None; exec::SLOTS];
    for (i, o) in plan.threads[0].iter().enumerate() {
        let r = only(out, 0, i)?;
        let made = r.tag == "ok";
        let recipe = need(plan, o, &slots);
        advance(&mut slots, o, made);
        let recipe = match recipe {
            Some((x, _)) if r.oom > 0 => x,
            _ => continue,
        };
        let b = base.get(plan, &recipe, o);
        let nothing = r.tag == "simoom";
        let fine = match o.k {
            K::Report if o.b < 0 && nothing => true,
            K::Json | K::JsonStr | K::Report => {
                let (x, y) = (split_sinks(&r.body), split_sinks(&b.body));
                r.tag == b.tag
                    && x.len() == y.len()
                    && x.iter().zip(&y).all(|(x, y)| x == y || x.0 == "simoom" && y.1.starts_with(&x.1))
            }
            K::Search => {
                let cut = |b: &[u8]| -> Vec<Vec<u8>> { b.split(|&c| c == b'\n').map(|l| l.to_vec()).collect() };
                let (mut x, mut y) = (cut(&r.body), cut(&b.body));
                x.pop();
                y.pop();
                let n = x.iter().zip(&y).take_while(|(x, y)| x == y).count();
                if n == x.len() {
                    nothing || r.tag == b.tag && n == y.len()
                } else {
                    // a search that was abandoned, and what came after it
                    let rest = x.len() - n - 1;
                    let lost = String::from_utf8_lossy(&x[n]).into_owned();
                    lost.starts_with("for ran ")
                        && lost.contains(" panic @")
                        && r.tag == b.tag
                        && rest + n < y.len()
                        && x[n + 1..] == y[y.len() - rest..]
                }
            }
            K::Walk => (nothing && b.body.starts_with(&r.body)) || (r.tag == b.tag && r.body == b.body),
            K::Load => nothing || r.tag == "panic" || r.tag == b.tag && essence(o.k, &r.body, true) == essence(o.k, &b.body, true),
            _ => nothing || r.tag == b.tag && r.body == b.body,
        };
        if !fine {
            return bad(
                "wrong result for want of memory",
                format!(
                    "operation {} ({}), {} allocations failed: {} {}; with enough memory {} {}",
                    i, describe(plan, o), r.oom, r.tag, show(&r.body), b.tag, show(&b.body)
                ),
            );
        }
    }
    Ok(())
}

/// Whether an error names one of the things that are wrong with a text.
fn explains(faults: &[model::Fault], g: &Gram, text: &str, full: bool, body: &[u8]) -> Result<(), String> {
    let said = String::from_utf8_lossy(body).into_owned();
    let digits = |s: &str| -> String { s.chars().take_while(|c| c.is_ascii_digit()).collect() };
    let id = if full {
        digits(said.strip_prefix("Error #").unwrap_or(""))
    } else {
        let t: String = said.strip_suffix(')').unwrap_or("").chars().rev().collect();
        digits(&t).chars().rev().collect()
    };
    // a rule has a thousand ids, or more if it has more parts
    let room = |f: &model::Fault| f.rule.and_then(|r| g.rules.get(r)).map_or(0, |r| r.parts().max(999));
    let mut near = None;
    for f in faults {
        let (got, want) = if full {
            let m = f.message(&id);
            let want = model::report(text, f.off, f.len, &m, f.is_tag(), false);
            match said.split_once('\n') {
                // words that are not specified
                Some((a, b)) if f.open_ended() && a.starts_with(&format!("Error {}", m)) => {
                    (b.to_string(), want.split_once('\n').unwrap().1.to_string())
                }
                _ => (said.clone(), want),
            }
        } else {
            let want = format!("{},{} {}", f.off, f.len, f.value(&id));
            if f.open_ended() && said.starts_with(&want) {
                (want.clone(), want)
            } else {
                (said.clone(), want)
            }
        };
        if got != want {
            continue;
        }
        match (f.rule.and_then(|r| g.ids.get(r).copied().flatten()), id.parse::<u64>()) {
            (Some(n), Ok(id)) if !f.open_ended() && !(n * 1000..=n * 1000 + room(f)).contains(&id) => {
                near = Some(format!("the rule numbered {} is at fault", n));
            }
            _ => return Ok(()),
        }
    }
    Err(near.unwrap_or_else(|| {
        let all: Vec<String> = faults
            .iter()
            .map(|f| {
                let n = f.rule.and_then(|r| g.ids.get(r).copied().flatten());
                let at = format!("{},{}", f.off, f.len);
                match n {
                    Some(n) => format!("{} {} (rule {})", at, f.value("id"), n),
                    None => format!("{} {}", at, f.value("id")),
                }
            })
            .collect();
        format!("wrong with it is: {}", all.join(" | "))
    }))
}

/// Why a text is refused is said with the refusal.
fn c17(plan: &Plan, out: &RunOut) -> Result<(), Verdict> {
    for o in plan.threads.iter().flatten().filter(|o| o.k == K::Load) {
        load_means(&contents(plan, o, 0), &contents(plan, o, 1))?;
    }
    if out.status != sched::ST_OK {
        meanings(plan)?;
    }
    ended(out)?;
    // the rules that are built in carry numbers of their own
    let meta = model::self_syntax();
    let own = Gram { ids: vec![None; meta.rules.len()], ..meta };
    let multi = plan.threads.len() > 1;
    let mut shared = vec![];
    for &t in &plan.shared {
        shared.push(gram(plan, t as i64)?);
    }
    let wrong = |o: &Op, body: &[u8], why: String| {
        bad("wrong reason", format!("{}: reported {}; {}", describe(plan, o), show(body), why))
    };
    for (ti, t) in plan.threads.iter().enumerate() {
        let mut slots: Vec<Option<Gram>> = vec![None; exec::SLOTS];
        for (i, o) in t.iter().enumerate() {
            let r = match out.rec(ti, i) {
                Some(r) => r,
                None => break,
            };
            let b = o.b as usize;
            match o.k {
                K::Syntax => {
                    let g = gram(plan, o.a)?;
                    if r.tag == "err" && g.is_none() {
                        let s = plan.str(o.a);
                        let f = model::grammar_why(s);
                        if let Err(why) = explains(&f, &own, s, o.c == 1, &r.body) {
                            return wrong(o, &r.body, why);
                        }
                    }
                    slots[b] = if r.tag == "ok" { g } else { None };
                }
                K::Rules => slots[b] = if r.tag == "ok" { Some(own.clone()) } else { None },
                K::Optimize if r.tag != "ok" => slots[b] = None,
                K::CloneSlot => {
                    if r.tag != "skip" {
                        slots[o.c as usize] = if r.tag == "ok" { slots[b].clone() } else { slots[o.c as usize].take() };
                    }
                }
                K::Rebuild => {
                    if r.tag != "ok" {
                        slots[b] = None;
                    } else if let Some(g) = &mut slots[b] {
                        g.start_with(o.c);
                    }
                }
                K::DropSlot => slots[b] = None,
                K::Parse if r.tag == "err" => {
                    let g = if o.a >= 0 { &shared[o.a as usize] } else { &slots[(-1 - o.a) as usize] };
                    let (g, s) = match g {
                        Some(g) if !crate::gen::odd_space(plan.str(o.b)) => (g, plan.str(o.b)),
                        _ => continue,
                    };
                    if let (Res::Fail, f) = model::parse_why(g, s, ind_of(o), model::FUEL) {
                        if let Err(why) = explains(&f, g, s, o.d == 1 || o.d == 3, &r.body) {
                            return wrong(o, &r.body, why);
                        }
                    }
                }
                K::Load if r.tag == "panic" && r.oom == 0 && !multi && !r.fired.iter().any(is_hard) => {
                    let (x, y) = (contents(plan, o, 0), contents(plan, o, 1));
                    let x = match std::str::from_utf8(&x) {
                        Ok(x) if !crate::gen::odd_space(x) => x,
                        _ => continue,
                    };
                    let said = unpack(&r.body)[4].clone();
                    let res = match model::grammar(x) {
                        Res::Fail => explains(&model::grammar_why(x), &own, x, true, &said),
                        Res::Ok(g) if !g.left_recursive() => match std::str::from_utf8(&y) {
                            Ok(y) if !crate::gen::odd_space(y) => match model::parse_why(&g, y, IND, model::FUEL) {
                                (Res::Fail, f) => explains(&f, &g, y, true, &said),
                                _ => continue,
                            },
                            _ => continue,
                        },
                        _ => continue,
                    };
                    if let Err(why) = res {
                        return wrong(o, &said, why);
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn judge(plan: &Plan, out: &RunOut, base: &mut Base) -> Verdict {
    if plan.nested.iter().any(|o| !base.get(plan, &[], o).ok) {
        // a call that has no outcome even alone
        return Verdict::Discard;
    }
    if out.status != sched::ST_OK
        && plan.threads.iter().flatten().any(|o| o.k == K::Convert && !base.get(plan, &[], o).ok)
    {
        return Verdict::Discard;
    }
    if matches!(out.status, sched::ST_STEPS) && plan.threads.iter().flatten().any(|o| o.rep > 1) {
        let mut n = 0;
        for o in plan.threads.iter().flatten() {
            n += base.get(plan, &[], o).steps * o.rep as u64;
        }
        if n > plan.limit / 4 {
            return Verdict::Discard;
        }
    }
    if let Err(v) = steady(plan, out, base) {
        return v;
    }
    let r = match plan.prop.as_str() {
        "C01" | "C02" | "C04" => same_as_alone(plan, out, base, false),
        "C03" => same_as_alone(plan, out, base, true),
        "C05" => c05(plan, out),
        "C06" => c06(plan, out),
        "C07" => c07(plan, out),
        "C08" => c08(plan, out),
        "C09" => loads(plan, out, base, false),
        "C10" => loads(plan, out, base, true),
        "C11" => c11(plan, out, base),
        "C12" => c12(plan, out),
        "C13" => c13(plan, out),
        "C14" => c14(plan, out, base),
        "C15" => c15(plan, out),
        "C16" => c16(plan, out, base),
        "C17" => c17(plan, out),
        _ => Err(Verdict::Discard),
    };
    match r {
        Ok(()) => Verdict::Ok,
        Err(v) => v,
    }
}
