//! Generation of plans: for each property, the runs that could break it.

use crate::exec::{self, SLOTS};
use crate::gen;
use crate::model::{self, Gram, Res, IND, ME, MK};
use crate::plan::{Fault, Op, Plan, FK, K};
use crate::rng::Rng;

/// What the generator knows while it builds one thread.
struct Sess<'p> {
    p: &'p mut Plan,
    shared: Vec<Gram>,
    slots: Vec<Option<Gram>>,
    size: i32,
    cap: usize,
    /// How deeply most documents are nested, if they are.
    deep: u32,
    /// Documents and grammars used before.
    docs: Vec<String>,
    gramms: Vec<String>,
    /// The metadata searched last.
    last: Vec<ME>,
}

impl<'p> Sess<'p> {
    fn new(p: &'p mut Plan, shared: &[Gram], size: i32, cap: usize) -> Sess<'p> {
        Sess { p, shared: shared.to_vec(), slots: vec![None; SLOTS], size, cap, deep: 0, docs: vec![], gramms: vec![], last: vec![] }
    }
    fn t(&mut self, s: &str) -> i64 {
        self.p.text(s.as_bytes())
    }
    fn syntax(&mut self, r: &mut Rng, good: bool) -> Op {
        let t = if good { gen::grammar(r, self.size).0 } else { gen::any_grammar_text(r, self.size) };
        let mut t = t;
        if !self.gramms.is_empty() && r.chance(1, 6) {
            let x = r.pick(&self.gramms).clone();
            let x = gen::twin(r, &x);
            if gen::readable(&x) {
                t = x;
            }
        }
        self.gramms.push(t.clone());
        let b = r.below(SLOTS);
        self.slots[b] = match model::grammar(&t) {
            Res::Ok(g) => Some(g),
            _ => None,
        };
        Op::abcd(K::Syntax, self.t(&t), b as i64, r.chance(1, 4) as i64, 0)
    }
    fn parse_with(&mut self, r: &mut Rng, g: &Gram, a: i64, good: bool) -> Op {
        let d = [0, 0, 0, 1, 2, 2, 3][r.below(7)];
        let ind = if d >= 2 { gen::indent(r) } else { IND };
        let doc = if self.deep > 0 && r.chance(2, 3) {
            gen::deep_document(r, g, self.deep, ind)
        } else if good {
            gen::good_document(r, g, self.cap, ind)
        } else {
            gen::document(r, g, self.cap, ind)
        };
        let mut doc = doc;
        if !self.docs.is_empty() && r.chance(1, 8) {
            // nearly the same as an earlier one
            let t = r.pick(&self.docs).clone();
            let t = gen::twin(r, &t);
            if !gen::odd_space(&t) && model::parse(g, &t, ind) != Res::Discard {
                doc = t;
            }
        }
        self.docs.push(doc.clone());
        let mut o = Op::abcd(K::Parse, a, self.t(&doc), r.below(2) as i64, d);
        if d >= 2 {
            o.sub.push([ind.indent as i64, ind.align as i64, ind.tab as i64, 0]);
        }
        o
    }
    fn parse_shared(&mut self, r: &mut Rng) -> Op {
        let i = r.below(self.shared.len());
        let g = self.shared[i].clone();
        let good = r.chance(1, 2);
        self.parse_with(r, &g, i as i64, good)
    }
    fn parse_slot(&mut self, r: &mut Rng) -> Option<Op> {
        let v: Vec<usize> = (0..SLOTS).filter(|&i| self.slots[i].is_some()).collect();
        if v.is_empty() {
            return None;
        }
        let s = *r.pick(&v);
        let g = self.slots[s].clone().unwrap();
        let good = r.chance(1, 2);
        Some(self.parse_with(r, &g, -1 - s as i64, good))
    }
    fn json(&mut self, r: &mut Rng, n: usize, big: usize) -> (Op, usize) {
        let k = if r.chance(1, 30) { r.log(n as u64 * 20) as usize } else { r.below(n + 1) };
        let m = gen::meta(r, k, big);
        let len = model::json(&m).len();
        let d = r.chance(1, 2) as i64;
        (Op::abcd(K::Json, self.t(&model::meta_text(&m)), 0, 0, d), len)
    }
    fn json_str(&mut self, r: &mut Rng, big: usize) -> (Op, usize) {
        let n = r.log(big as u64) as usize;
        let mut s = gen::chars(r, n, "");
        for c in ['\n', '\t', '\r', '\u{0}', '\u{8}', '"', '\\', '/'] {
            if r.chance(1, 4) {
                s.push(c);
                let n = r.below(4);
                s.push_str(&gen::chars(r, n, ""));
            }
        }
        let mut o = String::new();
        model::json_string(&mut o, &s);
        (Op::abcd(K::JsonStr, self.t(&s), 0, 0, 0), o.len())
    }
    /// A place in a text and an error about it.
    fn error(&mut self, r: &mut Rng, text: &str) -> [i64; 4] {
        let at = |r: &mut Rng, max: usize| {
            let mut i = r.below(max + 1);
            while !text.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        let off = if r.chance(1, 12) { text.len() } else { at(r, text.len()) };
        let len = if r.chance(1, 2) {
            0
        } else {
            let e = at(r, text.len());
            if e > off {
                e - off
            } else {
                r.below(3)
            }
        };
        let kind = r.below(model::ERR_KINDS as usize) as i64;
        let id = r.log(5000) as i64;
        let msg = match r.below(7) {
            6 => message(r),
            k => ["tok", "é日", "", "a \"q\" \n b", "something went wrong", "]"][k].to_string(),
        };
        [off as i64, len as i64, kind + id * 100, self.t(&msg)]
    }
    fn report(&mut self, r: &mut Rng, big: usize) -> (Op, Vec<usize>) {
        let text = source(r, big);
        let mut o = Op::abcd(K::Report, self.t(&text), -1, 0, 0);
        let mut lens = vec![];
        for _ in 0..r.range(1, 4) {
            let e = self.error(r, &text);
            o.sub.push(e);
            let (kind, id) = (e[2] % 100, e[2] / 100);
            let msg = self.p.str(e[3]).to_string();
            let (m, tag) = if kind == 20 { (msg, false) } else { model::err_text(kind, id, &msg) };
            lens.push(model::report(&text, e[0] as usize, e[1] as usize, &m, tag, kind == 20).len());
        }
        (o, lens)
    }
    fn search(&mut self, r: &mut Rng, faulty: bool) -> Op {
        let n = if r.chance(1, 20) { r.log(300) as usize } else { r.below(12) };
        let m = if r.chance(1, 2) { gen::vary(r, &self.last) } else { gen::meta(r, n, 0) };
        self.last = m.clone();
        self.search_in(r, &m, faulty)
    }
    fn search_in(&mut self, r: &mut Rng, m: &[ME], faulty: bool) -> Op {
        let a = self.t(&model::meta_text(m));
        let p = &mut *self.p;
        let sub = gen::script(r, m, &mut |s| p.text(s.as_bytes()), faulty);
        let mut o = Op::abcd(K::Search, a, 0, 0, r.chance(1, 3) as i64);
        o.sub = sub;
        o
    }
    fn walk_in(&mut self, r: &mut Rng, m: &[ME]) -> Op {
        let a = self.t(&model::meta_text(m));
        let n = if r.chance(1, 10) { r.range(30, 120) } else { r.range(1, 20) };
        let p = &mut *self.p;
        let sub = gen::walk(r, m, &mut |s| p.text(s.as_bytes()), n);
        let mut o = Op::abcd(K::Walk, a, 0, 0, r.chance(1, 3) as i64);
        o.sub = sub;
        o
    }
    fn walk(&mut self, r: &mut Rng) -> Op {
        let m = if r.chance(1, 2) && !self.last.is_empty() { gen::vary(r, &self.last) } else { walkable(r) };
        self.last = m.clone();
        self.walk_in(r, &m)
    }
    fn load(&mut self, r: &mut Rng) -> Op {
        let (t, g) = gen::grammar(r, self.size);
        let d = gen::document(r, &g, self.cap, IND);
        let t = if r.chance(1, 8) { gen::any_grammar_text(r, self.size) } else { t };
        let t = if r.chance(1, 25) { padded(r, &t) } else { t };
        let t = if r.chance(1, 40) { format!("\u{feff}{}", t) } else { t };
        let d = if r.chance(1, 40) { format!("\u{feff}{}", d) } else { d };
        // the same path with other contents, or another path
        let path = if r.chance(2, 3) { 0 } else { r.below(1000) as i64 };
        Op::abcd(K::Load, self.t(&t), self.t(&d), 0, path)
    }
    fn unwrap(&mut self, r: &mut Rng) -> Op {
        let text = source(r, 60);
        let mut o = Op::abcd(K::Unwrap, self.t(&text), r.below(1000) as i64, 0, 0);
        if r.chance(1, 2) {
            let e = self.error(r, &text);
            o.sub.push(no_msg(e));
        }
        o
    }
    /// Any operation; w weighs: shared parse, slot parse, good syntax, any
    /// syntax, convert, optimize, clone, drop, json, json string, report,
    /// search, clear, send, drop mail, load, unwrap.
    fn any(&mut self, r: &mut Rng, w: &[u32; 17], faulty: bool) -> Op {
        loop {
            let mut o = match r.weighted(w) {
                0 => {
                    if self.shared.is_empty() {
                        continue;
                    }
                    self.parse_shared(r)
                }
                1 => match self.parse_slot(r) {
                    Some(o) => o,
                    None => continue,
                },
                2 => self.syntax(r, true),
                3 if r.chance(1, 10) => {
                    let b = r.below(SLOTS);
                    self.slots[b] = match model::grammar(model::SELF) {
                        Res::Ok(g) => Some(g),
                        _ => None,
                    };
                    Op::abcd(K::Rules, 0, b as i64, 0, 0)
                }
                3 => self.syntax(r, false),
                4 => {
                    let m = gen::convert_meta(r, self.size);
                    let b = r.below(SLOTS);
                    self.slots[b] = None;
                    let d = r.chance(1, 2) as i64;
                    Op::abcd(K::Convert, self.t(&model::meta_text(&m)), b as i64, 0, d)
                }
                5 if r.chance(1, 3) => {
                    let (b, c) = (r.below(SLOTS), if r.chance(1, 2) { r.below(5) as i64 } else { 0 });
                    if let Some(g) = &mut self.slots[b] {
                        g.start_with(c);
                    }
                    Op::abcd(K::Rebuild, 0, b as i64, c, 0)
                }
                5 => Op::abcd(K::Optimize, 0, r.below(SLOTS) as i64, 0, 0),
                6 => {
                    let (b, c) = (r.below(SLOTS), r.below(SLOTS));
                    if self.slots[b].is_none() {
                        continue;
                    }
                    self.slots[c] = self.slots[b].clone();
                    Op::abcd(K::CloneSlot, 0, b as i64, c as i64, 0)
                }
                7 => {
                    let b = r.below(SLOTS);
                    self.slots[b] = None;
                    Op::abcd(K::DropSlot, 0, b as i64, 0, 0)
                }
                8 => {
                    let (mut o, len) = self.json(r, 10, 30);
                    if faulty {
                        o.faults = stream_faults(r, len, true);
                        o.max = small_max(r);
                    }
                    o
                }
                9 => {
                    let (mut o, len) = self.json_str(r, 40);
                    if faulty {
                        o.faults = stream_faults(r, len, true);
                    }
                    o
                }
                10 => {
                    let (mut o, lens) = self.report(r, 200);
                    if faulty {
                        report_faults(r, &mut o, &lens, true);
                    }
                    o
                }
                11 if r.chance(1, 4) => self.walk(r),
                11 => self.search(r, faulty),
                12 => Op::abcd(K::Clear, 0, 0, r.below(2) as i64, 0),
                13 => Op::abcd(K::Send, 0, 0, r.below(2) as i64, 0),
                14 => Op::new(K::DropMail),
                15 => {
                    let mut o = self.load(r);
                    if faulty && r.chance(1, 2) {
                        o.faults = load_faults(self.p, r, &o, true);
                    }
                    o
                }
                _ => self.unwrap(r),
            };
            if faulty
                && r.chance(1, 4)
                && matches!(
                    o.k,
                    K::Parse | K::Syntax | K::Convert | K::Optimize | K::CloneSlot | K::Json | K::Report | K::Search | K::Load
                )
            {
                o.oom = oom(r, o.k);
                if o.k == K::Report {
                    o.b = r.below(o.sub.len()) as i64;
                }
            }
            return o;
        }
    }
}

/// Metadata as conversions meet it: of a grammar, balanced, or with nodes
/// that do not start or end.
fn walkable(r: &mut Rng) -> Vec<ME> {
    let mut m = match r.below(4) {
        0 => gen::convert_meta(r, 6),
        1 => {
            let k = r.log(300) as usize;
            gen::meta(r, k, 0)
        }
        _ => {
            let k = r.below(14);
            gen::meta(r, k, 0)
        }
    };
    if r.chance(1, 4) && !m.is_empty() {
        let at = r.below(m.len());
        m.remove(at);
    }
    m
}

/// `write_msg` has no ParseError form; errors only.
fn no_msg(mut e: [i64; 4]) -> [i64; 4] {
    if e[2] % 100 == 20 {
        e[2] -= 1;
    }
    e
}

fn oom(r: &mut Rng, k: K) -> u64 {
    let max = match k {
        K::Syntax | K::Load => 3000,
        K::Convert => 300,
        K::Parse => 60,
        _ => 30,
    };
    1 + if r.chance(1, 3) { r.below(max as usize) as u64 } else { r.log(max) }
}

/// A message of some length, perhaps of several lines.
fn message(r: &mut Rng) -> String {
    let n = r.log(1500) as usize;
    let mut s = String::new();
    while s.len() < n {
        let k = r.range(1, 40);
        s.push_str(&gen::chars(r, k, ""));
        s.push_str(["\n", " ", "\n\n", "\t", ""][r.below(5)]);
    }
    s
}

/// Temporary stalls: a thread gets no turns while the others run on and the
/// clock jumps.
fn pauses(r: &mut Rng, p: &mut Plan) {
    if p.threads.len() < 2 || r.chance(1, 2) {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let t = r.below(p.threads.len());
        let at = match r.below(4) {
            _ if p.fine >= 2 => r.range(1, 60) as u64,
            0 => r.range(1, 300) as u64,
            1 => 1 + r.log(100_000),
            _ => 1 + r.log(8000),
        };
        p.pauses.push((t, at, 1 + r.log(200_000), r.log(100_000_000_000)));
    }
}

/// Calls that writers and callbacks make, and when they make them.
fn nest(r: &mut Rng, p: &mut Plan, g: &[Gram]) {
    let mut v = vec![];
    for _ in 0..r.range(1, 2) {
        let mut s = Sess::new(p, g, 8, 60);
        let mut o = match r.below(8) {
            0 => s.json(r, 6, 20).0,
            1 => s.json_str(r, 20).0,
            2 => s.report(r, 100).0,
            3 | 4 => s.search(r, false),
            5 if !g.is_empty() => s.parse_shared(r),
            6 => {
                let m = gen::convert_meta(r, 6);
                Op::abcd(K::Convert, s.t(&model::meta_text(&m)), exec::NEST_SLOT, 0, 0)
            }
            _ => {
                let mut o = s.syntax(r, true);
                o.b = exec::NEST_SLOT;
                o
            }
        };
        if o.k == K::Parse {
            o.c = exec::NEST_BUF;
        }
        o.faults.clear();
        v.push(o);
    }
    let base = p.nested.len();
    let n = v.len();
    p.nested.extend(v);
    let pick = |r: &mut Rng| (base + r.below(n)) as i64;
    for t in 0..p.threads.len() {
        for i in 0..p.threads[t].len() {
            if !r.chance(1, 2) {
                continue;
            }
            let o = &mut p.threads[t][i];
            match o.k {
                K::Json | K::JsonStr | K::Report => {
                    let at = if r.chance(1, 3) { 0 } else { r.log(200) };
                    let mut f = Fault::new(FK::Nest, at, pick(r));
                    if o.k == K::Report {
                        f.which = r.below(o.sub.len()) as u8;
                    }
                    o.faults.push(f);
                }
                K::Search | K::Walk => {
                    let at = r.below(o.sub.len() + 1);
                    o.sub.insert(at, [98, pick(r), 0, 0]);
                }
                _ => {}
            }
        }
    }
}

/// Grammars whose documents are indented.
fn indented(p: &mut Plan, r: &mut Rng) -> Vec<Gram> {
    let t = gen::FIXED[if r.chance(1, 2) { 4 } else { 11 }];
    let i = p.text(t.as_bytes()) as usize;
    p.shared.push(i);
    match model::grammar(t) {
        Res::Ok(g) => vec![g],
        _ => vec![],
    }
}

/// Grammars whose documents are nested.
fn nested_grammars(p: &mut Plan, r: &mut Rng) -> Vec<Gram> {
    let t = gen::FIXED[[3, 5, 10, 12, 13][r.below(5)]];
    let i = p.text(t.as_bytes()) as usize;
    p.shared.push(i);
    match model::grammar(t) {
        Res::Ok(g) => vec![g],
        _ => vec![],
    }
}

fn source(r: &mut Rng, big: usize) -> String {
    let mut s = String::new();
    if r.chance(1, 30) {
        // many lines
        for _ in 0..r.log(400) {
            let n = r.log(20) as usize;
            s.push_str(&gen::chars(r, n, ""));
            s.push('\n');
        }
    }
    for i in 0..r.range(1, 6) {
        if i > 0 {
            if r.chance(1, 16) {
                s.push('\r');
            }
            s.push('\n');
            if r.chance(1, 6) {
                s.push('\n');
            }
        }
        if r.chance(1, 5) {
            s.push_str(["\t", "  ", " \t "][r.below(3)]);
        }
        let n = if r.chance(1, 6) { r.range(70, 260) } else { r.log(60) as usize };
        if r.chance(1, 3) {
            s.push_str(&gen::chars(r, n, ""));
        } else {
            for k in 0..n {
                s.push((b'a' + ((k * 7 + i) % 26) as u8) as char);
            }
        }
    }
    if big > 10_000 && r.chance(1, 20) {
        let n = r.log(big as u64) as usize;
        while s.len() < n {
            s.push_str("a long line of text, again and again ");
            if r.chance(1, 3) {
                s.push('\n');
            }
        }
    }
    if r.chance(1, 4) {
        s.push('\n');
    }
    s
}

/// How often something is interrupted in a row.
fn often(r: &mut Rng) -> i64 {
    if r.chance(1, 12) {
        1 + r.log(400) as i64
    } else {
        r.range(1, 4) as i64
    }
}

fn small_max(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 1,
        1 => r.range(1, 7) as u32,
        2 => r.range(1, 100) as u32,
        _ => 0,
    }
}

const ERRNOS: [i64; 7] = [5, 28, 32, 11, 104, 122, 27];

fn stream_faults(r: &mut Rng, len: usize, hard: bool) -> Vec<Fault> {
    let mut v = vec![];
    for _ in 0..r.below(4) {
        let at = r.below(len + 1) as u64;
        if r.chance(1, 2) {
            v.push(Fault::new(FK::Cut, at, 0));
        } else {
            v.push(Fault::new(FK::Intr, at, often(r)));
        }
    }
    if hard && r.chance(2, 3) {
        // ends of the output are where a failure is easiest to lose
        let at = match r.below(5) {
            0 => 0,
            1 => len.saturating_sub(1),
            2 => len.saturating_sub(r.range(1, 4)),
            _ => r.below(len + 1),
        } as u64;
        let val = if r.chance(1, 2) { *r.pick(&ERRNOS) } else { 1000 + r.below(5000) as i64 };
        let k = [FK::Err, FK::Err, FK::Err, FK::Zero, FK::Panic][r.below(5)];
        let mut f = Fault::new(k, at, val);
        f.sticky = r.chance(1, 2);
        v.push(f);
        if r.chance(1, 4) {
            // a second failure later, which must not be reached
            let mut f = Fault::new(FK::Err, at + r.below(4) as u64, 7000);
            f.sticky = true;
            v.push(f);
        }
    }
    v
}

fn report_faults(r: &mut Rng, o: &mut Op, lens: &[usize], hard: bool) {
    for (k, &n) in lens.iter().enumerate() {
        let h = hard && r.chance(1, 2);
        for mut f in stream_faults(r, n, h) {
            f.which = k as u8;
            o.faults.push(f);
        }
    }
    o.max = small_max(r);
}

fn load_faults(p: &mut Plan, r: &mut Rng, o: &Op, hard: bool) -> Vec<Fault> {
    let mut v = vec![];
    for which in 0..2u8 {
        let len = p.texts[if which == 0 { o.a } else { o.b } as usize].len();
        for _ in 0..r.below(4) {
            let at = r.below(len + 1) as u64;
            let mut f = match r.below(7) {
                0 => Fault::new(FK::OpenIntr, 0, 0),
                1 => Fault::new(FK::StatErr, 0, *r.pick(&ERRNOS)),
                2 => Fault::new(FK::StatSize, 0, {
                    let x = r.log(1 << 20) as i64;
                    [0, 1, x, len as i64 / 2, len as i64 + 1][r.below(5)]
                }),
                3 => Fault::new(FK::SeekErr, 0, 29),
                4 | 5 => Fault::new(FK::ReadCut, at, 0),
                _ => Fault::new(FK::ReadIntr, at, often(r)),
            };
            f.val2 = often(r);
            f.which = which;
            v.push(f);
        }
    }
    if hard && r.chance(1, 2) {
        let which = r.below(2) as u8;
        let len = p.texts[if which == 0 { o.a } else { o.b } as usize].len();
        let mut f = if r.chance(1, 3) {
            Fault::new(FK::OpenErr, 0, *r.pick(&[2i64, 13, 24, 5, 21, 40]))
        } else {
            let at = match r.below(4) {
                0 => 0,
                1 => len,
                _ => r.below(len + 1),
            };
            Fault::new(FK::ReadErr, at as u64, *r.pick(&[5i64, 116, 21, 11]))
        };
        f.which = which;
        f.sticky = r.chance(1, 2);
        v.push(f);
    }
    v
}

/// A schedule of preemptions; the styles range from switching at nearly every
/// step to a few switches at random depths.
fn schedule(r: &mut Rng, steps: u64) -> Vec<(u32, u32)> {
    let mut v = vec![];
    match r.below(6) {
        0 => {
            for _ in 0..r.range(20, 300) {
                v.push((r.below(8) as u32, r.range(1, 4) as u32));
            }
        }
        1 => {
            let m = 1 << r.range(2, 9);
            for _ in 0..r.range(20, 300) {
                v.push((r.below(8) as u32, r.range(1, m) as u32));
            }
        }
        2 => {
            for _ in 0..r.range(5, 200) {
                v.push((r.below(8) as u32, 1 + r.log(5000) as u32));
            }
        }
        3 => {
            // few preemptions, anywhere
            for _ in 0..r.range(1, 6) {
                v.push((r.below(8) as u32, 1 + r.below(steps as usize + 1) as u32));
            }
        }
        4 => {
            // one long lead, then close contention
            v.push((r.below(8) as u32, 1 + r.below(steps as usize + 1) as u32));
            for _ in 0..r.range(10, 200) {
                v.push((r.below(8) as u32, r.range(1, 30) as u32));
            }
        }
        _ => {
            // bursts
            for _ in 0..r.range(2, 12) {
                v.push((r.below(8) as u32, 1 + r.log(steps) as u32));
                for _ in 0..r.below(20) {
                    v.push((r.below(8) as u32, r.range(1, 10) as u32));
                }
            }
        }
    }
    v
}

/// What the schedule counts.
fn fineness(r: &mut Rng) -> u8 {
    [0, 0, 0, 1, 2, 2, 2, 3][r.below(8)]
}

fn shared(p: &mut Plan, r: &mut Rng, size: i32) -> Vec<Gram> {
    let mut v = vec![];
    for _ in 0..r.range(1, 2) {
        let (t, g) = gen::grammar(r, size);
        let i = p.text(t.as_bytes()) as usize;
        p.shared.push(i);
        v.push(g);
    }
    v
}

const MIX: [u32; 17] = [30, 10, 4, 3, 3, 2, 2, 2, 4, 2, 4, 4, 1, 2, 1, 2, 0];

fn c01(r: &mut Rng, p: &mut Plan) {
    let deep = r.chance(1, 10);
    let g = if deep { nested_grammars(p, r) } else { shared(p, r, 10) };
    p.fine = fineness(r);
    p.capture = true;
    let n = if r.chance(1, 20) { r.range(5, 8) } else { r.range(2, 4) };
    for _ in 0..n {
        let mut s = Sess::new(p, &g, 10, 60);
        s.deep = if deep { 600 } else { 0 };
        let k = r.range(1, 4);
        let mut ops = vec![];
        for _ in 0..k {
            let w = if deep { &[40, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0] } else { &MIX };
            ops.push(s.any(r, w, false));
        }
        p.threads.push(ops);
    }
    if r.chance(1, 6) {
        nest(r, p, &g);
    }
    pauses(r, p);
    if r.chance(1, 4) {
        // several threads doing the same thing
        let t = p.threads[0].clone();
        for x in p.threads.iter_mut().skip(1) {
            *x = t.clone();
        }
    }
    p.sched = schedule(r, if p.fine < 2 { 4000 } else { 60 });
}

fn c02(r: &mut Rng, p: &mut Plan) {
    p.warm = false;
    p.fine = fineness(r);
    p.capture = true;
    let n = r.range(2, 5);
    for _ in 0..n {
        let mut s = Sess::new(p, &[], 8, 40);
        let mut ops = vec![];
        match r.below(8) {
            0 => ops.push(s.load(r)),
            1 => {
                // someone who starts late
                ops.push(s.any(r, &[0, 0, 0, 0, 1, 0, 0, 0, 2, 1, 1, 1, 0, 0, 0, 0, 0], false));
                let good = r.chance(2, 3);
                ops.push(s.syntax(r, good));
            }
            _ => {
                let good = r.chance(2, 3);
                ops.push(s.syntax(r, good));
            }
        }
        for _ in 0..r.range(0, 2) {
            ops.push(s.any(r, &[0, 8, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0], false));
            if s_empty(&ops) {
                break;
            }
        }
        p.threads.push(ops);
    }
    pauses(r, p);
    p.sched = schedule(r, if p.fine < 2 { 60_000 } else { 60 });
}
fn s_empty(_: &[Op]) -> bool {
    false
}

fn c03(r: &mut Rng, p: &mut Plan) {
    let g = shared(p, r, 10);
    p.fine = fineness(r);
    p.capture = true;
    let n = r.range(2, 4);
    for _ in 0..n {
        let mut s = Sess::new(p, &g, 10, 60);
        let k = r.range(1, 4);
        let mut ops = vec![];
        // files and process streams are the operating system's, not memory
        let w = [25, 8, 5, 3, 4, 3, 3, 2, 5, 3, 5, 5, 1, 2, 1, 0, 0];
        for _ in 0..k {
            let mut o = s.any(r, &w, true);
            if r.chance(1, 8) && (o.oom > 0 || !o.faults.is_empty() || o.k == K::Search) {
                // abandoned again and again
                o.rep = match o.k {
                    K::Syntax | K::Convert | K::Load => 30,
                    K::Optimize | K::CloneSlot | K::DropSlot => 1,
                    _ => [2000, 300, 30][r.below(3)],
                };
            }
            ops.push(o);
        }
        p.threads.push(ops);
    }
    let k = r.range(0, n - 1);
    for t in 0..k {
        let at = match r.below(4) {
            _ if p.fine >= 2 => r.range(1, 60) as u64,
            0 => r.range(1, 300) as u64,
            1 => 1 + r.log(100_000),
            _ => r.range(1, 6000) as u64,
        };
        p.stalls.push((t, at));
    }
    if r.chance(1, 6) {
        nest(r, p, &g);
    }
    pauses(r, p);
    p.sched = schedule(r, if p.fine < 2 { 6000 } else { 60 });
}

fn c04(r: &mut Rng, p: &mut Plan, i: u64) {
    let g = match r.below(10) {
        0 => indented(p, r),
        1 => nested_grammars(p, r),
        _ => shared(p, r, 10),
    };
    p.capture = true;
    p.warm = r.chance(1, 2);
    if i % 10 == 9 {
        // a long history of small calls, then others
        let mut s = Sess::new(p, &g, 4, 20);
        let mut ops = vec![];
        for _ in 0..2 {
            ops.push(s.any(r, &[3, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0], false));
        }
        let most = i % 50 == 49;
        for _ in 0..r.range(1, if most { 1 } else { 3 }) {
            let faulty = r.chance(1, 2);
            let w = if most {
                [3, 0, 0, 1, 1, 0, 0, 0, 2, 2, 2, 2, 0, 0, 0, 0, 0]
            } else {
                [8, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 2, 0, 0, 0, 1, 0]
            };
            let mut o = s.any(r, &w, faulty);
            o.rep = match o.k {
                K::Syntax | K::Convert | K::Rules | K::Load => [300, 40][r.below(2)],
                _ if most => 70_000,
                _ => [5000, 1200, 300][r.below(3)],
            };
            ops.push(o);
        }
        let first = ops[0].clone();
        ops.push(first);
        for _ in 0..3 {
            ops.push(s.any(r, &MIX, false));
        }
        p.threads.push(ops);
        return;
    }
    if i % 40 == 28 {
        // many calls of the same kinds, no two on the same text
        let ops = distinct(r, p, &g);
        p.limit = 500_000_000;
        p.threads.push(ops);
        return;
    }
    let mut s = Sess::new(p, &g, 10, 60);
    let mut ops: Vec<Op> = vec![];
    let w = [20, 12, 5, 4, 4, 3, 3, 3, 4, 2, 4, 4, 1, 1, 1, 3, 2];
    for _ in 0..r.range(4, 24) {
        if !ops.is_empty() && r.chance(1, 5) {
            // the same call again, later
            let o = r.pick(&ops).clone();
            if matches!(o.k, K::Parse if o.a >= 0) || matches!(o.k, K::Json | K::JsonStr | K::Report | K::Search | K::Load) {
                ops.push(o);
                continue;
            }
        }
        let mut o = s.any(r, &w, true);
        if r.chance(1, 12) && o.oom == 0 && !matches!(o.k, K::DropSlot | K::CloneSlot | K::Optimize | K::Convert | K::Load | K::Syntax | K::Unwrap) {
            o.rep = r.range(2, 300) as u32;
        }
        ops.push(o);
    }
    p.threads.push(ops);
    if r.chance(1, 3) {
        nest(r, p, &g);
    }
}

/// Calls of a few kinds, each on a text of its own, and the first ones again.
fn distinct(r: &mut Rng, p: &mut Plan, g: &[Gram]) -> Vec<Op> {
    let n = 70 + r.log(230) as usize;
    let kinds: Vec<usize> = (0..r.range(1, 2)).map(|_| r.below(5)).collect();
    let mut s = Sess::new(p, g, 6, 30);
    let mut ops = vec![];
    for k in 0..n {
        let o = match *r.pick(&kinds) {
            0 => {
                let t = format!("{} a{} = [\"t{}\":\"p\" {{.$:\"n\" ..\" \"!:\"w{}\"}}]", k, k, k % 7, k);
                Op::abcd(K::Syntax, s.t(&t), (k % SLOTS) as i64, 0, 0)
            }
            1 => {
                let mut o = s.parse_shared(r);
                if r.chance(1, 2) {
                    let t = format!("{}{}", s.p.str(o.b), k);
                    o.b = s.t(&t);
                }
                o.c = r.below(2) as i64;
                o
            }
            2 => {
                let m = vec![ME { off: k, len: 1, k: MK::Str(format!("k{}", k), format!("v{}", k)) }];
                Op::abcd(K::Json, s.t(&model::meta_text(&m)), 0, 0, 0)
            }
            3 => {
                let t = format!("text {}\nline {}", k, k);
                let mut o = Op::abcd(K::Report, s.t(&t), -1, 0, 0);
                let e = s.error(r, &t);
                o.sub.push(e);
                o
            }
            _ => {
                let m = vec![
                    ME { off: k, len: 1, k: MK::Num(format!("k{}", k % 9), k as f64) },
                    ME { off: k, len: 1, k: MK::Start(format!("n{}", k)) },
                ];
                s.search_in(r, &m, false)
            }
        };
        ops.push(o);
        if matches!(ops[ops.len() - 1].k, K::Parse) && r.chance(1, 4) {
            ops.push(Op::abcd(K::Clear, 0, 0, r.below(2) as i64, 0));
        }
    }
    for k in 0..6.min(ops.len()) {
        let o = ops[k].clone();
        ops.push(o);
    }
    ops
}

fn c05(r: &mut Rng, p: &mut Plan, i: u64) {
    let big = i % 40 == 39;
    let (size, cap) = if big { (20, 600) } else { (14, 80) };
    let deep = i % 16 == 7;
    let g = if deep { nested_grammars(p, r) } else { shared(p, r, size) };
    let mut s = Sess::new(p, &g, size, cap);
    if deep {
        s.deep = 4000;
    }
    let mut ops = vec![];
    let faults = r.chance(2, 3);
    for _ in 0..r.range(2, 12) {
        let mut o = match r.below(16) {
            0 => {
                let n = r.below(8);
                let m = gen::meta(r, n, 0);
                Op::abcd(K::Fill, s.t(&model::meta_text(&m)), 0, r.below(2) as i64, 0)
            }
            1 => Op::abcd(K::Clear, 0, 0, r.below(2) as i64, 0),
            2 | 3 => {
                let good = r.chance(3, 4);
                s.syntax(r, good)
            }
            4 => s.any(r, &[0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], false),
            5..=9 => match s.parse_slot(r) {
                Some(o) => o,
                None => s.parse_shared(r),
            },
            _ => s.parse_shared(r),
        };
        if faults && o.k == K::Parse && r.chance(1, 3) {
            o.oom = oom(r, o.k);
        }
        if i % 10 == 3 && o.k == K::Parse && r.chance(1, 4) {
            o.rep = [5000, 300, 30][r.below(3)];
        }
        ops.push(o);
    }
    p.threads.push(ops);
}

fn c06(r: &mut Rng, p: &mut Plan, i: u64) {
    let big = if i % 60 == 59 { 100_000 } else if r.chance(1, 8) { 9000 } else { 40 };
    let mut s = Sess::new(p, &[], 4, 10);
    let mut ops = vec![];
    for _ in 0..r.range(1, 3) {
        let (mut o, len) = if r.chance(4, 5) {
            let n = if big > 10_000 { 400 } else { 14 };
            s.json(r, n, big)
        } else {
            s.json_str(r, big)
        };
        o.faults = stream_faults(r, len, true);
        o.max = small_max(r);
        if r.chance(1, 8) {
            o.oom = oom(r, o.k);
        }
        if big < 100 && r.chance(1, 40) {
            o.rep = [3000, 300, 30][r.below(3)];
        }
        ops.push(o);
    }
    p.threads.push(ops);
}

fn c07(r: &mut Rng, p: &mut Plan) {
    let mut s = Sess::new(p, &[], 4, 10);
    let mut ops = vec![];
    for _ in 0..r.range(1, 2) {
        let (mut o, lens) = s.report(r, 60_000);
        report_faults(r, &mut o, &lens, true);
        if r.chance(1, 8) {
            o.oom = oom(r, o.k);
            o.b = r.below(o.sub.len()) as i64;
        }
        if s.p.texts[o.a as usize].len() < 2000 && r.chance(1, 60) {
            o.rep = [3000, 300, 30][r.below(3)];
        }
        ops.push(o);
    }
    p.threads.push(ops);
}

fn c08(r: &mut Rng, p: &mut Plan) {
    p.capture = true;
    p.warm = false;
    let multi = r.chance(1, 3);
    let n = if multi { r.range(2, 3) } else { 1 };
    let mut lens = [0usize; 2];
    for _ in 0..n {
        let mut s = Sess::new(p, &[], 4, 10);
        let mut ops = vec![];
        for _ in 0..if multi { r.range(1, 2) } else { r.range(1, 6) } {
            let o = match r.below(6) {
                0 | 1 | 2 => {
                    let big = if !multi && r.chance(1, 10) { 5000 } else { 12 };
                    let (mut o, len) = s.json(r, if multi { 4 } else { 12 }, big);
                    o.k = K::Print;
                    lens[0] += len;
                    o
                }
                3 => s.unwrap(r),
                _ => {
                    let big = if multi { 10 } else { 60 };
                    let text = source(r, big);
                    let text = if multi { text.chars().take(40).collect() } else { text };
                    let mut o = Op::abcd(K::ErrStderr, s.t(&text), 0, 0, 0);
                    let e = s.error(r, &text);
                    o.sub.push(no_msg(e));
                    o
                }
            };
            if let (Some(e), true) = (o.sub.first(), o.k != K::Print) {
                let (m, tag) = model::err_text(e[2] % 100, e[2] / 100, s.p.str(e[3]));
                lens[1] +=
                    model::report(s.p.str(o.a), e[0] as usize, e[1] as usize, &m, tag, false).len();
            }
            ops.push(o);
        }
        p.threads.push(ops);
    }
    for fd in 0..2 {
        let hard = !multi || r.chance(1, 2);
        for mut f in stream_faults(r, lens[fd], hard) {
            if f.k == FK::Panic {
                f.k = FK::Err;
            }
            if f.val >= 1000 {
                f.val = *r.pick(&ERRNOS);
            }
            f.which = fd as u8;
            p.io.push(f);
        }
    }
    p.iomax = small_max(r);
    if multi {
        pauses(r, p);
        p.sched = schedule(r, 2000);
    }
}

fn c09(r: &mut Rng, p: &mut Plan, i: u64) {
    p.capture = true;
    p.warm = r.chance(1, 2);
    let multi = r.chance(1, 6);
    for _ in 0..if multi { 2 } else { 1 } {
        let mut s = Sess::new(p, &[], 10, 80);
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            let mut o = s.load(r);
            if i % 50 == 49 {
                // a document larger than any buffer
                let (t, d) = large(r);
                o.a = s.t(&t);
                o.b = s.t(&d);
            }
            let hard = r.chance(2, 3);
            o.faults = load_faults(s.p, r, &o, hard);
            if r.chance(1, 12) {
                o.oom = oom(r, o.k);
            }
            if i % 50 != 49 && !multi && r.chance(1, 40) {
                o.rep = [300, 30][r.below(2)];
            }
            let again = r.chance(1, 2);
            let mut clean = o.clone();
            ops.push(o);
            if again {
                // faults have stopped
                clean.faults.clear();
                clean.oom = 0;
                ops.push(clean);
            }
        }
        p.threads.push(ops);
    }
    if multi {
        pauses(r, p);
        p.sched = schedule(r, 30_000);
    }
    p.limit = 500_000_000;
}

/// A grammar text made long by comments.
fn padded(r: &mut Rng, t: &str) -> String {
    let mut s = String::new();
    for l in t.split_inclusive('\n') {
        s.push_str(l);
        if !l.ends_with('\n') || !r.chance(1, 2) {
            continue;
        }
        let n = r.log(20_000) as usize;
        s.push_str("// ");
        while s.len() < n {
            s.push_str(["é", "日", "x", " ", "𝄞"][r.below(5)]);
        }
        s.push('\n');
    }
    if !s.ends_with('\n') {
        s.push('\n');
        s.push_str("// ");
        let n = s.len() + r.log(20_000) as usize;
        while s.len() < n {
            s.push_str(["é", "日", "x", "abc def", "𝄞"][r.below(5)]);
        }
        s.push('\n');
    }
    s
}

/// A grammar and a long document for it.
fn large(r: &mut Rng) -> (String, String) {
    let t = gen::FIXED[2].to_string();
    let mut d = String::new();
    let n = r.range(3000, 90_000);
    while d.len() < n {
        if r.chance(1, 2) {
            d.push_str("skip\n");
        } else {
            d.push_str("say \"hé日llo ");
            for _ in 0..r.below(60) {
                d.push_str("é日x");
            }
            d.push_str("\"\n");
        }
    }
    (t, d)
}

/// What a crash, a bad block or another writer can leave in a file.
pub fn damage(r: &mut Rng, old: &[u8], new: &[u8]) -> (Vec<u8>, &'static str) {
    let blk = *r.pick(&[1usize, 4, 16, 64]);
    let mut v = new.to_vec();
    match r.below(8) {
        0 => {
            // the tail was never written
            let k = r.below(v.len() + 1);
            v.truncate(k);
            (v, "truncated")
        }
        1 => {
            // the length reached the disk, the data did not
            let k = r.below(v.len() + 1) / blk * blk;
            for b in &mut v[k..] {
                *b = 0;
            }
            (v, "zero tail")
        }
        2 => {
            // written in place: new head, old tail
            let k = r.below(v.len() + 1) / blk * blk;
            v.truncate(k);
            if old.len() > k {
                v.extend_from_slice(&old[k..]);
            }
            (v, "torn")
        }
        3 => {
            let k = r.below(v.len() / blk + 1) * blk;
            let e = (k + blk).min(v.len());
            for i in k..e {
                v[i] = if r.chance(1, 2) { 0 } else { old.get(i).copied().unwrap_or(0) };
            }
            (v, "stale block")
        }
        4 => {
            // a block is missing and the rest moved up
            let k = r.below(v.len() / blk + 1) * blk;
            let e = (k + blk).min(v.len());
            if k < e {
                v.drain(k..e);
            }
            (v, "lost block")
        }
        5 => {
            // saved over a longer file without truncating it
            if old.len() > v.len() {
                let n = v.len();
                v.extend_from_slice(&old[n..]);
            } else {
                v.extend_from_slice(&old[old.len().saturating_sub(blk)..]);
            }
            (v, "old tail kept")
        }
        6 => {
            if !v.is_empty() {
                let k = r.below(v.len());
                v[k] ^= 1 << r.below(8);
            }
            (v, "flipped bit")
        }
        _ => {
            // a block written twice
            let k = r.below(v.len() / blk + 1) * blk;
            let e = (k + blk).min(v.len());
            let b = v[k.min(e)..e].to_vec();
            v.splice(e..e, b);
            (v, "doubled block")
        }
    }
}

fn c10(r: &mut Rng, p: &mut Plan) {
    p.capture = true;
    p.warm = r.chance(1, 2);
    let mut s = Sess::new(p, &[], 10, 60);
    let mut ops = vec![];
    for _ in 0..r.range(1, 3) {
        let (t, g) = gen::grammar(r, 10);
        let t = if r.chance(1, 25) { padded(r, &t) } else { t };
        let d = gen::good_document(r, &g, 60, IND);
        let d2 = gen::good_document(r, &g, 60, IND);
        let (t2, _) = gen::grammar(r, 10);
        let mut o = Op::abcd(K::Load, s.t(&t), s.t(&d), 0, 0);
        let both = r.below(5);
        let mut kinds = 0;
        if both != 0 && both != 1 {
            let (v, _) = damage(r, d2.as_bytes(), d.as_bytes());
            o.b = s.p.text(&v);
            kinds += 1;
        }
        if both <= 2 && both != 1 {
            let (v, _) = damage(r, t2.as_bytes(), t.as_bytes());
            o.a = s.p.text(&v);
            kinds += 1;
        }
        if both == 1 || r.chance(1, 8) {
            // overwritten or truncated while it is read
            let which = r.below(2) as u8;
            let n = s.p.texts[if which == 0 { o.a } else { o.b } as usize].len();
            let other = if which == 0 { &t2 } else { &d2 };
            let val = s.t(other);
            let mut f = Fault::new(FK::Swap, r.below(n + 1) as u64, val);
            f.which = which;
            o.faults.push(f);
        }
        if r.chance(1, 2) {
            let more = load_faults(s.p, r, &o, false);
            o.faults.extend(more);
        }
        // recorded as a fault so that it is counted
        o.c = kinds;
        ops.push(o);
    }
    p.threads.push(ops);
    p.limit = 100_000_000;
}

/// A variant of `s` of the same shape: letters and digits in it renamed.
fn vary(s: &str, k: u64) -> String {
    s.replace("##", &format!("{:05}", k))
}

/// The bytes of a varied text; '\u{E000}' stands for a byte that is not text.
fn bytes(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for (i, t) in s.split('\u{E000}').enumerate() {
        if i > 0 {
            v.push(0xff);
        }
        v.extend_from_slice(t.as_bytes());
    }
    v
}

fn c11(r: &mut Rng, p: &mut Plan, thorough: bool) {
    p.capture = true;
    let rounds = (if thorough { 256 } else { 96 }) * (if r.chance(1, 50) { 6 } else { 1 });
    let g = shared(p, r, 6);
    // a round is a fixed list of calls; every round has its own texts
    let mut kinds = vec![];
    for _ in 0..r.range(1, 4) {
        kinds.push(r.below(18));
    }
    let oom_at = if r.chance(1, 3) { oom(r, K::Parse) } else { 0 };
    let oom_big = oom(r, K::Syntax);
    let fault = r.chance(1, 2);
    let mut proto: Vec<(Op, Vec<String>)> = vec![];
    let mut s = Sess::new(p, &g, 6, 30);
    for k in kinds {
        match k {
            0 if r.chance(1, 3) => {
                // a recursive grammar and a large or deeply nested document
                let mut o = Op::abcd(K::Syntax, 0, 0, 0, 0);
                if r.chance(1, 3) {
                    o.oom = oom_big;
                }
                let pad = if r.chance(1, 3) { format!("\n// {}", "c".repeat(r.below(9000))) } else { String::new() };
                proto.push((o, vec![format!("1 list = [\"(\" .w? .r?({{list:\"list\" .t!:\"t\" .._seps!:\"w##\"}}) \")\" .w?]\n2 doc = [.w? list:\"doc##\"]{}", pad).replace("1 list", "_seps: \"()[]\\\" \\n\"\n1 list")]));
                if r.chance(1, 3) {
                    proto.push((Op::abcd(K::Optimize, 0, 0, 0, 0), vec![]));
                }
                let mut o = Op::abcd(K::Parse, -1, 0, 0, r.below(2) as i64);
                o.oom = oom_at;
                let deep = [1, 3, 40, 200][r.below(4)];
                let wide = [1, 2, 50, 400][r.below(4)];
                let mut t = "(".repeat(deep) + &"(\"s##\") ".repeat(wide) + "\"##\"" + &")".repeat(deep);
                if r.chance(1, 3) {
                    t.pop();
                }
                proto.push((o, vec![t]));
                proto.push((Op::abcd(K::Clear, 0, 0, 0, 0), vec![]));
                proto.push((Op::abcd(K::DropSlot, 0, 0, 0, 0), vec![]));
            }
            0 => {
                let mut o = Op::abcd(K::Syntax, 0, 0, 0, 0);
                if r.chance(1, 3) {
                    o.oom = oom_big;
                }
                proto.push((o, vec!["1 a## = [\"t##\":\"p##\" .w? {\"x\":\"y##\" \"z\"}]\n2 b = .r?(a##:\"q##\")".into()]));
                proto.push((Op::abcd(K::DropSlot, 0, 0, 0, 0), vec![]));
            }
            1 => proto.push((Op::abcd(K::Syntax, 0, 1, r.below(2) as i64, 0), vec!["1 a## = [\"t##\"".into()])),
            2 | 3 => {
                let mut o = Op::abcd(K::Syntax, 0, 2, 0, 0);
                o.oom = 0;
                proto.push((o, vec!["_s: \"s##\"\n1 w = [..\" ,\"!:\"w##\" ?\"!\":_s]\n2 doc = .s?.([\",\" .w?] w:\"n##\")".into()]));
                let mut o = Op::abcd(K::Parse, -3, 0, 0, r.below(2) as i64);
                o.oom = oom_at;
                let ok = r.chance(1, 2);
                proto.push((o, vec![if ok { "ab##, cd##!, ef##".into() } else { "ab##, cd##! ef##".into() }]));
                proto.push((Op::abcd(K::Clear, 0, 0, 0, 0), vec![]));
                if r.chance(1, 2) {
                    proto.push((Op::abcd(K::Optimize, 0, 2, 0, 0), vec![]));
                }
                if r.chance(1, 2) {
                    proto.push((Op::abcd(K::CloneSlot, 0, 2, 3, 0), vec![]));
                    proto.push((Op::abcd(K::DropSlot, 0, 3, 0, 0), vec![]));
                }
                proto.push((Op::abcd(K::DropSlot, 0, 2, 0, 0), vec![]));
            }
            4 => {
                let mut o = s.parse_shared(r);
                o.oom = oom_at;
                let t = format!("{}##", s.p.str(o.b));
                let ind = match o.sub.first() {
                    Some(l) => model::Ind { indent: l[0] as u32, align: l[1] != 0, tab: l[2] as u8 },
                    None => IND,
                };
                if model::parse(&s.shared[o.a as usize], &vary(&t, 0), ind) == Res::Discard {
                    continue;
                }
                proto.push((o, vec![t]));
                proto.push((Op::abcd(K::Clear, 0, 0, 0, 0), vec![]));
                proto.push((Op::abcd(K::Clear, 0, 0, 1, 0), vec![]));
            }
            5 => {
                let mut o = s.parse_shared(r);
                o.oom = 0;
                let c = o.c;
                proto.push((o, vec![]));
                proto.push((Op::abcd(K::Clear, 0, 0, c, 0), vec![]));
            }
            6 => {
                let mut m = gen::meta(r, 6, 0);
                m.push(ME { off: 1, len: 2, k: MK::Str("k##".into(), "v##\n".into()) });
                let mut o = Op::new(K::Json);
                if fault {
                    o.faults = stream_faults(r, 60, true);
                }
                o.oom = oom_at;
                proto.push((o, vec![model::meta_text(&m)]));
            }
            7 => {
                let (mut o, lens) = s.report(r, 100);
                if fault {
                    report_faults(r, &mut o, &lens, true);
                }
                let t = s.p.str(o.a).to_string();
                proto.push((o, vec![format!("{}##", t)]));
            }
            8 => {
                let mut m = gen::meta(r, 6, 0);
                m.push(ME { off: 1, len: 2, k: MK::Str("k##".into(), "v##".into()) });
                let o = s.search_in(r, &m, true);
                proto.push((o, vec![model::meta_text(&m)]));
            }
            9 | 10 => {
                let mut o = Op::new(K::Load);
                // '\u{E000}' stands for a byte that is not text
                let g = match r.below(10) {
                    0 => "1 w = ..\",\"!:\"w##\"\n2 doc = .s?(\",\" w:\"n##\"".to_string(),
                    1 => "1 w = ..\",\"!:\"w##\"\n// \u{E000}\n2 doc = .s?(\",\" w:\"n##\")".to_string(),
                    2 => "1 doc = [\"a\" ?missing:\"m##\" missing2:\"n\"]".to_string(),
                    3 => String::new(),
                    _ => "1 w = ..\",\"!:\"w##\"\n2 doc = .s?(\",\" w:\"n##\")".to_string(),
                };
                let d = match r.below(10) {
                    0 | 1 => "ab##,,cd".to_string(),
                    2 | 3 => format!("{}\u{E000}##,cd", "ab,".repeat(r.below(4) * r.below(40))),
                    4 => String::new(),
                    5 => format!("{}cd##", "ab##,".repeat(r.below(2000))),
                    _ => "ab##,cd".to_string(),
                };
                o.a = s.t(&g);
                o.b = s.t(&d);
                if fault {
                    o.faults = load_faults(s.p, r, &o, true);
                }
                if r.chance(1, 4) {
                    o.oom = oom_big;
                }
                proto.push((o, vec![g, d]));
            }
            11 => {
                let m = vec![
                    ME { off: 0, len: 0, k: MK::Start("node".into()) },
                    ME { off: 0, len: 0, k: MK::Num("id".into(), 1.0) },
                    ME { off: 0, len: 0, k: MK::Str("name".into(), "n##".into()) },
                    ME { off: 0, len: 0, k: MK::Start("rule".into()) },
                    ME { off: 0, len: 0, k: MK::Start("reference".into()) },
                    ME { off: 0, len: 0, k: MK::Str("name".into(), if r.chance(1, 2) { "n##".into() } else { "other".into() }) },
                    ME { off: 0, len: 0, k: MK::End("reference".into()) },
                    ME { off: 0, len: 0, k: MK::End("rule".into()) },
                    ME { off: 0, len: 0, k: MK::End("node".into()) },
                ];
                let mut o = Op::abcd(K::Convert, 0, 3, 0, 0);
                o.oom = oom_at;
                proto.push((o, vec![model::meta_text(&m)]));
                proto.push((Op::abcd(K::DropSlot, 0, 3, 0, 0), vec![]));
            }
            14 => {
                // reading a document with a grammar that lacks a rule, or a
                // random grammar, new in every round
                let (t, d) = if r.chance(1, 3) {
                    ("1 doc = [\"a\" ?missing:\"m##\" missing2:\"n\"]".to_string(), "ab##".to_string())
                } else {
                    let (t, g) = gen::grammar(r, 8);
                    let d = gen::document(r, &g, 60, IND);
                    (format!("{}\n// ##", t), d)
                };
                proto.push((Op::abcd(K::Syntax, 0, 1, 0, 0), vec![t]));
                let mut o = Op::abcd(K::Parse, -2, 0, 0, 0);
                o.oom = oom_at;
                proto.push((o, vec![d]));
                proto.push((Op::abcd(K::Clear, 0, 0, 0, 0), vec![]));
                proto.push((Op::abcd(K::DropSlot, 0, 1, 0, 0), vec![]));
            }
            15 => {
                // damaged metadata of a grammar, new in every round
                let mut m = gen::convert_meta(r, 6);
                for e in &mut m {
                    if let MK::Str(n, v) = &mut e.k {
                        if n == "name" || n == "text" || n == "property" {
                            v.push_str("##");
                        }
                    }
                }
                let mut o = Op::abcd(K::Convert, 0, 3, 0, r.below(2) as i64);
                o.oom = oom_at;
                proto.push((o, vec![model::meta_text(&m)]));
                proto.push((Op::abcd(K::DropSlot, 0, 3, 0, 0), vec![]));
            }
            16 => {
                let mut o = Op::new(K::JsonStr);
                if fault {
                    o.faults = stream_faults(r, 20, true);
                }
                proto.push((o, vec!["é\n\u{1}## \"\\".into()]));
            }
            17 => {
                let mut o = Op::abcd(K::Unwrap, 0, 7, 0, 0);
                if r.chance(1, 2) {
                    o.sub.push([1, 2, 17 + 300, s.t("an error")]);
                }
                proto.push((o, vec!["abc ## def".into()]));
            }
            12 => {
                let t = "text ## of\nlines".to_string();
                let mut o = Op::abcd(K::ErrStderr, 0, 0, 0, 0);
                let e = s.error(r, &t);
                o.sub.push(no_msg(e));
                proto.push((o, vec![t]));
            }
            _ => {
                let m = vec![ME { off: 1, len: 2, k: MK::Str("k##".into(), "v##\n".into()) }];
                proto.push((Op::new(K::Print), vec![model::meta_text(&m)]));
            }
        }
    }
    let new_texts = r.chance(3, 4);
    let cost: usize = proto
        .iter()
        .map(|(o, t)| {
            let n: usize = t.iter().map(|t| t.len()).sum();
            n * if matches!(o.k, K::Syntax | K::Load) { 3000 } else { 300 } + 1000
        })
        .sum();
    let rounds = rounds.min(600_000_000 / cost).max(16);
    // every round on a thread of its own
    let fresh = r.chance(1, 4);
    let mut ops = vec![Op::new(K::Mark)];
    for k in 0..rounds {
        for (o, t) in &proto {
            let mut o = o.clone();
            let k = if new_texts { k } else { 0 };
            for (i, x) in t.iter().enumerate() {
                let n = p.text(&if o.k == K::Load { bytes(&vary(x, k as u64)) } else { vary(x, k as u64).into_bytes() });
                match (o.k, i) {
                    (K::Parse, _) | (K::Load, 1) => o.b = n,
                    _ => o.a = n,
                }
            }
            ops.push(o);
        }
        if fresh {
            ops.push(Op::new(K::Exit));
        }
        ops.push(Op::new(K::Mark));
    }
    p.threads.push(ops);
    p.limit = 3_000_000_000;
    if r.chance(1, 3) {
        for fd in 0..2 {
            let mut f = Fault::new(FK::Intr, r.below(200) as u64, 2);
            f.which = fd;
            p.io.push(f);
        }
        p.iomax = r.below(9) as u32;
    }
}

fn c12(r: &mut Rng, p: &mut Plan) {
    p.fine = fineness(r);
    let n = r.range(1, 3);
    let m1 = {
        let k = if r.chance(1, 10) { r.log(400) as usize } else { r.below(14) };
        gen::meta(r, k, 0)
    };
    for _ in 0..n {
        let mut s = Sess::new(p, &[], 4, 10);
        let mut ops = vec![];
        let many = if r.chance(1, 5) { r.range(5, 16) } else { r.range(1, 4) };
        for _ in 0..many {
            let m2;
            let m = if r.chance(1, 2) {
                &m1
            } else if r.chance(1, 2) {
                m2 = gen::vary(r, &m1);
                &m2
            } else {
                let k = r.below(20);
                m2 = gen::meta(r, k, 0);
                &m2
            };
            let mut o = s.search_in(r, m, true);
            if r.chance(1, 10) {
                o.oom = 1 + r.below(3) as u64;
            }
            if r.chance(1, 60) {
                o.rep = [3000, 300, 30][r.below(3)];
            }
            ops.push(o);
        }
        p.threads.push(ops);
    }
    if r.chance(1, 6) {
        nest(r, p, &[]);
    }
    if n > 1 {
        pauses(r, p);
        p.sched = schedule(r, 600);
    }
}

fn c13(r: &mut Rng, p: &mut Plan) {
    p.fine = fineness(r);
    let n = r.range(1, 4);
    let m1 = walkable(r);
    for _ in 0..n {
        let mut s = Sess::new(p, &[], 4, 10);
        let mut ops = vec![];
        let many = if r.chance(1, 6) { r.range(6, 16) } else { r.range(1, 5) };
        for _ in 0..many {
            let mut o = if r.chance(1, 2) {
                s.walk_in(r, &m1)
            } else if r.chance(1, 3) {
                let m = gen::vary(r, &m1);
                s.walk_in(r, &m)
            } else if r.chance(1, 8) {
                s.any(r, &[0, 0, 1, 1, 4, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0], true)
            } else {
                s.walk(r)
            };
            if o.k == K::Walk && r.chance(1, 60) {
                o.rep = [3000, 300, 30][r.below(3)];
            }
            ops.push(o);
        }
        p.threads.push(ops);
    }
    if r.chance(1, 6) {
        nest(r, p, &[]);
    }
    if n > 1 {
        pauses(r, p);
        if r.chance(1, 4) {
            let t = r.below(n);
            p.stalls.push((t, r.below(if p.fine < 2 { 600 } else { 12 }) as u64));
        }
        p.sched = schedule(r, 600);
    }
}

/// The `i`-th run of a property under a seed.
pub fn make(prop: &str, seed: u64, i: u64, thorough: bool) -> Plan {
    let s = crate::rng::mix(seed, i);
    let mut r = Rng::new(s);
    let mut p = Plan::new(prop, s);
    match prop {
        "C01" => c01(&mut r, &mut p),
        "C02" => c02(&mut r, &mut p),
        "C03" => c03(&mut r, &mut p),
        "C04" => c04(&mut r, &mut p, i),
        "C05" => c05(&mut r, &mut p, i),
        "C06" => c06(&mut r, &mut p, i),
        "C07" => c07(&mut r, &mut p),
        "C08" => c08(&mut r, &mut p),
        "C09" => c09(&mut r, &mut p, i),
        "C10" => c10(&mut r, &mut p),
        "C11" => c11(&mut r, &mut p, thorough),
        "C12" => c12(&mut r, &mut p),
        "C13" => c13(&mut r, &mut p),
        "C14" => c14(&mut r, &mut p, i),
        "C15" => c15(&mut r, &mut p, i),
        "C16" => c16(&mut r, &mut p),
        "C17" => c17(&mut r, &mut p, i),
        _ => {}
    }
    for o in p.threads.iter_mut().flatten() {
        if o.k == K::Rebuild && o.c > 0 {
            // gives another grammar every time
            o.rep = 1;
        }
    }
    if p.threads.iter().flatten().any(|o| o.rep > 1) {
        // what is done often is kept small
        let mut cost = 0;
        for t in 0..p.threads.len() {
            for i in 0..p.threads[t].len() {
                let o = p.threads[t][i].clone();
                let mut size = 0;
                crate::judge::texts_of(&mut o.clone(), &mut |i| {
                    size += p.texts[i as usize].len();
                    i
                });
                if size > 60 {
                    p.threads[t][i].rep = o.rep.min(400_000 / size as u32).max(1);
                }
                if p.threads[t][i].rep > 1 {
                    cost += p.threads[t][i].rep as u64 * 3000 * (size as u64 + 20);
                }
            }
        }
        p.limit = p.limit.max(cost.min(3_000_000_000));
    }
    // the rules of the meta language are built once per process, behind a
    // `lazy_static`; an allocation that fails inside that one initialisation
    // poisons it, and is outside what the properties cover
    if p.threads.iter().flatten().any(|o| o.oom > 0 && matches!(o.k, K::Syntax | K::Load)) {
        p.warm = true;
    }
    if prop != "C14" && r.chance(1, 3) {
        p.env = 1 + r.below(1000) as u64;
    }
    if prop != "C11" && r.chance(1, 5) {
        exits(&mut r, &mut p);
    }
    p
}

/// Runs of every kind, without what a machine decides for itself (which
/// allocation fails, how long a thread stalls).
fn c14(r: &mut Rng, p: &mut Plan, i: u64) {
    match r.below(12) {
        0 => c01(r, p),
        1 => c02(r, p),
        2 | 3 => c04(r, p, 0),
        4 => c05(r, p, i),
        5 => c06(r, p, 0),
        6 => c07(r, p),
        7 | 8 => c08(r, p),
        9 => c09(r, p, 0),
        10 => c12(r, p),
        _ => c13(r, p),
    }
    let multi = p.threads.len() > 1;
    p.stalls.clear();
    if multi {
        p.io.clear();
        p.iomax = 0;
    }
    for o in p.threads.iter_mut().flatten().chain(p.nested.iter_mut()) {
        o.oom = 0;
        o.rep = o.rep.min(20);
        o.faults.retain(|f| f.k != FK::Swap && f.k != FK::Eof);
    }
    p.env = 1 + r.below(1000) as u64;
}

/// Runs of every kind, with every fault.
fn c15(r: &mut Rng, p: &mut Plan, i: u64) {
    match r.below(14) {
        0 => c01(r, p),
        1 => c02(r, p),
        2 | 3 => c03(r, p),
        4 => c04(r, p, 0),
        5 => c04(r, p, i),
        6 => c05(r, p, i),
        7 => c06(r, p, 0),
        8 => c07(r, p),
        9 => c08(r, p),
        10 => c09(r, p, 0),
        11 => c10(r, p),
        12 => c12(r, p),
        _ => c13(r, p),
    }
    p.capture = true;
    for o in p.threads.iter_mut().flatten() {
        o.rep = o.rep.min(300);
    }
}

/// Calls that run out of memory at every depth, and the same calls again.
fn c16(r: &mut Rng, p: &mut Plan) {
    let g = match r.below(8) {
        0 => indented(p, r),
        1 => nested_grammars(p, r),
        _ => shared(p, r, 10),
    };
    p.capture = true;
    p.warm = true;
    let mut s = Sess::new(p, &g, 8, 60);
    let mut ops: Vec<Op> = vec![];
    let w = [16, 8, 5, 4, 6, 3, 3, 1, 8, 4, 8, 8, 1, 0, 0, 4, 0];
    for _ in 0..r.range(1, 4) {
        let faulty = r.chance(1, 4);
        let mut o = s.any(r, &w, faulty);
        o.oom = 0;
        o.rep = 1;
        if matches!(o.k, K::Clear | K::DropSlot) {
            ops.push(o);
            continue;
        }
        if matches!(o.k, K::Optimize | K::Rebuild | K::CloneSlot) {
            if r.chance(1, 2) {
                o.oom = oom(r, o.k);
            }
            ops.push(o);
            continue;
        }
        let first = 1 + r.log(if matches!(o.k, K::Syntax | K::Load) { 1500 } else { 20 });
        for k in 0..r.range(1, 6) as u64 {
            let mut q = o.clone();
            q.oom = if r.chance(1, 2) { first + k } else { oom(r, o.k) };
            if r.chance(1, 4) {
                q.oom |= crate::alloc::FROM_THEN_ON;
            }
            if q.k == K::Report {
                q.b = r.below(q.sub.len() + 1) as i64 - 1;
                if q.b < 0 && r.chance(1, 2) {
                    q.oom = 1 + r.below(8) as u64;
                }
            }
            ops.push(q);
        }
        if r.chance(2, 3) {
            ops.push(o);
        }
    }
    p.threads.push(ops);
}

fn c17(r: &mut Rng, p: &mut Plan, i: u64) {
    p.capture = true;
    p.warm = true;
    let size = if i % 40 == 39 { 20 } else { 12 };
    let cap = if i % 20 == 19 { 600 } else { 80 };
    let many = r.chance(1, 5);
    let g = match r.below(10) {
        0 => indented(p, r),
        1 => nested_grammars(p, r),
        _ => shared(p, r, size),
    };
    if many {
        p.fine = 0;
    }
    for _ in 0..if many { r.range(2, 3) } else { 1 } {
        let mut s = Sess::new(p, &g, size, cap);
        let mut ops: Vec<Op> = vec![];
        for _ in 0..r.range(2, if many { 6 } else { 10 }) {
            let mut o = match r.below(20) {
                0 => Op::abcd(K::Clear, 0, 0, r.below(2) as i64, 0),
                1..=4 => s.syntax(r, false),
                5 | 6 => {
                    // a grammar with one mistake
                    let mut o = s.syntax(r, true);
                    let t = s.p.str(o.a).to_string();
                    for _ in 0..6 {
                        let t = gen::mutate(r, &t);
                        if gen::readable(&t) {
                            if model::grammar(&t) == Res::Fail {
                                s.slots[o.b as usize] = None;
                                o.a = s.t(&t);
                                break;
                            }
                        }
                    }
                    o
                }
                7 => s.any(r, &[0, 0, 2, 2, 0, 2, 2, 1, 1, 0, 1, 1, 0, 0, 0, 0, 0], true),
                8 | 9 if !many => {
                    let mut o = s.load(r);
                    let d = s.p.str(o.b).to_string();
                    let d = gen::mutate(r, &d);
                    o.b = s.t(&d);
                    if r.chance(1, 4) {
                        o.faults = load_faults(s.p, r, &o, true);
                    }
                    o
                }
                10..=12 => match s.parse_slot(r) {
                    Some(o) => o,
                    None => s.parse_shared(r),
                },
                _ => s.parse_shared(r),
            };
            if o.k == K::Parse && r.chance(2, 3) {
                // mostly documents with a mistake in them
                let d = s.p.str(o.b).to_string();
                let d = if r.chance(1, 4) { gen::near(r, &d) } else { gen::mutate(r, &d) };
                if !gen::odd_space(&d) {
                    let old = o.b;
                    o.b = s.t(&d);
                    let gr = if o.a >= 0 { s.shared.get(o.a as usize) } else { s.slots[(-1 - o.a) as usize].as_ref() };
                    if gr.map_or(true, |g| model::parse(g, &d, IND) == Res::Discard) {
                        o.b = old;
                    }
                }
            }
            o.oom = 0;
            if matches!(o.k, K::Parse | K::Syntax | K::Load) && r.chance(1, 10) {
                o.oom = oom(r, o.k);
            }
            ops.push(o.clone());
            if o.k == K::Parse && r.chance(1, 6) {
                // the same again, told another way
                o.oom = 0;
                o.d = match o.d {
                    0 => 1,
                    1 => 0,
                    2 => 3,
                    _ => 2,
                };
                ops.push(o);
            }
        }
        p.threads.push(ops);
    }
}

/// Threads end between calls, and new ones take over what they held.
fn exits(r: &mut Rng, p: &mut Plan) {
    for t in &mut p.threads {
        let each = r.range(2, 12);
        let mut v = vec![];
        for o in t.drain(..) {
            v.push(o);
            if r.chance(1, each as u32) && v.len() < 400 {
                v.push(Op::new(K::Exit));
            }
        }
        *t = v;
    }
}

