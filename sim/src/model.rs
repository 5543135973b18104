//! Reference model, independent of the library under test: the meta language
//! as documented (its grammar is parsed here from the documented self syntax),
//! the meaning of rules, JSON and error report layouts.  Only the lexical
//! primitives of the `read_token` dependency (numbers, strings, line
//! splitting) are shared with the library.

use range::Range;
use read_token::{NumberSettings, ReadToken};
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

// ------------------------------------------------------------ metadata

#[derive(Clone, Debug, PartialEq)]
pub enum MK {
    Start(String),
    End(String),
    Bool(String, bool),
    Num(String, f64),
    Str(String, String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct ME {
    pub off: usize,
    pub len: usize,
    pub k: MK,
}

pub fn meta_text(v: &[ME]) -> String {
    let mut s = String::new();
    for e in v {
        entry_text(&mut s, e);
    }
    s
}
fn entry_text(s: &mut String, e: &ME) {
    use crate::plan::esc;
    let (o, l) = (e.off, e.len);
    match &e.k {
        MK::Start(n) => writeln!(s, "S\t{}\t{}\t{}", o, l, esc(n.as_bytes())),
        MK::End(n) => writeln!(s, "E\t{}\t{}\t{}", o, l, esc(n.as_bytes())),
        MK::Bool(n, v) => writeln!(s, "B\t{}\t{}\t{}\t{}", o, l, esc(n.as_bytes()), v),
        MK::Num(n, v) => writeln!(s, "F\t{}\t{}\t{}\t{:x}", o, l, esc(n.as_bytes()), v.to_bits()),
        MK::Str(n, v) => {
            writeln!(s, "T\t{}\t{}\t{}\t{}", o, l, esc(n.as_bytes()), esc(v.as_bytes()))
        }
    }
    .unwrap();
}
pub fn meta_from_text(s: &str) -> Vec<ME> {
    let un = |x: &str| String::from_utf8_lossy(&crate::plan::unesc(x)).into_owned();
    let mut v = vec![];
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 4 {
            continue;
        }
        let (off, len) = (f[1].parse().unwrap_or(0), f[2].parse().unwrap_or(0));
        let n = un(f[3]);
        let x = f.get(4).copied().unwrap_or("");
        let k = match f[0] {
            "S" => MK::Start(n),
            "E" => MK::End(n),
            "B" => MK::Bool(n, x == "true"),
            "F" => MK::Num(n, f64::from_bits(u64::from_str_radix(x, 16).unwrap_or(0))),
            "T" => MK::Str(n, un(x)),
            _ => continue,
        };
        v.push(ME { off, len, k });
    }
    v
}

// ------------------------------------------------------------ rules

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ws { opt: bool },
    Tag { text: String, not: bool, inv: bool, prop: Option<String> },
    Until { ws: bool, any: String, opt: bool, prop: Option<String> },
    Text { empty: bool, prop: Option<String> },
    Num { us: bool, prop: Option<String> },
    Sel(Vec<R>),
    Seq(Vec<R>),
    Sep { rule: Box<R>, by: Box<R>, opt: bool, trail: bool },
    Rep { rule: Box<R>, opt: bool },
    Lines { rule: Box<R>, indent: bool },
    Node { name: String, prop: Option<String>, idx: Option<usize> },
    Opt(Box<R>),
    Not(Box<R>),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Gram {
    pub names: Vec<String>,
    pub rules: Vec<R>,
    /// The number each rule is written with; None where it has none.
    pub ids: Vec<Option<u64>>,
}

impl R {
    /// How many rules it is made of.
    pub fn parts(&self) -> u64 {
        1 + match self {
            R::Sel(v) | R::Seq(v) => v.iter().map(|r| r.parts()).sum(),
            R::Sep { rule, by, .. } => rule.parts() + by.parts(),
            R::Rep { rule, .. } | R::Lines { rule, .. } => rule.parts(),
            R::Opt(r) | R::Not(r) => r.parts(),
            _ => 0,
        }
    }
}

fn link(r: &mut R, names: &[String]) {
    match r {
        R::Node { name, idx, .. } => *idx = names.iter().position(|n| n == name),
        R::Sel(v) | R::Seq(v) => v.iter_mut().for_each(|r| link(r, names)),
        R::Sep { rule, by, .. } => {
            link(rule, names);
            link(by, names);
        }
        R::Rep { rule, .. } | R::Lines { rule, .. } => link(rule, names),
        R::Opt(r) | R::Not(r) => link(r, names),
        _ => {}
    }
}

impl Gram {
    pub fn link(&mut self) {
        let names = self.names.clone();
        for r in &mut self.rules {
            link(r, &names);
        }
    }
    /// Starts with a copy of another rule, unless `first` is zero.
    pub fn start_with(&mut self, first: i64) {
        let k = self.rules.len();
        if first > 0 && k > 0 {
            let i = (first - 1) as usize % k;
            self.rules.push(self.rules[i].clone());
            self.names.push(self.names[i].clone());
            self.ids.push(self.ids[i]);
        }
    }
    /// Whether some rule can reach itself as its own first step: such grammars
    /// cannot be read (unbounded recursion) and are not simulated.
    pub fn left_recursive(&self) -> bool {
        fn firsts(r: &R, out: &mut Vec<usize>) {
            match r {
                R::Node { idx: Some(i), .. } => out.push(*i),
                R::Seq(v) => {
                    for r in v {
                        firsts(r, out);
                        if !nullable_shallow(r) {
                            break;
                        }
                    }
                }
                R::Sel(v) => v.iter().for_each(|r| firsts(r, out)),
                R::Sep { rule, by, .. } => {
                    firsts(rule, out);
                    firsts(by, out);
                }
                R::Rep { rule, .. } | R::Lines { rule, .. } => firsts(rule, out),
                R::Opt(r) | R::Not(r) => firsts(r, out),
                _ => {}
            }
        }
        /// May succeed without consuming (nodes: assumed so).
        fn nullable_shallow(r: &R) -> bool {
            match r {
                R::Tag { text, not, .. } => *not || text.is_empty(),
                R::Text { .. } | R::Num { .. } => false,
                R::Ws { opt } => *opt,
                R::Until { opt, .. } => *opt,
                R::Seq(v) => v.iter().all(nullable_shallow),
                R::Sel(v) => v.iter().any(nullable_shallow),
                _ => true,
            }
        }
        let n = self.rules.len();
        let edges: Vec<Vec<usize>> = self
            .rules
            .iter()
            .map(|r| {
                let mut o = vec![];
                firsts(r, &mut o);
                o
            })
            .collect();
        // cycle detection
        let mut color = vec![0u8; n];
        fn visit(i: usize, e: &[Vec<usize>], c: &mut [u8]) -> bool {
            c[i] = 1;
            for &j in &e[i] {
                if c[j] == 1 || (c[j] == 0 && visit(j, e, c)) {
                    return true;
                }
            }
            c[i] = 2;
            false
        }
        (0..n).any(|i| color[i] == 0 && visit(i, &edges, &mut color))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res<T> {
    Ok(T),
    Fail,
    /// Outside what the model decides (unbounded recursion or repetition,
    /// lexical panics of the dependency).
    Discard,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ind {
    pub indent: u32,
    pub align: bool,
    pub tab: u8,
}
pub const IND: Ind = Ind { indent: 0, align: true, tab: 4 };

/// Why the text was not accepted: where, what was wrong there, and the rule
/// that says so.
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub off: usize,
    pub len: usize,
    pub why: Why,
    /// The rule (by index) it happened in, if it happened in one.
    pub rule: Option<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    Whitespace,
    NewLine,
    Something,
    Number,
    NumberFormat(read_token::ParseNumberError),
    Text,
    EmptyText,
    TextFormat(read_token::ParseStringError),
    Tag(String),
    NotTag(String),
    Rule,
    NoRules,
    End,
    Conversion,
}

impl Fault {
    pub fn end(&self) -> usize {
        self.off + self.len
    }
    pub fn is_tag(&self) -> bool {
        matches!(self.why, Why::Tag(_))
    }
    /// How the error is worded, for a debug id.
    pub fn message(&self, id: &str) -> String {
        let m = match &self.why {
            Why::Whitespace => "Expected whitespace".to_string(),
            Why::NewLine => "Expected new line".into(),
            Why::Something => "Expected something".into(),
            Why::Number => "Expected number".into(),
            Why::NumberFormat(e) => format!("Invalid number format: {}", e),
            Why::Text => "Expected text".into(),
            Why::EmptyText => "Empty text not allowed".into(),
            Why::TextFormat(e) => format!("Invalid string format: {}", e),
            Why::Tag(t) => format!("Expected: `{}`", t),
            Why::NotTag(t) => format!("Did not expect: `{}`", t),
            Why::Rule => "Invalid rule: ".into(),
            Why::NoRules => return "No rules are specified".into(),
            Why::End => return "Expected end".into(),
            Why::Conversion => return "Conversion, ".into(),
        };
        format!("#{}, {}", id, m)
    }
    /// How the error is shown as a value, for a debug id.
    pub fn value(&self, id: &str) -> String {
        match &self.why {
            Why::Whitespace => format!("ExpectedWhitespace({})", id),
            Why::NewLine => format!("ExpectedNewLine({})", id),
            Why::Something => format!("ExpectedSomething({})", id),
            Why::Number => format!("ExpectedNumber({})", id),
            Why::NumberFormat(e) => format!("ParseNumberError({:?}, {})", e, id),
            Why::Text => format!("ExpectedText({})", id),
            Why::EmptyText => format!("EmptyTextNotAllowed({})", id),
            Why::TextFormat(e) => format!("ParseStringError({:?}, {})", e, id),
            Why::Tag(t) => format!("ExpectedTag({:?}, {})", t, id),
            Why::NotTag(t) => format!("DidNotExpectTag({:?}, {})", t, id),
            Why::Rule => "InvalidRule(".into(),
            Why::NoRules => "NoRules".into(),
            Why::End => "ExpectedEnd".into(),
            Why::Conversion => "Conversion(".into(),
        }
    }
    /// Whether the words go on in a way that is not said here.
    pub fn open_ended(&self) -> bool {
        matches!(self.why, Why::Rule | Why::Conversion)
    }
}

struct Run<'a> {
    g: &'a Gram,
    /// What failed where reading got farthest.
    faults: Vec<Fault>,
    far: usize,
    /// Inside what must not be there, where nothing is a reason to refuse.
    mute: u32,
    at_rule: usize,
    text: &'a str,
    out: Vec<ME>,
    fuel: u64,
    depth: u32,
    bad: bool,
    ind: Ind,
}

impl<'a> Run<'a> {
    fn tok(&self, pos: usize) -> ReadToken<'a> {
        ReadToken::new(&self.text[pos..], pos)
    }
    fn fault(&mut self, off: usize, len: usize, why: Why) {
        let end = off + len;
        if self.mute > 0 || (end < self.far && !self.faults.is_empty()) {
            return;
        }
        if end > self.far {
            self.faults.clear();
            self.far = end;
        }
        let rule = match why {
            Why::End | Why::NoRules | Why::Conversion => None,
            _ => Some(self.at_rule),
        };
        let f = Fault { off, len, why, rule };
        if !self.faults.contains(&f) {
            self.faults.push(f);
        }
    }
    fn push(&mut self, off: usize, len: usize, k: MK) {
        self.out.push(ME { off, len, k });
    }
    /// Reads `r` at `pos`: the end offset, or None.  On failure `out` may be
    /// longer than before; callers that go on truncate it.
    fn p(&mut self, r: &R, pos: usize) -> Option<usize> {
        if self.bad {
            return None;
        }
        if self.fuel == 0 || self.depth > 8000 {
            self.bad = true;
            return None;
        }
        self.fuel -= 1;
        self.depth += 1;
        let mark = self.out.len();
        let res = self.p2(r, pos);
        self.depth -= 1;
        if res.is_none() {
            self.out.truncate(mark);
        }
        if self.bad {
            return None;
        }
        res
    }
    fn p2(&mut self, r: &R, pos: usize) -> Option<usize> {
        match r {
            R::Ws { opt } => {
                let n = self.tok(pos).whitespace().length;
                if n == 0 && !opt {
                    self.fault(pos, 0, Why::Whitespace);
                    None
                } else {
                    Some(pos + n)
                }
            }
            R::Tag { text, not, inv, prop } => {
                let hit = self.text[pos..].starts_with(text.as_str());
                if hit {
                    if *not {
                        self.fault(pos, text.len(), Why::NotTag(text.clone()));
                    }
                } else if !not {
                    self.fault(pos, 0, Why::Tag(text.clone()));
                }
                if hit == *not {
                    return None;
                }
                let n = if hit { text.len() } else { 0 };
                if let Some(p) = prop {
                    self.push(pos, n, MK::Bool(p.clone(), !inv));
                }
                Some(pos + n)
            }
            R::Until { ws, any, opt, prop } => {
                let mut n = 0;
                for c in self.text[pos..].chars() {
                    if (*ws && c.is_whitespace()) || any.contains(c) {
                        break;
                    }
                    n += c.len_utf8();
                }
                if n == 0 && !opt {
                    self.fault(pos, 0, Why::Something);
                    return None;
                }
                if let Some(p) = prop {
                    let s = self.text[pos..pos + n].to_string();
                    self.push(pos, n, MK::Str(p.clone(), s));
                }
                Some(pos + n)
            }
            R::Text { empty, prop } => {
                let t = self.tok(pos);
                let n = match t.string() {
                    Some(r) => r.length,
                    None => {
                        self.fault(pos, 0, Why::Text);
                        return None;
                    }
                };
                if n == 2 && !empty {
                    self.fault(pos, 2, Why::EmptyText);
                    return None;
                }
                let s = match t.parse_string(n) {
                    Ok(s) => s,
                    Err(e) => {
                        self.fault(e.offset, e.length, Why::TextFormat(e.data));
                        return None;
                    }
                };
                if let Some(p) = prop {
                    self.push(pos, n, MK::Str(p.clone(), s));
                }
                Some(pos + n)
            }
            R::Num { us, prop } => {
                let t = self.tok(pos);
                let set = NumberSettings { allow_underscore: *us };
                let n = match t.number(&set) {
                    Some(r) => r.length,
                    None => {
                        self.fault(pos, 0, Why::Number);
                        return None;
                    }
                };
                let v = match t.parse_number(&set, n) {
                    Ok(v) => v,
                    Err(e) => {
                        self.fault(pos, n, Why::NumberFormat(e));
                        return None;
                    }
                };
                if let Some(p) = prop {
                    self.push(pos, n, MK::Num(p.clone(), v));
                }
                Some(pos + n)
            }
            R::Sel(v) => {
                for r in v {
                    if let Some(e) = self.p(r, pos) {
                        return Some(e);
                    }
                    if self.bad {
                        return None;
                    }
                }
                // none of them can begin here
                self.fault(pos, 0, if v.is_empty() { Why::Rule } else { Why::Something });
                None
            }
            R::Seq(v) => {
                let mut at = pos;
                for r in v {
                    at = self.p(r, at)?;
                }
                Some(at)
            }
            R::Sep { rule, by, opt, trail } => {
                let mut at = pos;
                let mut first = true;
                loop {
                    match self.p(rule, at) {
                        Some(e) => at = e,
                        None => {
                            let ok = if first { *opt } else { *trail };
                            return if ok { Some(at) } else { None };
                        }
                    }
                    match self.p(by, at) {
                        Some(e) => at = e,
                        None => return Some(at),
                    }
                    first = false;
                }
            }
            R::Rep { rule, opt } => {
                let mut at = pos;
                let mut first = true;
                while let Some(e) = self.p(rule, at) {
                    at = e;
                    first = false;
                }
                if first && !opt {
                    None
                } else {
                    Some(at)
                }
            }
            R::Lines { rule, indent } => {
                let t = self.tok(pos);
                let mut first = true;
                let res = t.lines(|t| {
                    let start = t.offset;
                    let mut at = start;
                    if *indent {
                        let mut n = self.ind.indent;
                        while n > 0 {
                            let rest = &self.text[at..];
                            if rest.starts_with(' ') {
                                at += 1;
                                n -= 1;
                            } else if rest.starts_with('\t') {
                                at += 1;
                                if n <= self.ind.tab as u32 {
                                    break;
                                }
                                n -= self.ind.tab as u32;
                            } else {
                                return None;
                            }
                        }
                        if first && self.ind.align {
                            first = false;
                            loop {
                                let rest = &self.text[at..];
                                if rest.starts_with(' ') {
                                    at += 1;
                                    self.ind.indent += 1;
                                } else if rest.starts_with('\t') {
                                    at += 1;
                                    self.ind.indent += self.ind.tab as u32;
                                } else {
                                    break;
                                }
                            }
                        } else if self.text[at..].starts_with(' ') {
                            return None;
                        }
                        let old = self.ind.indent;
                        self.ind.indent += 1;
                        let r = self.p(rule, at);
                        self.ind.indent = old;
                        r.map(|e| Range::new(start, e - start))
                    } else {
                        self.p(rule, at).map(|e| Range::new(start, e - start))
                    }
                });
                match res {
                    Ok(r) => Some(pos + r.length),
                    Err(r) => {
                        self.fault(r.offset, r.length, Why::NewLine);
                        None
                    }
                }
            }
            R::Node { prop, idx, .. } => {
                let i = match *idx {
                    Some(i) => i,
                    None => {
                        self.fault(pos, 0, Why::Rule);
                        return None;
                    }
                };
                if let Some(p) = prop {
                    self.push(pos, 0, MK::Start(p.clone()));
                }
                let g = self.g;
                let outer = std::mem::replace(&mut self.at_rule, i);
                let e = self.p(&g.rules[i], pos);
                self.at_rule = outer;
                let e = e?;
                if let Some(p) = prop {
                    self.push(pos, e - pos, MK::End(p.clone()));
                }
                Some(e)
            }
            R::Opt(r) => Some(self.p(r, pos).unwrap_or(pos)),
            R::Not(r) => {
                let mark = self.out.len();
                self.mute += 1;
                let hit = self.p(r, pos);
                self.mute -= 1;
                self.out.truncate(mark);
                match hit {
                    Some(e) => {
                        let t = self.text[pos..e].to_string();
                        self.fault(pos, e - pos, Why::NotTag(t));
                        None
                    }
                    None => Some(pos),
                }
            }
        }
    }
}

pub const FUEL: u64 = 60_000;

/// What the grammar means for the document.
pub fn parse(g: &Gram, text: &str, ind: Ind) -> Res<Vec<ME>> {
    parse_fuel(g, text, ind, FUEL)
}
pub fn parse_fuel(g: &Gram, text: &str, ind: Ind, fuel: u64) -> Res<Vec<ME>> {
    parse_why(g, text, ind, fuel).0
}
/// What the grammar means for the document; where it refuses it, everything
/// that is wrong at the farthest place that was reached.
pub fn parse_why(g: &Gram, text: &str, ind: Ind, fuel: u64) -> (Res<Vec<ME>>, Vec<Fault>) {
    if g.rules.is_empty() {
        return (Res::Fail, vec![Fault { off: 0, len: 0, why: Why::NoRules, rule: None }]);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let last = g.rules.len() - 1;
        let mut run = Run {
            g,
            faults: vec![],
            far: 0,
            mute: 0,
            at_rule: last,
            text,
            out: vec![],
            fuel,
            depth: 0,
            bad: false,
            ind,
        };
        let e = run.p(&g.rules[last], 0);
        if run.bad {
            return (Res::Discard, vec![]);
        }
        match e {
            Some(e) if e == text.len() => (Res::Ok(run.out), vec![]),
            Some(e) => {
                run.fault(e, 0, Why::End);
                (Res::Fail, run.faults)
            }
            None => (Res::Fail, run.faults),
        }
    }));
    r.unwrap_or((Res::Discard, vec![]))
}
/// Why a text is no grammar.
pub fn grammar_why(text: &str) -> Vec<Fault> {
    let g = self_syntax();
    match parse_why(&g, text, IND, 2_000_000) {
        (Res::Fail, f) => f,
        (Res::Ok(v), _) if gram_of(&v).is_none() => {
            vec![Fault { off: 0, len: 0, why: Why::Conversion, rule: None }]
        }
        _ => vec![],
    }
}

// ------------------------------------------------------------ reading grammars

enum Tree {
    Node(String, Vec<Tree>),
    Leaf(MK),
}

fn tree(v: &[ME]) -> Vec<Tree> {
    let mut stack: Vec<(String, Vec<Tree>)> = vec![(String::new(), vec![])];
    for e in v {
        match &e.k {
            MK::Start(n) => stack.push((n.clone(), vec![])),
            MK::End(_) => {
                let (n, c) = stack.pop().unwrap();
                stack.last_mut().unwrap().1.push(Tree::Node(n, c));
            }
            k => stack.last_mut().unwrap().1.push(Tree::Leaf(k.clone())),
        }
    }
    stack.pop().unwrap().1
}

/// A `"text"` or `_ref` in a property, token or character-set position.
fn set(c: &[Tree], strings: &[(String, String)]) -> Option<String> {
    let mut t = None;
    for x in c {
        match x {
            Tree::Leaf(MK::Str(n, v)) if n == "ref" => {
                t = strings.iter().find(|s| s.0 == *v).map(|s| s.1.clone())
            }
            Tree::Leaf(MK::Str(n, v)) if n == "value" => t = Some(v.clone()),
            _ => return None,
        }
    }
    t
}

struct Kids<'a> {
    c: &'a [Tree],
    strings: &'a [(String, String)],
}
impl<'a> Kids<'a> {
    fn set(&self, name: &str) -> Option<String> {
        let mut r = None;
        for x in self.c {
            if let Tree::Node(n, c) = x {
                if n == name {
                    if let Some(s) = set(c, self.strings) {
                        r = Some(s);
                    }
                }
            }
        }
        r
    }
    fn flag(&self, name: &str) -> Option<bool> {
        let mut r = None;
        for x in self.c {
            if let Tree::Leaf(MK::Bool(n, v)) = x {
                if n == name {
                    r = Some(*v);
                }
            }
        }
        r
    }
    fn name(&self) -> Option<String> {
        let mut r = None;
        for x in self.c {
            if let Tree::Leaf(MK::Str(n, v)) = x {
                if n == "name" {
                    r = Some(v.clone());
                }
            }
        }
        r
    }
    fn rules(&self, name: &str) -> Vec<Option<R>> {
        self.c
            .iter()
            .filter_map(|x| match x {
                Tree::Node(n, c) if n == name => Some(rule(c, self.strings)),
                _ => None,
            })
            .collect()
    }
}

/// The rule inside a `rule` or `by` node.
fn rule(c: &[Tree], strings: &[(String, String)]) -> Option<R> {
    let (kind, c) = match c {
        [Tree::Node(n, c)] => (n.as_str(), c),
        _ => return None,
    };
    let k = Kids { c, strings };
    let one = || k.rules("rule").into_iter().next().flatten().map(Box::new);
    Some(match kind {
        "whitespace" => R::Ws { opt: k.flag("optional")? },
        "until_any_or_whitespace" | "until_any" => R::Until {
            ws: kind != "until_any",
            any: k.set("any_characters")?,
            opt: k.flag("optional").unwrap_or(false),
            prop: k.set("property"),
        },
        "lines" => R::Lines { rule: one()?, indent: k.flag("indent").unwrap_or(false) },
        "repeat" => R::Rep { rule: one()?, opt: k.flag("optional")? },
        "number" => {
            R::Num { us: k.flag("underscore").unwrap_or(false), prop: k.set("property") }
        }
        "text" => {
            R::Text { empty: k.flag("allow_empty").unwrap_or(true), prop: k.set("property") }
        }
        "reference" => R::Node { name: k.name()?, prop: k.set("property"), idx: None },
        "sequence" => R::Seq(k.rules("rule").into_iter().flatten().collect()),
        "select" => R::Sel(k.rules("rule").into_iter().flatten().collect()),
        "separated_by" => R::Sep {
            by: Box::new(k.rules("by").into_iter().next().flatten()?),
            rule: one()?,
            opt: k.flag("optional").unwrap_or(true),
            trail: k.flag("allow_trail").unwrap_or(false),
        },
        "tag" => R::Tag {
            text: k.set("text")?,
            not: k.flag("not").unwrap_or(false),
            inv: k.flag("inverted").unwrap_or(false),
            prop: k.set("property"),
        },
        "optional" => R::Opt(one()?),
        "not" => R::Not(one()?),
        _ => return None,
    })
}

fn gram_of(v: &[ME]) -> Option<Gram> {
    let t = tree(v);
    let mut strings: Vec<(String, String)> = vec![];
    let mut g = Gram::default();
    for x in &t {
        match x {
            Tree::Node(n, c) if n == "string" && g.rules.is_empty() => {
                let (mut a, mut b) = (None, None);
                for y in c {
                    match y {
                        Tree::Leaf(MK::Str(n, v)) if n == "name" => a = Some(v.clone()),
                        Tree::Leaf(MK::Str(n, v)) if n == "text" => b = Some(v.clone()),
                        _ => return None,
                    }
                }
                strings.push((a?, b?));
            }
            Tree::Node(n, c) if n == "node" => {
                let k = Kids { c, strings: &strings };
                let r = k.rules("rule").into_iter().flatten().last()?;
                g.names.push(k.name()?);
                g.rules.push(r);
                g.ids.push(c.iter().rev().find_map(|x| match x {
                    Tree::Leaf(MK::Num(n, v)) if n == "id" => Some(*v as u64),
                    _ => None,
                })
                // too large to tell by its debug ids
                .filter(|n| *n < 1 << 50));
            }
            _ => return None,
        }
    }
    g.link();
    Some(g)
}

/// Reads a grammar text with the reference implementation.
pub fn grammar(text: &str) -> Res<Gram> {
    thread_local! {
        static META: std::cell::RefCell<Option<Rc<Gram>>> = const { std::cell::RefCell::new(None) };
        static CACHE: std::cell::RefCell<HashMap<String, Res<Rc<Gram>>>> =
            std::cell::RefCell::new(HashMap::new());
    }
    if let Some(r) = CACHE.with(|c| c.borrow().get(text).cloned()) {
        return match r {
            Res::Ok(g) => Res::Ok((*g).clone()),
            Res::Fail => Res::Fail,
            Res::Discard => Res::Discard,
        };
    }
    let meta = META.with(|m| m.borrow_mut().get_or_insert_with(|| Rc::new(self_syntax())).clone());
    let r = match parse_fuel(&meta, text, IND, 2_000_000) {
        Res::Ok(v) => match gram_of(&v) {
            Some(g) => Res::Ok(Rc::new(g)),
            None => Res::Fail,
        },
        Res::Fail => Res::Fail,
        Res::Discard => Res::Discard,
    };
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 2000 {
            c.clear();
        }
        c.insert(text.to_string(), r.clone());
    });
    match r {
        Res::Ok(g) => Res::Ok((*g).clone()),
        Res::Fail => Res::Fail,
        Res::Discard => Res::Discard,
    }
}

/// Metadata a grammar text has under the meta language (for conversion tests).
pub fn grammar_meta(text: &str) -> Res<Vec<ME>> {
    let g = self_syntax();
    parse_fuel(&g, text, IND, 2_000_000)
}

// ------------------------------------------------------------ the documented self syntax

pub const SELF: &str = include_str!("self.txt");

/// Reads the (known, well-formed) self syntax by hand.
pub fn self_syntax() -> Gram {
    let mut strings: Vec<(String, String)> = vec![];
    let mut g = Gram::default();
    let mut p = Hand { s: SELF.as_bytes(), i: 0, strings: vec![] };
    loop {
        p.ws();
        if p.i >= p.s.len() {
            break;
        }
        if p.s[p.i] == b'_' {
            p.i += 1;
            let n = p.ident();
            p.eat(":");
            p.ws();
            let t = p.quoted();
            strings.push((n, t));
            p.strings = strings.clone();
        } else {
            let a = p.i;
            while p.s[p.i].is_ascii_digit() {
                p.i += 1;
            }
            let id = std::str::from_utf8(&p.s[a..p.i]).unwrap().parse().ok();
            p.ws();
            let n = p.ident();
            p.ws();
            p.eat("=");
            p.ws();
            let r = p.rule();
            g.names.push(n);
            g.rules.push(r);
            g.ids.push(id);
        }
    }
    g.link();
    g
}

struct Hand<'a> {
    s: &'a [u8],
    i: usize,
    strings: Vec<(String, String)>,
}
impl<'a> Hand<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn at(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn try_eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn eat(&mut self, t: &str) {
        assert!(self.try_eat(t), "self syntax: expected {} at {}", t, self.i);
    }
    fn ident(&mut self) -> String {
        let a = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_')
        {
            self.i += 1;
        }
        String::from_utf8(self.s[a..self.i].to_vec()).unwrap()
    }
    fn quoted(&mut self) -> String {
        self.eat("\"");
        let mut o = String::new();
        while !self.at("\"") {
            if self.try_eat("\\") {
                o.push(match self.s[self.i] {
                    b'n' => '\n',
                    c => c as char,
                });
            } else {
                o.push(self.s[self.i] as char);
            }
            self.i += 1;
        }
        self.i += 1;
        o
    }
    fn set(&mut self) -> String {
        if self.try_eat("_") {
            let n = self.ident();
            self.strings.iter().find(|s| s.0 == n).unwrap().1.clone()
        } else {
            self.quoted()
        }
    }
    fn prop(&mut self) -> Option<String> {
        if self.try_eat(":") {
            Some(self.set())
        } else {
            None
        }
    }
    fn opt(&mut self) -> bool {
        if self.try_eat("?") {
            true
        } else {
            self.eat("!");
            false
        }
    }
    fn many(&mut self, end: &str) -> Vec<R> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.try_eat(end) {
                return v;
            }
            v.push(self.rule());
        }
    }
    fn boxed(&mut self) -> Box<R> {
        self.ws();
        Box::new(self.rule())
    }
    fn close(&mut self) {
        self.ws();
        self.eat(")");
    }
    fn rule(&mut self) -> R {
        if self.try_eat("[") {
            return R::Seq(self.many("]"));
        }
        if self.try_eat("{") {
            return R::Sel(self.many("}"));
        }
        if self.try_eat("...") {
            let any = self.set();
            let opt = self.opt();
            return R::Until { ws: false, any, opt, prop: self.prop() };
        }
        if self.try_eat("..") {
            let any = self.set();
            let opt = self.opt();
            return R::Until { ws: true, any, opt, prop: self.prop() };
        }
        if self.try_eat(".w") {
            return R::Ws { opt: self.opt() };
        }
        if self.try_eat(".$") {
            let us = self.try_eat("_");
            return R::Num { us, prop: self.prop() };
        }
        if self.try_eat(".t") {
            let empty = self.opt();
            return R::Text { empty, prop: self.prop() };
        }
        if self.try_eat(".r") {
            let opt = self.opt();
            self.eat("(");
            let rule = self.boxed();
            self.close();
            return R::Rep { rule, opt };
        }
        if self.try_eat(".l") {
            let indent = self.try_eat("+");
            self.eat("(");
            let rule = self.boxed();
            self.close();
            return R::Lines { rule, indent };
        }
        if self.try_eat(".s") {
            let opt = self.opt();
            let trail = self.try_eat(".");
            self.eat("(");
            let by = self.boxed();
            let rule = self.boxed();
            self.close();
            return R::Sep { rule, by, opt, trail };
        }
        if self.try_eat("?") {
            return R::Opt(self.boxed());
        }
        let not = self.try_eat("!");
        if not && !self.at("\"") && !self.at("_") {
            return R::Not(self.boxed());
        }
        if self.at("\"") || self.at("_") {
            let text = self.set();
            let mut inv = false;
            let mut prop = None;
            if self.try_eat(":") {
                inv = self.try_eat("!");
                prop = Some(self.set());
            }
            return R::Tag { text, not, inv, prop };
        }
        let name = self.ident();
        R::Node { name, prop: self.prop(), idx: None }
    }
}

// ------------------------------------------------------------ JSON

pub fn json_string(s: &mut String, v: &str) {
    s.push('"');
    for c in v.chars() {
        match c {
            '\\' => s.push_str("\\\\"),
            '"' => s.push_str("\\\""),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            c => s.push(c),
        }
    }
    s.push('"');
}

/// The JSON text of metadata that is balanced, or the tail of such a list
/// (indentation then starts where it ends at nothing).
pub fn json(v: &[ME]) -> String {
    let mut s = String::new();
    let starts = v.iter().filter(|e| matches!(e.k, MK::Start(_))).count();
    let ends = v.iter().filter(|e| matches!(e.k, MK::End(_))).count();
    let mut depth = ends.saturating_sub(starts);
    let mut first = true;
    for (i, e) in v.iter().enumerate() {
        let end = matches!(e.k, MK::End(_));
        if end {
            depth -= 1;
        }
        if i > 0 {
            s.push_str(if !first && !end { ",\n" } else { "\n" });
        }
        first = false;
        for _ in 0..depth {
            s.push(' ');
        }
        match &e.k {
            MK::Start(n) => {
                json_string(&mut s, n);
                s.push_str(":{");
                depth += 1;
                first = true;
            }
            MK::End(_) => s.push('}'),
            MK::Bool(n, b) => {
                json_string(&mut s, n);
                write!(s, ":{}", b).unwrap();
            }
            MK::Num(n, x) => {
                json_string(&mut s, n);
                write!(s, ":{}", x).unwrap();
            }
            MK::Str(n, t) => {
                json_string(&mut s, n);
                s.push(':');
                json_string(&mut s, t);
            }
        }
    }
    s.push('\n');
    s
}

pub fn balanced(v: &[ME]) -> bool {
    let mut st: Vec<&str> = vec![];
    for e in v {
        match &e.k {
            MK::Start(n) => st.push(n),
            MK::End(n) => {
                if st.pop() != Some(n) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}

// ------------------------------------------------------------ error reports

/// Kinds of errors a plan can report: (message, is it a missing token).
pub const ERR_KINDS: i64 = 21;
pub fn err_text(kind: i64, id: i64, text: &str) -> (String, bool) {
    let m = match kind {
        0 => format!("#{}, Expected whitespace", id),
        1 => format!("#{}, Expected new line", id),
        2 => format!("#{}, Expected something", id),
        3 => format!("#{}, Expected number", id),
        4 => format!("#{}, Invalid number format: The number was empty", id),
        5 => format!(
            "#{}, Invalid number format: {}",
            id,
            read_token::ParseNumberError::Invalid
        ),
        6 => format!("#{}, Expected text", id),
        7 => format!("#{}, Empty text not allowed", id),
        8 => format!(
            "#{}, Invalid string format: {}",
            id,
            read_token::ParseStringError::ExpectedHexadecimal
        ),
        9..=12 => format!("#{}, Expected: `{}`", id, text),
        13 => format!("#{}, Did not expect: `{}`", id, text),
        14 => format!("#{}, Invalid rule: bad rule", id),
        15 => "No rules are specified".into(),
        16 => "Expected end".into(),
        _ => format!("Conversion, {}", text),
    };
    let m = if kind == 4 {
        format!("#{}, Invalid number format: {}", id, read_token::ParseNumberError::ExpectedDigits)
    } else {
        m
    };
    (m, (9..=12).contains(&kind))
}

/// The report for an error (`msg` = false) or a plain message (`msg` = true)
/// about bytes `off..off+len` of `text`.
pub fn report(text: &str, off: usize, len: usize, message: &str, tag: bool, msg: bool) -> String {
    let mut s = String::new();
    if msg {
        writeln!(s, "{}", message).unwrap();
    } else {
        writeln!(s, "Error {}", message).unwrap();
    }
    let mut lines: Vec<(usize, &str)> = vec![];
    let mut at = 0;
    for l in text.split('\n') {
        lines.push((at, l));
        at += l.len() + 1;
    }
    // lines touched by the range, ends included
    let touched: Vec<usize> = (0..lines.len())
        .filter(|&i| {
            let (a, l) = lines[i];
            !(a + l.len() < off || a > off + len)
        })
        .collect();
    if tag {
        if let Some(&f) = touched.first() {
            // from the last line before it that is not blank
            let mut from = 0;
            for i in (0..f).rev() {
                from = i;
                if !lines[i].1.chars().all(|c| c.is_whitespace()) {
                    break;
                }
            }
            for i in from..f {
                writeln!(s, "{}: {}", i + 1, lines[i].1).unwrap();
            }
        }
    }
    for (n, &i) in touched.iter().enumerate() {
        let (a, l) = lines[i];
        let col = off.max(a) - a;
        let skip = if col > 75 { col - 50 } else { 0 };
        let end = (skip + 100).min(l.len());
        let shown: String = l.chars().skip(skip).take(end - skip).collect();
        writeln!(s, "{},{}: {}", i + 1, col + 1, shown).unwrap();
        if n == 0 {
            let pad: String = l
                .chars()
                .skip(skip)
                .take(col - skip)
                .map(|c| if c == '\t' { '\t' } else { ' ' })
                .collect();
            writeln!(s, "{},{}: {}^", i + 1, col + 1, pad).unwrap();
        }
    }
    s
}

// ------------------------------------------------------------ conversion cursors

pub const CURSORS: usize = 4;

/// How many entries the next entry takes with what is in it; None where a
/// node ends that did not start.
pub fn skip(v: &[ME]) -> Option<usize> {
    let mut open = 0i64;
    let mut n = 0;
    for e in v {
        n += 1;
        match e.k {
            MK::Start(_) => open += 1,
            MK::End(_) => open -= 1,
            _ => {}
        }
        if open < 0 {
            return None;
        }
        if open == 0 {
            break;
        }
    }
    Some(n)
}

/// What a script over conversion cursors gives: for every step the text that
/// is logged, or None for a step that has no meaning there (an entry that
/// closes a node which is not open, a range that runs backwards).
pub fn walk(all: &[ME], sub: &[[i64; 4]], text: &dyn Fn(i64) -> String) -> Vec<Option<String>> {
    // (start of the slice it was made for, position in it)
    let mut reg = [(0usize, 0usize); CURSORS];
    let mut out = vec![];
    for l in sub {
        let i = l[1] as usize % CURSORS;
        let (b, p) = reg[i];
        let e = all.get(b + p);
        let hit = |m: Option<String>| -> (Option<String>, usize) {
            match m {
                Some(v) => (Some(format!("{},1 {}", p, v)), 1),
                None => (Some("-".into()), 0),
            }
        };
        let name = || text(l[2]);
        let (log, step) = match l[0] {
            0 => {
                reg[l[2] as usize % CURSORS] = (b, p);
                (Some(String::new()), 0)
            }
            1 => hit(e.and_then(|e| match &e.k {
                MK::Start(n) if *n == name() => Some(String::new()),
                _ => None,
            })),
            2 => hit(e.and_then(|e| match &e.k {
                MK::End(n) if *n == name() => Some(String::new()),
                _ => None,
            })),
            3 => hit(e.and_then(|e| match &e.k {
                MK::Bool(n, v) if *n == name() => Some(v.to_string()),
                _ => None,
            })),
            4 => hit(e.and_then(|e| match &e.k {
                MK::Num(n, v) if *n == name() => Some(format!("{:x}", v.to_bits())),
                _ => None,
            })),
            5 => hit(e.and_then(|e| match &e.k {
                MK::Str(n, v) if *n == name() => Some(v.clone()),
                _ => None,
            })),
            6 => match skip(&all[b + p..]) {
                None => (None, 0),
                Some(n) => (Some(format!("{},{}", p, n)), n),
            },
            7 | 8 => {
                let (b2, p2) = reg[l[2] as usize % CURSORS];
                if b != b2 || (l[0] == 7 && p < p2) {
                    (None, 0)
                } else if l[0] == 7 {
                    (Some(format!("{},{}", p2, p - p2)), 0)
                } else if p <= p2 {
                    (Some("none".into()), 0)
                } else {
                    let from = all[b + p2].off;
                    let to = all[b + p - 1].off + all[b + p - 1].len;
                    if to < from {
                        (None, 0)
                    } else {
                        (Some(format!("{},{}", from, to - from)), 0)
                    }
                }
            }
            9 => (Some(format!("left {}", all.len() - b - p)), 0),
            10 => {
                reg[i] = (l[2] as usize % (all.len() + 1), 0);
                (Some(String::new()), 0)
            }
            11 => {
                let (b2, p2) = reg[l[2] as usize % CURSORS];
                if b != b2 || p2 < p {
                    (None, 0)
                } else {
                    reg[i] = (b2, p2);
                    (Some(format!("{},{}", p, p2 - p)), 0)
                }
            }
            _ => (Some(String::new()), 0),
        };
        if log.is_some() && l[3] == 1 && (1..=6).contains(&l[0]) {
            reg[i].1 += step;
        }
        out.push(log);
    }
    out
}
