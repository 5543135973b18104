//! Generation of inputs: grammars, documents, metadata, search scripts.

use crate::model::{self, Gram, Ind, Res, ME, MK, R};
use crate::rng::Rng;

const TAGS: [&str; 26] = [
    "a", "b", "c", "ab", "ac", "aa", "x", "(", ")", ",", ";", ":", "=", "{", "}", "[", "]", "é",
    "日本", "日", "-", "+", "if", "else", "true", "*",
];
const NAMES: [&str; 14] = [
    "n", "item", "expr", "stmt", "list", "obj", "key", "val", "arg", "ñ", "b2", "fn_x", "t", "w",
];
const PROPS: [&str; 10] = ["p", "q", "name", "value", "on", "off", "é", "num", "txt", "rest"];

/// Quotes a string for the meta language.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Something that can be the name of a rule.
fn ident(r: &mut Rng) -> String {
    let n = 1 + r.log(40) as usize;
    (0..n).map(|_| *r.pick(&['a', 'b', 'x', 'é', '_', '7', '-', '日', 'Z', '$', '+'])).collect()
}

struct Gg<'r> {
    r: &'r mut Rng,
    names: Vec<String>,
    cons: Vec<bool>,
    strings: Vec<String>,
    cur: usize,
    budget: i32,
    lines: bool,
}

impl<'r> Gg<'r> {
    fn sp(&mut self) -> &'static str {
        match self.r.below(12) {
            0 => "\n  ",
            1 => "  ",
            2 => "\t",
            _ => " ",
        }
    }
    fn sp0(&mut self) -> &'static str {
        match self.r.below(8) {
            0 => " ",
            1 => "\n ",
            _ => "",
        }
    }
    fn set(&mut self, s: &str) -> String {
        if !self.strings.is_empty() && self.r.chance(1, 6) {
            let i = self.r.below(self.strings.len());
            return format!("_{}", self.strings[i]);
        }
        quote(s)
    }
    fn prop(&mut self) -> String {
        match self.r.below(5) {
            0 => String::new(),
            _ => {
                let p = *self.r.pick(&PROPS);
                format!(":{}", self.set(p))
            }
        }
    }
    fn nodes(&self, cons: bool, guarded: bool) -> Vec<usize> {
        (0..self.names.len())
            .filter(|&i| (guarded || i < self.cur) && (!cons || self.cons[i]))
            .collect()
    }
    fn rule(&mut self, cons: bool, guarded: bool, depth: u32) -> String {
        self.budget -= 1;
        let leaf = depth == 0 || self.budget <= 0;
        loop {
            let k = if leaf { self.r.below(7) } else { self.r.below(17) };
            match k {
                0 | 1 => {
                    let t = *self.r.pick(&TAGS);
                    let t = self.set(t);
                    let not = !cons && self.r.chance(1, 8);
                    let p = match self.r.below(4) {
                        0 | 1 => String::new(),
                        2 => format!(":!{}", self.set("off")),
                        _ => self.prop(),
                    };
                    return format!("{}{}{}", if not { "!" } else { "" }, t, p);
                }
                2 => {
                    if cons && self.r.chance(1, 2) {
                        continue;
                    }
                    return if cons || self.r.chance(1, 3) { ".w!" } else { ".w?" }.into();
                }
                3 => {
                    let mut any = String::new();
                    for _ in 0..self.r.below(4) {
                        any.push_str(self.r.pick(&TAGS));
                    }
                    let opt = if cons || self.r.chance(2, 3) { "!" } else { "?" };
                    let dots = if self.r.chance(2, 3) { ".." } else { "..." };
                    let any = self.set(&any);
                    return format!("{}{}{}{}", dots, any, opt, self.prop());
                }
                4 => {
                    let o = if self.r.chance(1, 2) { "?" } else { "!" };
                    return format!(".t{}{}", o, self.prop());
                }
                5 => {
                    let o = if self.r.chance(1, 3) { "_" } else { "" };
                    return format!(".${}{}", o, self.prop());
                }
                6 | 7 => {
                    let v = self.nodes(cons, guarded);
                    if v.is_empty() {
                        continue;
                    }
                    let i = *self.r.pick(&v);
                    let n = self.names[i].clone();
                    if self.r.chance(1, 60) {
                        return format!("missing_{}{}", n, self.prop());
                    }
                    return format!("{}{}", n, self.prop());
                }
                8 | 9 | 10 => {
                    let n = self.r.range(1, 4);
                    let at = if cons { self.r.below(n) } else { n };
                    let mut g = guarded;
                    let mut s = String::from("[");
                    s.push_str(self.sp0());
                    for i in 0..n {
                        if i > 0 {
                            s.push_str(self.sp());
                        }
                        // a leading token makes room for recursion
                        let c = i == at || self.r.chance(1, 3);
                        let x = self.rule(c, g, depth - 1);
                        s.push_str(&x);
                        g |= c;
                    }
                    s.push_str(self.sp0());
                    s.push(']');
                    return s;
                }
                11 | 12 => {
                    let n = if self.r.chance(1, 10) { self.r.range(4, 14) } else { self.r.range(1, 4) };
                    let mut s = String::from("{");
                    s.push_str(self.sp0());
                    for i in 0..n {
                        if i > 0 {
                            s.push_str(self.sp());
                        }
                        let x = self.rule(cons, guarded, depth - 1);
                        s.push_str(&x);
                    }
                    s.push_str(self.sp0());
                    s.push('}');
                    return s;
                }
                13 => {
                    let o = if cons || self.r.chance(1, 2) { "!" } else { "?" };
                    let t = if self.r.chance(1, 2) { "." } else { "" };
                    let x = self.rule(true, guarded, depth - 1);
                    let c = self.r.chance(3, 4);
                    let by = self.rule(c, guarded, depth - 1);
                    let (a, b, c) = (self.sp0(), self.sp(), self.sp0());
                    return format!(".s{}{}({}{}{}{}{})", o, t, a, by, b, x, c);
                }
                14 => {
                    let o = if cons || self.r.chance(1, 2) { "!" } else { "?" };
                    let x = self.rule(true, guarded, depth - 1);
                    return format!(".r{}({})", o, x);
                }
                15 => {
                    if cons {
                        continue;
                    }
                    if self.lines && self.r.chance(1, 2) {
                        let p = if self.r.chance(1, 2) { "+" } else { "" };
                        let x = self.rule(true, guarded, depth - 1);
                        return format!(".l{}({})", p, x);
                    }
                    let c = self.r.chance(1, 2);
                    let x = self.rule(c, guarded, depth - 1);
                    return format!("?{}", x);
                }
                _ => {
                    if cons {
                        continue;
                    }
                    let x = self.rule(true, guarded, depth - 1);
                    return format!("![{}]", x);
                }
            }
        }
    }
}

/// A random grammar text; `size` bounds the number of rules in a node.
/// Rule numbers that few grammars have.
const NUMBERS: [&str; 14] = [
    "1e300", "1e3", "2.75", "-3", "007", "0", "18446744073709551", "18446744073709552", "9223372036854775808",
    "18446744073709551615", "18446744073709551616", "99999999999999999999", "4294967296", "1e-5",
];

pub fn grammar_text(r: &mut Rng, size: i32) -> String {
    let mut s = String::new();
    let mut strings = vec![];
    if r.chance(1, 3) {
        for i in 0..r.range(1, 2) {
            let v: &str = if r.chance(1, 2) { *r.pick(&PROPS) } else { *r.pick(&TAGS) };
            s.push_str(&format!("_s{}: {}\n", i, quote(v)));
            strings.push(format!("s{}", i));
        }
        if r.chance(1, 8) {
            strings.push("nosuch".into());
        }
    }
    let n = if r.chance(1, 8) { r.range(4, 12) } else { r.range(1, 4) };
    let mut names: Vec<String> = vec![];
    let twice = r.chance(1, 40);
    while names.len() < n {
        let x = if r.chance(1, 6) { ident(r) } else { r.pick(&NAMES).to_string() };
        if twice || !names.contains(&x) {
            names.push(x);
        }
    }
    let (first, step) = if r.chance(1, 6) { (r.log(5000) as usize, r.log(300) as usize) } else { (0, 1) };
    let odd = r.chance(1, 24);
    let cons: Vec<bool> = (0..n).map(|_| r.chance(2, 3)).collect();
    for i in 0..n {
        if r.chance(1, 8) {
            s.push_str(r.pick(&["// a comment é\n", "/* x\n y * / */\n", "\n", "// \"n\" = [\n"]));
        }
        let lines = r.chance(1, 3);
        let mut g = Gg {
            r,
            names: names.clone(),
            cons: cons.clone(),
            strings: strings.clone(),
            cur: i,
            budget: size,
            lines,
        };
        let t = g.rule(cons[i], false, 3);
        let id = match odd && r.chance(1, 2) {
            true => (*r.pick(&NUMBERS)).to_string(),
            false => (first + i * step).to_string(),
        };
        s.push_str(&format!("{} {} = {}\n", id, names[i], t));
    }
    if r.chance(1, 6) {
        s.pop();
    }
    s
}

pub const FIXED: [&str; 16] = [
    "0 a = \"a\"",
    "1 doc = .s!(\",\" [.w? {.$:\"n\" .t?:\"t\" \"true\":\"b\" \"false\":!\"b\"} .w?])",
    "1 say = [\"say\" .w! .t?:\"foo\"]\n2 doc = .l([.w? {say:\"say\" \"skip\":\"skip\"}])",
    "1 val = {.$:\"num\" .t?:\"str\" arr:\"arr\" obj:\"obj\" \"true\":\"bool\" \"false\":!\"bool\"}\n\
     2 arr = [\"[\" .w? .s?([\",\" .w?] val:\"item\") .w? \"]\"]\n\
     3 pair = [.t!:\"key\" .w? \":\" .w? val:\"val\"]\n\
     4 obj = [\"{\" .w? .s?([\",\" .w?] pair:\"pair\") .w? \"}\"]\n5 doc = [.w? val:\"val\" .w?]",
    "1 item = [\"-\" .w! ..\"\n\"!:\"name\" ?.l+(item:\"item\")]\n2 doc = .l+(item:\"item\")",
    "_e: \"expr\"\n1 term = {.$:\"n\" [\"(\" .w? expr:_e .w? \")\"]}\n\
     2 prod = .s!([.w? {\"*\":\"mul\" \"/\":\"div\"} .w?] term:\"term\")\n\
     3 expr = .s!([.w? {\"+\":\"add\" \"-\":\"sub\"} .w?] prod:\"prod\")\n4 doc = [.w? expr:_e .w?]",
    "1 w = ..\" ,.\"!:\"w\"\n2 doc = .r!({[\"a\" w:\"aw\" \"!\"] [\"a\" w:\"bw\" \"?\"] w:\"cw\" .w! \",\" \".\" \"!\" \"?\"})",
    "1 k = {\"ab\":\"ab\" \"a\":\"a\" \"b\":!\"b\" .w?}\n2 doc = [k:\"k\" k:\"k\" .r?([!\"z\" ..\"z\"!:\"m\"]) ?\"z\":\"z\"]",
    "0 f = {\"a\":\"a\" [\"b\" .$:\"n\"] [\"c\" .t?:\"t\"] .w?}\n1 doc = .s?.(\";\" [\"=\" f:\"f\"])",
    "1 x = [\"a\" ?[\"(\" x:\"x\" \")\"]]",
    "1 item = [..\" \n:\"!:\"name\" ?[\":\" .w?] ?.t!:\"text\" .w? ?.l+(item:\"item\")]\n2 doc = .l+(item:\"item\")",
    "1 e = {[\"(\" .s?.([.w? \",\" .w?] e:\"e\") \")\"] .$:\"n\" missing:\"m\"}\n2 doc = .r!([e:\"e\" ?\";\"])",
    "1 if = [\"if\" .w! .t!:\"cond\" .w? block:\"then\" ?[.w? \"else\" .w? {if:\"elif\" block:\"else\"}]]\n\
     2 block = [\"{\" .w? .r?([{if:\"if\" [..\"{};\"!:\"stmt\" \";\"]} .w?]) \"}\"]\n3 doc = [.w? .r!([if:\"if\" .w?])]",
    "0 é = [\"é\":\"é\" ...\"日\"?:\"rest\" ?\"日\":\"end\"]\n1 doc = .r?(é:\"é\")",
    "1 n = [\"a\" .$:\"n\"]\n\
     2 b = [\"b\" ?.l+(n:\"n\") ?.l+({b:\"b\" .t!:\"t\"}) ?.l([.w? \"c\" .w? .t?:\"c\"])]\n3 doc = .l+({b:\"b\" n:\"n\"})",
    "1 v = {.t!:\"t\" [.t? \"x\":\"x\"] [\"\\\"\" ..\"\\\"\"!:\"q\"] .$:\"n\"}\n\
     2 doc = .s?(\",\" {[v:\"v\" ?.t!:\"u\" ?\"y\" !\"no\"] [\"\\\"\" .t!:\"w\"]})",
];

/// A grammar the model can read and that cannot recurse without consuming.
pub fn grammar(r: &mut Rng, size: i32) -> (String, Gram) {
    loop {
        let t = match r.below(20) {
            0..=6 => r.pick(&FIXED).to_string(),
            7 if r.chance(1, 12) => model::SELF.to_string(),
            _ => grammar_text(r, size),
        };
        if let Res::Ok(g) = model::grammar(&t) {
            if !g.left_recursive() {
                return (t, g);
            }
        }
    }
}

fn number(r: &mut Rng) -> String {
    match r.below(10) {
        9 => [
            "1e400", "-1e400", ".5", "5.", "-", "0x10", "1e", "1e-400", "inf", "-inf", "infinity", "00012", "+5",
            "1__0", "-_1", "_1", "1.2.3", "--1", "1e5e5", "0.1e+3", "4.9e-324", "1.7976931348623159e308",
        ][r.below(22)].into(),
        8 => {
            let n = 1 + r.log(400) as usize;
            (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
        }
        0 => r.below(10).to_string(),
        1 => format!("-{}", r.below(1000)),
        2 => format!("{}.{}", r.below(100), r.below(1000)),
        3 => format!("{}e{}", r.below(100), r.below(20)),
        4 => format!("{}.5E-{}", r.below(100), r.below(12)),
        5 => "1_000".into(),
        6 => "NaN".into(),
        7 => r.next().to_string(),
        _ => format!("{}", r.below(100000)),
    }
}

pub fn chars(r: &mut Rng, n: usize, avoid: &str) -> String {
    const C: [char; 20] = [
        'a', 'b', 'c', 'x', 'y', '1', '0', '-', '(', ',', 'é', '日', 'ß', '𝄞', '.', ';', '"', '\\',
        '_', '\u{301}',
    ];
    const RARE: [char; 24] = [
        '\u{0}', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{1f}', '\u{7f}', '\u{80}',
        '\u{9f}', '\u{ad}', '\u{2bc}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{d7ff}', '\u{e000}',
        '\u{fdd0}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
    ];
    let rare = r.chance(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        let c = if rare && r.chance(1, 3) { *r.pick(&RARE) } else { *r.pick(&C) };
        if !avoid.contains(c) {
            s.push(c);
        }
    }
    s
}

fn quoted(r: &mut Rng) -> String {
    let n = r.below(6);
    let s = chars(r, n, "");
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str(["\\\\", "\\n", "\\u00e9", "\\t"][r.below(4)]),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The shape of a document.
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Any,
    /// Nested to about this depth.
    Deep(u32),
    /// Repeated about so often.
    Long(usize),
}

struct Der<'a> {
    g: &'a Gram,
    r: &'a mut Rng,
    out: String,
    cap: usize,
    indent: usize,
    shape: Shape,
    /// Rules that contain themselves.
    looping: Vec<bool>,
    tabs: bool,
}

fn refs(x: &R, out: &mut Vec<usize>) {
    match x {
        R::Node { idx: Some(i), .. } => out.push(*i),
        R::Sel(v) | R::Seq(v) => v.iter().for_each(|x| refs(x, out)),
        R::Sep { rule, by, .. } => {
            refs(rule, out);
            refs(by, out);
        }
        R::Rep { rule, .. } | R::Lines { rule, .. } => refs(rule, out),
        R::Opt(x) => refs(x, out),
        _ => {}
    }
}

/// Which rules contain themselves.
fn looping(g: &Gram) -> Vec<bool> {
    let n = g.rules.len();
    let direct: Vec<Vec<usize>> = g
        .rules
        .iter()
        .map(|x| {
            let mut v = vec![];
            refs(x, &mut v);
            v
        })
        .collect();
    (0..n)
        .map(|i| {
            let mut seen = vec![false; n];
            let mut todo = direct[i].clone();
            while let Some(j) = todo.pop() {
                if !seen[j] {
                    seen[j] = true;
                    todo.extend(&direct[j]);
                }
            }
            seen[i]
        })
        .collect()
}

impl<'a> Der<'a> {
    /// Whether `x` leads to a rule that contains itself.
    fn loops(&self, x: &R) -> bool {
        let mut v = vec![];
        refs(x, &mut v);
        v.iter().any(|&i| self.looping[i])
    }
    /// How often to repeat `x`.
    fn times(&mut self, x: &R, opt: bool, depth: u32) -> usize {
        match self.shape {
            Shape::Deep(d) => {
                if self.loops(x) {
                    (!opt || depth < d) as usize
                } else {
                    (!opt || self.r.chance(1, 4)) as usize
                }
            }
            Shape::Long(n) if depth < 6 => self.r.range(1, n),
            _ if opt && (depth > 8 || self.r.chance(1, 4)) => 0,
            _ => self.r.range(1, 3),
        }
    }
    fn go(&mut self, x: &R, depth: u32) {
        let most = match self.shape {
            Shape::Deep(d) => d + 30,
            _ => 60,
        };
        if self.out.len() > self.cap || depth > most {
            return;
        }
        match x {
            R::Ws { opt } => {
                if !opt || self.r.chance(1, 3) {
                    let w = *self.r.pick(&[" ", " ", " ", " ", "\n", "\n", "  ", "\t", " \n ", "\r\n", "\r"]);
                    self.out.push_str(w);
                }
            }
            R::Tag { text, not, .. } => {
                if !not {
                    self.out.push_str(text)
                }
            }
            R::Until { ws, any, .. } => {
                let n = if self.r.chance(1, 40) { 1 + self.r.log(600) as usize } else { self.r.range(1, 5) };
                let mut s = chars(self.r, n, any);
                if s.is_empty() {
                    s.push(if any.contains('k') { 'z' } else { 'k' });
                }
                if !ws && self.r.chance(1, 4) && !any.contains(' ') {
                    s.push(' ');
                }
                self.out.push_str(&s);
            }
            R::Text { .. } => {
                let s = quoted(self.r);
                self.out.push_str(&s);
            }
            R::Num { .. } => {
                let s = number(self.r);
                self.out.push_str(&s);
            }
            R::Sel(v) => {
                if !v.is_empty() {
                    let i = match self.shape {
                        Shape::Deep(d) => {
                            let c: Vec<usize> =
                                (0..v.len()).filter(|&i| self.loops(&v[i]) == (depth < d)).collect();
                            if c.is_empty() { 0 } else { *self.r.pick(&c) }
                        }
                        _ if depth > 12 => 0,
                        _ => self.r.below(v.len()),
                    };
                    self.go(&v[i], depth + 1)
                }
            }
            R::Seq(v) => v.iter().for_each(|x| self.go(x, depth + 1)),
            R::Sep { rule, by, opt, trail } => {
                let n = self.times(rule, *opt, depth);
                for i in 0..n {
                    if i > 0 {
                        self.go(by, depth + 1);
                    }
                    self.go(rule, depth + 1);
                }
                if n > 0 && self.r.chance(if *trail { 3 } else { 1 }, 8) {
                    self.go(by, depth + 1);
                }
            }
            R::Rep { rule, opt } => {
                let n = self.times(rule, *opt, depth);
                for _ in 0..n {
                    self.go(rule, depth + 1);
                }
            }
            R::Lines { rule, indent } => {
                let n = match self.shape {
                    Shape::Deep(_) => 1,
                    Shape::Long(n) if depth < 6 => self.r.range(1, n),
                    _ if depth > 8 => 1,
                    _ => self.r.range(1, 3),
                };
                let old = self.indent;
                if *indent && !self.out.is_empty() {
                    self.indent += 1 + self.r.below(3);
                    self.out.push('\n');
                } else if *indent && self.r.chance(1, 4) {
                    self.indent = self.r.below(5);
                }
                for i in 0..n {
                    if i > 0 {
                        self.out.push('\n');
                        if self.r.chance(1, 6) {
                            self.out.push('\n');
                        }
                    }
                    if *indent {
                        let mut w = self.indent;
                        if self.r.chance(1, 20) {
                            w = self.r.below(8);
                        }
                        for _ in 0..w {
                            self.out.push(if self.tabs { '\t' } else { ' ' });
                        }
                    }
                    self.go(rule, depth + 1);
                }
                if self.r.chance(1, 3) {
                    self.out.push('\n');
                }
                self.indent = old;
            }
            R::Node { idx, .. } => {
                if let Some(i) = idx {
                    let g = self.g;
                    self.go(&g.rules[*i], depth + 1)
                }
            }
            R::Opt(x) => {
                let take = match self.shape {
                    Shape::Deep(d) if self.loops(x) => depth < d,
                    _ => depth < 10 && self.r.chance(1, 2),
                };
                if take {
                    self.go(x, depth + 1)
                }
            }
            R::Not(_) => {}
        }
    }
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(v.len() + 1);
        match r.below(7) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 => {
                let c = r.pick(&TAGS).chars().next().unwrap();
                v.insert(i, c);
            }
            2 if i < v.len() => {
                v[i] = *r.pick(&['a', ' ', '"', '(', 'é', '\n', '1', '日']);
            }
            3 => v.truncate(i),
            4 if !v.is_empty() => {
                let j = r.below(v.len());
                let k = (j + r.range(1, 4)).min(v.len());
                let w: Vec<char> = v[j..k].to_vec();
                let at = i.min(v.len());
                v.splice(at..at, w);
            }
            5 => v.insert(i, *r.pick(&[' ', '\n', '\t'])),
            _ => v.push(*r.pick(&['é', 'x', '日', ' '])),
        }
    }
    v.into_iter().collect()
}

/// A text of the same length that differs from `s` in a few places.
pub fn twin(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if v.is_empty() {
        return String::new();
    }
    for _ in 0..r.range(1, 2) {
        let i = r.below(v.len());
        let w: &[char] = match v[i].len_utf8() {
            1 if v[i].is_ascii_digit() => &['0', '3', '7', '9'],
            1 => &['a', 'b', 'x', ' ', ',', '(', '1', '"'],
            2 => &['é', 'ß'],
            3 => &['日', '本'],
            _ => &['𝄞', '𝄟'],
        };
        v[i] = *r.pick(w);
    }
    v.into_iter().collect()
}

/// Non-ASCII white space is outside what the text-splitting dependency
/// handles; it is not simulated.
pub fn odd_space(s: &str) -> bool {
    s.chars().any(|c| !c.is_ascii() && c.is_whitespace())
}

/// A document for the grammar, often valid, of at most about `cap` bytes.
pub fn document(r: &mut Rng, g: &Gram, cap: usize, ind: Ind) -> String {
    document_of(r, g, cap, ind, 500)
}

/// The same, nested no deeper than about `deepest`.
pub fn document_of(r: &mut Rng, g: &Gram, cap: usize, ind: Ind, deepest: u32) -> String {
    let shape = match r.below(24) {
        0 | 1 => Shape::Deep(20 + r.log(deepest as u64) as u32),
        2 => Shape::Long(2 + r.log(40) as usize),
        _ => Shape::Any,
    };
    shaped(r, g, cap, ind, shape)
}

/// A nested document, if the grammar has any.
pub fn deep_document(r: &mut Rng, g: &Gram, deepest: u32, ind: Ind) -> String {
    let d = 20 + r.log(deepest as u64) as u32;
    shaped(r, g, 100, ind, Shape::Deep(d))
}

fn shaped(r: &mut Rng, g: &Gram, cap: usize, ind: Ind, mut shape: Shape) -> String {
    let looping = looping(g);
    if matches!(shape, Shape::Deep(_)) && !looping.iter().any(|&x| x) {
        shape = Shape::Any;
    }
    for i in 0..40 {
        if i == 12 {
            shape = Shape::Any;
        }
        let cap = match shape {
            Shape::Any => cap,
            Shape::Deep(d) => cap.max(d as usize * 6),
            Shape::Long(_) => cap * 10,
        };
        let tabs = r.chance(1, 10);
        let looping = looping.clone();
        let mut d = Der { g, r, out: String::new(), cap, indent: 0, shape, looping, tabs };
        if let Some(x) = g.rules.last() {
            d.go(x, 0);
        }
        let mut s = d.out;
        if r.chance(1, 3) {
            s = mutate(r, &s);
        }
        if s.len() <= cap * 2 && !odd_space(&s) && model::parse(g, &s, ind) != Res::Discard {
            return s;
        }
    }
    String::new()
}

/// As `document`, but tries to return one the model accepts.
pub fn good_document(r: &mut Rng, g: &Gram, cap: usize, ind: Ind) -> String {
    let mut last = String::new();
    for _ in 0..12 {
        last = document(r, g, cap, ind);
        if matches!(model::parse(g, &last, ind), Res::Ok(_)) {
            break;
        }
    }
    last
}

pub fn indent(r: &mut Rng) -> Ind {
    Ind { indent: r.below(4) as u32, align: r.chance(1, 2), tab: *r.pick(&[4u8, 2, 1, 8]) }
}

/// A grammar text that may be wrong in any way that is still safe to read.
pub fn any_grammar_text(r: &mut Rng, size: i32) -> String {
    loop {
        let (mut t, _) = grammar(r, size);
        if r.chance(1, 2) {
            t = mutate(r, &t);
        }
        if readable(&t) {
            return t;
        }
    }
}

/// Whether reading the text as a grammar has an outcome.
pub fn readable(t: &str) -> bool {
    if odd_space(t) {
        return false;
    }
    match model::grammar(t) {
        Res::Discard => false,
        Res::Ok(g) => !g.left_recursive(),
        _ => true,
    }
}

// ------------------------------------------------------------ metadata

fn word(r: &mut Rng) -> String {
    if r.chance(1, 60) {
        let n = r.log(700) as usize;
        return chars(r, n, "");
    }
    if r.chance(1, 14) {
        let n = r.range(2, 6);
        let v: Vec<&str> = (0..n).map(|_| *r.pick(&PROPS)).collect();
        return v.join("_");
    }
    match r.below(8) {
        0 => String::new(),
        1 => {
            let n = r.below(6);
            chars(r, n, "")
        }
        2 => ["\n", "\"", "\\", "\t\r", "\u{1}\u{7f}", "a\"b\\c\nd", "\u{2028}"][r.below(7)].into(),
        _ => r.pick(&PROPS).to_string(),
    }
}

/// A text that is easily taken for another.
pub fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    match r.below(6) {
        // another letter somewhere, mostly far from both ends
        0 | 1 if n > 0 => {
            let i = match r.below(4) {
                0 => n - 1,
                1 => n - 1 - (n - 1) / 4,
                _ => r.below(n),
            };
            c[i] = if c[i] == 'q' { 'k' } else { 'q' };
        }
        2 if n > 1 => {
            let i = r.below(n - 1);
            c.swap(i, i + 1);
        }
        3 if n > 0 => {
            let i = r.below(n);
            c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        }
        4 if n > 0 => {
            c.pop();
        }
        _ => c.push(*r.pick(&['x', ' ', 'q', '\u{0}'])),
    }
    c.into_iter().collect()
}

fn name_mut(e: &mut ME) -> &mut String {
    match &mut e.k {
        MK::Start(n) | MK::End(n) | MK::Bool(n, _) | MK::Num(n, _) | MK::Str(n, _) => n,
    }
}

/// Gives some nodes and entries the name of another, or one close to it;
/// keeps the nesting and the number of entries.
pub fn rename(r: &mut Rng, v: &mut Vec<ME>) {
    if v.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 4) {
        let (i, j) = (r.below(v.len()), r.below(v.len()));
        let mut name = name_of(&v[j]).to_string();
        if r.chance(1, 2) {
            name = near(r, &name);
        }
        if let (MK::Str(_, a), true) = (v[i].k.clone(), r.chance(1, 4)) {
            let a = near(r, &a);
            if let MK::Str(_, t) = &mut v[i].k {
                *t = a;
            }
        }
        // the other end of a node
        let mut at = i;
        let mut depth = 0;
        match v[i].k {
            MK::Start(_) => {
                for k in i..v.len() {
                    match v[k].k {
                        MK::Start(_) => depth += 1,
                        MK::End(_) => depth -= 1,
                        _ => {}
                    }
                    if depth == 0 {
                        at = k;
                        break;
                    }
                }
            }
            MK::End(_) => continue,
            _ => {}
        }
        *name_mut(&mut v[i]) = name.clone();
        if at != i {
            *name_mut(&mut v[at]) = name;
        }
    }
}

/// As many entries, close to those given.
pub fn vary(r: &mut Rng, v: &[ME]) -> Vec<ME> {
    let mut v = v.to_vec();
    if v.is_empty() {
        return v;
    }
    for _ in 0..r.range(1, 4) {
        let i = r.below(v.len());
        match r.below(5) {
            0 | 1 => rename(r, &mut v),
            2 => {
                // in another order, where nodes are not torn apart
                let ok = |e: &ME| !matches!(e.k, MK::Start(_) | MK::End(_));
                let j = r.below(v.len());
                if ok(&v[i]) && ok(&v[j]) {
                    let k = v[i].k.clone();
                    v[i].k = v[j].k.clone();
                    v[j].k = k;
                }
            }
            3 => match &mut v[i].k {
                MK::Bool(_, b) => *b = !*b,
                MK::Num(_, x) => *x = if *x == 1.0 { 2.0 } else { 1.0 },
                MK::Str(_, s) => *s = format!("{}z", s),
                _ => {}
            },
            _ => {
                v[i].off += 1;
            }
        }
    }
    v
}

pub fn float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::NAN,
        1 => [f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 5e-324][r.below(5)],
        2 => [-0.0, 0.0, -1.0, 9007199254740993.0][r.below(4)],
        3 => f64::from_bits(r.next()),
        4 => [1e300, 1e16, 1e-7, 123456789012345680.0, 1e21][r.below(5)],
        5 => 0.1 + r.below(100) as f64,
        _ => r.below(1000) as f64,
    }
}

/// Random metadata of about `n` entries: balanced, or the tail of such a list.
pub fn meta(r: &mut Rng, n: usize, big: usize) -> Vec<ME> {
    let mut v: Vec<ME> = vec![];
    let mut open: Vec<String> = vec![];
    if n > 0 && r.chance(1, 40) {
        // deep
        for _ in 0..r.log(300) {
            let w = word(r);
            v.push(ME { off: v.len(), len: 1, k: MK::Start(w.clone()) });
            open.push(w);
        }
    }
    for i in 0..n {
        let (off, len) = (i * 3, r.below(9));
        let k = match r.below(7) {
            0 | 1 => {
                let w = word(r);
                open.push(w.clone());
                MK::Start(w)
            }
            2 => match open.pop() {
                Some(w) => MK::End(w),
                None => MK::Bool(word(r), true),
            },
            3 => MK::Bool(word(r), r.chance(1, 2)),
            4 => MK::Num(word(r), float(r)),
            _ => {
                let mut t = word(r);
                if big > 0 && r.chance(1, 3) {
                    let m = r.log(big as u64) as usize;
                    while t.len() < m {
                        let w = chars(r, 12, "");
                        t.push_str(&w);
                        if r.chance(1, 40) {
                            t.push('\n');
                        }
                    }
                }
                MK::Str(word(r), t)
            }
        };
        v.push(ME { off, len, k });
    }
    let mut i = n;
    while let Some(w) = open.pop() {
        v.push(ME { off: i * 3, len: r.below(5), k: MK::End(w) });
        i += 1;
    }
    if r.chance(1, 3) {
        rename(r, &mut v);
    }
    if r.chance(1, 12) {
        let k = r.below(v.len() + 1);
        v.drain(..k);
    }
    v
}

/// Metadata of a grammar text, for conversion; sometimes damaged.
pub fn convert_meta(r: &mut Rng, size: i32) -> Vec<ME> {
    loop {
        let (t, g) = grammar(r, size);
        if g.left_recursive() {
            continue;
        }
        if let Res::Ok(mut v) = model::grammar_meta(&t) {
            if r.chance(1, 3) && !v.is_empty() {
                let i = r.below(v.len());
                match r.below(4) {
                    0 => v[i].k = MK::Bool("zzz".into(), true),
                    1 => v[i].k = MK::Str("name".into(), "renamed".into()),
                    2 => {
                        let e = ME { off: 1, len: 2, k: MK::Num("extra".into(), 1.0) };
                        v.insert(i, e);
                    }
                    _ => {
                        v.truncate(i);
                    }
                }
            }
            return v;
        }
    }
}

// ------------------------------------------------------------ search scripts

/// A script over `v`; text numbers come from `t`.
pub fn script(
    r: &mut Rng,
    v: &[ME],
    t: &mut dyn FnMut(&str) -> i64,
    faulty: bool,
) -> Vec<[i64; 4]> {
    let mut out = vec![];
    level(r, v, t, faulty, 0, 0, &mut out);
    out
}

fn name_of(e: &ME) -> &str {
    match &e.k {
        MK::Start(n) | MK::End(n) | MK::Bool(n, _) | MK::Num(n, _) | MK::Str(n, _) => n,
    }
}

fn level(
    r: &mut Rng,
    v: &[ME],
    t: &mut dyn FnMut(&str) -> i64,
    faulty: bool,
    mut at: usize,
    depth: u32,
    out: &mut Vec<[i64; 4]>,
) {
    let n = r.range(1, if depth == 0 { 10 } else { 4 });
    for _ in 0..n {
        let nested = depth < 3 && r.chance(1, 3);
        if !nested {
            let mut kind = r.below(5) as i64;
            let mut name = word(r);
            let mut hit = false;
            if let Some(e) = v.get(at) {
                if r.chance(7, 10) {
                    name = name_of(e).to_string();
                    kind = match e.k {
                        MK::Bool(..) => 0,
                        MK::Num(..) => 1,
                        MK::Str(..) => 2,
                        MK::Start(..) => 3,
                        MK::End(..) => 4,
                    };
                    hit = true;
                    if r.chance(1, 8) {
                        kind = (kind + 1) % 5;
                        hit = false;
                    } else if r.chance(1, 8) {
                        name = near(r, &name);
                        hit = false;
                    }
                }
            }
            out.push([kind, t(&name), 0, 0]);
            if hit {
                at += 1;
            }
        } else {
            let mut l = [10 + r.below(5) as i64, 0, 0, 0];
            let mut name = word(r);
            let mut val = word(r);
            let mut to = at;
            if !v.is_empty() && r.chance(4, 5) {
                let i = r.below(v.len());
                to = i + 1;
                name = name_of(&v[i]).to_string();
                match &v[i].k {
                    MK::Str(_, s) => {
                        l[0] = 10;
                        val = s.clone();
                    }
                    MK::Num(_, x) => {
                        l[0] = 11;
                        let near = if r.chance(1, 8) { r.range(1, 3) as u64 } else { 0 };
                        val = format!("0x{:x}", x.to_bits() ^ near);
                    }
                    MK::Bool(_, b) => {
                        l[0] = 12;
                        l[2] = *b as i64;
                    }
                    MK::Start(_) => l[0] = 13,
                    MK::End(_) => l[0] = 14,
                }
                if r.chance(1, 8) {
                    name = near(r, &name);
                } else if r.chance(1, 12) {
                    val = if l[0] == 10 { near(r, &val) } else { val };
                }
            } else if l[0] == 11 {
                val = "1".into();
            }
            l[1] = t(&name);
            if l[0] == 10 || l[0] == 11 {
                l[2] = t(&val);
            }
            out.push(l);
            if r.chance(3, 4) {
                level(r, v, t, faulty, to, depth + 1, out);
            }
            let how = if faulty { [0, 0, 1, 2][r.below(4)] } else { 0 };
            let e = if how != 1 || r.chance(1, 3) {
                0
            } else {
                r.below(8) as i64 + 8 * if r.chance(1, 2) { 0 } else { r.below(21) as i64 }
            };
            out.push([99, how, r.below(1000) as i64, e]);
        }
    }
}

/// A script over conversion cursors (see `model::walk`), most of whose steps
/// read what is there.
pub fn walk(r: &mut Rng, v: &[ME], t: &mut dyn FnMut(&str) -> i64, steps: usize) -> Vec<[i64; 4]> {
    let mut out: Vec<[i64; 4]> = vec![];
    let mut at = [(0usize, 0usize); model::CURSORS];
    for _ in 0..steps {
        let i = r.below(model::CURSORS).min(r.below(model::CURSORS));
        let j = r.below(model::CURSORS);
        let (b, p) = at[i];
        let mut l = [0, i as i64, 0, (r.chance(3, 4)) as i64];
        match r.below(12) {
            0 => {
                l[2] = j as i64;
                at[j] = at[i];
            }
            1 => {
                l[0] = 10;
                l[2] = if r.chance(1, 2) { 0 } else { r.below(v.len() + 1) as i64 };
                at[i] = (l[2] as usize, 0);
            }
            2 => {
                l[0] = 7 + r.below(2) as i64;
                l[2] = j as i64;
            }
            3 if r.chance(1, 2) => {
                l[0] = 11;
                l[2] = j as i64;
                if at[i].0 == at[j].0 && at[i].1 <= at[j].1 {
                    at[i] = at[j];
                }
            }
            3 => l[0] = 9,
            4 => l[0] = 6,
            _ => {
                l[0] = 1 + r.below(5) as i64;
                let mut name = word(r);
                if let Some(e) = v.get(b + p) {
                    if r.chance(5, 6) {
                        name = name_of(e).to_string();
                        let kind = match e.k {
                            MK::Start(..) => 1,
                            MK::End(..) => 2,
                            MK::Bool(..) => 3,
                            MK::Num(..) => 4,
                            MK::Str(..) => 5,
                        };
                        if r.chance(7, 8) {
                            l[0] = kind;
                        }
                        if l[0] == kind && r.chance(1, 6) {
                            name = near(r, &name);
                        } else if l[0] == kind && l[3] == 1 {
                            at[i].1 += 1;
                        }
                    }
                }
                l[2] = t(&name);
            }
        }
        out.push(l);
        if l[0] == 6 && l[3] == 1 {
            at[i].1 += model::skip(&v[b + p..]).unwrap_or(0);
        }
    }
    out
}
