//! Calls into the library under test, in a crate that is compiled with the
//! simulator's instrumentation, so that the library's generic functions are
//! instantiated (and so made preemptible) here.

use piston_meta::bootstrap;
use piston_meta::meta_rules::IndentSettings;
use piston_meta::*;
use piston_meta_search::Search;
use range::Range;
use std::io::{self, Write};
use std::sync::Arc;

pub type Meta = Vec<Range<MetaData>>;
pub type PErr = Range<ParseError>;

#[inline(never)]
pub fn read_syntax(text: &str) -> Result<Syntax, PErr> {
    syntax(text)
}
#[inline(never)]
pub fn read_syntax_errstr(text: &str) -> Result<Syntax, String> {
    syntax_errstr(text)
}
#[inline(never)]
pub fn parse_plain(s: &Syntax, text: &str, t: &mut Meta) -> Result<(), PErr> {
    parse(s, text, t)
}
#[inline(never)]
pub fn parse_ind(s: &Syntax, text: &str, t: &mut Meta, i: &IndentSettings) -> Result<(), PErr> {
    parse_with_indent(s, text, t, i)
}
#[inline(never)]
pub fn parse_str(s: &Syntax, text: &str, t: &mut Meta) -> Result<(), String> {
    parse_errstr(s, text, t)
}
#[inline(never)]
pub fn parse_str_ind(s: &Syntax, text: &str, t: &mut Meta, i: &IndentSettings) -> Result<(), String> {
    parse_errstr_with_indent(s, text, t, i)
}
#[inline(never)]
pub fn optimize(s: Syntax) -> Syntax {
    s.optimize()
}
#[inline(never)]
pub fn clone_syntax(s: &Syntax) -> Syntax {
    s.clone()
}
#[inline(never)]
pub fn boot_rules() -> Syntax {
    bootstrap::rules()
}
#[inline(never)]
pub fn convert(data: &[Range<MetaData>], ignored: &mut Vec<Range>) -> Result<Syntax, ()> {
    bootstrap::convert(data, ignored)
}
#[inline(never)]
pub fn json_write(w: &mut dyn Write, data: &[Range<MetaData>]) -> io::Result<()> {
    let mut w = w;
    json::write(&mut w, data)
}
#[inline(never)]
pub fn json_string(w: &mut dyn Write, val: &str) -> io::Result<()> {
    let mut w = w;
    json::write_string(&mut w, val)
}
#[inline(never)]
pub fn json_print(data: &[Range<MetaData>]) {
    json::print(data)
}
#[inline(never)]
pub fn handler<'a>(text: &'a str) -> ParseErrorHandler<'a> {
    ParseErrorHandler::new(text)
}
#[inline(never)]
pub fn report(h: &mut ParseErrorHandler, w: &mut dyn Write, e: PErr) -> io::Result<()> {
    let mut w = w;
    h.write(&mut w, e)
}
#[inline(never)]
pub fn report_msg(h: &mut ParseErrorHandler, w: &mut dyn Write, r: Range, m: &str) -> io::Result<()> {
    let mut w = w;
    h.write_msg(&mut w, r, m)
}
#[inline(never)]
pub fn report_stderr(h: &mut ParseErrorHandler, e: PErr) {
    h.error(e)
}
#[inline(never)]
pub fn unwrap_i64(text: &str, r: Result<i64, PErr>) -> i64 {
    stderr_unwrap(text, r)
}
#[inline(never)]
pub fn unwrap_string(text: &str, r: Result<String, PErr>) -> String {
    stderr_unwrap(text, r)
}
#[inline(never)]
pub fn load(a: &str, b: &str) -> Meta {
    load_syntax_data(a, b)
}
#[inline(never)]
pub fn drop_syntax(s: Syntax) {
    drop(s)
}
#[inline(never)]
pub fn drop_meta(m: Meta) {
    drop(m)
}
#[inline(never)]
pub fn clone_meta(m: &Meta) -> Meta {
    m.clone()
}

pub type Cb<'c, 'a> = &'c mut dyn FnMut(Search<'a>) -> Result<String, PErr>;

#[inline(never)]
pub fn search_new<'a>(d: &'a [Range<MetaData>]) -> Search<'a> {
    Search::new(d)
}
#[inline(never)]
pub fn for_string<'a>(s: &'a Search<'a>, n: &str, v: &str, f: Cb<'_, 'a>) -> Result<String, PErr> {
    s.for_string(n, v, |s| f(s))
}
#[inline(never)]
pub fn for_f64<'a>(s: &'a Search<'a>, n: &str, v: f64, f: Cb<'_, 'a>) -> Result<String, PErr> {
    s.for_f64(n, v, |s| f(s))
}
#[inline(never)]
pub fn for_bool<'a>(s: &'a Search<'a>, n: &str, v: bool, f: Cb<'_, 'a>) -> Result<String, PErr> {
    s.for_bool(n, v, |s| f(s))
}
#[inline(never)]
pub fn for_node<'a>(s: &'a Search<'a>, n: &str, f: Cb<'_, 'a>) -> Result<String, PErr> {
    s.for_node(n, |s| f(s))
}
#[inline(never)]
pub fn for_end_node<'a>(s: &'a Search<'a>, n: &str, f: Cb<'_, 'a>) -> Result<String, PErr> {
    s.for_end_node(n, |s| f(s))
}
#[inline(never)]
pub fn get_bool(s: &mut Search, n: &str) -> Result<bool, PErr> {
    s.bool(n)
}
#[inline(never)]
pub fn get_f64(s: &mut Search, n: &str) -> Result<f64, PErr> {
    s.f64(n)
}
#[inline(never)]
pub fn get_string(s: &mut Search, n: &str) -> Result<Arc<String>, PErr> {
    s.string(n)
}
#[inline(never)]
pub fn get_node(s: &mut Search, n: &str) -> Result<(), PErr> {
    s.node(n)
}
#[inline(never)]
pub fn get_end(s: &mut Search, n: &str) -> Result<(), PErr> {
    s.end_node(n)
}

// Conversion cursors, as a user's own conversions use them.

#[inline(never)]
pub fn conv_new<'a>(d: &'a [Range<MetaData>]) -> Convert<'a> {
    Convert::new(d)
}
#[inline(never)]
pub fn conv_left(c: &Convert) -> usize {
    c.remaining_data_len()
}
#[inline(never)]
pub fn conv_subtract(c: Convert, d: Convert) -> Range {
    c.subtract(d)
}
#[inline(never)]
pub fn conv_source(c: Convert, d: Convert) -> Option<Range> {
    c.source(d)
}
#[inline(never)]
pub fn conv_update(c: &mut Convert, r: Range) {
    c.update(r)
}
#[inline(never)]
pub fn conv_start(c: &Convert, n: &str) -> Result<Range, ()> {
    c.start_node(n)
}
#[inline(never)]
pub fn conv_end(c: &Convert, n: &str) -> Result<Range, ()> {
    c.end_node(n)
}
#[inline(never)]
pub fn conv_ignore(c: &Convert) -> Range {
    c.ignore()
}
#[inline(never)]
pub fn conv_string(c: &Convert, n: &str) -> Result<(Range, Arc<String>), ()> {
    c.meta_string(n)
}
#[inline(never)]
pub fn conv_f64(c: &Convert, n: &str) -> Result<(Range, f64), ()> {
    c.meta_f64(n)
}
#[inline(never)]
pub fn conv_bool(c: &Convert, n: &str) -> Result<(Range, bool), ()> {
    c.meta_bool(n)
}

/// The same rules under the same names in a grammar of its own; with
/// `first` it starts with a copy of another rule.
#[inline(never)]
pub fn rebuild(s: &Syntax, first: i64) -> Syntax {
    let mut n = Syntax::new();
    let k = s.rules.len();
    for i in 0..k {
        n.push(s.names[i].clone(), s.rules[i].clone());
    }
    if first > 0 && k > 0 {
        let i = (first - 1) as usize % k;
        n.push(s.names[i].clone(), s.rules[i].clone());
    }
    meta_rules::update_refs(&mut n);
    n
}
