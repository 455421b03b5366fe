//! C14, C15: lexing corrupted text a poll at a time, and writing errors to sinks that fail.
use crate::check;
use crate::fw::*;
use dot_parser::lexer::{Lexer, Token};
use simrt::sched;
use std::collections::BTreeMap;

const REAL: &[&str] = &["dot_parser::lexer (all of it)", "core::fmt, core::str"];
const STUB: &[&str] = &["allocator: SimAlloc", "text transport: torn, flipped, duplicated, reordered", "error sink: simulated fmt::Write", "caller threads: simulated schedule"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", gen: |r, t| gen(r, t, 14), run, quick: 120_000, op_budget: 1_500_000_000, own: &[], real: REAL, stub: STUB },
        Prop { id: "C15", gen: |r, t| gen(r, t, 15), run, quick: 70_000, op_budget: 1_500_000_000, own: &[], real: REAL, stub: STUB },
    ]
}

fn ident(r: &mut Rng, s: &mut String) {
    let n = *r.pick(&[1usize, 1, 2, 3, 5, 9, 40]);
    for i in 0..n {
        let c = match r.usize(if i == 0 { 3 } else { 4 }) {
            0 => (b'a' + r.usize(26) as u8) as char,
            1 => (b'A' + r.usize(26) as u8) as char,
            2 => '_',
            _ => (b'0' + r.usize(10) as u8) as char,
        };
        s.push(c);
    }
}
fn digits(r: &mut Rng, s: &mut String) {
    for _ in 0..*r.pick(&[1usize, 1, 2, 3, 7, 18, 19, 20]) {
        s.push((b'0' + r.usize(10) as u8) as char);
    }
}
const ODD: &[char] = &['-', '>', '<', '.', '#', '/', '*', '\\', '\'', ':', '(', ')', '@', '\0', '\u{7f}', 'é', 'ß', 'λ', '中', '😀', '\u{301}', '\u{200b}', '\u{fffd}', '٣', 'Ⅷ', '²'];
const SPACE: &[char] = &[' ', ' ', ' ', '\n', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{a0}', '\u{85}', '\u{2003}', '\u{2028}', '\u{3000}'];
fn string(r: &mut Rng, s: &mut String) {
    s.push('"');
    for _ in 0..r.usize(9) {
        match r.usize(9) {
            0 => s.push_str("\\n"),
            1 => s.push_str("\\\""),
            2 => s.push_str(*r.pick(&["\\t", "\\r", "\\\\"])),
            3 => {
                s.push('\\');
                s.push(*r.pick(&['l', 'x', '0', '\n', 'é', '😀', 'N', '-', '\u{feff}']));
            }
            4 => s.push(*r.pick(ODD)),
            5 => s.push(if r.chance(1, 8) { '\u{feff}' } else { *r.pick(SPACE) }),
            6 => s.push(*r.pick(&['{', '}', '=', ',', ';', '[', ']'])),
            _ => ident(r, s),
        }
    }
    if !r.chance(1, 12) {
        s.push('"');
    }
}
pub fn gen_text(r: &mut Rng, cap: usize) -> String {
    let mut s = String::new();
    let n = r.usize(cap.max(1));
    let sep = r.usize(4);
    let err = r.usize(4) as u64;
    for _ in 0..n {
        match r.usize(12) {
            0 | 1 => ident(r, &mut s),
            2 => digits(r, &mut s),
            3 => {
                digits(r, &mut s);
                s.push('.');
                digits(r, &mut s);
            }
            4 => s.push_str(*r.pick(&["9223372036854775807", "9223372036854775808", "18446744073709551616", "007", "0", "1.2.3", "12.", "3..4", "1.5e10", "0.0", "00000000000000000000000000001", "1.2.3.4", "5.x", "2.\"q\""])),
            5 => string(r, &mut s),
            6 => s.push_str("->"),
            7 => s.push(*r.pick(&['{', '}', '[', ']', '=', ',', ';'])),
            8 if r.chance(err, 4) => s.push(*r.pick(ODD)),
            9 if r.chance(err, 6) => s.push_str(*r.pick(&["-", "--", "->>", "- >", "-5", "-a"])),
            _ => s.push(*r.pick(&['{', '}', '[', ']', '=', ',', ';'])),
        }
        match sep {
            0 => {}
            1 => s.push(' '),
            _ => {
                for _ in 0..r.usize(3) {
                    s.push(*r.pick(SPACE));
                }
            }
        }
    }
    s
}

const REPS: i64 = 14;
fn repeated(kind: i64, n: usize) -> String {
    let n = n.min(100_000);
    match kind {
        0 => "\n".repeat(n),
        1 => " ".repeat(n),
        2 => "\u{2003}".repeat(n),
        3 => "\u{85}\n".repeat(n / 2),
        4 => "a".repeat(n),
        5 => format!(" {}", "_9".repeat(n / 2)),
        6 => format!(" {}7", "0".repeat(n)),
        7 => format!(" 1.{}", "3".repeat(n.min(5000))),
        8 => format!(" \"{}\"", "x".repeat(n)),
        9 => format!(" \"{}\"", "\u{1f600}\n".repeat(n / 2)),
        10 => format!(" \"{}\"", "\\n\\q".repeat(n / 4)),
        11 => ";".repeat(n),
        12 => "->a ".repeat(n / 4),
        // errors, but not too many: each is looked up from the start
        _ => "#\n".repeat(n.min(600)),
    }
}

fn gen(r: &mut Rng, t: &Tier, prop: i64) -> Plan {
    let mut p = vec![];
    let tasks = *r.pick(&[1usize, 1, 2, 2, 3]);
    gen_env(r, &mut p, tasks);
    p.push(Line::new(-1, "prop", &[prop]));
    if tasks > 1 {
        p.push(Line::new(-1, "sched", &[*r.pick(&[0i64, 50, 400, 3000]), *r.pick(&[0i64, 10, 60]), 300]));
    }
    let nt = 1 + r.usize(3);
    for i in 0..nt {
        let cap = if r.chance(1, 20) { if t.thorough { 600 } else { 250 } } else { 40 };
        let text: Vec<char> = gen_text(r, cap).chars().collect();
        if text.is_empty() {
            p.push(Line::new(-1, "text", &[i as i64]));
        }
        for c in text.chunks(24) {
            let mut a = vec![i as i64];
            a.extend(c.iter().map(|&c| c as i64));
            p.push(Line::new(-1, "text", &a));
        }
        if r.chance(1, 40) {
            // something very long, then something short
            for _ in 0..1 + r.usize(2) {
                let n = match r.usize(6) {
                    0 => r.range(65_530, 65_540),
                    1 => 70_000,
                    2 => r.range(4090, 4100),
                    3 => r.range(1020, 1030),
                    4 => r.range(510, 515),
                    _ => r.range(250, 260),
                };
                p.push(Line::new(-1, "rep", &[i as i64, r.range(0, REPS - 1), n]));
                let mut tail = gen_text(r, 6);
                if r.chance(1, 2) {
                    tail.insert(0, *r.pick(ODD));
                }
                let mut a = vec![i as i64];
                a.extend(tail.chars().map(|c| c as i64));
                p.push(Line::new(-1, "text", &a));
            }
        }
        if i > 0 && r.chance(1, 5) {
            // as long as another one
            for _ in 0..1 + r.usize(2) {
                p.push(Line::new(-1, "twin", &[i as i64, r.range(0, i as i64 - 1), r.range(0, 999), r.range(0, 999), r.range(0, 1)]));
            }
            continue;
        }
        if r.chance(1, 3) {
            for _ in 0..1 + r.usize(3) {
                let kw = *r.pick(&["torn", "flip", "dup", "swap"]);
                p.push(Line::new(-1, kw, &[i as i64, r.range(0, 999), r.range(0, 999), r.range(1, 12)]));
            }
        }
    }
    for task in 0..tasks {
        let paged = r.chance(1, 4);
        for _ in 0..r.range(2, 18) {
            let slot = r.range(0, 2);
            if prop == 15 && r.chance(1, 3) {
                p.push(Line::new(task as i32, "inj", &[K::Sink as i64, r.range(1, 12)]));
            }
            let w: &[&str] = if prop == 15 {
                &["new", "new", "poll", "poll", "bulk", "rest", "rest", "errs", "errs", "errs", "pass", "grab"]
            } else {
                &["new", "poll", "poll", "poll", "iter", "bulk", "bulk", "rest", "rest", "errs", "pass", "grab", "drop"]
            };
            gen_times(r, &mut p, task as i32, 1000);
            let op = *r.pick(w);
            let a = match op {
                // the last: over the text itself, a copy of it that goes with the lexer, or the task's page
                "new" => vec![slot, r.usize(nt) as i64, if paged && r.chance(4, 5) { 2 } else { r.range(0, 1) }],
                "poll" | "iter" => vec![slot, r.range(1, 12)],
                // as an iterator: nth, the next few, all up to the next error; or used up by count, last, …
                "bulk" => vec![slot, if prop == 15 { r.range(0, 3) } else { r.range(0, 7) }, r.range(0, 9)],
                // how the sink behaves: 0 accepts, 1 refuses the n-th write, 2 refuses from byte n, 3 calls back
                "errs" => vec![slot, r.range(0, 3), if r.chance(1, 6) { r.range(0, 9000) } else { r.range(0, 60) }],
                _ => vec![slot],
            };
            p.push(Line::new(task as i32, op, &a));
        }
    }
    p
}

fn run(plan: &Plan) {
    drive::<W>(plan)
}

// ---- the reference -------------------------------------------------------------------------------
#[derive(Debug, PartialEq, Clone)]
enum R {
    Tok(Token),
    Err(usize),
    End,
}
fn is_ident(c: char, first: bool) -> bool {
    c == '_' || c.is_ascii_alphabetic() || (!first && c.is_ascii_digit())
}
fn lex(t: &[char]) -> Vec<R> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let s = i;
        let c = t[i];
        i += 1;
        if c.is_whitespace() {
            continue;
        }
        let one = match c {
            '{' => Some(Token::LCurly),
            '}' => Some(Token::RCurly),
            '[' => Some(Token::LSquare),
            ']' => Some(Token::RSquare),
            '=' => Some(Token::Equals),
            ',' => Some(Token::Comma),
            ';' => Some(Token::Semicolon),
            _ => None,
        };
        if let Some(k) = one {
            out.push(R::Tok(k));
        } else if c == '-' && t.get(i) == Some(&'>') {
            i += 1;
            out.push(R::Tok(Token::Arrow));
        } else if is_ident(c, true) {
            while i < t.len() && is_ident(t[i], false) {
                i += 1;
            }
            out.push(R::Tok(Token::Ident(t[s..i].iter().collect())));
        } else if c.is_ascii_digit() {
            let dig = |k: usize| t.get(k).map_or(false, |c| c.is_ascii_digit());
            let mut dots = 0;
            loop {
                while dig(i) {
                    i += 1;
                }
                if t.get(i) == Some(&'.') && dig(i + 1) {
                    i += 1;
                    dots += 1;
                } else {
                    break;
                }
            }
            let text: String = t[s..i].iter().collect();
            let r = match dots {
                0 => {
                    let d = text.trim_start_matches('0');
                    if d.len() > 19 || (d.len() == 19 && d > "9223372036854775807") {
                        R::Err(s)
                    } else {
                        R::Tok(Token::Integer(d.bytes().fold(0i64, |a, b| a * 10 + (b - b'0') as i64)))
                    }
                }
                1 => R::Tok(Token::Float(text.parse().unwrap())),
                _ => R::Err(s),
            };
            out.push(r);
        } else if c == '"' {
            let mut v = String::new();
            let r = loop {
                match t.get(i) {
                    None => break R::Err(s),
                    Some('"') => {
                        i += 1;
                        break R::Tok(Token::String(v));
                    }
                    Some('\\') => {
                        match t.get(i + 1) {
                            None => {}
                            Some('n') => v.push('\n'),
                            Some('t') => v.push('\t'),
                            Some('r') => v.push('\r'),
                            Some(x) => {
                                v.push('\\');
                                v.push(*x);
                            }
                        }
                        i = (i + 2).min(t.len());
                    }
                    Some(x) => {
                        v.push(*x);
                        i += 1;
                    }
                }
            };
            out.push(r);
        } else {
            out.push(R::Err(s));
        }
    }
    out.push(R::End);
    out
}
fn line_col(t: &[char], at: usize) -> (usize, usize) {
    let line = 1 + t[..at].iter().filter(|c| **c == '\n').count();
    let col = 1 + t[..at].iter().rev().take_while(|c| **c != '\n').count();
    (line, col)
}

// ---- the world -----------------------------------------------------------------------------------
struct Text {
    s: String,
    chars: Vec<char>,
    want: Vec<R>,
}
struct W {
    prop: i64,
    texts: Vec<Text>,
    mail: Sim<Option<Cur>>,
}
struct Cur {
    text: usize,
    lx: Lexer<'static>,
    /// What it reads, if nobody else holds it.
    #[allow(dead_code)]
    buf: Option<Box<str>>,
    /// Reads the task's page, which is written over for the next text.
    paged: bool,
    /// Next expected event.
    at: usize,
    errs: Vec<usize>,
    report: Option<String>,
}
#[derive(Default)]
struct Local {
    c: [Option<Cur>; 3],
    page: String,
}

struct Sink<'a> {
    got: String,
    mode: i64,
    n: usize,
    calls: usize,
    refused: bool,
    lx: &'a Lexer<'static>,
    nested: usize,
}
impl<'a> std::fmt::Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        point(K::Sink);
        self.calls += 1;
        match self.mode {
            1 if self.calls == self.n.max(1) => {
                outside(|| count(Ctr::fault_sink_error));
                self.refused = true;
                return Err(std::fmt::Error);
            }
            2 => {
                let room = self.n.saturating_sub(self.got.len());
                if s.len() > room {
                    // a full disk: what fits is taken
                    let mut k = room;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    outside(|| {
                        self.got.push_str(&s[..k]);
                        count(Ctr::fault_sink_short)
                    });
                    self.refused = true;
                    return Err(std::fmt::Error);
                }
            }
            3 if self.nested < 2 => {
                self.nested += 1;
                outside(|| count(Ctr::fault_reentrant_call));
                let mut t = String::new();
                let _ = self.lx.write_errors(&mut t);
            }
            _ => {}
        }
        outside(|| self.got.push_str(s));
        Ok(())
    }
}

impl W {
    fn expect_report(&self, c: &Cur, got: &str) {
        let t = &self.texts[c.text];
        let lines: Vec<&str> = got.split_inclusive('\n').collect();
        check!(lines.len() == c.errs.len(), "report", "{} lines written for {} errors: {:?}", lines.len(), c.errs.len(), got);
        for (k, l) in lines.iter().enumerate() {
            let (line, col) = line_col(&t.chars, c.errs[k]);
            let want = format!("({}, {}): ", line, col);
            check!(l.ends_with('\n') && l.starts_with(&want) && l.len() > want.len() + 1, "report", "error {} at {:?} was written as {:?}", k, want, l);
        }
    }
    fn write(&self, c: &mut Cur, mode: i64, n: usize, what: &str) {
        let mut k = Sink { got: String::new(), mode, n, calls: 0, refused: false, lx: &c.lx, nested: 0 };
        let r = sut(|| c.lx.write_errors(&mut k));
        let (got, refused) = (k.got, k.refused);
        let main = self.prop == 15;
        let full = match r {
            Err(Pan::Real(m)) => {
                check!(!main, "panic", "writing {} errors ({}) panicked: {}", c.errs.len(), what, m);
                return;
            }
            Err(Pan::Injected(_)) => false,
            Ok(r) => {
                if main {
                    check!(r.is_ok() == !refused, "report", "the sink {} and the result was {:?}", if refused { "refused" } else { "accepted everything" }, r);
                }
                !refused
            }
        };
        if !main {
            return;
        }
        if full {
            self.expect_report(c, &got);
            if let Some(old) = &c.report {
                check!(*old == got, "report", "the same errors were written as {:?} and as {:?}", old, got);
            }
            c.report = Some(got);
        } else {
            disarm();
            if c.report.is_none() {
                self.write(c, 0, 0, "again");
            }
            if let Some(old) = &c.report {
                check!(old.starts_with(&got), "report", "a failing sink received {:?}, which is no prefix of {:?}", got, old);
            }
            count(Ctr::probe_retry_after_fault);
        }
    }
    /// One poll. Returns false at the end of the text.
    fn poll(&self, c: &mut Cur, by_trait: bool) -> bool {
        let main = self.prop == 14;
        let t = &self.texts[c.text];
        let before = c.errs.len();
        let lx = &mut c.lx;
        let r = sut(|| if by_trait { Iterator::next(lx) } else { lx.next() });
        let got = match r {
            Ok(x) => x,
            Err(_) if !main => sched_exit(),
            Err(p) => fail("panic", format!("poll {} of {:?}: {}", c.at, t.s, p.text())),
        };
        let now = c.lx.errors().len();
        let has = c.lx.has_errors();
        if main {
            check!(has == (now > 0), "errors", "has_errors is {} with {} errors", has, now);
            check!(now == before || now == before + 1, "errors", "one poll of {:?} added {} errors to {}", t.s, now as i64 - before as i64, before);
        }
        note(now as u64);
        let want = &t.want[c.at.min(t.want.len() - 1)];
        let got = match got {
            Some(k) => {
                if main {
                    check!(now == before, "errors", "poll {} of {:?} gave {:?} and an error", c.at, t.s, k);
                }
                R::Tok(k)
            }
            None if now > before => R::Err(match want {
                R::Err(p) => *p, // positions are C15's subject
                _ => 0,
            }),
            None => R::End,
        };
        if main {
            check!(got == *want, "token", "poll {} of {:?} gave {:?}, should be {:?}", c.at, t.s, got, want);
        }
        if let R::Err(p) = want {
            count(Ctr::probe_lexer_error);
            c.errs.push(*p);
            c.report = None;
        } else if *want != R::End && !c.errs.is_empty() {
            count(Ctr::probe_resume_after_error);
        }
        if *want != R::End {
            c.at += 1;
        }
        if !main && got != *want {
            // not this property's subject, but nothing can be said about the report any more
            sched_exit();
        }
        *want != R::End
    }
    /// The tokens up to the next error or the end, at most `n`; whether that was before the `n`-th.
    fn ahead(&self, c: &Cur, n: usize) -> (Vec<Token>, bool) {
        let t = &self.texts[c.text];
        let mut v = vec![];
        let mut at = c.at;
        while v.len() < n {
            match &t.want[at.min(t.want.len() - 1)] {
                R::Tok(k) => v.push(k.clone()),
                _ => return (v, true),
            }
            at += 1;
        }
        (v, false)
    }
    /// What an iterator can be asked for beside its next item.
    fn bulk(&self, c: &mut Cur, mode: i64, k: usize) {
        let main = self.prop == 14;
        let t = &self.texts[c.text];
        let n = match mode {
            0 => k + 1,
            1 => k,
            _ => usize::MAX,
        };
        let (want, stops) = self.ahead(c, n);
        let before = c.errs.len();
        let lx = &mut c.lx;
        let r = sut(|| {
            let hint = lx.size_hint();
            let got: Vec<Token> = match mode {
                0 => lx.nth(k).into_iter().collect(),
                1 => lx.by_ref().take(k).collect(),
                2 => lx.by_ref().collect(),
                _ => {
                    let mut v = vec![];
                    lx.by_ref().for_each(|t| v.push(t));
                    v
                }
            };
            (hint, got)
        });
        let ((lo, hi), got) = match r {
            Ok(x) => x,
            Err(_) if !main => sched_exit(),
            Err(p) => fail("panic", format!("mode {} after poll {} of {:?}: {}", mode, c.at, t.s, p.text())),
        };
        if main {
            let (left, _) = self.ahead(c, usize::MAX);
            check!(lo <= left.len() && hi.map_or(true, |h| h >= left.len()), "token", "{}..{:?} tokens promised after poll {} of {:?}, there are {}", lo, hi, c.at, t.s, left.len());
        }
        let shown: &[Token] = if mode == 0 { want.get(k..).unwrap_or(&[]) } else { &want };
        let same = got == shown;
        check!(!main || same, "token", "mode {} ({}) after poll {} of {:?} gave {:?}, should be {:?}", mode, k, c.at, t.s, got, shown);
        c.at += want.len();
        if stops {
            if let R::Err(p) = &t.want[c.at.min(t.want.len() - 1)] {
                count(Ctr::probe_lexer_error);
                c.errs.push(*p);
                c.report = None;
                c.at += 1;
            }
        }
        let now = c.lx.errors().len();
        check!(!main || now == c.errs.len(), "errors", "mode {} ({}) on {:?} added {} errors to {}, should be {}", mode, k, t.s, now as i64 - before as i64, before, c.errs.len());
        if !main && (!same || now != c.errs.len()) {
            sched_exit();
        }
    }
    /// The lexer is used up.
    fn consume(&self, c: Cur, mode: i64) {
        let (want, _) = self.ahead(&c, usize::MAX);
        let t = &self.texts[c.text];
        let (at, lx) = (c.at, c.lx);
        let r = sut(|| match mode {
            4 => (lx.count(), None, None),
            5 => (0, Some(lx.last()), None),
            6 => (0, None, Some(lx.collect::<Vec<_>>())),
            _ => (0, None, Some(lx.fold(vec![], |mut v, t| {
                v.push(t);
                v
            }))),
        });
        match r {
            Err(p) => fail("panic", format!("mode {} after poll {} of {:?}: {}", mode, at, t.s, p.text())),
            Ok((_, _, Some(v))) => check!(v == want, "token", "mode {} after poll {} of {:?} gave {:?}, should be {:?}", mode, at, t.s, v, want),
            Ok((_, Some(l), _)) => check!(l.as_ref() == want.last(), "token", "the last token after poll {} of {:?} was {:?}, should be {:?}", at, t.s, l, want.last()),
            Ok((n, _, _)) => check!(n == want.len(), "token", "{} tokens counted after poll {} of {:?}, there are {}", n, at, t.s, want.len()),
        }
    }
}
fn sched_exit() -> ! {
    simrt::shm::report().status = 1;
    simrt::sys::exit_now(0)
}

fn damage(b: &mut Vec<u8>, l: &Line) {
    if b.is_empty() {
        return;
    }
    let at = l.u(1) % b.len();
    match l.kw.as_str() {
        "torn" => {
            count(Ctr::fault_torn_input);
            b.truncate(at);
        }
        "flip" => {
            count(Ctr::fault_flip_input);
            b[at] ^= 1 << (l.u(2) % 8);
        }
        "dup" => {
            count(Ctr::fault_dup_input);
            let len = l.u(3).min(b.len() - at);
            let piece = b[at..at + len].to_vec();
            b.splice(at..at, piece);
        }
        "swap" => {
            count(Ctr::fault_reorder);
            let len = l.u(3).min(b.len() - at);
            let piece: Vec<u8> = b.drain(at..at + len).collect();
            let to = if b.is_empty() { 0 } else { l.u(2) % b.len() };
            b.splice(to..to, piece);
        }
        _ => {}
    }
}

impl World for W {
    type Local = Local;
    fn new(plan: &Plan) -> Self {
        let mut prop = 14;
        let mut raw: BTreeMap<i64, Vec<u8>> = BTreeMap::new();
        for l in plan.iter().filter(|l| l.t == -1) {
            match l.kw.as_str() {
                "prop" => prop = l.arg(0),
                "text" => {
                    let s: String = l.a[1.min(l.a.len())..].iter().filter_map(|&c| char::from_u32(c as u32)).collect();
                    raw.entry(l.arg(0)).or_default().extend_from_slice(s.as_bytes());
                }
                "rep" => raw.entry(l.arg(0)).or_default().extend_from_slice(repeated(l.arg(1), l.u(2)).as_bytes()),
                "twin" => {
                    if let Some(b) = raw.get(&l.arg(1)) {
                        let mut c: Vec<char> = String::from_utf8_lossy(b).chars().collect();
                        if !c.is_empty() {
                            let (mut x, y) = (l.u(2) % c.len(), l.u(3) % c.len());
                            if l.arg(4) == 1 {
                                // the end of a line moves
                                x = (x..c.len()).find(|&i| c[i] == '\n').unwrap_or(x);
                            }
                            c.swap(x, y);
                        }
                        raw.insert(l.arg(0), c.into_iter().collect::<String>().into_bytes());
                    }
                }
                "torn" | "flip" | "dup" | "swap" => {
                    if let Some(b) = raw.get_mut(&l.arg(0)) {
                        damage(b, l);
                    }
                }
                _ => {}
            }
        }
        if raw.is_empty() {
            raw.insert(0, vec![]);
        }
        let texts = raw.values().map(|b| {
            // a byte-order mark may or may not be a token separator: left out, but in strings
            let (mut quoted, mut escaped) = (false, false);
            let mut s: String = String::from_utf8_lossy(b)
                .chars()
                .map(|c| {
                    let was = quoted;
                    if c == '"' && !escaped {
                        quoted = !quoted;
                    }
                    escaped = was && c == '\\' && !escaped;
                    if c == '\u{feff}' && !was { ' ' } else { c }
                })
                .collect();
            let mut chars: Vec<char> = s.chars().collect();
            let mut want = lex(&chars);
            let errs = want.iter().filter(|w| matches!(w, R::Err(_))).count();
            if errs * chars.len() > 2_000_000 {
                // every error is looked up from the start: keep it affordable
                chars.truncate(3000);
                s = chars.iter().collect();
                want = lex(&chars);
            }
            if chars.len() > 60_000 {
                count(Ctr::probe_big);
            }
            Text { s, chars, want }
        });
        W { prop, texts: texts.collect(), mail: Sim::new(None) }
    }
    fn step(&self, l: &mut Local, line: &Line, _task: usize) {
        let slot = line.u(0) % 3;
        match line.kw.as_str() {
            "new" => {
                let ti = line.u(1) % self.texts.len();
                let mut s: &'static str = unsafe { &*(self.texts[ti].s.as_str() as *const str) };
                let old = l.c[slot].take();
                let _ = sut_ok("dropping a lexer", move || drop(old));
                let mut buf = None;
                let paged = line.arg(2) == 2;
                if paged {
                    for c in l.c.iter_mut() {
                        if c.as_ref().map_or(false, |c| c.paged) {
                            let old = c.take();
                            let _ = sut_ok("dropping a lexer", move || drop(old));
                        }
                    }
                    let page = &mut l.page;
                    sut_ok("filling the page", || {
                        page.clear();
                        page.push_str(s);
                    });
                    s = unsafe { &*(l.page.as_str() as *const str) };
                    count(Ctr::fault_address_reuse);
                }
                if line.arg(2) == 1 {
                    buf = sut_ok("copying the text", || s.to_string().into_boxed_str());
                    if let Some(b) = &buf {
                        s = unsafe { &*(&**b as *const str) };
                    }
                }
                if let Some(lx) = sut_ok("creating a lexer", || Lexer::new(s)) {
                    l.c[slot] = Some(Cur { text: ti, lx, buf, paged, at: 0, errs: vec![], report: None });
                }
                return;
            }
            "grab" => {
                if let Some(c) = self.mail.get().take() {
                    l.c[slot] = Some(c);
                }
                return;
            }
            "pass" => {
                if l.c[slot].as_ref().map_or(false, |c| !c.paged) {
                    *self.mail.get() = l.c[slot].take();
                }
                return;
            }
            _ => {}
        }
        let Some(c) = l.c[slot].as_mut() else { return };
        match line.kw.as_str() {
            "poll" | "iter" => {
                for _ in 0..line.u(1).min(1000) {
                    if !self.poll(c, line.kw == "iter") {
                        break;
                    }
                }
            }
            "bulk" if line.arg(1) < 4 || self.prop != 14 => self.bulk(c, line.arg(1).clamp(0, 3), line.u(2).min(1000)),
            "bulk" => {
                if let Some(c) = l.c[slot].take() {
                    self.consume(c, line.arg(1));
                }
            }
            "rest" => {
                let mut polls = 0;
                while self.poll(c, false) {
                    polls += 1;
                    let most = self.texts[c.text].chars.len() + 1;
                    check!(polls <= most, "stall", "{} polls of a text of {} characters", polls, most - 1);
                }
                self.poll(c, true); // stays at its end
            }
            "errs" => self.write(c, line.arg(1), line.u(2), "errs"),
            _ => {
                if let Some(c) = l.c[slot].take() {
                    if c.at + 1 < self.texts[c.text].want.len() {
                        count(Ctr::fault_cancel_abandon);
                    }
                    let _ = sut_ok("dropping a lexer", move || drop(c));
                }
            }
        }
    }
    fn end_task(&self, mut l: Local, _t: usize) {
        for c in l.c.iter_mut().flatten() {
            let mut polls = 0;
            while self.poll(c, polls % 2 == 0) && polls < 1_000_000 {
                polls += 1;
            }
            self.write(c, 0, 0, "at the end");
        }
        let _ = sut_ok("dropping lexers", move || drop(l));
    }
}
