//! What is written out: error reports (C08) and JSON (C12).

use crate::c_parse::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::*;
use crate::interp::*;
use crate::rng::{hash_bytes, Rng};
use piston_meta::{json, MetaData, ParseError, ParseErrorHandler, Range};
use std::io::{self, Write};
use std::sync::Arc;

/// The lines of a text as (start, content).
fn lines_of(text: &str) -> Vec<(usize, &str)> {
    let mut v = vec![];
    let mut at = 0;
    for l in text.split('\n') { v.push((at, l)); at += l.len() + 1; }
    v
}

fn message(e: &ParseError) -> String {
    use ParseError as P;
    match e {
        P::ExpectedWhitespace(i) => format!("#{}, Expected whitespace", i),
        P::ExpectedNewLine(i) => format!("#{}, Expected new line", i),
        P::ExpectedSomething(i) => format!("#{}, Expected something", i),
        P::ExpectedNumber(i) => format!("#{}, Expected number", i),
        P::ParseNumberError(x, i) => format!("#{}, Invalid number format: {}", i, x),
        P::ExpectedTag(t, i) => format!("#{}, Expected: `{}`", i, t),
        P::DidNotExpectTag(t, i) => format!("#{}, Did not expect: `{}`", i, t),
        P::ExpectedText(i) => format!("#{}, Expected text", i),
        P::EmptyTextNotAllowed(i) => format!("#{}, Empty text not allowed", i),
        P::ParseStringError(x, i) => format!("#{}, Invalid string format: {}", i, x),
        P::InvalidRule(m, i) => format!("#{}, Invalid rule: {}", i, m),
        P::NoRules => "No rules are specified".into(),
        P::ExpectedEnd => "Expected end".into(),
        P::Conversion(m) => format!("Conversion, {}", m),
    }
}

fn pointed(text: &str, range: Range) -> String {
    let mut o = String::new();
    let mut first = true;
    let (a, b) = (range.offset, range.next_offset());
    for (n, (start, line)) in lines_of(text).into_iter().enumerate() {
        let end = start + line.len();
        if b < start || a > end { continue; }
        let chars: Vec<char> = line.chars().collect();
        // Column: how many characters start before.
        let at = a.max(start) - start;
        let col = line.char_indices().filter(|x| x.0 < at).count();
        let from = if col > 75 { col - 50 } else { 0 };
        let shown: String = chars.iter().skip(from).take(100).collect();
        o += &format!("{},{}: {}\n", n + 1, col + 1, shown);
        if first {
            first = false;
            let pad: String = chars[from..col].iter().map(|c| if *c == '\t' { '\t' } else { ' ' }).collect();
            o += &format!("{},{}: {}^\n", n + 1, col + 1, pad);
        }
    }
    o
}

/// What the report of an error looks like.
pub fn report(text: &str, e: &RErr) -> String {
    let mut o = format!("Error {}\n", message(&e.data));
    let lines = lines_of(text);
    if let ParseError::ExpectedTag(..) = e.data {
        // The lines back to the last one with something on it.
        let hit = lines.iter().position(|(s, l)| e.next_offset() >= *s && e.offset <= s + l.len());
        if let Some(hit) = hit {
            let from = (0..hit).rev().find(|&i| !lines[i].1.trim().is_empty()).unwrap_or(0);
            for i in from..hit { o += &format!("{}: {}\n", i + 1, lines[i].1); }
        }
    }
    o + &pointed(text, e.range())
}

/// Accepts only so much, in small pieces.
pub struct Short<'a> { pub out: Vec<u8>, pub room: usize, pub rng: &'a mut Rng, pub interrupts: u64 }

impl<'a> Write for Short<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.rng.chance(1, 5) { self.interrupts += 1; return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        if self.room == 0 { return Err(io::Error::new(io::ErrorKind::Other, "full")); }
        if b.is_empty() { return Ok(0); }
        let n = self.rng.range(1, b.len()).min(self.room);
        self.out.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Writing to a writer that fails gives an error and only what fits.
fn faulty<F>(cx: &mut Cx, full: &[u8], f: F) -> Res where F: Fn(&mut Short) -> io::Result<()> {
    for _ in 0..2 {
        let room = if cx.rng.chance(1, 4) { full.len() + cx.rng.below(3) } else { cx.rng.below(full.len() + 1) };
        let mut rng = cx.rng.clone();
        let mut w = Short { out: vec![], room, rng: &mut rng, interrupts: 0 };
        let r = real("writing", || f(&mut w))?;
        let (out, n) = (w.out, w.interrupts);
        cx.rng = rng;
        cx.count("interrupted writes", n);
        ensure!(r.is_ok() == (room >= full.len()), "writing {} bytes where {} fit gives {:?}", full.len(), room, r);
        ensure!(out[..] == full[..room.min(full.len())], "a writer that fails after {} bytes got {:?}, not {:?}", room,
            String::from_utf8_lossy(&out), String::from_utf8_lossy(full));
        cx.count(if r.is_ok() { "complete writes in pieces" } else { "writes that failed" }, 1);
    }
    Ok(())
}

fn some_text(rng: &mut Rng) -> String {
    let pieces = ["a", "b", "  ", "\t", "é", "日本", "😀", "\n", "\n\n", "\r\n", "x = y;", "\u{3000}", "\n \t\n", "e\u{301}", "\u{0}", "^", "word "];
    let mut s = String::new();
    let n = rng.below(12);
    for _ in 0..n {
        let p = *rng.pick(&pieces);
        let k = if rng.chance(1, 6) { rng.range(10, 120) } else { rng.range(1, 3) };
        if p.contains('\n') && k > 3 { s.push_str(p); } else { s.push_str(&p.repeat(k)); }
    }
    s
}

pub fn some_error(rng: &mut Rng) -> ParseError {
    use piston_meta::ParseError as P;
    use read_token::{ParseNumberError, ParseStringError};
    let id = match rng.below(4) { 0 => *rng.pick(&[0, 1, 9, 255, 256, 65_535, 65_536, 4_294_967_295, 4_294_967_296, usize::max_value()]), _ => rng.below(100_000) };
    let some = |rng: &mut Rng| -> String {
        let n = *rng.pick(&[1, 2, 5, 20, 100, 3000]);
        (0..n).map(|_| *rng.pick(&['a', 'b', ' ', 'é', '日', '\n', '\t', '"', '`', '{', '}', '\\', '\r', '\u{0}', '\u{a0}', '😀'])).collect()
    };
    let tag = Arc::new(if rng.coin() { some(rng) } else { rng.pick(&[";", "", "é", "\n", "`", "end of it", "``", "{}", "%s", "\"", "'", " "]).to_string() });
    match rng.below(16) {
        0 => P::ExpectedWhitespace(id),
        1 => P::ExpectedNewLine(id),
        2 => P::ExpectedSomething(id),
        3 => P::ExpectedNumber(id),
        4 => P::ParseNumberError(*rng.pick(&[ParseNumberError::ExpectedDigits, ParseNumberError::Invalid, ParseNumberError::OverflowInfinity, ParseNumberError::OverflowNegInfinity]), id),
        5 => P::ExpectedText(id),
        6 => P::EmptyTextNotAllowed(id),
        7 => P::ParseStringError(*rng.pick(&[ParseStringError::ExpectedFourHexadecimals, ParseStringError::ExpectedHexadecimal, ParseStringError::ExpectedValidUnicode, ParseStringError::ExpectedValidEscapeCharacter]), id),
        8 => P::DidNotExpectTag(tag, id),
        9 => P::InvalidRule(*rng.pick(&["rule", "", "é `x` {}", "two\nlines "]), id),
        10 => P::NoRules,
        11 => P::ExpectedEnd,
        12 => P::Conversion(if rng.coin() { "what".into() } else { some(rng) }),
        _ => P::ExpectedTag(tag, id),
    }
}

pub fn check_report(cx: &mut Cx, text: &str, e: RErr) -> Res {
    let want = report(text, &e);
    let again = || Range::new(e.offset, e.length).wrap(copy(&e.data));
    let mut h = real("indexing lines", || ParseErrorHandler::new(text))?;
    for _ in 0..2 {
        let mut w: Vec<u8> = vec![];
        let r = real("writing a report", || h.write(&mut w, again()))?;
        ensure!(r.is_ok(), "writing to memory fails");
        let got = String::from_utf8(w).map_err(|_| Viol::new("the report is not UTF-8"))?;
        if got != want {
            return Err(Viol::new("the report is not what it should be").with("text", text).with("error", format!("{:?}", e))
                .with("expected", want).with("library", got));
        }
    }
    let msg = match cx.rng.below(4) {
        0 => cx.rng.pick(&["message", "", "two\nlines", "é", " in spaces\t", "line\n", "\n\n", "{} {0} %s", "\u{0}\u{7f}\u{feff}", "\r\n", "^"]).to_string(),
        _ => { let n = *cx.rng.pick(&[1, 3, 10, 80, 300, 5000]); (0..n).map(|_| *cx.rng.pick(&['a', 'b', ' ', 'é', '日', '\n', '\t', '"', '{', '\r', '\u{a0}'])).collect() }
    };
    let mut w: Vec<u8> = vec![];
    ensure!(real("writing a message", || h.write_msg(&mut w, e.range(), &msg))?.is_ok(), "writing to memory fails");
    let want_msg = format!("{}\n{}", msg, pointed(text, e.range()));
    let got = String::from_utf8_lossy(&w).to_string();
    if got != want_msg {
        return Err(Viol::new("the message is not what it should be").with("text", text).with("range", format!("{:?}", e.range()))
            .with("expected", want_msg).with("library", got));
    }
    cx.count("reports compared", 1);
    cx.count("reports over several lines", (want.lines().count() > 3) as u64);
    cx.count("excerpts of long lines", lines_of(text).iter().any(|l| l.1.chars().count() > 100) as u64);
    cx.count("reports with text before", (matches!(e.data, ParseError::ExpectedTag(..)) && want.lines().nth(1).map_or(false, |l| !l.split(':').next().unwrap().contains(','))) as u64);
    cx.count("multi-byte texts", (!text.is_ascii()) as u64);
    cx.eval(hash_bytes(want.as_bytes()), text.len() > 3);
    cx.sample(|| want.clone());
    if cx.rng.chance(1, 4) {
        faulty(cx, want.as_bytes(), |w| ParseErrorHandler::new(text).write(w, again()))?;
    }
    Ok(())
}

pub fn copy(e: &ParseError) -> ParseError {
    use ParseError as P;
    match e {
        P::ExpectedWhitespace(i) => P::ExpectedWhitespace(*i),
        P::ExpectedNewLine(i) => P::ExpectedNewLine(*i),
        P::ExpectedSomething(i) => P::ExpectedSomething(*i),
        P::ExpectedNumber(i) => P::ExpectedNumber(*i),
        P::ParseNumberError(x, i) => P::ParseNumberError(x.clone(), *i),
        P::ExpectedText(i) => P::ExpectedText(*i),
        P::EmptyTextNotAllowed(i) => P::EmptyTextNotAllowed(*i),
        P::ParseStringError(x, i) => P::ParseStringError(*x, *i),
        P::ExpectedTag(t, i) => P::ExpectedTag(t.clone(), *i),
        P::DidNotExpectTag(t, i) => P::DidNotExpectTag(t.clone(), *i),
        P::InvalidRule(m, i) => P::InvalidRule(m, *i),
        P::NoRules => P::NoRules,
        P::ExpectedEnd => P::ExpectedEnd,
        P::Conversion(m) => P::Conversion(m.clone()),
    }
}

/// Numbers of lines and columns where counters run over and excerpts change.
const FAR: [usize; 20] = [9, 10, 49, 50, 51, 74, 75, 76, 77, 99, 100, 101, 127, 255, 256, 257, 1000, 9999, 65_536, 100_001];

/// Far down and far to the right.
fn far_report(cx: &mut Cx, n: usize, wide: bool) -> Res {
    let c = *cx.rng.pick(&["x", "é", "日", "\t", "😀", " ", "e\u{301}"]);
    let other = *cx.rng.pick(&["y", "è", "\t"]);
    let text = if wide {
        // One long line, maybe with others around.
        let mut l = String::new();
        for _ in 0..n { l.push_str(if cx.rng.chance(1, 7) { other } else { c }); }
        let tail = cx.rng.below(150);
        format!("{}{}{}{}", cx.rng.pick(&["", "a\n", "\n\n"]), l, other.repeat(tail), cx.rng.pick(&["", "\nb", "\r\n"]))
    } else {
        let mut l = String::new();
        for _ in 0..n { l.push_str(if cx.rng.chance(1, 3) { "" } else { c }); l.push_str(if cx.rng.chance(1, 9) { "\r\n" } else { "\n" }); }
        l.push_str("end");
        l
    };
    for i in 0..6 {
        let mut at = match i { 0 => text.len(), 1 | 2 => text.len() - cx.rng.below(text.len().min(160) + 1), _ => cx.rng.below(text.len() + 1) };
        while !text.is_char_boundary(at) { at -= 1; }
        let mut end = if wide || n < 200 { at + cx.rng.below(text.len() - at + 1) } else { at + cx.rng.below((text.len() - at).min(50) + 1) };
        if i % 2 == 0 { end = at; }
        while !text.is_char_boundary(end) { end -= 1; }
        let e = some_error(&mut cx.rng);
        check_report(cx, &text, Range::new(at, end - at).wrap(e)).map_err(|mut v| { for d in &mut v.detail { d.1 = clip(&d.1, 3000); } v })?;
    }
    cx.max(if wide { "max columns" } else { "max lines" }, n as u64);
    Ok(())
}

pub fn c08(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c08(cx) { return r; }
    if let Some(r) = crate::every::c08(cx) { return r; }
    let far = cx.idx.wrapping_sub(200) as usize;
    if far < 4 * FAR.len() { return far_report(cx, FAR[far / 4], far % 2 > 0); }
    if cx.rng.chance(1, 3) {
        // Errors that happen.
        let way = way_of(cx);
        let c = case(cx, way, |_, _| {})?;
        let mut ts = c.texts.clone();
        for t in &c.texts {
            // Far to the right, and far down.
            let pad = " ".repeat(cx.rng.below(130));
            ts.push(format!("{}{}", t, pad));
            ts.push(format!("{}é{}", "\n".repeat(cx.rng.below(4)), t));
        }
        for t in &ts {
            if c.read(t).is_err() { continue; }
            let r = real_parse(&c.syn, t, c.ind, &[])?;
            if let Err(e) = r.res {
                let want = report(t, &e);
                let mut v = vec![];
                let s = real("parsing", || piston_meta::parse_errstr_with_indent(&c.syn, t, &mut v, &settings(c.ind)))?;
                if s.as_ref().err() != Some(&want) {
                    return Err(show_case(Viol::new("the report of a parse is not what it should be").with("expected", want)
                        .with("library", format!("{:?}", s)), &c.g, t, c.ind));
                }
                cx.count("reports of parses", 1);
                check_report(cx, t, e)?;
            }
        }
        return Ok(());
    }
    let text = some_text(&mut cx.rng);
    for _ in 0..6 {
        // Anywhere in the text, also at its end, at line ends and over lines.
        let mut at = cx.rng.below(text.len() + 1);
        while !text.is_char_boundary(at) { at -= 1; }
        let mut end = if cx.rng.coin() { at } else { at + cx.rng.below(text.len() - at + 1) };
        while !text.is_char_boundary(end) { end -= 1; }
        let e = some_error(&mut cx.rng);
        check_report(cx, &text, Range::new(at, end - at).wrap(e))?;
    }
    Ok(())
}

// ---- JSON

#[derive(Debug, Clone, PartialEq)]
pub enum J { Obj(Vec<(String, J)>), Num(u64), Str(String), Bool(bool), Null }

/// A strict reader of JSON, as the standard has it.
pub struct Json<'a> { b: &'a [u8], i: usize }

impl<'a> Json<'a> {
    pub fn read(s: &'a str) -> Result<J, String> {
        let mut j = Json { b: s.as_bytes(), i: 0 };
        let v = j.value()?;
        j.ws();
        if j.i != s.len() { return Err(format!("text after the value at {}", j.i)); }
        Ok(v)
    }
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
    fn peek(&self) -> u8 { self.b.get(self.i).cloned().unwrap_or(0) }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Ok(v) } else { Err(format!("unknown word at {}", self.i)) }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' { self.i += 1; return Ok(J::Obj(v)); }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' { return Err(format!("no colon at {}", self.i)); }
                    self.i += 1;
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => { self.i += 1; return Ok(J::Obj(v)); }
                        _ => return Err(format!("no comma or end at {}", self.i)),
                    }
                }
            }
            b'"' => self.string().map(J::Str),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'n' => self.word("null", J::Null),
            _ => self.number(),
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let st = self.i;
        if self.peek() == b'-' { self.i += 1; }
        match self.peek() {
            b'0' => self.i += 1,
            b'1'..=b'9' => while self.peek().is_ascii_digit() { self.i += 1 },
            _ => return Err(format!("no value at {}", self.i)),
        }
        if self.peek() == b'.' {
            self.i += 1;
            if !self.peek().is_ascii_digit() { return Err(format!("no digit at {}", self.i)); }
            while self.peek().is_ascii_digit() { self.i += 1; }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') { self.i += 1; }
            if !self.peek().is_ascii_digit() { return Err(format!("no digit at {}", self.i)); }
            while self.peek().is_ascii_digit() { self.i += 1; }
        }
        let s = std::str::from_utf8(&self.b[st..self.i]).unwrap();
        Ok(J::Num(s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()))
    }
    fn hex(&mut self) -> Result<u32, String> {
        let s = self.b.get(self.i..self.i + 4).and_then(|b| std::str::from_utf8(b).ok()).ok_or("short escape")?;
        if !s.bytes().all(|b| b.is_ascii_hexdigit()) { return Err("not hexadecimal".into()); }
        self.i += 4;
        u32::from_str_radix(s, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' { return Err(format!("no string at {}", self.i)); }
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or("string without end")?;
            self.i += 1;
            match c {
                b'"' => break,
                0..=31 => return Err(format!("control character {:#x} in a string at {}", c, self.i - 1)),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or("string without end")?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}',
                        b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            let a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") { return Err("lone surrogate".into()); }
                                self.i += 2;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) { return Err("lone surrogate".into()); }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).ok_or("bad surrogate")?
                            } else { char::from_u32(a).ok_or("lone surrogate")? }
                        }
                        _ => return Err(format!("unknown escape at {}", self.i - 1)),
                    };
                    let mut b = [0; 4];
                    o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                c => o.push(c),
            }
        }
        String::from_utf8(o).map_err(|e| e.to_string())
    }
}

/// The tree that meta data stands for, or `None` when it is no tree.
pub fn tree_of(d: &[RTok]) -> Option<J> {
    let mut stack: Vec<(Option<String>, Vec<(String, J)>)> = vec![(None, vec![])];
    for t in d {
        match &t.data {
            MetaData::StartNode(n) => stack.push((Some(n.to_string()), vec![])),
            MetaData::EndNode(n) => {
                let (name, v) = stack.pop()?;
                if name.as_ref()? != &**n { return None; }
                stack.last_mut()?.1.push((n.to_string(), J::Obj(v)));
            }
            MetaData::Bool(n, b) => stack.last_mut()?.1.push((n.to_string(), J::Bool(*b))),
            MetaData::F64(n, x) => stack.last_mut()?.1.push((n.to_string(), if x.is_finite() { J::Num(x.to_bits()) } else { J::Null })),
            MetaData::String(n, s) => stack.last_mut()?.1.push((n.to_string(), J::Str(s.to_string()))),
        }
    }
    let (name, v) = stack.pop()?;
    if name.is_some() || !stack.is_empty() { return None; }
    Some(J::Obj(v))
}

/// A string that was written, read back.
pub fn read_string(w: &[u8], want: &str) -> Res {
    let t = std::str::from_utf8(w).map_err(|_| Viol::new("not UTF-8"))?;
    if Json::read(t) != Ok(J::Str(want.to_string())) {
        return viol(format!("the string {:?} is written as {:?}, which is {:?}", want, t, Json::read(t)));
    }
    Ok(())
}

pub fn some_string(rng: &mut Rng) -> String {
    let n = *rng.pick(&[0, 1, 1, 2, 4, 9]);
    (0..n).map(|_| match rng.below(8) {
        0 => std::char::from_u32(rng.below(0x20) as u32).unwrap(),
        1 => *rng.pick(&['"', '\\', '/', '\u{7f}', '\u{2028}', '\u{2029}', '\u{fffd}', '\u{feff}', '\u{ffff}', '\u{80}', '\u{9f}', '\'']),
        2 => loop { if let Some(c) = std::char::from_u32(rng.below(0x110000) as u32) { break c; } },
        _ => *rng.pick(&['a', 'b', 'é', '日', '😀', ' ', 'x', '0', 'u', 'n']),
    }).collect()
}

pub fn some_f64(rng: &mut Rng) -> f64 {
    match rng.below(10) {
        0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e-7, 123456789.0, 1e300, 5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 9007199254740993.0]),
        1 => *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        2..=4 => f64::from_bits(rng.next()),
        5 => rng.below(1000) as f64,
        _ => (rng.below(2_000_000) as f64 - 1e6) / 1000.0,
    }
}

/// Meta data that is a tree.
pub fn some_tree(rng: &mut Rng, depth: usize, out: &mut Vec<RTok>) {
    let n = rng.below(5);
    for _ in 0..n {
        let name = Arc::new(some_string(rng));
        let r = Range::new(rng.below(100), rng.below(10));
        match rng.below(if depth == 0 { 3 } else { 5 }) {
            0 => out.push(r.wrap(MetaData::Bool(name, rng.coin()))),
            1 => out.push(r.wrap(MetaData::F64(name, some_f64(rng)))),
            2 => out.push(r.wrap(MetaData::String(name, Arc::new(some_string(rng))))),
            _ => {
                out.push(r.wrap(MetaData::StartNode(name.clone())));
                some_tree(rng, depth - 1, out);
                out.push(r.wrap(MetaData::EndNode(name)));
            }
        }
    }
}

pub fn check_json(cx: &mut Cx, d: &[RTok]) -> Res {
    let mut w: Vec<u8> = vec![];
    let fail = |v: Viol, w: &[u8]| v.with("meta data", format!("{:?}", d)).with("written", String::from_utf8_lossy(w).to_string());
    let r = real("writing JSON", || json::write(&mut w, d)).map_err(|v| v.with("meta data", format!("{:?}", d)))?;
    ensure!(r.is_ok(), "writing to memory fails");
    let s = match std::str::from_utf8(&w) { Ok(s) => s, Err(_) => return Err(fail(Viol::new("not UTF-8"), &w)) };
    let tree = tree_of(d);
    cx.eval(hash_bytes(&w), d.len() > 2);
    match tree {
        None => cx.count("unbalanced meta data written", 1),
        Some(tree) => {
            match Json::read(&format!("{{{}}}", s)) {
                Err(e) => return Err(fail(Viol::new(format!("the JSON is not valid: {}", e)), &w)),
                Ok(j) => if j != tree {
                    return Err(fail(Viol::new("the JSON does not say what the meta data says").with("expected", format!("{:?}", tree)).with("read back", format!("{:?}", j)), &w));
                }
            }
            cx.count("trees read back", 1);
            cx.count("values read back", d.len() as u64);
            cx.sample(|| clip(s, 900));
        }
    }
    if cx.rng.chance(1, 4) { faulty(cx, &w, |o| json::write(o, d))?; }
    Ok(())
}

/// Depths, counts and lengths where counters run over.
const MANY: [usize; 13] = [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 65_536, 65_537];

fn large_tree(cx: &mut Cx, n: usize, what: usize) -> Res {
    let mut d: Vec<RTok> = vec![];
    let at = Range::new(0, 0);
    let rng = &mut cx.rng;
    let leaf = |rng: &mut Rng, n: usize| -> RTok {
        let name = Arc::new(some_string(rng));
        at.wrap(match rng.below(3) { 0 => MetaData::Bool(name, rng.coin()), 1 => MetaData::F64(name, n as f64), _ => MetaData::String(name, Arc::new(some_string(rng))) })
    };
    match what {
        // Nodes in nodes, with something around.
        0 => {
            let n = n.min(1500);
            let names: Vec<_> = (0..n).map(|i| Arc::new(format!("n{}", i % 7))).collect();
            for x in &names {
                if rng.chance(1, 3) { d.push(leaf(rng, n)); }
                d.push(at.wrap(MetaData::StartNode(x.clone())));
            }
            if rng.coin() { d.push(leaf(rng, n)); }
            for x in names.iter().rev() {
                d.push(at.wrap(MetaData::EndNode(x.clone())));
                if rng.chance(1, 3) { d.push(leaf(rng, n)); }
            }
        }
        // Items next to each other.
        1 => for i in 0..n { d.push(leaf(rng, i)); },
        // Nodes next to each other.
        2 => for i in 0..n {
            let x = Arc::new(some_string(rng));
            d.push(at.wrap(MetaData::StartNode(x.clone())));
            for _ in 0..rng.below(3) { d.push(leaf(rng, i)); }
            d.push(at.wrap(MetaData::EndNode(x)));
        },
        // Long strings and names.
        _ => {
            let c = rng.pick(&["x", "é", "日", "😀", "\"", "\\", "\n", "\u{1}", "\u{7f}"]).to_string();
            let mut s = c.repeat(n);
            s.push_str(*rng.pick(&["", "\"", "\\", "é", "\t"]));
            d.push(at.wrap(MetaData::String(Arc::new("s".into()), Arc::new(s.clone()))));
            d.push(at.wrap(MetaData::Bool(Arc::new(s), true)));
        }
    }
    cx.max("max items of meta data", d.len() as u64);
    cx.count("large trees", 1);
    check_json(cx, &d).map_err(|mut v| { for d in &mut v.detail { d.1 = clip(&d.1, 3000); } v })
}

pub fn c12(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c12(cx) { return r; }
    if let Some(r) = crate::every::c12(cx) { return r; }
    let large = cx.idx.wrapping_sub(200) as usize;
    if large < 4 * MANY.len() { return large_tree(cx, MANY[large / 4], large % 4); }
    match cx.rng.below(4) {
        0 => {
            let way = way_of(cx);
            let c = case(cx, way, |k, _| k.p_prop = 90)?;
            for t in &c.texts {
                if c.read(t).is_err() { continue; }
                let r = real_parse(&c.syn, t, c.ind, &[])?;
                if r.res.is_ok() {
                    cx.count("meta data of documents written", 1);
                    check_json(cx, &r.toks)?;
                }
            }
        }
        1 => {
            // Cut and changed trees: written somehow, without a panic.
            let mut d = vec![];
            some_tree(&mut cx.rng, 3, &mut d);
            for _ in 0..cx.rng.range(1, 3) {
                if d.is_empty() { break; }
                let i = cx.rng.below(d.len());
                match cx.rng.below(3) {
                    0 => { d.remove(i); }
                    1 => { let j = cx.rng.below(d.len()); d.swap(i, j); }
                    _ => d.truncate(i),
                }
            }
            check_json(cx, &d)?;
        }
        2 => {
            let s = some_string(&mut cx.rng);
            let mut w: Vec<u8> = vec![];
            ensure!(real("writing a string", || json::write_string(&mut w, &s))?.is_ok(), "writing to memory fails");
            let t = String::from_utf8(w.clone()).map_err(|_| Viol::new("not UTF-8"))?;
            if Json::read(&t) != Ok(J::Str(s.clone())) {
                return viol(format!("the string {:?} is written as {:?}, which is {:?}", s, t, Json::read(&t)));
            }
            cx.eval(hash_bytes(s.as_bytes()), s.len() > 1);
            cx.count("strings read back", 1);
            faulty(cx, &w, |o| json::write_string(o, &s))?;
        }
        _ => {
            let mut d = vec![];
            let depth = *cx.rng.pick(&[0, 1, 2, 4]);
            some_tree(&mut cx.rng, depth, &mut d);
            check_json(cx, &d)?;
        }
    }
    Ok(())
}
