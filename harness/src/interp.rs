//! Reference reading of a text by a grammar, written from the rule table and
//! the documented behaviour, without the library's rule code.
//! Numbers and quoted strings are lexed with `read_token`, the lexer the
//! library builds on (trusted base).

use crate::ast::*;
use piston_meta::Range;
use read_token::{NumberSettings, ParseNumberError, ParseStringError, ReadToken};

#[derive(Clone, Debug, PartialEq)]
pub enum V<'g> {
    Start(&'g str),
    End(&'g str),
    Bool(&'g str, bool),
    F64(&'g str, f64),
    Str(&'g str, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok<'g> {
    pub v: V<'g>,
    pub start: usize,
    pub end: usize,
}

/// Why a rule failed.
#[derive(Clone, Debug, PartialEq)]
pub enum EvK<'g> {
    Whitespace,
    NewLine,
    Something,
    Number,
    NumErr(ParseNumberError),
    Text,
    EmptyText,
    StrErr(ParseStringError),
    Tag(&'g str),
    DidNot(String),
    Invalid(&'static str),
    NoRules,
    End,
    /// A select of which every alternative failed. A table lookup might
    /// report this instead of the failure of an alternative.
    SelectFailed,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev<'g> {
    pub k: EvK<'g>,
    pub id: usize,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    Fail,
    /// Outside of what the model decides: fuel, depth or a repetition that
    /// makes no progress.
    Abort(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ind {
    pub indent: u32,
    pub align_first: bool,
    pub tab_spaces: u8,
}

impl Default for Ind {
    fn default() -> Ind { Ind { indent: 0, align_first: true, tab_spaces: 4 } }
}

#[derive(Default, Clone)]
pub struct Seen {
    /// Rules evaluated per kind, and how many of them failed.
    pub runs: [u64; 14],
    pub fails: [u64; 14],
    pub events: u64,
    pub tokens_dropped: u64,
    pub backtracks_with_tokens: u64,
    pub indent_fail: u64,
    pub lines_items: u64,
    pub sep_items: u64,
    pub rep_items: u64,
    pub max_depth: usize,
}

pub struct M<'g, 't> {
    refs: Vec<&'g R>,
    text: &'t str,
    pub toks: Vec<Tok<'g>>,
    pub ind: Ind,
    pub fuel: u64,
    depth: usize,
    max_depth: usize,
    not_depth: u32,
    pub far: usize,
    pub evs: Vec<Ev<'g>>,
    pub seen: Seen,
}

pub struct Outcome<'g> {
    pub ok: bool,
    /// How far the root rule read when it succeeded.
    pub root_end: Option<usize>,
    pub toks: Vec<Tok<'g>>,
    /// Where the deepest failure ended, with all failures that ended there.
    pub far: usize,
    pub evs: Vec<Ev<'g>>,
    pub seen: Seen,
    pub fuel_used: u64,
    /// Indention after the root rule.
    pub ind: Ind,
}

pub const FUEL: u64 = 60_000;
pub const DEPTH: usize = 250;

/// Reads a whole text with the last rule of a grammar.
pub fn read<'g>(g: &'g G, text: &str, ind: Ind) -> Result<Outcome<'g>, &'static str> {
    read_with(g, text, ind, FUEL, DEPTH)
}

pub fn read_with<'g>(g: &'g G, text: &str, ind: Ind, fuel: u64, depth: usize) -> Result<Outcome<'g>, &'static str> {
    let mut m = M {
        refs: g.rules.iter().map(|x| &x.1).collect(),
        text, toks: vec![], ind, fuel, depth: 0, max_depth: depth, not_depth: 0, far: 0,
        evs: vec![], seen: Seen::default(),
    };
    let (ok, root_end) = match m.refs.last().cloned() {
        None => { m.ev(EvK::NoRules, 0, 0, 0); (false, None) }
        Some(root) => match m.run(root, 0) {
            Ok(end) => {
                if end < text.len() { m.ev(EvK::End, 0, end, end); }
                (end == text.len(), Some(end))
            }
            Err(E::Fail) => (false, None),
            Err(E::Abort(why)) => return Err(why),
        }
    };
    Ok(Outcome { ok, root_end, toks: m.toks, far: m.far, evs: m.evs, seen: m.seen,
        fuel_used: fuel - m.fuel, ind: m.ind })
}

/// How far one rule reads at the start of a text, or `None` when it fails.
pub fn run_rule(g: &G, r: &R, text: &str) -> Result<Option<usize>, &'static str> {
    let mut m = M {
        refs: g.rules.iter().map(|x| &x.1).collect(),
        text, toks: vec![], ind: Ind::default(), fuel: FUEL, depth: 0, max_depth: DEPTH,
        not_depth: 0, far: 0, evs: vec![], seen: Seen::default(),
    };
    match m.run(r, 0) {
        Ok(e) => Ok(Some(e)),
        Err(E::Fail) => Ok(None),
        Err(E::Abort(why)) => Err(why),
    }
}

fn count_ws(s: &str) -> usize {
    for (i, c) in s.char_indices() {
        if !c.is_whitespace() { return i; }
    }
    s.len()
}

fn ends_line(s: &str) -> bool {
    for c in s.chars().rev() {
        if c == '\n' { return true; }
        if !c.is_whitespace() { return false; }
    }
    false
}

impl<'g, 't> M<'g, 't> {
    fn ev(&mut self, k: EvK<'g>, id: usize, start: usize, end: usize) {
        if self.not_depth > 0 { return; }
        self.seen.events += 1;
        if end > self.far {
            self.far = end;
            self.evs.clear();
        }
        if end == self.far { self.evs.push(Ev { k, id, start, end }); }
    }

    fn push(&mut self, v: V<'g>, start: usize, end: usize) {
        self.toks.push(Tok { v, start, end });
    }

    fn lex(&self, pos: usize) -> ReadToken<'t> {
        ReadToken::new(&self.text[pos..], pos)
    }

    pub fn run(&mut self, r: &'g R, pos: usize) -> Result<usize, E> {
        if self.fuel == 0 { return Err(E::Abort("fuel")); }
        if self.depth >= self.max_depth { return Err(E::Abort("depth")); }
        self.fuel -= 1;
        self.depth += 1;
        self.seen.max_depth = self.seen.max_depth.max(self.depth);
        let kind = r.k.kind();
        self.seen.runs[kind] += 1;
        let toks = self.toks.len();
        let ind = self.ind;
        let res = self.rule(r, pos);
        self.depth -= 1;
        if let Err(E::Fail) = res {
            self.seen.fails[kind] += 1;
            if self.toks.len() > toks {
                self.seen.backtracks_with_tokens += 1;
                self.seen.tokens_dropped += (self.toks.len() - toks) as u64;
            }
            self.toks.truncate(toks);
            self.ind = ind;
        }
        res
    }

    fn rule(&mut self, r: &'g R, pos: usize) -> Result<usize, E> {
        let id = r.id;
        let text = self.text;
        let rest = &text[pos..];
        match &r.k {
            K::Ws { opt } => {
                let n = count_ws(rest);
                if n == 0 && !opt {
                    self.ev(EvK::Whitespace, id, pos, pos);
                    return Err(E::Fail);
                }
                Ok(pos + n)
            }
            K::Tag { text: tag, not, inv, prop } => {
                let end = pos + tag.len();
                let hit = rest.starts_with(&tag[..]);
                if hit && *not {
                    self.ev(EvK::DidNot(tag.clone()), id, pos, end);
                    return Err(E::Fail);
                }
                if !hit && !*not {
                    self.ev(EvK::Tag(tag), id, pos, pos);
                    return Err(E::Fail);
                }
                let end = if *not { pos } else { end };
                if let Some(p) = prop { self.push(V::Bool(p, !inv), pos, end); }
                Ok(end)
            }
            K::Until { any, opt, prop } => {
                let n = rest.char_indices().find(|&(_, c)| any.contains(c)).map_or(rest.len(), |x| x.0);
                self.until(n, *opt, prop, id, pos)
            }
            K::UntilWs { any, opt, prop } => {
                let n = rest.char_indices().find(|&(_, c)| c.is_whitespace() || any.contains(c))
                    .map_or(rest.len(), |x| x.0);
                self.until(n, *opt, prop, id, pos)
            }
            K::Text { empty, prop } => {
                let lex = self.lex(pos);
                match lex.string() {
                    None => {
                        self.ev(EvK::Text, id, pos, pos);
                        Err(E::Fail)
                    }
                    Some(range) => {
                        let end = range.next_offset();
                        if range.length == 2 && !empty {
                            self.ev(EvK::EmptyText, id, pos, end);
                            return Err(E::Fail);
                        }
                        match lex.parse_string(range.length) {
                            Err(err) => {
                                let (e, range) = (err.data.clone(), err.range());
                                self.ev(EvK::StrErr(e), id, range.offset, range.next_offset());
                                Err(E::Fail)
                            }
                            Ok(s) => {
                                if let Some(p) = prop { self.push(V::Str(p, s), pos, end); }
                                Ok(end)
                            }
                        }
                    }
                }
            }
            K::Num { us, prop } => {
                let set = NumberSettings { allow_underscore: *us };
                let lex = self.lex(pos);
                match lex.number(&set) {
                    None => {
                        self.ev(EvK::Number, id, pos, pos);
                        Err(E::Fail)
                    }
                    Some(range) => {
                        let end = range.next_offset();
                        match lex.parse_number(&set, range.length) {
                            Err(e) => {
                                self.ev(EvK::NumErr(e), id, pos, end);
                                Err(E::Fail)
                            }
                            Ok(v) => {
                                if let Some(p) = prop { self.push(V::F64(p, v), pos, end); }
                                Ok(end)
                            }
                        }
                    }
                }
            }
            K::Sel(args) => {
                for a in args {
                    match self.run(a, pos) {
                        Err(E::Fail) => {}
                        x => return x,
                    }
                }
                if args.is_empty() {
                    self.ev(EvK::Invalid("`Select` requires at least one sub rule"), id, pos, pos);
                } else {
                    self.ev(EvK::SelectFailed, id, pos, pos);
                }
                Err(E::Fail)
            }
            K::Seq(args) => {
                let mut p = pos;
                for a in args { p = self.run(a, p)?; }
                Ok(p)
            }
            K::Opt(a) => match self.run(a, pos) {
                Err(E::Fail) => Ok(pos),
                x => x,
            },
            K::Not(a) => {
                self.not_depth += 1;
                let res = self.run(a, pos);
                self.not_depth -= 1;
                match res {
                    Ok(end) => {
                        self.ev(EvK::DidNot(text[pos..end].to_string()), id, pos, end);
                        Err(E::Fail)
                    }
                    Err(E::Fail) => Ok(pos),
                    abort => abort,
                }
            }
            K::Rep { rule, opt } => {
                let mut p = pos;
                let mut n = 0;
                loop {
                    match self.run(rule, p) {
                        Ok(e) => {
                            if e == p { return Err(E::Abort("repeat without progress")); }
                            p = e;
                            n += 1;
                        }
                        Err(E::Fail) => break,
                        abort => return abort,
                    }
                }
                self.seen.rep_items += n;
                if n == 0 && !opt { return Err(E::Fail); }
                Ok(p)
            }
            K::Sep { rule, by, opt, trail } => {
                let mut p = pos;
                let mut n = 0;
                loop {
                    let start = p;
                    match self.run(rule, p) {
                        Ok(e) => { p = e; n += 1; }
                        Err(E::Fail) => {
                            // No item: nothing at all, or a trailing separator.
                            if n == 0 { if *opt { break } else { return Err(E::Fail) } }
                            if *trail { break } else { return Err(E::Fail) }
                        }
                        abort => return abort,
                    }
                    match self.run(by, p) {
                        Ok(e) => p = e,
                        Err(E::Fail) => break,
                        abort => return abort,
                    }
                    if p == start { return Err(E::Abort("separated without progress")); }
                }
                self.seen.sep_items += n;
                Ok(p)
            }
            K::Node { prop, index, .. } => {
                let target = match index {
                    None => {
                        self.ev(EvK::Invalid("Node rule is not updated to reference"), id, pos, pos);
                        return Err(E::Fail);
                    }
                    Some(i) => self.refs[*i],
                };
                if let Some(p) = prop { self.push(V::Start(p), pos, pos); }
                let end = self.run(target, pos)?;
                if let Some(p) = prop { self.push(V::End(p), pos, end); }
                Ok(end)
            }
            K::Lines { rule, indent } => self.lines(rule, *indent, id, pos),
        }
    }

    fn until(&mut self, n: usize, opt: bool, prop: &'g Prop, id: usize, pos: usize) -> Result<usize, E> {
        if n == 0 && !opt {
            self.ev(EvK::Something, id, pos, pos);
            return Err(E::Fail);
        }
        let end = pos + n;
        if let Some(p) = prop { self.push(V::Str(p, self.text[pos..end].to_string()), pos, end); }
        Ok(end)
    }

    fn lines(&mut self, rule: &'g R, indent: bool, id: usize, pos: usize) -> Result<usize, E> {
        let text = self.text;
        let mut p = pos;
        // Whether the next item starts on a new line.
        let mut new_line = true;
        let mut first = true;
        loop {
            // Skip empty lines.
            let rest = &text[p..];
            let n = count_ws(rest);
            if let Some(i) = rest[..n].rfind('\n') {
                p += i + 1;
                new_line = true;
            }
            if n == rest.len() { return Ok(text.len()); }
            if !new_line {
                self.ev(EvK::NewLine, id, p, p);
                return Err(E::Fail);
            }
            let start = p;
            let mut at = p;
            let before = self.ind;
            if indent {
                match self.skip_indent(p, &mut first) {
                    None => {
                        self.seen.indent_fail += 1;
                        return Ok(p);
                    }
                    Some(q) => at = q,
                }
                let inside = self.ind;
                self.ind.indent += 1;
                match self.run(rule, at) {
                    Ok(e) => { self.ind = inside; p = e; }
                    Err(E::Fail) => { self.ind = before; return Ok(p); }
                    abort => return abort,
                }
            } else {
                match self.run(rule, at) {
                    Ok(e) => p = e,
                    Err(E::Fail) => return Ok(p),
                    abort => return abort,
                }
            }
            self.seen.lines_items += 1;
            new_line = ends_line(&text[start..p]);
        }
    }

    /// Reads the indention of a line. The first line might be deeper, and then
    /// the rest of the lines must have the same indention.
    fn skip_indent(&mut self, pos: usize, first: &mut bool) -> Option<usize> {
        let b = self.text.as_bytes();
        let mut p = pos;
        let tab = self.ind.tab_spaces as u32;
        let mut n = self.ind.indent;
        while n > 0 {
            match b.get(p) {
                Some(b' ') => { p += 1; n -= 1; }
                Some(b'\t') => {
                    p += 1;
                    if n <= tab {
                        // The whole tab counts for the lines that follow.
                        if *first && self.ind.align_first { self.ind.indent += tab - n; }
                        break;
                    }
                    n -= tab;
                }
                _ => return None,
            }
        }
        if *first && self.ind.align_first {
            *first = false;
            loop {
                match b.get(p) {
                    Some(b' ') => { p += 1; self.ind.indent += 1; }
                    Some(b'\t') => { p += 1; self.ind.indent += tab; }
                    _ => break,
                }
            }
        } else if b.get(p) == Some(&b' ') {
            return None;
        }
        Some(p)
    }
}

/// The library's result in the terms of the model.
pub fn tok_matches(t: &Tok, m: &Range<piston_meta::MetaData>) -> bool {
    use piston_meta::MetaData as D;
    if m.offset != t.start || m.next_offset() != t.end { return false; }
    match (&t.v, &m.data) {
        (V::Start(a), D::StartNode(b)) => **a == *b.as_str(),
        (V::End(a), D::EndNode(b)) => **a == *b.as_str(),
        (V::Bool(a, x), D::Bool(b, y)) => **a == *b.as_str() && x == y,
        (V::F64(a, x), D::F64(b, y)) => **a == *b.as_str() && x.to_bits() == y.to_bits(),
        (V::Str(a, x), D::String(b, y)) => **a == *b.as_str() && *x == **y,
        _ => false,
    }
}

/// Whether a reported error is the failure of an event.
pub fn ev_matches(e: &Ev, err: &Range<piston_meta::ParseError>) -> bool {
    use piston_meta::ParseError as P;
    if err.offset != e.start || err.next_offset() != e.end { return false; }
    match (&e.k, &err.data) {
        (EvK::Whitespace, P::ExpectedWhitespace(id)) => *id == e.id,
        (EvK::NewLine, P::ExpectedNewLine(id)) => *id == e.id,
        (EvK::Something, P::ExpectedSomething(id)) => *id == e.id,
        (EvK::SelectFailed, P::ExpectedSomething(id)) => *id == e.id,
        (EvK::Number, P::ExpectedNumber(id)) => *id == e.id,
        (EvK::NumErr(x), P::ParseNumberError(y, id)) => *id == e.id && format!("{:?}", x) == format!("{:?}", y),
        (EvK::Text, P::ExpectedText(id)) => *id == e.id,
        (EvK::EmptyText, P::EmptyTextNotAllowed(id)) => *id == e.id,
        (EvK::StrErr(x), P::ParseStringError(y, id)) => *id == e.id && format!("{:?}", x) == format!("{:?}", y),
        (EvK::Tag(x), P::ExpectedTag(y, id)) => *id == e.id && **x == *y.as_str(),
        (EvK::DidNot(x), P::DidNotExpectTag(y, id)) => *id == e.id && *x == **y,
        (EvK::Invalid(x), P::InvalidRule(y, id)) => *id == e.id && x == y,
        (EvK::NoRules, P::NoRules) => true,
        (EvK::End, P::ExpectedEnd) => true,
        _ => false,
    }
}
