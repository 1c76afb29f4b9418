//! Reads grammar text without the library, by hand from the description of
//! the grammar language. Numbers and quoted strings are lexed with
//! `read_token`, as in the model.

use crate::ast::*;
use read_token::{NumberSettings, ReadToken};

pub struct Reader<'t> {
    text: &'t str,
    fuel: u64,
    out: bool,
    strings: Vec<(String, String)>,
    nodes: Vec<(f64, String, R)>,
}

#[derive(Debug)]
pub enum Read {
    Grammar(G),
    Rejected,
    /// An id that is no natural number, or the text takes too long to decide.
    Undecided,
}

const SEPS: &str = "[]{}():.!?\"";

/// Where a string comes from: written out, or defined somewhere.
#[derive(Clone)]
enum S { Lit(String), Ref(String) }

pub fn read(text: &str) -> Read {
    let mut r = Reader { text, fuel: 400_000, out: false, strings: vec![], nodes: vec![] };
    let mut names: Vec<(String, String)> = vec![];
    let end = r.lines(0, &mut |r, p| {
        let p = r.ws(p);
        if let Some((p, n, t)) = r.string_def(p) { r.strings.push((n, t)); return Some(p); }
        r.comment(p)
    });
    let end = end.and_then(|p| {
        names = r.strings.clone();
        r.lines(p, &mut |r, p| {
            let p = r.ws(p);
            if let Some((p, n)) = r.node(p) { r.nodes.push(n); return Some(p); }
            r.comment(p)
        })
    }).map(|p| r.ws(p));
    if r.out { return Read::Undecided; }
    match end {
        Some(p) if p == text.len() => {}
        _ => return Read::Rejected,
    }
    // A string that is not defined.
    if r.nodes.iter().any(|n| undefined(&n.2)) { return Read::Rejected; }
    let mut g = G { rules: vec![], ids: vec![] };
    for (id, name, rule) in r.nodes {
        if !(id >= 0.0 && id.fract() == 0.0) { return Read::Undecided; }
        if id >= 9.0e15 { return if id > 1.0e16 { Read::Rejected } else { Read::Undecided }; }
        g.rules.push((name, rule));
        g.ids.push(id as u64);
    }
    g.assign_ids();
    g.resolve();
    Read::Grammar(g)
}

const UNDEFINED: &str = "\u{0}undefined";

fn undefined(r: &R) -> bool {
    let p = |p: &Prop| p.as_ref().map_or(false, |s| s == UNDEFINED);
    let mut found = false;
    r.visit(&mut |r| found |= match &r.k {
        K::Tag { text, prop, .. } => text == UNDEFINED || p(prop),
        K::Until { any, prop, .. } | K::UntilWs { any, prop, .. } => any == UNDEFINED || p(prop),
        K::Text { prop, .. } | K::Num { prop, .. } | K::Node { prop, .. } => p(prop),
        _ => false,
    });
    found
}

impl<'t> Reader<'t> {
    fn tick(&mut self) -> Option<()> {
        if self.fuel == 0 { self.out = true; return None; }
        self.fuel -= 1;
        Some(())
    }

    fn rest(&self, p: usize) -> &'t str { &self.text[p..] }

    fn lit(&self, p: usize, s: &str) -> Option<usize> {
        if self.rest(p).starts_with(s) { Some(p + s.len()) } else { None }
    }

    fn ws(&self, p: usize) -> usize {
        let r = self.rest(p);
        p + (r.len() - r.trim_start().len())
    }

    fn ws1(&self, p: usize) -> Option<usize> {
        let q = self.ws(p);
        if q > p { Some(q) } else { None }
    }

    fn until(&self, p: usize, f: fn(char) -> bool) -> usize {
        p + self.rest(p).find(f).unwrap_or(self.rest(p).len())
    }

    fn word(&self, p: usize) -> Option<(usize, String)> {
        let q = self.until(p, |c| c.is_whitespace() || SEPS.contains(c));
        if q > p { Some((q, self.text[p..q].to_string())) } else { None }
    }

    fn quoted(&self, p: usize) -> Option<(usize, String)> {
        let lex = ReadToken::new(self.rest(p), p);
        let range = lex.string()?;
        lex.parse_string(range.length).ok().map(|s| (range.next_offset(), s))
    }

    /// Items on lines of their own.
    fn lines(&mut self, p: usize, item: &mut dyn FnMut(&mut Self, usize) -> Option<usize>) -> Option<usize> {
        let mut p = p;
        let mut fresh = true;
        loop {
            let q = self.ws(p);
            if q == self.text.len() { return Some(q); }
            if let Some(i) = self.text[p..q].rfind('\n') { fresh = true; p = p + i + 1; }
            if !fresh { return None; }
            match item(self, p) {
                None => return Some(p),
                Some(q) => {
                    let read = &self.text[p..q];
                    fresh = read[read.trim_end().len()..].contains('\n');
                    p = q;
                }
            }
        }
    }

    fn string_def(&mut self, p: usize) -> Option<(usize, String, String)> {
        let p = self.lit(p, "_")?;
        let (p, n) = self.word(p)?;
        let p = self.lit(p, ":")?;
        let p = self.ws(p);
        let (p, t) = self.quoted(p)?;
        Some((p, n, t))
    }

    fn comment(&mut self, p: usize) -> Option<usize> {
        if let Some(q) = self.block_comment(p) { return Some(q); }
        let p = self.lit(p, "//")?;
        Some(self.until(p, |c| c == '\n'))
    }

    fn block_comment(&mut self, p: usize) -> Option<usize> {
        self.tick()?;
        let skip = |r: &Self, p: usize| r.until(p, |c| c == '*' || c == '/');
        let p = self.lit(p, "/*")?;
        let mut p = skip(self, p);
        loop {
            let q = if self.lit(p, "*/").is_none() && self.lit(p, "*").is_some() {
                p + 1
            } else if let Some(q) = self.block_comment(p) {
                q
            } else if let Some(q) = self.lit(p, "/") {
                q
            } else {
                break;
            };
            p = skip(self, q);
        }
        self.lit(p, "*/")
    }

    fn node(&mut self, p: usize) -> Option<(usize, (f64, String, R))> {
        let set = NumberSettings { allow_underscore: false };
        let lex = ReadToken::new(self.rest(p), p);
        let range = lex.number(&set)?;
        let id = lex.parse_number(&set, range.length).ok()?;
        let p = self.ws1(range.next_offset())?;
        if self.lit(p, "_").is_some() || self.lit(p, ".").is_some() { return None; }
        let (p, name) = self.word(p)?;
        let p = self.ws(p);
        let p = self.lit(p, "=")?;
        let p = self.ws(p);
        let (p, rule) = self.rule(p)?;
        Some((p, (id, name, rule)))
    }

    fn resolve(&self, s: S) -> String {
        match s {
            S::Lit(s) => s,
            S::Ref(n) => self.strings.iter().find(|x| x.0 == n).map_or(UNDEFINED.to_string(), |x| x.1.clone()),
        }
    }

    fn set(&mut self, p: usize, empty: bool) -> Option<(usize, String)> {
        if let Some((q, s)) = self.quoted(p) {
            if empty || q - p > 2 { return Some((q, self.resolve(S::Lit(s)))); }
        }
        let p = self.lit(p, "_")?;
        let (p, n) = self.word(p)?;
        Some((p, self.resolve(S::Ref(n))))
    }

    fn opt(&self, p: usize) -> Option<(usize, bool)> {
        if let Some(p) = self.lit(p, "?") { return Some((p, true)); }
        self.lit(p, "!").map(|p| (p, false))
    }

    fn prop(&mut self, p: usize) -> (usize, Prop) {
        match self.lit(p, ":").and_then(|p| self.set(p, false)) {
            Some((p, s)) => (p, Some(s)),
            None => (p, None),
        }
    }

    fn rule(&mut self, p: usize) -> Option<(usize, R)> {
        self.tick()?;
        // The first form that fits counts.
        type F<'t> = fn(&mut Reader<'t>, usize) -> Option<(usize, K)>;
        let forms: [F<'t>; 14] = [
            Self::f_ws, Self::f_until_ws, Self::f_until, Self::f_lines, Self::f_repeat, Self::f_number,
            Self::f_text, Self::f_ref, Self::f_seq, Self::f_sel, Self::f_sep, Self::f_tag, Self::f_opt, Self::f_not,
        ];
        for f in forms {
            if let Some((p, k)) = f(self, p) { return Some((p, r(k))); }
        }
        None
    }

    fn f_ws(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, ".w")?;
        let (p, opt) = self.opt(p)?;
        Some((p, K::Ws { opt }))
    }

    fn f_until_ws(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, "..")?;
        let (p, any) = self.set(p, true)?;
        let (p, opt) = self.opt(p)?;
        let (p, prop) = self.prop(p);
        Some((p, K::UntilWs { any, opt, prop }))
    }

    fn f_until(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, "...")?;
        let (p, any) = self.set(p, true)?;
        let (p, opt) = self.opt(p)?;
        let (p, prop) = self.prop(p);
        Some((p, K::Until { any, opt, prop }))
    }

    fn f_lines(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, ".l")?;
        let plus = self.lit(p, "+");
        let p = self.lit(plus.unwrap_or(p), "(")?;
        let p = self.ws(p);
        let (p, rule) = self.rule(p)?;
        let p = self.ws(p);
        let p = self.lit(p, ")")?;
        Some((p, K::Lines { rule: Box::new(rule), indent: plus.is_some() }))
    }

    fn f_repeat(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, ".r")?;
        let (p, opt) = self.opt(p)?;
        let p = self.lit(p, "(")?;
        let (p, rule) = self.rule(p)?;
        let p = self.lit(p, ")")?;
        Some((p, K::Rep { rule: Box::new(rule), opt }))
    }

    fn f_number(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, ".$")?;
        let us = self.lit(p, "_");
        let (p, prop) = self.prop(us.unwrap_or(p));
        Some((p, K::Num { us: us.is_some(), prop }))
    }

    fn f_text(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, ".t")?;
        let (p, empty) = self.opt(p)?;
        let (p, prop) = self.prop(p);
        Some((p, K::Text { empty, prop }))
    }

    fn f_ref(&mut self, p: usize) -> Option<(usize, K)> {
        if self.lit(p, "_").is_some() || self.lit(p, ".").is_some() { return None; }
        let (p, name) = self.word(p)?;
        let (p, prop) = self.prop(p);
        Some((p, K::Node { name, prop, index: None }))
    }

    fn list(&mut self, p: usize, open: &str, close: &str) -> Option<(usize, Vec<R>)> {
        let p = self.lit(p, open)?;
        let mut p = self.ws(p);
        let mut args = vec![];
        loop {
            match self.rule(p) {
                Some((q, r)) => { args.push(r); p = q; }
                None => break,
            }
            match self.ws1(p) { Some(q) => p = q, None => break }
        }
        if args.is_empty() { return None; }
        let p = self.lit(p, close)?;
        Some((p, args))
    }

    fn f_seq(&mut self, p: usize) -> Option<(usize, K)> {
        self.list(p, "[", "]").map(|(p, a)| (p, K::Seq(a)))
    }

    fn f_sel(&mut self, p: usize) -> Option<(usize, K)> {
        self.list(p, "{", "}").map(|(p, a)| (p, K::Sel(a)))
    }

    fn f_sep(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, ".s")?;
        let (p, opt) = self.opt(p)?;
        let trail = self.lit(p, ".");
        let p = self.lit(trail.unwrap_or(p), "(")?;
        let p = self.ws(p);
        let (p, by) = self.rule(p)?;
        let p = self.ws1(p)?;
        let (p, rule) = self.rule(p)?;
        let p = self.ws(p);
        let p = self.lit(p, ")")?;
        Some((p, K::Sep { rule: Box::new(rule), by: Box::new(by), opt, trail: trail.is_some() }))
    }

    fn f_tag(&mut self, p: usize) -> Option<(usize, K)> {
        let not = self.lit(p, "!");
        let (p, text) = self.set(not.unwrap_or(p), false)?;
        let not = not.is_some();
        if let Some(q) = self.lit(p, ":") {
            let inv = self.lit(q, "!");
            if let Some((q, s)) = self.set(inv.unwrap_or(q), false) {
                return Some((q, K::Tag { text, not, inv: inv.is_some(), prop: Some(s) }));
            }
        }
        Some((p, K::Tag { text, not, inv: false, prop: None }))
    }

    fn f_opt(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, "?")?;
        self.rule(p).map(|(p, r)| (p, K::Opt(Box::new(r))))
    }

    fn f_not(&mut self, p: usize) -> Option<(usize, K)> {
        let p = self.lit(p, "!")?;
        self.rule(p).map(|(p, r)| (p, K::Not(Box::new(r))))
    }
}
