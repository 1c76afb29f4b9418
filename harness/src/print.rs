//! Writes grammars as grammar text, with a random layout.

use crate::ast::*;
use crate::gen::quote;
use crate::rng::Rng;

pub struct Style {
    /// Chance out of 100 to write a string through a reusable string.
    pub reuse: usize,
    /// Chance out of 100 for a comment between items.
    pub comments: usize,
    /// Random whitespace where the grammar allows it.
    pub layout: bool,
    /// Random string escapes.
    pub escapes: bool,
}

impl Style {
    pub fn plain() -> Style { Style { reuse: 0, comments: 0, layout: false, escapes: false } }
    pub fn random(rng: &mut Rng) -> Style {
        Style {
            reuse: *rng.pick(&[0, 0, 30, 70, 100]),
            comments: *rng.pick(&[0, 0, 30, 70]),
            layout: rng.coin(),
            escapes: rng.coin(),
        }
    }
}

pub struct Printer<'a> {
    pub rng: &'a mut Rng,
    pub style: &'a Style,
    pub strings: Vec<(String, String)>,
    old: bool,
}

const SNAMES: [&str; 20] = ["opt", "s", "é", "日", "a-b", "x_y", "0", "=", "_", "very_long_string_name",
    // Names that are nearly another.
    "S", "Opt", "op", "optional", "É", "e\u{301}", "very_long_string_namf", "00", "X_y", "a_b"];

pub fn comment(rng: &mut Rng, depth: usize) -> String {
    if depth == 0 && rng.chance(1, 3) {
        let mut s = String::from("//");
        for _ in 0..rng.below(6) {
            s.push_str(*rng.pick(&["a", " ", "é", "\"", "/*", "*/", "//", "_x: \"y\"", "1 a = \"b\"", "日", "\t", "'"]));
        }
        return s;
    }
    let mut s = String::from("/*");
    for _ in 0..rng.below(6) {
        match rng.below(12) {
            0 if depth < 3 => s.push_str(&comment(rng, depth + 1)),
            n => s.push_str(["x", " ", "\n", "\"", "*x", "/x", "// ", "1 a = \"b\"\n", "日", "**x", "_s: \"t\"\n", "'"][n]),
        }
    }
    // A star before the end is part of the comment.
    if rng.chance(1, 4) { s.push('*'); }
    s.push_str("*/");
    s
}

impl<'a> Printer<'a> {
    fn ws(&mut self, min: usize) -> String {
        if !self.style.layout { return if min > 0 { " ".into() } else { String::new() }; }
        let n = self.rng.range(min, min + 2);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(*self.rng.pick(&[" ", " ", "  ", "\n", "\t", "\r\n", "\n\n", "\u{3000}", "\u{a0}", "\n\u{c}\n", "\u{b}", "\r"]));
        }
        s
    }

    fn lit(&mut self, s: &str) -> String {
        if self.style.escapes { quote(self.rng, s) } else { plain_quote(s) }
    }

    fn sref(&mut self, s: &str) -> String {
        if let Some(x) = self.strings.iter().find(|x| x.1 == s) {
            if self.rng.chance(3, 4) { return x.0.clone(); }
        }
        let mut base = SNAMES[self.rng.below(SNAMES.len())].to_string();
        if self.rng.chance(1, 4) && !self.strings.is_empty() && !self.old {
            let i = self.rng.below(self.strings.len());
            let near = &self.strings[i].0;
            base = match self.rng.below(4) {
                0 => near.to_uppercase(),
                1 => format!("{}x", near),
                2 => format!("x{}", near),
                _ => near.chars().skip(1).collect(),
            };
            if base.is_empty() { base = "s".into(); }
        }
        let mut name = if self.old { format!("{}{}", self.rng.pick(&["zz", "z", "=", "é", "#", "/", "*", "//", "0", ",", "\u{0}", "Z", "日"]), base) } else { base };
        if !self.old && self.rng.chance(1, 6) { name = crate::gen::any_name(self.rng); }
        if self.strings.iter().any(|x| x.0 == name) {
            name = format!("{}{}", name, self.strings.len());
            while self.strings.iter().any(|x| x.0 == name) { name.push('x'); }
        }
        self.strings.push((name.clone(), s.to_string()));
        name
    }

    /// A string where it may be written through a reusable string.
    fn set(&mut self, s: &str, allow_empty: bool) -> String {
        if (s.is_empty() && !allow_empty) || self.rng.below(100) < self.style.reuse {
            let n = self.sref(s);
            if self.old { n } else { format!("_{}", n) }
        } else {
            self.lit(s)
        }
    }

    fn prop(&mut self, p: &Prop) -> String {
        match p {
            None => String::new(),
            Some(p) => {
                let s = self.set(p, false);
                if self.old { s } else { format!(":{}", s) }
            }
        }
    }

    fn list(&mut self, open: &str, args: &[R], close: &str) -> String {
        let mut s = open.to_string();
        s += &self.ws(0);
        for (i, a) in args.iter().enumerate() {
            if i > 0 { s += &self.ws(1); }
            s += &self.rule(a);
        }
        s += &self.ws(0);
        s + close
    }

    pub fn rule(&mut self, r: &R) -> String {
        fn opt(x: bool) -> &'static str { if x { "?" } else { "!" } }
        let old = self.old;
        let dot = if old { "" } else { "." };
        match &r.k {
            K::Ws { opt: o } => format!("{}w{}", dot, opt(*o)),
            K::Tag { text, not, inv, prop } => {
                let mut s = String::new();
                if *not { s.push('!'); }
                if old {
                    let t = self.set(text, false);
                    let p = prop.as_ref().map(|p| self.set(p, false));
                    // Two names in a row would be read as one.
                    let two = !*inv && !t.starts_with('"') && p.as_ref().map_or(false, |p| !p.starts_with('"'));
                    s += &if two { self.lit(text) } else { t };
                    if let Some(p) = p {
                        if *inv { s.push('!'); }
                        s += &p;
                    }
                    return s;
                }
                s += &self.set(text, false);
                if let Some(p) = prop {
                    s.push(':');
                    if *inv { s.push('!'); }
                    s += &self.set(p, false);
                }
                s
            }
            K::Until { any, opt: o, prop } => {
                let a = self.set(any, true);
                let p = self.prop(prop);
                format!("...{}{}{}", a, opt(*o), p)
            }
            K::UntilWs { any, opt: o, prop } => {
                let a = self.set(any, true);
                let p = self.prop(prop);
                format!("..{}{}{}", a, opt(*o), p)
            }
            K::Text { empty, prop } => {
                let p = self.prop(prop);
                format!("{}t{}{}", dot, opt(*empty), p)
            }
            K::Num { us, prop } => {
                let p = self.prop(prop);
                format!("{}${}{}", dot, if *us { "_" } else { "" }, p)
            }
            K::Sel(a) => self.list("{", a, "}"),
            K::Seq(a) => self.list("[", a, "]"),
            K::Sep { rule, by, opt: o, trail } => {
                let mut s = format!("{}s{}{}(", dot, opt(*o), if *trail { "." } else { "" });
                s += &self.ws(0);
                s += &self.rule(by);
                if old {
                    s += &self.ws(0);
                    s.push(')');
                    s += &self.ws(0);
                    s.push('{');
                    s += &self.ws(0);
                    s += &self.rule(rule);
                    s += &self.ws(0);
                    s.push('}');
                } else {
                    s += &self.ws(1);
                    s += &self.rule(rule);
                    s += &self.ws(0);
                    s.push(')');
                }
                s
            }
            K::Rep { rule, opt: o } => {
                let x = self.rule(rule);
                format!("{}r{}({})", dot, opt(*o), x)
            }
            K::Lines { rule, indent } => {
                let mut s = format!("{}l{}(", dot, if *indent { "+" } else { "" });
                s += &self.ws(0);
                s += &self.rule(rule);
                s += &self.ws(0);
                s.push(')');
                s
            }
            K::Node { name, prop, .. } => {
                let p = self.prop(prop);
                if old {
                    let n = self.lit(name);
                    format!("@{}{}", n, p)
                } else {
                    format!("{}{}", name, p)
                }
            }
            K::Opt(a) => format!("?{}", self.rule(a)),
            K::Not(a) => format!("!{}", self.rule(a)),
        }
    }

    fn between(&mut self, s: &mut String) {
        s.push('\n');
        while !self.old && self.rng.below(100) < self.style.comments {
            let c = comment(self.rng, 0);
            s.push_str(&self.lead());
            s.push_str(&c);
            s.push('\n');
        }
        if self.style.layout && self.rng.chance(1, 4) {
            s.push_str(*self.rng.pick(&["\n", "\r\n", " \n", "\t\n\n", "\u{3000}\n", "\u{c}\n", "\u{85}\n", "\u{2028}\n", "\n\n\n\n"]));
        }
    }

    fn lead(&mut self) -> String {
        if self.style.layout && self.rng.coin() {
            self.rng.pick(&["  ", "\t", "    ", "\u{a0}"]).to_string()
        } else { String::new() }
    }

    fn item_lead(&mut self) -> String { self.lead() }
}

pub fn plain_quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c => o.push(c) }
    }
    o.push('"');
    o
}

/// Writes a grammar in the current grammar text.
pub fn print(rng: &mut Rng, g: &G, style: &Style) -> String { print_as(rng, g, style, false) }

/// Writes a grammar in the older grammar text.
pub fn print_old(rng: &mut Rng, g: &G, style: &Style) -> String { print_as(rng, g, style, true) }

fn print_as(rng: &mut Rng, g: &G, style: &Style, old: bool) -> String {
    let mut p = Printer { rng, style, strings: vec![], old };
    let mut nodes = vec![];
    for (i, (name, r)) in g.rules.iter().enumerate() {
        let mut s = p.item_lead();
        s += &id_text(p.rng, g.ids[i], style.layout);
        s += &p.ws(1);
        if old {
            s += &p.lit(name);
            s += &p.ws(1);
        } else {
            s += name;
            s += &p.ws(1);
            s += "=";
            s += &p.ws(0);
        }
        s += &p.rule(r);
        nodes.push(s);
    }
    let mut out = String::new();
    if style.layout || style.comments > 0 { p.between(&mut out); }
    let strings = p.strings.clone();
    // The first string with a name counts.
    let mut items: Vec<(String, String)> = strings;
    if style.layout && !items.is_empty() && p.rng.chance(1, 4) {
        let i = p.rng.below(items.len());
        let n = items[i].0.clone();
        items.push((n, "shadowed".into()));
    }
    for (n, t) in items {
        let lead = p.item_lead();
        let ws = p.ws(0);
        let lit = p.lit(&t);
        out += &format!("{}{}{}:{}{}", lead, if old { "" } else { "_" }, n, ws, lit);
        p.between(&mut out);
    }
    for s in nodes {
        out += &s;
        p.between(&mut out);
    }
    if style.layout { out += &p.ws(0); }
    out
}

fn id_text(rng: &mut Rng, id: u64, vary: bool) -> String {
    if vary && rng.chance(1, 5) {
        match rng.below(4) {
            0 => return format!("{}.0", id),
            1 => return format!("0{}", id),
            2 => return format!("{}.", id),
            _ => return format!("{}e0", id),
        }
    }
    id.to_string()
}
