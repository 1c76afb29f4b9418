//! Random grammars and texts. Every case draws its own mixture of features.

use crate::ast::*;
use crate::interp::Ind;
use crate::rng::Rng;

pub const THEMES: [&[&str]; 10] = [
    &["\u{0}", "\u{feff}", "\u{7f}", "\u{301}", "\u{10ffff}", "\u{200d}", "\u{1a}"],
    &["a", "b", "c"],
    &["(", ")", ",", ";", ".", "+", "x", "-"],
    &["é", "è", "ê", "Ã", "ß"],
    &["日", "本", "語", "☃", "旦"],
    &["𝄞", "😀", "𝄢", "😁"],
    &["\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", " ", "x"],
    &["\"", "\\", "/", "'", "u"],
    &["\n", " ", "\t", "\r\n", "y", "\n\n"],
    &["1", "0", "e", ".", "_", "9", "-"],
];

pub const WS: [&str; 12] = [" ", "\n", "\t", "\r\n", "  ", "\u{3000}", "\u{a0}", "\u{2028}", "\n \n", "\u{2003}", "\u{b}", "\u{1680}"];

/// Characters that programs treat in ways of their own.
pub const ODD: [&str; 20] = [
    "\u{feff}", "\u{0}", "\u{1a}", "\u{7f}", "\u{1b}", "\u{8}", "\u{301}", "\u{200d}", "\u{200b}", "\u{ad}",
    "\u{10ffff}", "\u{e000}", "\u{fffd}", "\u{fffe}", "\u{b}", "\u{c}", "\u{180e}", "\u{1c}", "\u{2060}", "\u{1ffff}",
];

#[derive(Clone, Debug)]
pub struct Knobs {
    pub w: [u32; 14],
    pub depth: usize,
    pub width: usize,
    pub rules: usize,
    /// Out of 100.
    pub p_prop: usize,
    pub alphabet: Vec<String>,
    pub props: Vec<String>,
    /// Only what grammar text can express.
    pub text_form: bool,
    /// Only what the older grammar text can express.
    pub old_form: bool,
    pub wide: bool,
    pub dup_names: bool,
    pub undef_refs: bool,
    pub cyclic: bool,
}

/// Weights: ws tag until untilws text num sel seq sep rep lines node opt not
pub const W_MIX: [u32; 14] = [8, 30, 5, 5, 5, 5, 14, 20, 6, 6, 6, 10, 8, 6];

pub fn alphabet(rng: &mut Rng) -> Vec<String> {
    let mut a: Vec<String> = vec![];
    let n = rng.range(1, 3);
    for _ in 0..n {
        let t = THEMES[rng.below(THEMES.len())];
        for s in t { if rng.chance(3, 4) { a.push(s.to_string()); } }
    }
    if a.is_empty() { a.push("a".into()); }
    a
}

impl Knobs {
    pub fn random(rng: &mut Rng) -> Knobs {
        let mut w = W_MIX;
        // Swarm: leave out or boost some kinds.
        for x in w.iter_mut() {
            match rng.below(8) {
                0 => *x = 0,
                1 => *x *= 4,
                _ => {}
            }
        }
        if w[1] == 0 { w[1] = 10; }
        if w[6] + w[7] + w[8] + w[9] + w[10] == 0 { w[7] = 10; w[6] = 10; }
        let mut props: Vec<String> = ["p", "q", "name", "é", "long property", "\"q\"", "\\", "n\nl"].iter()
            .map(|x| x.to_string()).collect();
        let keep = rng.range(1, props.len());
        props.truncate(keep);
        if rng.chance(1, 6) { props.push(String::new()); }
        Knobs {
            w,
            depth: rng.range(1, 5),
            width: rng.range(1, 5),
            rules: rng.range(1, 5),
            p_prop: *rng.pick(&[0, 30, 60, 90, 100]),
            alphabet: alphabet(rng),
            props,
            text_form: false,
            old_form: false,
            wide: rng.chance(1, 25),
            dup_names: rng.chance(1, 10),
            undef_refs: rng.chance(1, 20),
            cyclic: rng.chance(1, 2),
        }
    }

    pub fn text_form(rng: &mut Rng) -> Knobs {
        let mut k = Knobs::random(rng);
        k.text_form = true;
        k.undef_refs = false;
        k
    }
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub kn: &'a Knobs,
    names: Vec<String>,
    cur: usize,
    budget: usize,
}

const NAMES: [&str; 42] = [
    "a", "b", "document", "rule", "string", "node", "été", "日本", "x=y", "a-b", "n1", "7", "a_b", "A",
    "name,", "$x", "w", "l", "r", "s", "t", "a/b", "+", "end",
    "@x", "@", "#a", "&", "%n", "~", "^x", "|", "<a>", ";", "'q'", "`", "*", "/x", "$", "x@", "-", "a_",
];

/// The older form has names in quotes.
const OLD_NAMES: [&str; 20] = [
    "a b", " a", "a ", "a  b", "_x", ".w", ".l(", "[x]", "\"", "\\", "1 a = ", "a\nb", "\t", "//", "/*", "?", "!a", "a:b", "a.b", "\u{3000}é",
];

/// A name that can be written in grammar text.
pub fn any_name(rng: &mut Rng) -> String {
    const SIGNS: [&str; 40] = ["#", "$", "%", "&", "'", "*", "+", ",", "-", "/", ";", "<", "=", ">", "@", "\\", "^", "_", "`", "|", "1",
        "~", "0", "9", "e", "Z", "é", "日", "\u{feff}", "\u{7f}", "\u{301}", "\u{200d}", "\u{0}", "😀", "«", "’", "x", "in", "§", "´"];
    let mut s = String::from(*rng.pick(&["a", "x", "N", "é", "$", "z9"]));
    for _ in 0..rng.range(1, 4) { let c = *rng.pick(&SIGNS); s.push_str(c); }
    s
}

pub fn grammar(rng: &mut Rng, kn: &Knobs) -> G {
    let n = kn.rules;
    let mut names: Vec<String> = vec![];
    for i in 0..n {
        // Without text, names may be anything.
        let odd = if kn.old_form { rng.coin() } else { !kn.text_form && rng.chance(1, 4) };
        let c = if odd && !kn.old_form && rng.chance(1, 20) { "" } else if odd { OLD_NAMES[rng.below(OLD_NAMES.len())] } else { NAMES[rng.below(NAMES.len())] }.to_string();
        if names.contains(&c) && !(kn.dup_names && rng.coin()) {
            names.push(format!("{}{}", c, i));
        } else {
            names.push(c);
        }
    }
    // Names of any characters that a name can have.
    if !kn.old_form && rng.chance(1, 6) {
        for i in 0..n {
            let name = any_name(rng);
            if rng.chance(2, 3) && !names.contains(&name) { names[i] = name; }
        }
    }
    let mut rules = vec![];
    {
        let mut g = Gen { rng, kn, names: names.clone(), cur: 0, budget: 120 };
        for i in 0..n {
            g.cur = i;
            g.budget = 120;
            let d = kn.depth;
            let r = g.rule(d, true);
            rules.push((names[i].clone(), r));
        }
    }
    let mut ids = vec![];
    for i in 0..n {
        ids.push(match rng.below(12) {
            0 => rng.below(1000) as u64,
            1 => 0,
            2 => rng.below(1 << 40) as u64,
            _ => i as u64 + 1,
        });
    }
    let mut g = G { rules, ids };
    if rng.chance(1, 120) { stretch(rng, &mut g, kn); }
    g.assign_ids();
    g.resolve();
    g
}

/// The longest string in a grammar.
pub fn longest(g: &G) -> usize {
    let mut n = g.rules.iter().map(|x| x.0.len()).max().unwrap_or(0);
    g.visit(&mut |r| match &r.k {
        K::Tag { text, prop, .. } => n = n.max(text.len()).max(prop.as_ref().map_or(0, |p| p.len())),
        K::Until { any, prop, .. } | K::UntilWs { any, prop, .. } => n = n.max(any.len()).max(prop.as_ref().map_or(0, |p| p.len())),
        K::Text { prop: Some(p), .. } | K::Num { prop: Some(p), .. } | K::Node { prop: Some(p), .. } => n = n.max(p.len()),
        _ => {}
    });
    n
}

/// Where counters, buffers and tables run over.
const LONG: [usize; 18] = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4097];
const LONGEST: [usize; 3] = [65535, 65536, 70001];

/// Makes something about a grammar far larger than usual.
fn stretch(rng: &mut Rng, g: &mut G, kn: &Knobs) {
    let n = if rng.chance(1, 20) { *rng.pick(&LONGEST) } else { *rng.pick(&LONG) };
    // A string of so many bytes, or a little more.
    let long = |rng: &mut Rng, head: &str| {
        let mut s = String::from(head);
        while s.len() < n { s.push_str(&rng.pick(&kn.alphabet)[..]); if s.len() + 40 < n && rng.coin() { let h = s.len().min(n - s.len()); let mut h = h; while !s.is_char_boundary(h) { h -= 1; } let t = s[..h].to_string(); s.push_str(&t); } }
        s
    };
    let last = g.rules.len() - 1;
    match rng.below(6) {
        // Tokens, or what is not in a text.
        0 | 1 => {
            let mut left = 2;
            for i in (0..g.rules.len()).rev() {
                let whole: Vec<String> = (0..2).map(|_| long(rng, "")).collect();
                g.rules[i].1.visit_mut(&mut |r| {
                    if left == 0 { return; }
                    match &mut r.k {
                        K::Tag { text, .. } => { left -= 1; *text = whole[left].clone(); }
                        K::Until { any, .. } | K::UntilWs { any, .. } => {
                            left -= 1;
                            // Many different characters rather than the same ones again.
                            let n = n.min(3000) as u32;
                            *any = (0..n).filter_map(|i| std::char::from_u32(0x21 + i * 7)).filter(|c| !kn.alphabet.iter().any(|a| a.contains(*c))).collect();
                        }
                        _ => {}
                    }
                });
            }
        }
        // Properties.
        2 => for i in 0..g.rules.len() {
            let whole = long(rng, "");
            g.rules[i].1.visit_mut(&mut |r| match &mut r.k {
                K::Tag { prop: Some(p), .. } | K::Until { prop: Some(p), .. } | K::UntilWs { prop: Some(p), .. } | K::Text { prop: Some(p), .. }
                | K::Num { prop: Some(p), .. } | K::Node { prop: Some(p), .. } => *p = format!("{}{}", whole, p),
                _ => {}
            });
        },
        // Names of nodes, that differ only at the end.
        3 => {
            let head = "n".repeat(n);
            for i in 0..g.rules.len() {
                g.rules[i].0 = format!("{}{}", head, g.rules[i].0);
                g.rules[i].1.visit_mut(&mut |r| if let K::Node { name, .. } = &mut r.k { *name = format!("{}{}", head, name); });
            }
        }
        // Rules in rules.
        4 => {
            let n = *rng.pick(&[8, 16, 31, 32, 33, 50, 64, 65]);
            let mut x = g.rules[last].1.clone();
            let way = rng.below(4);
            for i in 0..n {
                x = match (way, i % 3) {
                    (0, _) => r(K::Opt(Box::new(x))),
                    (1, _) => r(K::Seq(vec![x])),
                    (2, 0) => r(K::Seq(vec![x, r(K::Ws { opt: true })])),
                    (2, 1) => r(K::Sel(vec![x, r(K::Num { us: false, prop: None })])),
                    (_, 0) => r(K::Seq(vec![r(K::Tag { text: kn.alphabet[i % kn.alphabet.len()].clone(), not: false, inv: false, prop: None }), x])),
                    (_, _) => r(K::Opt(Box::new(x))),
                };
            }
            g.rules[last].1 = x;
        }
        // Many rules side by side, or one after the other.
        _ => {
            let n = *rng.pick(&[31, 32, 33, 64, 127, 128, 129, 200]);
            match rng.below(3) {
                0 => {
                    let x = g.rules[last].1.clone();
                    let t = |i: usize| r(K::Tag { text: format!("{}{}", kn.alphabet[i % kn.alphabet.len()], i), not: false, inv: false, prop: if i % 3 == 0 { Some(format!("p{}", i)) } else { None } });
                    let mut a: Vec<R> = (0..n).map(t).collect();
                    a.push(x);
                    g.rules[last].1 = r(K::Sel(a));
                }
                1 => {
                    let a: Vec<R> = (0..n).map(|i| {
                        let t = r(K::Tag { text: kn.alphabet[i % kn.alphabet.len()].clone(), not: false, inv: false, prop: if i % 5 == 0 { Some(format!("p{}", i)) } else { None } });
                        if i % 2 == 0 { r(K::Opt(Box::new(r(K::Seq(vec![t]))))) } else { t }
                    }).collect();
                    let x = g.rules[last].1.clone();
                    g.rules[last].1 = r(K::Seq(vec![r(K::Seq(a)), x]));
                }
                _ => {
                    // Each is the one before and something more.
                    let n = n.min(60);
                    for i in 0..n {
                        let before = g.rules.last().unwrap().0.clone();
                        let x = r(K::Node { name: before, prop: if i % 4 == 0 { Some(format!("p{}", i)) } else { None }, index: None });
                        let t = r(K::Tag { text: kn.alphabet[i % kn.alphabet.len()].clone(), not: false, inv: false, prop: None });
                        let x = match i % 3 { 0 => r(K::Seq(vec![t, x])), 1 => r(K::Opt(Box::new(x))), _ => r(K::Seq(vec![x, r(K::Opt(Box::new(r(K::Seq(vec![t])))))])) };
                        g.rules.push((format!("chain-{}", i), x));
                        g.ids.push(100 + i as u64);
                    }
                }
            }
        }
    }
}

pub fn tag_text(rng: &mut Rng, kn: &Knobs, allow_empty: bool) -> String {
    if allow_empty && rng.chance(1, 40) { return String::new(); }
    let n = *rng.pick(&[1, 1, 1, 1, 2, 2, 3]);
    let mut s = String::new();
    for _ in 0..n { s.push_str(&rng.pick(&kn.alphabet)[..]); }
    s
}

impl<'a> Gen<'a> {
    /// A name that no node has, which might be near one.
    fn missing(&mut self, i: usize) -> String {
        let near = &self.names[i];
        let cut: String = near.chars().take(near.chars().count().saturating_sub(1)).collect();
        let rest: String = near.chars().skip(1).collect();
        let tf = self.kn.text_form || self.kn.old_form;
        let head = *self.rng.pick(if tf { &["@", "#", "n", "-", "$"] } else { &["_", "@", ".", " ", "\n"] });
        let name = match self.rng.below(12) {
            8 => rest,
            9 => format!("{}{}", head, near),
            10 if !tf => near.trim_start_matches(|c: char| !c.is_alphanumeric()).to_string(),
            11 => near.to_lowercase(),
            0 => format!("{}_", near),
            1 => near.to_uppercase(),
            2 => format!("{}{}", near, near),
            3 => format!("x{}", near),
            4 => cut,
            _ => "undefined".into(),
        };
        if (tf && (name.is_empty() || name.starts_with('_'))) || self.names.contains(&name) { "undefined".into() } else { name }
    }

    fn prop(&mut self) -> Prop {
        if self.rng.below(100) < self.kn.p_prop {
            Some(self.rng.pick(&self.kn.props).clone())
        } else { None }
    }

    fn any(&mut self) -> String {
        let n = self.rng.below(4);
        (0..n).map(|_| self.rng.pick(&self.kn.alphabet).clone()).collect()
    }

    fn args(&mut self, depth: usize, min: usize) -> Vec<R> {
        let n = self.rng.range(min, self.kn.width.max(min));
        (0..n).map(|_| self.rule(depth, false)).collect()
    }

    fn wide(&mut self) -> K {
        // Many alternatives that start with different bytes, then some that do not.
        let mut chars: Vec<char> = (0x21u32..0x7f).filter_map(std::char::from_u32).collect();
        for lead in [0x80u32, 0xc0, 0x100, 0x140, 0x3a9, 0x400, 0x900, 0x3042, 0x65e5, 0xac00, 0xff21, 0x1d11e, 0x1f600] {
            chars.push(std::char::from_u32(lead + self.rng.below(8) as u32).unwrap());
        }
        let n = self.rng.range(2, chars.len());
        let mut args = vec![];
        for _ in 0..n {
            let c = chars.swap_remove(self.rng.below(chars.len()));
            let p = self.prop();
            let inv = self.rng.coin() && (p.is_some() || !(self.kn.text_form || self.kn.old_form));
            args.push(r(K::Tag { text: c.to_string(), not: false, inv, prop: p }));
        }
        let extra = *self.rng.pick(&[0, 0, 1, 3, 40, 200]);
        for _ in 0..extra {
            let a = self.rule(0, false);
            args.push(a);
        }
        K::Sel(args)
    }

    pub fn rule(&mut self, depth: usize, top: bool) -> R {
        if self.budget > 0 { self.budget -= 1; }
        let mut w = self.kn.w;
        if depth == 0 || self.budget == 0 {
            for i in [6, 7, 8, 9, 10, 12, 13] { w[i] = 0; }
        } else if top {
            // Rather composite rules at the top.
            for i in 0..6 { w[i] = (w[i] + 3) / 4; }
        }
        if self.kn.old_form { w[13] = 0; }
        if w.iter().sum::<u32>() == 0 { w[1] = 1; }
        if self.kn.wide && depth > 0 && self.rng.chance(1, 4) {
            return r(self.wide());
        }
        let kind = self.rng.weighted(&w);
        let tf = self.kn.text_form || self.kn.old_form;
        let k = match kind {
            0 => K::Ws { opt: self.rng.chance(2, 3) },
            1 => {
                let text = tag_text(self.rng, self.kn, !self.kn.old_form);
                let not = self.rng.chance(1, 8);
                let prop = self.prop();
                // Without a property, inversion can not be written.
                let inv = self.rng.chance(1, 3) && (prop.is_some() || !tf);
                K::Tag { text, not, inv, prop }
            }
            2 => K::Until { any: self.any(), opt: self.rng.coin(), prop: self.prop() },
            3 => K::UntilWs { any: self.any(), opt: self.rng.coin(), prop: self.prop() },
            4 => K::Text { empty: self.rng.coin(), prop: self.prop() },
            5 => K::Num { us: self.rng.coin(), prop: self.prop() },
            6 => {
                let min = if tf { 1 } else if self.rng.chance(1, 60) { 0 } else { 1 };
                let w = self.kn.width;
                let n = self.rng.range(min, (w + 2).max(min));
                let n = if n == 1 && self.rng.chance(3, 4) { 2 } else { n };
                K::Sel((0..n).map(|_| self.rule(depth - 1, false)).collect())
            }
            7 => {
                let min = if tf { 1 } else if self.rng.chance(1, 40) { 0 } else { 1 };
                K::Seq(self.args(depth - 1, min))
            }
            8 => {
                let rule = self.rule(depth - 1, false);
                let by = match self.rng.below(18) {
                    // The same on both sides.
                    0 => rule.clone(),
                    1..=6 => self.rule(depth - 1, false),
                    _ => self.rule(0, false),
                };
                K::Sep { rule: Box::new(rule), by: Box::new(by), opt: self.rng.coin(), trail: self.rng.coin() }
            }
            9 => K::Rep { rule: Box::new(self.rule(depth - 1, false)), opt: self.rng.coin() },
            10 => {
                let indent = self.rng.coin() && !self.kn.old_form;
                K::Lines { rule: Box::new(self.rule(depth - 1, false)), indent }
            }
            11 => {
                let n = self.names.len();
                // Mostly to earlier rules. Cycles must read something to end.
                let i = if self.kn.cyclic || self.cur == 0 { self.rng.below(n) } else { self.rng.below(self.cur) };
                let name = if self.kn.undef_refs && self.rng.chance(1, 4) { self.missing(i) }
                    else { self.names[i].clone() };
                let prop = match self.prop() {
                    // Properties have nothing to do with the names of nodes.
                    Some(_) if self.rng.chance(1, 4) => Some(self.rng.pick(&self.names).clone()),
                    p => p,
                };
                K::Node { name, prop, index: None }
            }
            12 => K::Opt(Box::new(self.rule(depth - 1, false))),
            _ => {
                let a = self.rule(depth - 1, false);
                if tf {
                    // `!"x"` is a token that must not be read.
                    if let K::Tag { not: false, .. } = a.k {
                        return r(K::Not(Box::new(r(K::Seq(vec![a])))));
                    }
                }
                K::Not(Box::new(a))
            }
        };
        r(k)
    }
}

pub fn indent_settings(rng: &mut Rng) -> Ind {
    if rng.chance(3, 4) { return Ind::default(); }
    Ind {
        indent: if rng.chance(1, 20) { *rng.pick(&[7, 8, 9, 15, 16, 17, 31, 64, 127, 128, 255, 256, 257]) } else { rng.below(6) as u32 },
        align_first: rng.coin(),
        tab_spaces: *rng.pick(&[0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 12, 16, 127, 128, 255]),
    }
}

/// Quotes a string with a random choice of escapes.
pub fn quote(rng: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    let esc = rng.below(4);
    for c in s.chars() {
        let must = c == '"' || c == '\\';
        if must || (esc == 0 && rng.chance(1, 3)) {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '/' if rng.coin() => o.push_str("\\/"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                '\u{8}' => o.push_str("\\b"),
                '\u{c}' => o.push_str("\\f"),
                c if (c as u32) < 0x10000 => {
                    if rng.coin() { o.push_str(&format!("\\u{:04x}", c as u32)) }
                    else { o.push_str(&format!("\\u{:04X}", c as u32)) }
                }
                c => o.push(c),
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

pub fn numeral(rng: &mut Rng, us: bool) -> String {
    let mut s = String::new();
    match rng.below(8) { 0 | 1 => s.push('-'), 2 => s.push('+'), _ => {} }
    let n = if rng.chance(1, 8) { rng.range(8, 15) } else { rng.range(1, 7) };
    let zeros = if rng.chance(1, 12) { rng.range(1, n) } else { 0 };
    for i in 0..n {
        s.push((b'0' + if i < zeros { 0 } else { rng.below(10) as u8 }) as char);
        if us && i + 1 < n && rng.chance(1, 4) { s.push('_'); }
    }
    if rng.chance(1, 3) {
        s.push('.');
        let most = if rng.chance(1, 8) { 16 - n } else { 6.min(16 - n) };
        for _ in 0..rng.below(most) { s.push((b'0' + rng.below(10) as u8) as char); }
    }
    if rng.chance(1, 4) {
        s.push(if rng.coin() { 'e' } else { 'E' });
        match rng.below(4) { 0 => s.push('-'), 1 => s.push('+'), _ => {} }
        s.push_str(&rng.below(60).to_string());
    }
    s
}

pub struct Sent<'a, 'g> {
    pub rng: &'a mut Rng,
    pub g: &'g G,
    pub alphabet: &'a [String],
    pub ind: Ind,
    pub out: String,
    pub max: usize,
    steps: usize,
    deep: usize,
    /// How much longer it may still get by long values and lists.
    room: usize,
}

/// A text that the grammar is likely to accept.
/// A sentence of one of the nodes.
pub fn sentence_of(rng: &mut Rng, g: &G, node: usize, alphabet: &[String], ind: Ind, max: usize) -> String {
    let (steps, deep) = if g.size() > 60 { (2000, 220) } else { (400, 60) };
    // Room for what is long by itself.
    let mut max = max;
    g.visit(&mut |r| if let K::Tag { text, .. } = &r.k { if text.len() > 100 { max += 3 * text.len(); } });
    let mut s = Sent { rng, g, alphabet, ind, out: String::new(), max, steps, deep, room: 6000 };
    let i = s.ind.indent as usize;
    s.derive(&g.rules[node].1, 0, i);
    s.out
}

pub fn sentence(rng: &mut Rng, g: &G, alphabet: &[String], ind: Ind, max: usize) -> String {
    let (steps, deep) = if g.size() > 60 { (2000, 220) } else { (400, 60) };
    // Room for what is long by itself.
    let mut max = max;
    g.visit(&mut |r| if let K::Tag { text, .. } = &r.k { if text.len() > 100 { max += 3 * text.len(); } });
    let mut s = Sent { rng, g, alphabet, ind, out: String::new(), max, steps, deep, room: 6000 };
    if let Some((_, root)) = g.rules.last() {
        let i = s.ind.indent as usize;
        s.derive(root, 0, i);
    }
    s.out
}

impl<'a, 'g> Sent<'a, 'g> {
    fn chars(&mut self, n: usize) -> String {
        (0..n).map(|_| self.rng.pick(self.alphabet).clone()).collect()
    }

    /// Some values are long, which leaves the rest of the document as much room.
    fn size(&mut self, n: usize) -> usize {
        if !self.rng.chance(1, 60) { return n; }
        let n = if self.rng.chance(1, 8) { *self.rng.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4097]) } else { self.rng.range(5, 40) };
        if n > self.room { return 1; }
        self.room -= n;
        self.max += 4 * n;
        n
    }

    /// So do some lists.
    fn count(&mut self, n: usize) -> usize {
        if !self.rng.chance(1, 60) { return n; }
        let n = if self.rng.chance(1, 8) { *self.rng.pick(&[31, 32, 33, 64, 65, 128, 129, 257]) } else { self.rng.range(4, 20) };
        if 4 * n > self.room { return 1; }
        self.room -= 4 * n;
        self.max += 4 * n;
        self.steps += 3 * n;
        n
    }

    fn until(&mut self, any: &str, opt: bool, ws: bool) {
        let n = self.rng.below(5);
        let n = self.size(n);
        let mut s: String = self.chars(n).chars()
            .filter(|c| !any.contains(*c) && !(ws && c.is_whitespace())).collect();
        if s.is_empty() && !opt {
            for c in ['z', 'k', 'é', '0'] {
                if !any.contains(c) { s.push(c); break; }
            }
        }
        self.out.push_str(&s);
    }

    fn indent_text(&mut self, n: usize) -> String {
        let t = self.ind.tab_spaces as usize;
        let mut s = String::new();
        let mut n = n;
        if t > 0 && t < 20 && self.rng.chance(1, 4) {
            while n >= t { s.push('\t'); n -= t; }
        }
        for _ in 0..n { s.push(' '); }
        s
    }

    fn derive(&mut self, r: &'g R, depth: usize, indent: usize) {
        if self.steps == 0 || depth > self.deep || self.out.len() > self.max { return; }
        self.steps -= 1;
        match &r.k {
            K::Ws { opt } => {
                if !*opt || self.rng.coin() {
                    let n = self.rng.range(1, 2);
                    let n = self.size(n);
                    for _ in 0..n {
                        let w = if self.rng.chance(2, 3) { " " } else { *self.rng.pick(&WS) };
                        self.out.push_str(w);
                    }
                }
            }
            K::Tag { text, not, .. } => if !not { self.out.push_str(text) },
            K::Until { any, opt, .. } => self.until(any, *opt, false),
            K::UntilWs { any, opt, .. } => self.until(any, *opt, true),
            K::Text { empty, .. } => {
                let n = self.rng.below(4);
                let n = self.size(n);
                let mut s = self.chars(n);
                if s.is_empty() && !empty { s.push('v'); }
                let q = quote(self.rng, &s);
                self.out.push_str(&q);
                if self.rng.chance(1, 30) { self.out.pop(); }
                if self.rng.chance(1, 30) {
                    self.out.push_str(*self.rng.pick(&["\"\\x\"", "\"\\u12\"", "\"\\ud800\"", "\"\\"]));
                }
            }
            K::Num { us, .. } => {
                let s = numeral(self.rng, *us);
                self.out.push_str(&s);
            }
            K::Sel(a) => if !a.is_empty() {
                let i = self.rng.below(a.len());
                self.derive(&a[i], depth + 1, indent);
            },
            K::Seq(a) => for x in a { self.derive(x, depth + 1, indent) },
            K::Sep { rule, by, opt, trail } => {
                let n = self.rng.range(if *opt { 0 } else { 1 }, 3);
                let n = self.count(n);
                for i in 0..n {
                    self.derive(rule, depth + 1, indent);
                    if i + 1 < n || (*trail && self.rng.coin()) {
                        self.derive(by, depth + 1, indent);
                    }
                }
            }
            K::Rep { rule, opt } => {
                let n = self.rng.range(if *opt { 0 } else { 1 }, 3);
                let n = self.count(n);
                for _ in 0..n { self.derive(rule, depth + 1, indent); }
            }
            K::Lines { rule, indent: ind } => {
                let n = self.rng.below(4);
                let n = self.count(n);
                let extra = if self.rng.chance(2, 3) { self.rng.below(3) } else { 0 };
                let col = if *ind { indent + extra } else { 0 };
                if n > 0 && self.rng.coin() { self.out.push('\n'); }
                for i in 0..n {
                    if *ind {
                        let wobble = if self.rng.chance(1, 10) { self.rng.below(3) } else { 0 };
                        let t = self.indent_text(col + wobble);
                        self.out.push_str(&t);
                    }
                    self.derive(rule, depth + 1, if *ind { col + 1 } else { indent });
                    if i + 1 < n || self.rng.coin() {
                        let nl = *self.rng.pick(&["\n", "\n", "\n", "\r\n", "\n\n", " \n", "\n \t\n", "\n\u{3000}\n", "\n\u{2003}\u{b}\n"]);
                        self.out.push_str(nl);
                    }
                }
            }
            K::Node { index, .. } => if let Some(i) = index {
                let g = self.g;
                self.derive(&g.rules[*i].1, depth + 1, indent)
            },
            K::Opt(a) => if self.rng.coin() { self.derive(a, depth + 1, indent) },
            K::Not(_) => {}
        }
    }
}

/// Changes a text a little.
pub fn mutate(rng: &mut Rng, s: &str, alphabet: &[String]) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let n = rng.range(1, 3);
    for _ in 0..n {
        let i = rng.below(cs.len() + 1);
        let ins: Vec<char> = if rng.chance(1, 5) { rng.pick(&WS).chars().collect() }
            else if rng.chance(1, 12) { rng.pick(&ODD).chars().collect() }
            else { rng.pick(alphabet).chars().collect() };
        match rng.below(6) {
            0 => { for (j, c) in ins.into_iter().enumerate() { cs.insert(i + j, c); } }
            1 => if i < cs.len() { cs.remove(i); },
            2 => if i < cs.len() { cs[i] = ins[0]; },
            3 => cs.truncate(i),
            4 => {
                let j = rng.below(cs.len() + 1);
                let (a, b) = (i.min(j), i.max(j));
                let part: Vec<char> = cs[a..b].to_vec();
                if part.len() < 60 { for (k, c) in part.into_iter().enumerate() { cs.insert(b + k, c); } }
            }
            _ => if i + 1 < cs.len() { cs.swap(i, i + 1); },
        }
    }
    cs.into_iter().collect()
}

/// Texts to read with a grammar: sentences, near sentences, noise.
pub fn texts(rng: &mut Rng, g: &G, alphabet: &[String], ind: Ind, n: usize, max: usize) -> Vec<String> {
    let mut v = vec![];
    for i in 0..n {
        let t = match rng.below(10) {
            0 => {
                let n = rng.below(8);
                (0..n).map(|_| rng.pick(alphabet).clone()).collect()
            }
            1..=4 => {
                let s = sentence(rng, g, alphabet, ind, max);
                mutate(rng, &s, alphabet)
            }
            _ => sentence(rng, g, alphabet, ind, max),
        };
        if i == 0 && rng.chance(1, 10) { v.push(String::new()); continue; }
        let mut t = t;
        if rng.chance(1, 30) {
            let c = *rng.pick(&ODD);
            if rng.coin() { t.insert_str(0, c); } else { t.push_str(c); }
        }
        v.push(t);
    }
    v
}

/// Numbers of nodes where counters and tables run over.
pub const NODES: [usize; 8] = [127, 128, 255, 256, 257, 700, 1001, 2000];

/// A grammar of many nodes, each with strings of its own, in the order that
/// `shuffle` gives: nodes may be used before they are defined.
pub fn many_nodes(rng: &mut Rng, n: usize) -> (G, Knobs) {
    let mut kn = Knobs::text_form(rng);
    kn.dup_names = false;
    kn.undef_refs = false;
    let lead = ["a", "k", "é", "日", "x", "+", "", "😀", "_"];
    let tag = |rng: &mut Rng, i: usize| -> String { format!("{}{};", lead[rng.below(lead.len())], i) };
    let prop = |rng: &mut Rng, i: usize| -> Prop { if rng.chance(2, 3) { Some(format!("p{}", i)) } else { None } };
    let mut order: Vec<usize> = (0..n).collect();
    if rng.coin() { for i in (1..n).rev() { let j = rng.below(i + 1); order.swap(i, j); } }
    let mut rules: Vec<(String, R)> = vec![];
    let mut long: Vec<String> = vec![];
    let mut shape: Vec<Option<R>> = vec![None; n];
    for i in 0..n {
        let t = tag(rng, i);
        if rng.chance(1, 20) { long.push(t.clone()); }
        let p = prop(rng, i);
        let inv = p.is_some() && rng.chance(1, 5);
        let me = r(K::Tag { text: t, not: false, inv, prop: p });
        // Only nodes of smaller numbers, a few steps deep.
        let other = if i > 2 && i % 3 == 2 { Some(r(K::Node { name: format!("n{}", i - 1 - rng.below(2)), prop: prop(rng, i), index: None })) } else { None };
        shape[i] = Some(match (other, rng.below(6)) {
            (Some(o), 0) => r(K::Seq(vec![me, r(K::Opt(Box::new(o)))])),
            (Some(o), 1) => r(K::Sel(vec![r(K::Seq(vec![me, o])), r(K::Num { us: false, prop: Some(format!("v{}", i)) })])),
            (Some(o), 2) => r(K::Seq(vec![me, r(K::Sep { rule: Box::new(o), by: Box::new(r(K::Tag { text: ",".into(), not: false, inv: false, prop: None })), opt: true, trail: rng.coin() })])),
            (Some(o), _) => r(K::Seq(vec![me, o])),
            (None, 0) => r(K::Seq(vec![me, r(K::UntilWs { any: ";".into(), opt: true, prop: Some(format!("u{}", i)) })])),
            (None, 1) => r(K::Seq(vec![r(K::Not(Box::new(r(K::Seq(vec![r(K::Tag { text: "!".into(), not: false, inv: false, prop: None })]))))), me])),
            (None, _) => me,
        });
    }
    for &i in &order { rules.push((format!("n{}", i), shape[i].take().unwrap())); }
    // Any of them, in groups of any size.
    let mut groups: Vec<R> = vec![];
    let mut i = 0;
    while i < n {
        let k = *rng.pick(&[1, 3, 17, 100, 254, 255, 256, 300, 1001]);
        let part: Vec<R> = (i..(i + k).min(n)).map(|j| r(K::Node { name: format!("n{}", j), prop: if rng.coin() { Some(format!("n{}", j)) } else { None }, index: None })).collect();
        i += k;
        groups.push(if part.len() == 1 { part.into_iter().next().unwrap() } else { r(K::Sel(part)) });
    }
    let any = if groups.len() == 1 { groups.pop().unwrap() } else { r(K::Sel(groups)) };
    rules.push(("any".into(), any));
    let list = r(K::Rep { rule: Box::new(r(K::Seq(vec![r(K::Node { name: "any".into(), prop: None, index: None }), r(K::Ws { opt: true })]))), opt: rng.coin() });
    rules.push(("document".into(), list));
    let ids = (0..rules.len()).map(|i| i as u64 + 1).collect();
    let mut g = G { rules, ids };
    g.assign_ids();
    g.resolve();
    kn.alphabet = vec!["a".into(), ";".into(), "1".into(), "k2;".into(), " ".into(), "é".into(), "p".into()];
    kn.alphabet.extend(long.into_iter().take(40));
    (g, kn)
}
