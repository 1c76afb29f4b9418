//! Grammars whose parts nearly agree: what comes next starts like what was
//! just read, or like what was left out. Tokens come from one family, so
//! they are prefixes of each other, share first bytes, or differ by case.

use crate::ast::*;
use crate::big::with_texts;
use crate::c_parse::Case;
use crate::eng::Way;
use crate::fw::*;
use crate::gen::*;
use crate::interp::Ind;
use crate::rng::Rng;

const BASES: [&str; 18] = ["a", "A", "é", "ab", "key", "aaaaaaaaaa", "(", "\"", "1", "-1", " ", "\n", "日本", "//", "xyxyxyxyxyxyxyxyxyx", "\t", "ß", "."];

/// Tokens that are relatives of each other.
pub fn family(rng: &mut Rng) -> Vec<String> {
    let base = rng.pick(&BASES).to_string();
    let mut v = vec![base.clone()];
    for _ in 0..rng.range(1, 5) {
        let from = rng.pick(&v).clone();
        let cs: Vec<char> = from.chars().collect();
        let t: String = match rng.below(10) {
            0 => cs.iter().map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() }).collect(),
            1 if cs.len() > 1 => cs[..cs.len() - 1].iter().collect(),
            2 => format!("{}{}", from, cs[cs.len() - 1]),
            3 => format!("{}{}", from, rng.pick(&["x", "b", "é", " ", "1", ",", "\""])),
            // Another character with the same first byte.
            4 => {
                let mut cs = cs.clone();
                let i = rng.below(cs.len());
                if cs[i].len_utf8() > 1 { cs[i] = std::char::from_u32(cs[i] as u32 ^ 1).unwrap_or('è'); } else { cs[i] = std::char::from_u32(cs[i] as u32 ^ 1).unwrap_or('b'); }
                cs.into_iter().collect()
            }
            5 => cs[..1].iter().collect(),
            6 => cs.iter().rev().collect(),
            7 => format!("{}{}", rng.pick(&["x", " ", "a", "é", "-"]), from),
            8 => rng.pick(&["b", "è", ",", "0", "x"]).to_string(),
            _ => rng.pick(&BASES).to_string(),
        };
        if t.len() < 60 && !v.contains(&t) { v.push(t); }
    }
    v
}

struct Near<'a> {
    rng: &'a mut Rng,
    f: Vec<String>,
    text_form: bool,
    n: usize,
    g: G,
}

impl<'a> Near<'a> {
    fn prop(&mut self) -> Prop {
        if !self.rng.chance(3, 5) { return None; }
        self.n += 1;
        Some(format!("p{}", self.n))
    }
    fn word(&mut self) -> String { self.rng.pick(&self.f).clone() }
    fn tag(&mut self) -> R {
        let prop = self.prop();
        let inv = prop.is_some() && self.rng.chance(1, 4);
        r(K::Tag { text: self.word(), not: false, inv, prop })
    }
    fn any(&mut self) -> String { if self.rng.chance(1, 4) { String::new() } else { self.word() } }

    /// Something that surely reads something.
    fn solid(&mut self) -> R {
        let prop = self.prop();
        match self.rng.below(16) {
            0 => r(K::Text { empty: self.rng.coin(), prop }),
            1 => r(K::Num { us: self.rng.coin(), prop }),
            2 => { let any = self.any(); r(K::Until { any, opt: false, prop }) }
            3 => { let any = self.any(); r(K::UntilWs { any, opt: false, prop }) }
            4 => r(K::Ws { opt: false }),
            5 => { let (a, b) = (self.tag(), self.tag()); r(K::Sel(vec![a, b])) }
            6 => { let a = self.tag(); r(K::Rep { rule: Box::new(a), opt: false }) }
            7 => { let (a, b) = (self.tag(), self.tag()); r(K::Sep { rule: Box::new(a), by: Box::new(b), opt: false, trail: self.rng.coin() }) }
            8 => { let a = self.tag(); self.node(a) }
            _ => self.tag(),
        }
    }

    /// Something that may read nothing.
    fn hollow(&mut self) -> R {
        let prop = self.prop();
        match self.rng.below(15) {
            0 | 1 => { let a = self.tag(); r(K::Opt(Box::new(a))) }
            2 => { let text = self.word(); let inv = prop.is_some() && self.rng.coin(); r(K::Tag { text, not: true, inv, prop }) }
            3 => r(K::Ws { opt: true }),
            4 => { let a = self.tag(); r(K::Rep { rule: Box::new(a), opt: true }) }
            5 => { let (a, b) = (self.tag(), self.tag()); r(K::Sep { rule: Box::new(a), by: Box::new(b), opt: true, trail: self.rng.coin() }) }
            6 => { let any = self.any(); r(K::Until { any, opt: true, prop }) }
            7 => { let any = self.any(); r(K::UntilWs { any, opt: true, prop }) }
            8 => { let a = self.tag(); r(K::Lines { rule: Box::new(a), indent: self.rng.coin() }) }
            9 => { let a = self.seq(3); r(K::Opt(Box::new(a))) }
            10 => { let a = self.hollow(); self.node(a) }
            11 => { let a = self.seq(2); r(K::Not(Box::new(a))) }
            12 => { let (a, b) = (self.solid(), self.hollow()); r(K::Sel(vec![a, b])) }
            13 => { let a = self.seq(2); r(K::Not(Box::new(r(K::Not(Box::new(a)))))) }
            _ => { let a = self.hollow(); r(K::Seq(vec![a])) }
        }
    }

    fn node(&mut self, a: R) -> R {
        self.n += 1;
        let name = format!("n{}", self.n);
        self.g.rules.push((name.clone(), a));
        let prop = self.prop();
        r(K::Node { name, prop, index: None })
    }

    fn seq(&mut self, n: usize) -> R {
        let n = self.rng.range(1, n);
        let v = (0..n).map(|_| if self.rng.chance(1, 4) { self.hollow() } else { self.solid() }).collect();
        r(K::Seq(v))
    }

    /// An alternative that starts with parts that may read nothing.
    fn alternative(&mut self) -> R {
        let mut v = vec![];
        for _ in 0..self.rng.below(3) { v.push(self.hollow()); }
        for _ in 0..self.rng.range(1, 3) { v.push(self.solid()); }
        let s = r(K::Seq(v));
        match self.rng.below(8) {
            0 => self.node(s),
            1 => r(K::Rep { rule: Box::new(s), opt: false }),
            2 => { let b = self.tag(); r(K::Sep { rule: Box::new(s), by: Box::new(b), opt: false, trail: self.rng.coin() }) }
            _ => s,
        }
    }

    /// An item of a list.
    fn item(&mut self) -> R {
        let n = self.rng.range(1, 4);
        let mut v: Vec<R> = (0..n).map(|_| self.solid()).collect();
        if self.rng.chance(1, 3) { let i = self.rng.below(v.len() + 1); let h = self.hollow(); v.insert(i, h); }
        if v.len() == 1 && self.rng.coin() { v.remove(0) } else { r(K::Seq(v)) }
    }

    /// Something that starts as a rule does, and then goes on in another way.
    fn like(&mut self, a: &R) -> R {
        let mut v = match &a.k { K::Seq(v) => v.clone(), _ => vec![a.clone()] };
        let keep = self.rng.below(v.len() + 1);
        v.truncate(keep);
        if keep > 0 && self.rng.coin() {
            // As the same token with something more or less.
            if let K::Tag { text, .. } = &mut v[keep - 1].k {
                if self.rng.coin() { text.push('x'); } else if text.chars().count() > 1 { text.pop(); }
            }
        }
        for _ in 0..self.rng.below(3) { let x = self.solid(); v.push(x); }
        if v.is_empty() { v.push(self.tag()); }
        let s = r(K::Seq(v));
        if self.rng.chance(1, 4) { r(K::Opt(Box::new(s))) } else { s }
    }

    fn list(&mut self, item: R) -> R {
        let opt = self.rng.coin();
        let rule = Box::new(item);
        match self.rng.below(8) {
            0..=3 => {
                let by = if self.rng.chance(1, 6) { self.hollow() } else { self.solid() };
                r(K::Sep { rule, by: Box::new(by), opt, trail: self.rng.coin() })
            }
            4 | 5 => r(K::Rep { rule, opt }),
            6 => r(K::Opt(rule)),
            _ => r(K::Lines { rule, indent: self.rng.chance(1, 3) }),
        }
    }
}

/// What is put together.
#[derive(Clone, Copy, PartialEq)]
pub enum What { Lists, Choices, Any }

pub fn grammar_of(rng: &mut Rng, what: What, text_form: bool) -> (G, Vec<String>) {
    let f = family(rng);
    let mut n = Near { rng, f, text_form, n: 0, g: G { rules: vec![], ids: vec![] } };
    let lists = match what { What::Lists => true, What::Choices => false, What::Any => n.rng.coin() };
    let root = if lists {
        let item = n.item();
        let list = n.list(item.clone());
        let mut v = vec![];
        if n.rng.chance(1, 4) { let t = n.tag(); v.push(t); }
        v.push(list);
        if n.rng.chance(1, 5) { let l = n.list(item.clone()); v.push(l); }
        if n.rng.chance(5, 6) { let l = n.like(&item); v.push(l); }
        let s = r(K::Seq(v));
        match n.rng.below(5) {
            // Lists of lists, and lists in alternatives that are given up.
            0 => n.list(s),
            1 => { let o = n.like(&s); r(K::Sel(vec![s, o])) }
            _ => s,
        }
    } else {
        let m = n.rng.range(2, 5);
        let mut v: Vec<R> = (0..m).map(|_| n.alternative()).collect();
        if n.rng.chance(1, 3) { let k = n.rng.below(v.len()); let x = n.like(&v[k].clone()); v.push(x); }
        if n.rng.chance(1, 4) { let h = n.hollow(); v.push(h); }
        let s = r(K::Sel(v));
        match n.rng.below(5) {
            0 => n.list(s),
            1 => { let t = n.tag(); r(K::Seq(vec![s, t])) }
            2 => { let t = n.hollow(); r(K::Seq(vec![t, s])) }
            _ => s,
        }
    };
    if n.text_form { fit_text(&mut n.g); }
    let (mut g, mut alphabet) = (n.g, n.f);
    g.rules.push(("document".into(), root));
    if text_form { fit_text(&mut g); }
    g.ids = (1..g.rules.len() as u64 + 1).collect();
    g.resolve();
    g.assign_ids();
    alphabet.push("x".into());
    (g, alphabet)
}

/// In grammar text, a token after `!` is one that is refused.
fn fit_text(g: &mut G) {
    for (_, x) in g.rules.iter_mut() {
        x.visit_mut(&mut |x| {
            if let K::Not(a) = &mut x.k {
                if let K::Tag { .. } = a.k { let t = (**a).clone(); **a = r(K::Seq(vec![t])); }
            }
        });
    }
}

pub fn texts_of(rng: &mut Rng, g: &G, alphabet: &[String]) -> Vec<String> {
    let n = rng.range(4, 9);
    let mut v = texts(rng, g, alphabet, Ind::default(), n, 120);
    // Words of the family one after another.
    for _ in 0..3 {
        let n = rng.range(1, 5);
        v.push((0..n).map(|_| rng.pick(alphabet).clone()).collect());
    }
    v
}

pub fn some(cx: &mut Cx, way: Way, what: What) -> Result<Case, Viol> {
    let (g, alphabet) = grammar_of(&mut cx.rng, what, way == Way::Text);
    let t = texts_of(&mut cx.rng, &g, &alphabet);
    cx.count("grammars of parts that nearly agree", 1);
    let mut c = with_texts(cx, g, t, way)?;
    c.big = false;
    Ok(c)
}

/// Now and then as a case of a check that reads documents.
pub fn case(cx: &mut Cx, way: Way, what: What, one_in: usize) -> Result<Option<Case>, Viol> {
    if !cx.rng.chance(1, one_in) { return Ok(None); }
    Ok(Some(some(cx, way, what)?))
}
