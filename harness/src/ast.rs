//! Grammars as this harness sees them, independent of the types of the
//! library, with conversions to and from the library's rules.

use piston_meta::meta_rules as m;
use piston_meta::{Rule, Syntax};
use std::sync::Arc;

pub type Prop = Option<String>;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Ws { opt: bool },
    Tag { text: String, not: bool, inv: bool, prop: Prop },
    Until { any: String, opt: bool, prop: Prop },
    UntilWs { any: String, opt: bool, prop: Prop },
    Text { empty: bool, prop: Prop },
    Num { us: bool, prop: Prop },
    Sel(Vec<R>),
    Seq(Vec<R>),
    Sep { rule: Box<R>, by: Box<R>, opt: bool, trail: bool },
    Rep { rule: Box<R>, opt: bool },
    Lines { rule: Box<R>, indent: bool },
    Node { name: String, prop: Prop, index: Option<usize> },
    Opt(Box<R>),
    Not(Box<R>),
}

pub const KINDS: [&str; 14] = [
    "whitespace", "token", "until_any", "until_any_or_whitespace", "text", "number",
    "select", "sequence", "separate_by", "repeat", "lines", "node", "optional", "not",
];

#[derive(Clone, Debug, PartialEq)]
pub struct R {
    pub id: usize,
    pub k: K,
}

/// A grammar: named rules in order, each with the number in front of it.
#[derive(Clone, Debug, PartialEq)]
pub struct G {
    pub rules: Vec<(String, R)>,
    pub ids: Vec<u64>,
}

pub fn r(k: K) -> R { R { id: 0, k } }

impl K {
    pub fn kind(&self) -> usize {
        match self {
            K::Ws { .. } => 0,
            K::Tag { .. } => 1,
            K::Until { .. } => 2,
            K::UntilWs { .. } => 3,
            K::Text { .. } => 4,
            K::Num { .. } => 5,
            K::Sel(_) => 6,
            K::Seq(_) => 7,
            K::Sep { .. } => 8,
            K::Rep { .. } => 9,
            K::Lines { .. } => 10,
            K::Node { .. } => 11,
            K::Opt(_) => 12,
            K::Not(_) => 13,
        }
    }
}

impl R {
    /// Children in the order they are written in grammar text.
    pub fn children(&self) -> Vec<&R> {
        match &self.k {
            K::Sel(a) | K::Seq(a) => a.iter().collect(),
            K::Sep { rule, by, .. } => vec![by, rule],
            K::Rep { rule, .. } | K::Lines { rule, .. } => vec![rule],
            K::Opt(a) | K::Not(a) => vec![a],
            _ => vec![],
        }
    }
    pub fn children_mut(&mut self) -> Vec<&mut R> {
        match &mut self.k {
            K::Sel(a) | K::Seq(a) => a.iter_mut().collect(),
            K::Sep { rule, by, .. } => vec![by, rule],
            K::Rep { rule, .. } | K::Lines { rule, .. } => vec![rule],
            K::Opt(a) | K::Not(a) => vec![a],
            _ => vec![],
        }
    }
    pub fn visit<'a, F: FnMut(&'a R)>(&'a self, f: &mut F) {
        f(self);
        for c in self.children() { c.visit(f); }
    }
    pub fn visit_mut<F: FnMut(&mut R)>(&mut self, f: &mut F) {
        f(self);
        for c in self.children_mut() { c.visit_mut(f); }
    }
    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }
    /// Numbers rules in the order they end in grammar text.
    fn number(&mut self, id: &mut usize) {
        for c in self.children_mut() { c.number(id); }
        *id += 1;
        self.id = *id;
    }
}

impl G {
    /// Assigns debug ids: node number times 1000, counting sub rules from 1.
    pub fn assign_ids(&mut self) {
        let ids = self.ids.clone();
        for (i, (_, r)) in self.rules.iter_mut().enumerate() {
            let mut id = ids[i] as usize * 1000;
            r.number(&mut id);
        }
    }
    /// Gives every rule of the grammar its own id.
    pub fn assign_unique_ids(&mut self) {
        let mut id = 0;
        for (_, r) in self.rules.iter_mut() { r.number(&mut id); }
    }
    /// Resolves references: the first rule with the name.
    pub fn resolve(&mut self) {
        let names: Vec<String> = self.rules.iter().map(|x| x.0.clone()).collect();
        for (_, r) in self.rules.iter_mut() {
            r.visit_mut(&mut |x| {
                if let K::Node { ref name, ref mut index, .. } = x.k {
                    *index = names.iter().position(|n| n == name);
                }
            });
        }
    }
    pub fn size(&self) -> usize { self.rules.iter().map(|x| x.1.size()).sum() }
    pub fn visit<'a, F: FnMut(&'a R)>(&'a self, f: &mut F) {
        for (_, r) in &self.rules { r.visit(f); }
    }
}

fn arc(s: &str) -> Arc<String> { Arc::new(s.to_string()) }
fn aprop(p: &Prop) -> Option<Arc<String>> { p.as_ref().map(|s| arc(s)) }
fn sprop(p: &Option<Arc<String>>) -> Prop { p.as_ref().map(|s| s.to_string()) }

/// Builds the library's rule. `link` copies the resolved reference;
/// without it the library must resolve names itself.
pub fn to_rule(r: &R, link: bool) -> Rule {
    let id = r.id;
    match &r.k {
        K::Ws { opt } => Rule::Whitespace(m::Whitespace { optional: *opt, debug_id: id }),
        K::Tag { text, not, inv, prop } => Rule::Tag(m::Tag {
            text: arc(text), not: *not, inverted: *inv, property: aprop(prop), debug_id: id,
        }),
        K::Until { any, opt, prop } => Rule::UntilAny(m::UntilAny {
            any_characters: arc(any), optional: *opt, property: aprop(prop), debug_id: id,
        }),
        K::UntilWs { any, opt, prop } => Rule::UntilAnyOrWhitespace(m::UntilAnyOrWhitespace {
            any_characters: arc(any), optional: *opt, property: aprop(prop), debug_id: id,
        }),
        K::Text { empty, prop } => Rule::Text(m::Text {
            allow_empty: *empty, property: aprop(prop), debug_id: id,
        }),
        K::Num { us, prop } => Rule::Number(m::Number {
            allow_underscore: *us, property: aprop(prop), debug_id: id,
        }),
        K::Sel(a) => Rule::Select(m::Select {
            args: a.iter().map(|x| to_rule(x, link)).collect(), debug_id: id,
        }),
        K::Seq(a) => Rule::Sequence(m::Sequence {
            args: a.iter().map(|x| to_rule(x, link)).collect(), debug_id: id,
        }),
        K::Sep { rule, by, opt, trail } => Rule::SeparateBy(Box::new(m::SeparateBy {
            rule: to_rule(rule, link), by: to_rule(by, link), optional: *opt,
            allow_trail: *trail, debug_id: id,
        })),
        K::Rep { rule, opt } => Rule::Repeat(Box::new(m::Repeat {
            rule: to_rule(rule, link), optional: *opt, debug_id: id,
        })),
        K::Lines { rule, indent } => Rule::Lines(Box::new(m::Lines {
            rule: to_rule(rule, link), indent: *indent, debug_id: id,
        })),
        K::Node { name, prop, index } => Rule::Node(m::Node {
            name: arc(name), property: aprop(prop), debug_id: id,
            index: if link { *index } else { None },
        }),
        K::Opt(a) => Rule::Optional(Box::new(m::Optional { rule: to_rule(a, link), debug_id: id })),
        K::Not(a) => Rule::Not(Box::new(m::Not { rule: to_rule(a, link), debug_id: id })),
    }
}

pub fn to_syntax(g: &G, link: bool) -> Syntax {
    let mut s = Syntax::new();
    for (n, r) in &g.rules { s.push(arc(n), to_rule(r, link)); }
    s
}

/// Reads the library's rule back. A select that was replaced by a table
/// lookup is read as the select it came from.
pub fn from_rule(rule: &Rule) -> R {
    let (id, k) = match rule {
        Rule::Whitespace(x) => (x.debug_id, K::Ws { opt: x.optional }),
        Rule::Tag(x) => (x.debug_id, K::Tag {
            text: x.text.to_string(), not: x.not, inv: x.inverted, prop: sprop(&x.property),
        }),
        Rule::UntilAny(x) => (x.debug_id, K::Until {
            any: x.any_characters.to_string(), opt: x.optional, prop: sprop(&x.property),
        }),
        Rule::UntilAnyOrWhitespace(x) => (x.debug_id, K::UntilWs {
            any: x.any_characters.to_string(), opt: x.optional, prop: sprop(&x.property),
        }),
        Rule::Text(x) => (x.debug_id, K::Text { empty: x.allow_empty, prop: sprop(&x.property) }),
        Rule::Number(x) => (x.debug_id, K::Num { us: x.allow_underscore, prop: sprop(&x.property) }),
        Rule::Select(x) => (x.debug_id, K::Sel(x.args.iter().map(from_rule).collect())),
        Rule::FastSelect(x) => {
            let mut args: Vec<R> = vec![];
            for (i, a) in x.args.iter().enumerate() {
                if x.tail && i + 1 == x.args.len() {
                    match from_rule(a) {
                        R { k: K::Sel(tail), id } if id == x.debug_id => args.extend(tail),
                        other => args.push(other),
                    }
                } else {
                    args.push(from_rule(a));
                }
            }
            (x.debug_id, K::Sel(args))
        }
        Rule::Sequence(x) => (x.debug_id, K::Seq(x.args.iter().map(from_rule).collect())),
        Rule::SeparateBy(x) => (x.debug_id, K::Sep {
            rule: Box::new(from_rule(&x.rule)), by: Box::new(from_rule(&x.by)),
            opt: x.optional, trail: x.allow_trail,
        }),
        Rule::Repeat(x) => (x.debug_id, K::Rep { rule: Box::new(from_rule(&x.rule)), opt: x.optional }),
        Rule::Lines(x) => (x.debug_id, K::Lines { rule: Box::new(from_rule(&x.rule)), indent: x.indent }),
        Rule::Node(x) => (x.debug_id, K::Node {
            name: x.name.to_string(), prop: sprop(&x.property), index: x.index,
        }),
        Rule::Optional(x) => (x.debug_id, K::Opt(Box::new(from_rule(&x.rule)))),
        Rule::Not(x) => (x.debug_id, K::Not(Box::new(from_rule(&x.rule)))),
    };
    R { id, k }
}

pub fn from_syntax(s: &Syntax) -> G {
    G {
        rules: s.names.iter().zip(&s.rules).map(|(n, r)| (n.to_string(), from_rule(r))).collect(),
        ids: s.rules.iter().map(|_| 0).collect(),
    }
}
