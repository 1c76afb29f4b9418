//! Using meta data: searching (C15) and converting (C16).

use crate::ast::*;
use crate::c_gram::boot;
use crate::c_out::{some_f64, some_string};
use crate::c_parse::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::*;
use crate::print::{self, Style};
use crate::rng::{hash_bytes, Rng};
use piston_meta::bootstrap::{self, Convert};
use piston_meta::{MetaData, ParseError, Range};
use piston_meta_search::Search;
use std::sync::Arc;

// ---- C15

fn soup(rng: &mut Rng, n: usize) -> Vec<RTok> {
    let names = ["a", "b", "é", "", "a b"];
    let vals = ["", "x", "y", "é"];
    let nums = [0.0, -0.0, 1.0, 2.5, f64::NAN, f64::INFINITY];
    let kinds = rng.range(1, 5);
    let few = rng.range(1, names.len());
    let mut at = 0;
    (0..n).map(|_| {
        let name = Arc::new(names[rng.below(few)].to_string());
        let len = rng.below(4);
        let r = Range::new(at, len);
        at += len + rng.below(3);
        r.wrap(match rng.below(kinds) {
            0 => MetaData::StartNode(name),
            1 => MetaData::String(name, Arc::new(rng.pick(&vals).to_string())),
            2 => MetaData::Bool(name, rng.coin()),
            3 => MetaData::F64(name, *rng.pick(&nums)),
            _ => MetaData::EndNode(name),
        })
    }).collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Want { Node, End, Str(String), Bool(bool), F64(u64) }

fn hit(d: &MetaData, name: &str, w: &Want) -> bool {
    match (d, w) {
        (MetaData::StartNode(n), Want::Node) | (MetaData::EndNode(n), Want::End) => &***n == name,
        (MetaData::String(n, v), Want::Str(x)) => &***n == name && **v == *x,
        (MetaData::Bool(n, v), Want::Bool(x)) => &***n == name && v == x,
        (MetaData::F64(n, v), Want::F64(x)) => &***n == name && *v == f64::from_bits(*x),
        _ => false,
    }
}

/// Same data: the same part of the same slice.
fn same_slice(a: &[RTok], b: &[RTok]) -> bool { a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr()) }

fn conv_err(r: &RErr, at: Range, name: &str, what: &str) -> Res {
    ensure!(r.range() == at, "{} fails at {:?}, expected at {:?}", what, r.range(), at);
    match &r.data {
        ParseError::Conversion(m) => ensure!(m.contains(name), "{} fails with a message without the name `{}`: {}", what, name, m),
        e => return viol(format!("{} fails with {:?}", what, e)),
    }
    Ok(())
}

struct Hist<'r> { rng: &'r mut Rng, log: Vec<String>, steps: u64, found: u64, missed: u64, depth: usize, max: usize }

/// Random steps with a cursor, and with cursors that are found by it.
fn explore<'a>(h: &mut Hist, s: &mut Search<'a>, model: (usize, Option<Range>), all: &'a [RTok]) -> Res {
    let (mut at, mut last) = model;
    let n = h.rng.range(1, 6);
    for _ in 0..n {
        h.steps += 1;
        ensure!(same_slice(s.data, &all[at..]), "the cursor has {} items left, expected {}", s.data.len(), all.len() - at);
        ensure!(s.range == last, "the cursor was last at {:?}, expected {:?}", s.range, last);
        // Something that might be there.
        let (name, want) = if h.rng.chance(4, 5) && at < all.len() {
            let i = if h.rng.coin() { at } else { let far = h.rng.chance(1, 8); at + h.rng.below(if far { all.len() - at } else { (all.len() - at).min(30) }) };
            match &all[i].data {
                MetaData::StartNode(n) => (n.to_string(), Want::Node),
                MetaData::EndNode(n) => (n.to_string(), Want::End),
                MetaData::String(n, v) => (n.to_string(), Want::Str(v.to_string())),
                MetaData::Bool(n, v) => (n.to_string(), Want::Bool(*v)),
                MetaData::F64(n, v) => (n.to_string(), Want::F64(v.to_bits())),
            }
        } else {
            (h.rng.pick(&["a", "b", "é", "", "zz"]).to_string(), match h.rng.below(5) {
                0 => Want::Node, 1 => Want::End, 2 => Want::Str(h.rng.pick(&["", "x", "q"]).to_string()),
                3 => Want::Bool(h.rng.coin()), _ => Want::F64(h.rng.pick(&[0.0f64, -0.0, 7.0, f64::NAN]).to_bits()),
            })
        };
        let end = last.unwrap_or(Range::empty(0));
        if h.rng.coin() {
            // The next item.
            let ok = at < all.len() && match (&all[at].data, &want) {
                (MetaData::StartNode(n), Want::Node) | (MetaData::EndNode(n), Want::End) => **n == name,
                (MetaData::String(n, _), Want::Str(_)) | (MetaData::Bool(n, _), Want::Bool(_)) | (MetaData::F64(n, _), Want::F64(_)) => **n == name,
                _ => false,
            };
            h.log.push(format!("next {:?} {:?}", name, want));
            let got: Result<Option<MetaData>, RErr> = real("reading the next item", || match &want {
                Want::Node => s.node(&name).map(|_| None),
                Want::End => s.end_node(&name).map(|_| None),
                Want::Str(_) => s.string(&name).map(|v| Some(MetaData::String(Arc::new(name.clone()), v))),
                Want::Bool(_) => s.bool(&name).map(|v| Some(MetaData::Bool(Arc::new(name.clone()), v))),
                Want::F64(_) => s.f64(&name).map(|v| Some(MetaData::F64(Arc::new(name.clone()), v))),
            })?;
            match got {
                Ok(v) => {
                    ensure!(ok, "reads {:?} {:?}, which is not next", name, v);
                    if let Some(v) = v {
                        ensure!(same_tok(&Range::empty(0).wrap(v.clone()), &Range::empty(0).wrap(all[at].data.clone())), "reads {:?} of {:?}", v, all[at]);
                    }
                    last = Some(all[at].range());
                    at += 1;
                    h.found += 1;
                }
                Err(e) => {
                    ensure!(!ok, "does not read {:?} {:?}, which is next: {:?}", name, want, e);
                    conv_err(&e, if at < all.len() { all[at].range() } else { end }, &name, "reading the next item")?;
                    h.missed += 1;
                }
            }
        } else {
            // Anywhere ahead.
            let first = (at..all.len()).find(|&i| hit(&all[i].data, &name, &want));
            let answer: Result<u32, RErr> = if h.rng.chance(3, 4) { Ok(h.rng.below(1000) as u32) }
                else { Err(Range::new(h.rng.below(99), 1).wrap(ParseError::ExpectedEnd)) };
            h.log.push(format!("find {:?} {:?} -> {:?}", name, want, first));
            let mut calls = 0;
            let mut inner: Res = Ok(());
            let mut deeper = None;
            // The answer of the closure, made once.
            let mut give = Some(answer);
            let want_answer = match give.as_ref().unwrap() { Ok(x) => Ok(*x), Err(e) => Err(e.range()) };
            let got = {
                let outer: &Search<'a> = s;
                let go = h.depth < h.max && h.rng.coin();
                let hh = &mut *h;
                let f = |mut c: Search<'a>| -> Result<u32, RErr> {
                    calls += 1;
                    if let Some(i) = first {
                        if !same_slice(c.data, &all[i + 1..]) || c.range != Some(all[i].range()) {
                            inner = viol(format!("the cursor found has {} items left and is at {:?}, expected {} and {:?}",
                                c.data.len(), c.range, all.len() - i - 1, all[i].range()));
                        } else if go {
                            hh.depth += 1;
                            hh.log.push("{".into());
                            inner = explore(hh, &mut c, (i + 1, Some(all[i].range())), all);
                            hh.log.push("}".into());
                            hh.depth -= 1;
                            deeper = Some(());
                        }
                    }
                    give.take().unwrap_or(Ok(77777))
                };
                // The borrow of the cursor lasts as long as the data.
                let o: &'a Search<'a> = unsafe { &*(outer as *const Search<'a>) };
                real("searching", || match &want {
                    Want::Node => o.for_node(&name, f),
                    Want::End => o.for_end_node(&name, f),
                    Want::Str(v) => o.for_string(&name, v, f),
                    Want::Bool(v) => o.for_bool(&name, *v, f),
                    Want::F64(v) => o.for_f64(&name, f64::from_bits(*v), f),
                })?
            };
            inner?;
            match first {
                Some(i) => {
                    ensure!(calls == 1, "item {} matches {:?} {:?}, and the closure is called {} times", i, name, want, calls);
                    let g = match &got { Ok(x) => Ok(*x), Err(e) => Err(e.range()) };
                    ensure!(g == want_answer, "the closure gives {:?}, and the search {:?}", want_answer, got);
                    h.found += 1;
                }
                None => {
                    ensure!(calls == 0, "nothing matches {:?} {:?}, and the closure is called", name, want);
                    match got {
                        Ok(_) => return viol("a search that finds nothing succeeds"),
                        Err(e) => conv_err(&e, end, &name, "searching")?,
                    }
                    h.missed += 1;
                }
            }
            ensure!(same_slice(s.data, &all[at..]) && s.range == last, "searching moves the cursor itself");
        }
        let _ = last;
    }
    Ok(())
}

pub fn c15(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c15(cx) { return r; }
    let each = crate::every::c15(cx);
    let turns = if each.is_some() { 60 } else { 4 };
    let all: Vec<RTok> = if let Some(d) = each {
        d
    } else if cx.rng.chance(1, 4) {
        // Of a document.
        let way = way_of(cx);
        let c = case(cx, way, |k, _| k.p_prop = 95)?;
        let mut v = vec![];
        for t in &c.texts {
            if c.read(t).is_err() { continue; }
            let r = real_parse(&c.syn, t, c.ind, &[])?;
            if r.res.is_ok() && r.toks.len() > v.len() { v = r.toks; }
        }
        v
    } else {
        let n = *cx.rng.pick(&[0, 1, 2, 5, 12, 40, 300]);
        let n = if cx.rng.chance(1, 5000) { 70_000 } else { n };
        soup(&mut cx.rng, n)
    };
    for _ in 0..turns {
        let mut rng = cx.rng.clone();
        let mut h = Hist { rng: &mut rng, log: vec![], steps: 0, found: 0, missed: 0, depth: 0, max: 4 };
        let mut s = Search::new(&all);
        let r = explore(&mut h, &mut s, (0, None), &all);
        let Hist { log, steps, found, missed, .. } = h;
        cx.rng = rng;
        cx.count("steps", steps);
        cx.count("found", found);
        cx.count("not found", missed);
        cx.count("cursors found inside of closures", log.iter().filter(|l| *l == "{").count() as u64);
        cx.eval(hash_bytes(format!("{:?}{:?}", all.len(), log).as_bytes()), steps > 1 && found > 0);
        r.map_err(|v| v.with("meta data", format!("{:?}", all)).with("steps", log.join("; ")))?;
        cx.sample(|| format!("{} items: {}", all.len(), log.join("; ")));
    }
    Ok(())
}

// ---- C16

enum T<'a> { Leaf(&'a MetaData), Node(&'a str, Vec<Item<'a>>) }
struct Item<'a> { at: usize, len: usize, t: T<'a> }

/// Meta data as trees, or `None` when starts and ends do not match.
fn trees(d: &[RTok]) -> Option<Vec<Item>> {
    let mut stack: Vec<(&str, usize, Vec<Item>)> = vec![("", 0, vec![])];
    for (i, t) in d.iter().enumerate() {
        match &t.data {
            MetaData::StartNode(n) => stack.push((n, i, vec![])),
            MetaData::EndNode(n) => {
                if stack.len() < 2 { return None; }
                let (name, at, v) = stack.pop()?;
                if name != n.as_str() { return None; }
                stack.last_mut()?.2.push(Item { at, len: i + 1 - at, t: T::Node(name, v) });
            }
            x => stack.last_mut()?.2.push(Item { at: i, len: 1, t: T::Leaf(x) }),
        }
    }
    if stack.len() != 1 { return None; }
    Some(stack.pop()?.2)
}

impl<'a> Item<'a> {
    fn node(&self, n: &str) -> Option<&[Item<'a>]> {
        match &self.t { T::Node(m, v) if *m == n => Some(v), _ => None }
    }
    fn str(&self, n: &str) -> Option<&'a str> {
        match &self.t { T::Leaf(MetaData::String(m, v)) if **m == n => Some(v.as_str()), _ => None }
    }
    fn bool(&self, n: &str) -> Option<bool> {
        match &self.t { T::Leaf(MetaData::Bool(m, v)) if **m == n => Some(*v), _ => None }
    }
    fn f64(&self, n: &str) -> Option<f64> {
        match &self.t { T::Leaf(MetaData::F64(m, v)) if **m == n => Some(*v), _ => None }
    }
}

/// What converting meta data gives, on trees.
struct Conv { strings: Vec<(String, String)>, out: Vec<bool>, left: u64 }

impl Conv {
    fn leave(&mut self, it: &Item) {
        for i in it.at..it.at + it.len { self.out[i] = true; }
        self.left += 1;
    }
    fn set(&self, it: &Item, n: &str) -> Option<String> {
        let mut v = None;
        for c in it.node(n)? {
            if let Some(r) = c.str("ref") { v = self.strings.iter().find(|x| x.0 == r).map(|x| x.1.clone()); }
            else if let Some(x) = c.str("value") { v = Some(x.to_string()); }
            else { return None; }
        }
        v
    }
    /// A wrapper with exactly one rule in it.
    fn rule(&mut self, id: &mut usize, it: &Item, wrapper: &str) -> Option<R> {
        let v = it.node(wrapper)?;
        if v.len() != 1 {
            // The first one might be fine, and reports what it leaves out.
            if let Some(x) = v.first() { self.kind(id, x); }
            return None;
        }
        self.kind(id, &v[0])
    }
    fn kind(&mut self, id: &mut usize, it: &Item) -> Option<R> {
        let (name, v) = match &it.t { T::Node(n, v) => (*n, v), _ => return None };
        let k = match name {
            "sequence" | "select" => {
                let mut args = vec![];
                for c in v {
                    match self.rule(id, c, "rule") { Some(r) => args.push(r), None => self.leave(c) }
                }
                if name == "select" { K::Sel(args) } else { K::Seq(args) }
            }
            "until_any" | "until_any_or_whitespace" => {
                let (mut any, mut opt, mut prop) = (None, false, None);
                for c in v {
                    if let Some(x) = self.set(c, "any_characters") { any = Some(x) }
                    else if let Some(x) = c.bool("optional") { opt = x }
                    else if let Some(x) = self.set(c, "property") { prop = Some(x) }
                    else { self.leave(c) }
                }
                let any = any?;
                if name == "until_any" { K::Until { any, opt, prop } } else { K::UntilWs { any, opt, prop } }
            }
            "tag" => {
                let (mut text, mut not, mut inv, mut prop) = (None, false, false, None);
                for c in v {
                    if let Some(x) = self.set(c, "text") { text = Some(x) }
                    else if let Some(x) = self.set(c, "property") { prop = Some(x) }
                    else if let Some(x) = c.bool("not") { not = x }
                    else if let Some(x) = c.bool("inverted") { inv = x }
                    else { self.leave(c) }
                }
                K::Tag { text: text?, not, inv, prop }
            }
            "whitespace" => {
                if v.len() != 1 { return None; }
                K::Ws { opt: v[0].bool("optional")? }
            }
            "text" => {
                let (mut empty, mut prop) = (true, None);
                for c in v {
                    if let Some(x) = c.bool("allow_empty") { empty = x }
                    else if let Some(x) = self.set(c, "property") { prop = Some(x) }
                    else { self.leave(c) }
                }
                K::Text { empty, prop }
            }
            "number" => {
                let (mut us, mut prop) = (false, None);
                for c in v {
                    if let Some(x) = c.bool("underscore") { us = x }
                    else if let Some(x) = self.set(c, "property") { prop = Some(x) }
                    else { self.leave(c) }
                }
                K::Num { us, prop }
            }
            "reference" => {
                let (mut name, mut prop) = (None, None);
                for c in v {
                    if let Some(x) = c.str("name") { name = Some(x.to_string()) }
                    else if let Some(x) = self.set(c, "property") { prop = Some(x) }
                    else { self.leave(c) }
                }
                K::Node { name: name?, prop, index: None }
            }
            "optional" | "not" => {
                let r = self.rule(id, v.first()?, "rule")?;
                if v.len() != 1 { return None; }
                if name == "not" { K::Not(Box::new(r)) } else { K::Opt(Box::new(r)) }
            }
            "separated_by" => {
                let (mut opt, mut trail, mut by, mut rule) = (true, false, None, None);
                for c in v {
                    if let Some(x) = c.bool("optional") { opt = x }
                    else if let Some(x) = c.bool("allow_trail") { trail = x }
                    else if let Some(x) = self.rule(id, c, "by") { by = Some(x) }
                    else if let Some(x) = self.rule(id, c, "rule") { rule = Some(x) }
                    else { self.leave(c) }
                }
                K::Sep { rule: Box::new(rule?), by: Box::new(by?), opt, trail }
            }
            "lines" => {
                let mut i = 0;
                let mut indent = false;
                if let Some(x) = v.first().and_then(|c| c.bool("indent")) { indent = x; i = 1; }
                let r = self.rule(id, v.get(i)?, "rule")?;
                if v.len() != i + 1 { return None; }
                K::Lines { rule: Box::new(r), indent }
            }
            "repeat" => {
                let (mut rule, mut opt) = (None, None);
                for c in v {
                    if let Some(x) = self.rule(id, c, "rule") { rule = Some(x) }
                    else if let Some(x) = c.bool("optional") { opt = Some(x) }
                    else { self.leave(c) }
                }
                K::Rep { rule: Box::new(rule?), opt: opt? }
            }
            _ => return None,
        };
        *id += 1;
        Some(R { id: *id, k })
    }
}

fn model(d: &[RTok]) -> Option<(G, Vec<bool>, u64)> {
    let ts = trees(d)?;
    let mut c = Conv { strings: vec![], out: vec![false; d.len()], left: 0 };
    let mut i = 0;
    while i < ts.len() {
        let (mut name, mut text) = (None, None);
        let v = match ts[i].node("string") { Some(v) => v, None => break };
        let mut bad = false;
        for x in v {
            if let Some(s) = x.str("name") { name = Some(s) }
            else if let Some(s) = x.str("text") { text = Some(s) }
            else { bad = true }
        }
        match (name, text) { (Some(n), Some(t)) if !bad => c.strings.push((n.into(), t.into())), _ => break }
        i += 1;
    }
    let mut g = G { rules: vec![], ids: vec![] };
    for it in &ts[i..] {
        let v = it.node("node")?;
        let (mut id, mut name, mut rule) = (0usize, None, None);
        for x in v {
            if let Some(n) = x.f64("id") {
                if n >= (usize::MAX / 2000) as f64 { return None; }
                id = n as usize;
            }
            else if let Some(n) = x.str("name") { name = Some(n.to_string()) }
            else if let Some(r) = c.rule(&mut (id * 1000), x, "rule") { rule = Some(r) }
            else { c.leave(x) }
        }
        g.rules.push((name?, rule?));
        g.ids.push(0);
    }
    g.resolve();
    Some((g, c.out, c.left))
}

const VOCAB: [&str; 30] = ["node", "string", "rule", "by", "sequence", "select", "tag", "until_any", "until_any_or_whitespace", "text",
    "number", "reference", "optional", "not", "separated_by", "lines", "repeat", "whitespace", "any_characters", "property", "name",
    "id", "ref", "value", "inverted", "allow_trail", "allow_empty", "indent", "underscore", "other"];

fn leaf(rng: &mut Rng) -> MetaData {
    let n = Arc::new(rng.pick(&VOCAB).to_string());
    match rng.below(3) {
        0 => MetaData::Bool(n, rng.coin()),
        1 => MetaData::F64(n, if rng.coin() { some_f64(rng) } else { rng.below(50) as f64 }),
        _ => MetaData::String(n, Arc::new(if rng.coin() { some_string(rng) } else { rng.pick(&["a", "x", "rule", "s"]).to_string() })),
    }
}

fn unknown(rng: &mut Rng, out: &mut Vec<MetaData>, depth: usize) {
    if depth == 0 || rng.coin() { out.push(leaf(rng)); return; }
    let n = Arc::new(rng.pick(&VOCAB).to_string());
    out.push(MetaData::StartNode(n.clone()));
    for _ in 0..rng.below(3) { unknown(rng, out, depth - 1); }
    out.push(MetaData::EndNode(n));
}

/// Where the tree that starts here ends.
fn tree_end(d: &[RTok], i: usize) -> usize {
    let mut open = 0i32;
    for j in i..d.len() {
        match d[j].data { MetaData::StartNode(_) => open += 1, MetaData::EndNode(_) => open -= 1, _ => {} }
        if open <= 0 { return j + 1; }
    }
    d.len()
}

fn change(rng: &mut Rng, d: &mut Vec<RTok>) {
    if d.is_empty() { return; }
    let i = rng.below(d.len());
    let at = d[i].range();
    match rng.below(9) {
        0 | 1 => {
            // Something else in between.
            let mut v = vec![];
            unknown(rng, &mut v, 2);
            let mut v: Vec<RTok> = v.into_iter().map(|x| at.wrap(x)).collect();
            let tail = d.split_off(i);
            d.append(&mut v);
            d.extend(tail);
        }
        2 => if !matches!(d[i].data, MetaData::EndNode(_)) {
            // Without one item.
            let e = tree_end(d, i);
            d.drain(i..e);
        },
        3 => if !matches!(d[i].data, MetaData::EndNode(_)) {
            // An item twice, or somewhere else.
            let e = tree_end(d, i);
            let part: Vec<RTok> = d[i..e].to_vec();
            if part.len() > 100 { return; }
            let j = if rng.coin() { e } else { rng.below(d.len() + 1) };
            let tail = d.split_off(j);
            d.extend(part);
            d.extend(tail);
        },
        4 => {
            // Another name for an item.
            let name = Arc::new(rng.pick(&VOCAB).to_string());
            match d[i].data.clone() {
                MetaData::StartNode(_) => {
                    let e = tree_end(d, i) - 1;
                    d[i].data = MetaData::StartNode(name.clone());
                    d[e].data = MetaData::EndNode(name);
                }
                MetaData::Bool(_, v) => d[i].data = MetaData::Bool(name, v),
                MetaData::F64(_, v) => d[i].data = MetaData::F64(name, v),
                MetaData::String(_, v) => d[i].data = MetaData::String(name, v),
                _ => {}
            }
        }
        5 => { let x = leaf(rng); if !matches!(d[i].data, MetaData::StartNode(_) | MetaData::EndNode(_)) { d[i].data = x; } }
        6 => match &mut d[i].data {
            MetaData::F64(_, v) => *v = some_f64(rng),
            MetaData::Bool(_, v) => *v = !*v,
            MetaData::String(_, v) => *v = Arc::new(rng.pick(&["a", "s", "", "é"]).to_string()),
            _ => {}
        },
        // Not a tree any more.
        7 => match rng.below(3) { 0 => { d.remove(i); } 1 => d.truncate(i), _ => { let j = rng.below(d.len()); d.swap(i, j); } },
        _ => {
            // Two neighbours the other way around.
            if matches!(d[i].data, MetaData::EndNode(_)) { return; }
            let e = tree_end(d, i);
            if e >= d.len() || matches!(d[e].data, MetaData::EndNode(_)) { return; }
            let f = tree_end(d, e);
            d[i..f].rotate_left(e - i);
        }
    }
}

pub fn check_convert(cx: &mut Cx, d: &[RTok]) -> Res {
    let want = model(d);
    let mut ignored = vec![];
    let got = real("converting", || bootstrap::convert(d, &mut ignored))?;
    cx.eval(hash_bytes(format!("{:?}", d).as_bytes()), d.len() > 3);
    match (&want, &got) {
        (None, Err(())) => cx.count("conversions that fail", 1),
        (None, Ok(_)) => return viol("meta data that is not a grammar is converted"),
        (Some(_), Err(())) => return viol("meta data of a grammar is not converted"),
        (Some((g, out, left)), Ok(s)) => {
            let mut mark = vec![false; d.len()];
            for r in &ignored {
                ensure!(r.next_offset() <= d.len() && r.length > 0, "left out {:?} of {} items", r, d.len());
                for i in r.offset..r.next_offset() { mark[i] = true; }
            }
            if mark != *out {
                return viol(format!("items left out: {:?}, reported: {:?}",
                    out.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>(), ignored));
            }
            let mut x = from_syntax(s);
            let mut g = g.clone();
            ensure!(s.names.len() == s.rules.len(), "{} names for {} rules", s.names.len(), s.rules.len());
            if *left > 0 {
                // Rules that are given up may take numbers.
                for y in [&mut x, &mut g] { for (_, r) in y.rules.iter_mut() { r.visit_mut(&mut |r| r.id = 0); } }
                cx.count("conversions that leave something out", 1);
                cx.count("items left out", ignored.len() as u64);
            } else {
                ensure!(ignored.is_empty(), "reported as left out, but used: {:?}", ignored);
                cx.count("conversions of everything", 1);
            }
            if x.rules != g.rules {
                return Err(Viol::new("meta data is converted to other rules").with("expected", format!("{:?}", g.rules)).with("library", format!("{:?}", x.rules)));
            }
            cx.count("rules compared", g.size() as u64);
        }
    }
    Ok(())
}

/// Steps of the cursor over meta data.
fn cursor(cx: &mut Cx, d: &[RTok]) -> Res {
    let mut c = Convert::new(d);
    let start = c;
    let mut at = 0;
    let mut marks: Vec<(Convert, usize)> = vec![(c, 0)];
    for _ in 0..cx.rng.range(1, 20) {
        ensure!(c.remaining_data_len() == d.len() - at, "{} items remain, expected {}", c.remaining_data_len(), d.len() - at);
        let next = d.get(at).map(|x| &x.data);
        let name = match next {
            Some(MetaData::StartNode(n)) | Some(MetaData::EndNode(n)) | Some(MetaData::Bool(n, _)) | Some(MetaData::F64(n, _))
            | Some(MetaData::String(n, _)) if cx.rng.chance(3, 4) => n.to_string(),
            _ => cx.rng.pick(&["a", "rule", "", "zz"]).to_string(),
        };
        let one = Range::new(at, 1);
        let a = real("reading a node", || c.start_node(&name))?;
        ensure!(a == match next { Some(MetaData::StartNode(n)) if **n == name => Ok(one), _ => Err(()) }, "start of `{}` gives {:?} at {} {:?}", name, a, at, next);
        let a = real("reading a node", || c.end_node(&name))?;
        ensure!(a == match next { Some(MetaData::EndNode(n)) if **n == name => Ok(one), _ => Err(()) }, "end of `{}` gives {:?} at {} {:?}", name, a, at, next);
        let a = real("reading a bool", || c.meta_bool(&name))?;
        ensure!(a == match next { Some(MetaData::Bool(n, v)) if **n == name => Ok((one, *v)), _ => Err(()) }, "bool `{}` gives {:?} at {} {:?}", name, a, at, next);
        let a = real("reading a number", || c.meta_f64(&name))?.map(|x| (x.0, x.1.to_bits()));
        ensure!(a == match next { Some(MetaData::F64(n, v)) if **n == name => Ok((one, v.to_bits())), _ => Err(()) }, "number `{}` gives {:?} at {} {:?}", name, a, at, next);
        let a = real("reading a string", || c.meta_string(&name))?;
        ensure!(a == match next { Some(MetaData::String(n, v)) if **n == name => Ok((one, v.clone())), _ => Err(()) }, "string `{}` gives {:?} at {} {:?}", name, a, at, next);
        let skip = if at < d.len() { tree_end(d, at) - at } else { 0 };
        let a = real("ignoring an item", || c.ignore())?;
        ensure!(a == Range::new(at, skip), "ignoring gives {:?} at {}, expected {} items", a, at, skip);
        cx.count("cursor steps", 1);
        // Ahead.
        let n = match cx.rng.below(4) { 0 => skip, 1 => cx.rng.below(d.len() - at + 1), _ => 1.min(d.len() - at) };
        real("moving", || c.update(Range::new(at, n)))?;
        at += n;
        marks.push((c, at));
        let (m, i) = *cx.rng.pick(&marks);
        let a = real("measuring", || c.subtract(m))?;
        ensure!(a == Range::new(i, at - i), "from {} to {} is {:?}", i, at, a);
        if at <= i || d[at - 1].next_offset() >= d[i].offset {
            let a = real("finding the source", || c.source(m))?;
            let want = if at <= i { None } else { Some(Range::new(d[i].offset, d[at - 1].next_offset() - d[i].offset)) };
            ensure!(a == want, "the source from {} to {} is {:?}, expected {:?}", i, at, a, want);
            cx.count("sources compared", 1);
        }
        ensure!(start.remaining_data_len() == d.len(), "a copy of the cursor moves");
    }
    Ok(())
}

pub fn c16(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c16(cx) { return r; }
    if let Some(r) = crate::every::c16(cx) { return r; }
    let fail = |d: &[RTok]| { let s = format!("{:?}", d.iter().map(|x| &x.data).collect::<Vec<_>>()); move |v: Viol| v.with("meta data", s) };
    match if cx.idx < 100 { 7 } else { cx.rng.below(8) } {
        0 => {
            let n = *cx.rng.pick(&[0, 1, 3, 10, 60]);
            let d = soup(&mut cx.rng, n);
            cursor(cx, &d).map_err(fail(&d))?;
            check_convert(cx, &d).map_err(fail(&d))
        }
        1 => {
            // Words of grammars in any order.
            let n = *cx.rng.pick(&[1, 3, 10, 30]);
            let mut d = vec![];
            for _ in 0..n { unknown(&mut cx.rng, &mut d, 4); }
            let d: Vec<RTok> = d.into_iter().enumerate().map(|(i, x)| Range::new(i, 1).wrap(x)).collect();
            cursor(cx, &d).map_err(fail(&d))?;
            check_convert(cx, &d).map_err(fail(&d))
        }
        2 if cx.rng.chance(1, 10) => {
            // Deep and wide items.
            const DEEP: [usize; 14] = [2, 30, 64, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 65_537];
            let most = if cx.rng.chance(1, 30) { 14 } else { 13 };
            let n = *cx.rng.pick(&DEEP[..most]);
            let m = *cx.rng.pick(&[0, 1, 2, 40]);
            let names: Vec<Arc<String>> = (0..cx.rng.range(1, 3)).map(|i| Arc::new(["z", "item", "é"][i].to_string())).collect();
            let mut v = vec![];
            for i in 0..n { v.push(MetaData::StartNode(names[i % names.len()].clone())); }
            for _ in 0..m { unknown(&mut cx.rng, &mut v, 1); }
            for i in (0..n).rev() {
                v.push(MetaData::EndNode(names[i % names.len()].clone()));
                if cx.rng.chance(1, 50) { v.push(leaf(&mut cx.rng)); }
            }
            for _ in 0..cx.rng.below(3) { v.push(leaf(&mut cx.rng)); }
            let deep: Vec<RTok> = v.into_iter().enumerate().map(|(i, x)| Range::new(i, 1).wrap(x)).collect();
            let mut odd = deep.clone();
            if cx.rng.coin() { odd.truncate(cx.rng.below(deep.len())); }
            cursor(cx, &odd)?;
            check_convert(cx, &odd)?;
            // In the middle of a grammar.
            let mut d = vec![];
            if real("reading grammar text", || piston_meta::parse(&boot().1, "_s: \"t\"\n1 a = [\"x\":_s .w? {b !b}]\n2 b = .r?(\"y\")\n", &mut d))?.is_err() { return viol("grammar text is rejected"); }
            let i = cx.rng.below(d.len() + 1);
            let tail = d.split_off(i);
            d.extend(deep);
            d.extend(tail);
            cursor(cx, &d)?;
            check_convert(cx, &d)?;
            cx.max("max depth of meta data", n as u64);
            cx.count("deep meta data converted", 1);
            Ok(())
        }
        _ => {
            let kn = Knobs::text_form(&mut cx.rng);
            let at = cx.idx.wrapping_sub(60) as usize;
            let g = if at < NODES.len() { many_nodes(&mut cx.rng, NODES[at]).0 } else { grammar(&mut cx.rng, &kn) };
            let style = Style::random(&mut cx.rng);
            let t = print::print(&mut cx.rng, &g, &style);
            let mut d = vec![];
            if let Err(e) = real("reading grammar text", || piston_meta::parse(&boot().1, &t, &mut d))? {
                return Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", t));
            }
            check_convert(cx, &d).map_err(fail(&d))?;
            cursor(cx, &d).map_err(fail(&d))?;
            for _ in 0..6 {
                let mut x = d.clone();
                for _ in 0..*cx.rng.pick(&[1, 1, 2, 4]) { change(&mut cx.rng, &mut x); }
                check_convert(cx, &x).map_err(fail(&x))?;
            }
            cx.sample(|| format!("{} items of {}", d.len(), t));
            Ok(())
        }
    }
}
