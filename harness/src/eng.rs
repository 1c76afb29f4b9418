//! Runs the library on a case and compares with the model.

use crate::ast::*;
use crate::ensure;
use crate::fw::*;
use crate::interp::*;
use crate::print;
use crate::rng::{hash_bytes, mix, Rng};
use piston_meta::meta_rules::IndentSettings;
use piston_meta::{MetaData, ParseError, Range, Syntax};
use std::sync::Arc;

pub type RTok = Range<MetaData>;
pub type RErr = Range<ParseError>;

pub struct RealOut {
    pub res: Result<(), RErr>,
    /// Without what was there before.
    pub toks: Vec<RTok>,
}

pub fn settings(ind: Ind) -> IndentSettings {
    IndentSettings { indent: ind.indent, align_first: ind.align_first, tab_spaces: ind.tab_spaces }
}

fn first_id(r: &piston_meta::Rule) -> usize { from_rule(r).id }

/// Parses, with meta data already in the vector, which must stay.
pub fn real_parse(s: &Syntax, text: &str, ind: Ind, prefix: &[RTok]) -> Result<RealOut, Viol> {
    // What is there already makes no difference.
    let other;
    let prefix = if prefix.is_empty() {
        let mut rng = Rng::new(mix(hash_bytes(text.as_bytes()) ^ s.rules.len() as u64 ^ s.rules.first().map_or(0, |r| first_id(r) as u64) << 20));
        other = some_prefix(&mut rng);
        &other[..]
    } else { prefix };
    let mut toks = prefix.to_vec();
    let res = real("parsing", || {
        if ind == Ind::default() && text.len() % 2 == 0 {
            piston_meta::parse(s, text, &mut toks)
        } else {
            piston_meta::parse_with_indent(s, text, &mut toks, &settings(ind))
        }
    })?;
    if toks.len() < prefix.len() || !same_toks(&toks[..prefix.len()], prefix) {
        return Err(Viol::new("parsing changed meta data that was there before")
            .with("before", clip(&format!("{:?}", prefix), 6000)).with("after", clip(&format!("{:?}", toks), 6000)));
    }
    let toks = toks.split_off(prefix.len());
    Ok(RealOut { res, toks })
}

pub fn same_tok(a: &RTok, b: &RTok) -> bool {
    a.range() == b.range() && match (&a.data, &b.data) {
        // Bit for bit, so NaN equals itself.
        (MetaData::F64(n, x), MetaData::F64(m, y)) => n == m && x.to_bits() == y.to_bits(),
        (x, y) => x == y,
    }
}

pub fn same_toks(a: &[RTok], b: &[RTok]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_tok(x, y))
}

/// Some meta data that might be in the vector before parsing.
pub fn some_prefix(rng: &mut Rng) -> Vec<RTok> {
    if !rng.chance(1, 4) { return vec![]; }
    // Also more than a short counter can count.
    let n = match rng.below(3000) { 0 => 65_534 + rng.below(5), 1..=10 => 254 + rng.below(5), _ => rng.range(1, 4) };
    let name = Arc::new("before".to_string());
    (0..n).map(|i| Range::new(rng.below(50), rng.below(50)).wrap(match rng.below(5) {
        0 => MetaData::StartNode(name.clone()),
        1 => MetaData::EndNode(name.clone()),
        2 => MetaData::Bool(name.clone(), rng.coin()),
        3 => MetaData::F64(name.clone(), i as f64 + 0.5),
        _ => MetaData::String(name.clone(), Arc::new("x".to_string())),
    })).collect()
}

pub fn show(g: &G) -> String {
    let mut rng = Rng::new(7);
    let t = print::print(&mut rng, g, &print::Style::plain());
    let mut s = t;
    s.push_str("-- as data: ");
    s.push_str(&format!("{:?}", g.rules));
    s
}

pub fn show_case(v: Viol, g: &G, text: &str, ind: Ind) -> Viol {
    v.with("grammar", show(g)).with("text", clip(text, 4000)).with("indent", format!("{:?}", ind))
}

pub fn gfp(g: &G) -> u64 { hash_bytes(format!("{:?}", g.rules).as_bytes()) }

pub fn fp(gfp: u64, text: &str) -> u64 { mix(gfp) ^ hash_bytes(text.as_bytes()) }

/// Accepts exactly when the model accepts.
pub fn m_accept(o: &Outcome, r: &RealOut) -> Res {
    if o.ok != r.res.is_ok() {
        return Err(Viol::new(format!("the library {} the text, which the rules {}",
            if o.ok { "rejects" } else { "accepts" }, if o.ok { "accept" } else { "reject" }))
            .with("library", format!("{:?}", r.res)).with("root_end", format!("{:?}", o.root_end)));
    }
    Ok(())
}

/// Produces exactly the meta data of the model.
pub fn m_tokens(o: &Outcome, r: &RealOut) -> Res {
    if !o.ok || r.res.is_err() { return Ok(()); }
    let same = o.toks.len() == r.toks.len() && o.toks.iter().zip(&r.toks).all(|(a, b)| tok_matches(a, b));
    if !same {
        return Err(Viol::new("the meta data is not what the successful reading produces")
            .with("first difference", format!("item {}", o.toks.iter().zip(&r.toks).take_while(|(a, b)| tok_matches(a, b)).count()))
            .with("expected", clip(&format!("{:?}", o.toks), 6000)).with("library", clip(&format!("{:?}", r.toks), 6000)));
    }
    Ok(())
}

/// Reports a failure that happened at the deepest position.
pub fn m_error(o: &Outcome, r: &RealOut, optimized: bool) -> Res {
    let err = match &r.res { Ok(()) => return Ok(()), Err(e) => e };
    if o.ok { return Ok(()); }
    if err.next_offset() != o.far {
        return Err(Viol::new(format!("the error ends at byte {}, the deepest failure at byte {}", err.next_offset(), o.far))
            .with("library", format!("{:?}", err)).with("deepest", format!("{:?}", o.evs)));
    }
    let hit = o.evs.iter().any(|e| (optimized || e.k != EvK::SelectFailed) && ev_matches(e, err));
    if !hit {
        return Err(Viol::new("the reported error is not a failure that happened at the deepest position")
            .with("library", format!("{:?}", err)).with("deepest", format!("{:?}", o.evs)));
    }
    // Of equally deep failures the newest one.
    if !optimized && !last_of(o, err) {
        return Err(Viol::new("the reported error is not the last failure that happened at the deepest position")
            .with("library", format!("{:?}", err)).with("deepest", format!("{:?}", o.evs)));
    }
    Ok(())
}

pub fn last_of(o: &Outcome, err: &RErr) -> bool {
    o.evs.iter().filter(|e| e.k != EvK::SelectFailed).last().map_or(false, |e| ev_matches(e, err))
}

/// Ranges are inside of the text and do not split characters.
pub fn m_ranges(text: &str, r: &RealOut) -> Res {
    for t in &r.toks {
        let (a, b) = (t.offset, t.next_offset());
        if r.res.is_ok() {
            ensure!(b <= text.len(), "meta data {:?} is outside of the text", t);
            ensure!(text.is_char_boundary(a) && text.is_char_boundary(b), "meta data {:?} splits a character", t);
        }
    }
    if let Err(e) = &r.res {
        ensure!(e.next_offset() <= text.len(), "error {:?} is outside of the text", e);
        ensure!(text.is_char_boundary(e.offset), "error {:?} starts inside of a character", e);
    }
    Ok(())
}

/// The meta data of a successful reading is a tree in source order.
pub fn m_tree(text: &str, toks: &[RTok]) -> Res {
    let mut open: Vec<(&RTok, usize)> = vec![];
    // Everything before this offset has been read.
    let mut at = 0;
    for t in toks {
        match &t.data {
            MetaData::StartNode(_) => {
                ensure!(t.length == 0, "the start of a node has a length: {:?}", t);
                ensure!(t.offset >= at, "{:?} starts before the end of what was read before it ({})", t, at);
                at = t.offset;
                open.push((t, at));
            }
            MetaData::EndNode(n) => {
                let (s, _) = match open.pop() {
                    None => return viol(format!("{:?} ends a node that did not start", t)),
                    Some(x) => x,
                };
                match &s.data {
                    MetaData::StartNode(m) if m == n => {}
                    _ => return viol(format!("{:?} ends {:?}", t, s)),
                }
                ensure!(t.offset == s.offset, "{:?} does not cover its node, which starts at {}", t, s.offset);
                ensure!(t.next_offset() >= at, "{:?} ends before its content, which ends at {}", t, at);
                at = t.next_offset();
            }
            _ => {
                ensure!(t.offset >= at, "{:?} starts before the end of what was read before it ({})", t, at);
                at = t.next_offset();
            }
        }
    }
    ensure!(open.is_empty(), "nodes are left open: {:?}", open);
    ensure!(at <= text.len(), "meta data ends outside of the text");
    Ok(())
}

/// Records what an execution exercised.
pub fn observe(cx: &mut Cx, o: &Outcome) {
    for i in 0..14 {
        cx.st.kinds[0][i] += o.seen.runs[i];
        cx.st.kinds[1][i] += o.seen.fails[i];
    }
    cx.count("accepted", o.ok as u64);
    cx.count("rejected", !o.ok as u64);
    cx.count("meta data compared", o.toks.len() as u64);
    cx.count("failure events", o.seen.events);
    cx.count("abandoned readings with meta data", o.seen.backtracks_with_tokens);
    cx.count("lines read", o.seen.lines_items);
    cx.count("lines ended by indention", o.seen.indent_fail);
    cx.count("separated items read", o.seen.sep_items);
    cx.count("repeated items read", o.seen.rep_items);
    cx.max("max depth of rules", o.seen.max_depth as u64);
}

pub fn nontrivial(o: &Outcome) -> bool {
    let total: u64 = o.seen.runs.iter().sum();
    total >= 3 && (o.ok || o.far > 0 || o.seen.runs[6] > 0)
}

/// How a syntax was made from a grammar.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way { Built, Linked, Optimized, Text }

/// Numbers of the rules of a syntax that is made in code, which may be any.
pub fn some_ids(rng: &mut Rng, g: &mut G) {
    match rng.below(8) {
        0..=3 => g.assign_unique_ids(),
        4 => {
            // All the same.
            let id = *rng.pick(&[0, 1, 1000, usize::max_value()]);
            for (_, r) in g.rules.iter_mut() { r.visit_mut(&mut |r| r.id = id); }
        }
        5 => {
            let n = *rng.pick(&[2, 3, 10]);
            for (_, r) in g.rules.iter_mut() { r.visit_mut(&mut |r| r.id = rng.below(n)); }
        }
        // As in grammar text.
        _ => {}
    }
}

pub fn make(g: &G, way: Way) -> Result<Syntax, Viol> {
    match way {
        Way::Built => {
            let mut s = to_syntax(g, false);
            real("resolving references", || piston_meta::meta_rules::update_refs(&mut s))?;
            Ok(s)
        }
        Way::Linked => Ok(to_syntax(g, true)),
        Way::Optimized => {
            let s = to_syntax(g, true);
            real("optimizing", move || s.optimize())
        }
        Way::Text => unreachable!(),
    }
}

/// Writes the grammar and reads it with the library.
pub fn via_text(rng: &mut Rng, g: &G, style: &print::Style) -> Result<(String, Syntax), Viol> {
    let t = print::print(rng, g, style);
    match real("reading grammar text", || piston_meta::syntax(&t))? {
        Ok(s) => Ok((t, s)),
        Err(e) => Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", t).with("rules", show(g))),
    }
}
