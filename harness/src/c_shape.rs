//! Indention (C13), isolation of readings that are given up (C21) and counts
//! of repetitions (C22).

use crate::ast::*;
use crate::c_parse::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::*;
use crate::interp::*;
use crate::print::Style;
use crate::rng::{hash_bytes, Rng};
use piston_meta::tokenizer::TokenizerState;
use piston_meta::{MetaData, Syntax};
use read_token::ReadToken;
use std::sync::OnceLock;

fn rules(t: &str) -> Result<Syntax, Viol> {
    match real("reading grammar text", || piston_meta::syntax(t))? {
        Ok(s) => Ok(s),
        Err(e) => Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", t)),
    }
}

// ---- C13

#[derive(Debug, Clone, PartialEq)]
struct Tree { name: String, at: usize, sub: Vec<Tree> }

struct Line { col: usize, name: String, at: usize }

/// Lines to trees: deeper lines belong to the line before, lines of the same
/// column are siblings, and a column must be one of those that are open.
fn shape(lines: &[Line], i: &mut usize, min: usize, align: bool) -> Option<Vec<Tree>> {
    let mut v = vec![];
    let col = match lines.get(*i) {
        None => return Some(v),
        Some(l) if l.col < min => return Some(v),
        Some(l) if !align && l.col > min => return Some(v),
        Some(l) => l.col,
    };
    while *i < lines.len() && lines[*i].col == col {
        let l = &lines[*i];
        *i += 1;
        let sub = shape(lines, i, col + 1, align)?;
        v.push(Tree { name: l.name.clone(), at: l.at, sub });
    }
    Some(v)
}

fn built(toks: &[RTok], i: &mut usize) -> Option<Vec<Tree>> {
    let mut v = vec![];
    while *i < toks.len() {
        match &toks[*i].data {
            MetaData::StartNode(n) if **n == "node" => {
                *i += 1;
                let t = toks.get(*i)?;
                let (name, at) = match &t.data { MetaData::String(p, s) if **p == "name" => (s.to_string(), t.offset), _ => return None };
                *i += 1;
                let sub = built(toks, i)?;
                match &toks.get(*i)?.data { MetaData::EndNode(n) if **n == "node" => {} _ => return None }
                *i += 1;
                v.push(Tree { name, at, sub });
            }
            MetaData::EndNode(_) => return Some(v),
            _ => return None,
        }
    }
    Some(v)
}

fn outline() -> Result<&'static [Syntax; 2], Viol> {
    static S: OnceLock<Result<[Syntax; 2], String>> = OnceLock::new();
    S.get_or_init(|| {
        let f = || -> Result<[Syntax; 2], Viol> {
            Ok([rules("1 node = [..\"\"!:\"name\" .l+(node:\"node\")]\n2 document = .l+(node:\"node\")\n")?,
                // The name is read with something around it that is given up.
                rules("1 node = {[..\"\"!:\"name\" .l+(node:\"node\") \"\\u0001\"] [?[.l+(\"\\u0002\") \"\\u0001\"] ..\"\"!:\"name\" .l+(node:\"node\")]}\n2 document = [!\"\\u0001\" .l+(node:\"node\")]\n")?])
        };
        f().map_err(|v| v.what)
    }).as_ref().map_err(|e| Viol::new(e.clone()))
}

/// Columns, steps, depths and counts where small counters run over:
/// lines, deepest level, step and first column.
const WIDE: [(usize, usize, usize, usize); 16] = [
    (150, 63, 1, 0), (300, 130, 1, 0), (600, 260, 1, 0), (600, 300, 1, 3), (200, 70, 4, 0), (50, 8, 100, 0),
    (40, 5, 255, 0), (40, 5, 256, 1), (20, 4, 20_000, 0), (12, 3, 65_536, 0), (12, 2, 1, 255), (12, 2, 1, 256),
    (12, 2, 1, 65_535), (12, 2, 3, 65_537), (66_000, 2, 1, 0), (20_000, 6, 2, 9),
];

fn c13_outline(cx: &mut Cx) -> Res {
    let both = outline()?;
    let at = cx.idx.wrapping_sub(100) as usize;
    // Everything with spaces, with tabs, and with both.
    let wide = if at < 3 * WIDE.len() { Some(WIDE[at / 3]) } else { None };
    let rng = &mut cx.rng;
    let align = wide.is_some() || rng.chance(4, 5);
    let tabs = if wide.is_some() { at % 3 > 0 } else { rng.chance(1, 4) };
    let mixed = if wide.is_some() { at % 3 == 2 } else { tabs && rng.coin() };
    let tab = *rng.pick(&[4u8, 4, 2, 8, 1, 3, 255]);
    let tab = if wide.map_or(false, |w| w.0 * (w.1 * w.2 + w.3) > 100_000) { tab.min(2) } else { tab };
    let ind = if tabs { Ind { indent: 0, align_first: true, tab_spaces: tab } }
        else { Ind { indent: if rng.chance(1, 4) { rng.below(5) as u32 } else { 0 }, align_first: align, tab_spaces: tab } };
    // The second grammar tries each node twice.
    let second = wide.is_none() && rng.chance(1, 4);
    let n = if let Some(w) = wide { w.0 } else if second { rng.range(0, 9) } else { *rng.pick(&[0, 1, 2, 3, 5, 8, 15, 60]) };
    let mut open: Vec<usize> = vec![ind.indent as usize + if ind.align_first && rng.coin() { rng.below(4) } else { 0 }];
    let max = if let Some(w) = wide { w.1 } else if second { 4 } else { 12 };
    let (step, far) = wide.map_or((1, 0), |w| (w.2, w.3));
    open[0] += far;
    let mut lines: Vec<Line> = vec![];
    let mut text = String::new();
    let junk = |rng: &mut Rng, text: &mut String| for _ in 0..rng.below(3) {
        text.push_str(*rng.pick(&["\n", " \n", "\t\n", "      \n", "\r\n", "\u{3000}\n", " \t \u{a0}\n"]));
    };
    junk(rng, &mut text);
    for i in 0..n {
        let col = if i == 0 { open[0] } else {
            match rng.below(10) {
                0..=3 if open.len() < max => {
                    let c = open[open.len() - 1] + if ind.align_first { step + if step > 1 && rng.coin() { 0 } else { rng.below(4) } } else { 1 };
                    open.push(c);
                    c
                }
                // Straight down at first.
                _ if wide.is_some() && i < max && n > 2 * max => { let c = open[open.len() - 1] + step; open.push(c); c }
                4 if rng.chance(1, if wide.is_some() { 4 * n } else { 6 }) => rng.below(8),
                4..=6 => {
                    // Back to one of the lines around.
                    let k = rng.range(1, open.len());
                    open.truncate(k);
                    open[k - 1]
                }
                _ => open[open.len() - 1],
            }
        };
        let name = format!("{}{}", rng.pick(&["a", "é", "日本", "x=y", "//", "\"", "b-c"]), i);
        if mixed {
            // Each step by a tab or by as many spaces.
            for _ in 0..col { if rng.coin() { text.push('\t'); } else { text.push_str(&" ".repeat(tab as usize)); } }
        } else if tabs { for _ in 0..col { text.push('\t'); } } else { for _ in 0..col { text.push(' '); } }
        lines.push(Line { col, name: name.clone(), at: text.len() });
        text.push_str(&name);
        text.push_str(*rng.pick(&["", "", "", " ", "\t", "  \r"]));
        if i + 1 < n || rng.coin() {
            text.push('\n');
            junk(rng, &mut text);
        }
    }
    let mut i = 0;
    let want = shape(&lines, &mut i, ind.indent as usize, ind.align_first).filter(|_| i == lines.len());
    for (syn, name) in [(&both[0], "plain"), (&both[1], "with attempts")] {
        if name != "plain" && !second { continue; }
        let fail = |v: Viol| v.with("text", text.clone()).with("settings", format!("{:?}", ind)).with("expected", format!("{:?}", want)).with("grammar", name);
        let r = real_parse(syn, &text, ind, &[])?;
        cx.eval(hash_bytes(text.as_bytes()) ^ ind.indent as u64, lines.len() > 2);
        match (&want, &r.res) {
            (None, Err(_)) => cx.count("outlines rejected for their columns", 1),
            (None, Ok(())) => return Err(fail(Viol::new("lines whose columns do not match are accepted"))),
            (Some(_), Err(e)) => return Err(fail(Viol::new(format!("an outline is rejected: {:?}", e)))),
            (Some(w), Ok(())) => {
                let mut j = 0;
                let got = built(&r.toks, &mut j);
                if got.as_ref() != Some(w) || j != r.toks.len() {
                    return Err(fail(Viol::new("the lines belong together in another way").with("library", format!("{:?}", got))));
                }
                cx.count("outlines read", 1);
                cx.count("lines of outlines", lines.len() as u64);
                cx.count(if tabs { "outlines with tabs" } else { "outlines with spaces" }, 1);
            }
        }
    }
    if let Some(w) = &want {
        if tabs && w.len() > 0 {
            // As many spaces as the tabs stand for.
            let spaced = text.replace('\t', &" ".repeat(ind.tab_spaces as usize));
            let r = real_parse(&both[0], &spaced, ind, &[])?;
            let mut j = 0;
            fn names(t: &[Tree]) -> Vec<(String, usize)> { t.iter().flat_map(|x| { let mut v = vec![(x.name.clone(), x.sub.len())]; v.extend(names(&x.sub)); v }).collect() }
            let got = built(&r.toks, &mut j);
            if r.res.is_err() || got.as_ref().map(|g| names(g)) != Some(names(w)) {
                return Err(Viol::new("spaces in the place of tabs are read in another way").with("tabs", text).with("spaces", spaced).with("settings", format!("{:?}", ind)));
            }
            cx.count("tabs replaced by spaces", 1);
            if mixed { cx.count("tabs and spaces mixed", 1); }
        }
    }
    cx.max("max column", lines.iter().map(|l| l.col as u64).max().unwrap_or(0));
    cx.max("max lines of an outline", lines.len() as u64);
    if wide.is_some() && want.is_some() { cx.count("wide and deep outlines read", 1); }
    cx.sample(|| format!("{:?} {:?}: {:?}", ind, clip(&text, 700), want.is_some()));
    Ok(())
}

pub fn c13(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c13(cx) { return r; }
    let way = way_of(cx);
    if let Some(c) = crate::every::case(cx, way)? {
        return each(cx, &c, |_, c, t, o| {
            let r = real_parse(&c.syn, t, c.ind, &[])?;
            m_accept(o, &r)?;
            m_tokens(o, &r)
        });
    }
    if cx.rng.coin() || cx.idx.wrapping_sub(100) < 3 * WIDE.len() as u64 { return c13_outline(cx); }
    if let Some(c) = crate::big::only(cx, &["outlines", "outlines with tabs", "lines", "expressions"])? {
        return each(cx, &c, |cx, c, t, o| {
            let r = real_parse(&c.syn, t, c.ind, &[])?;
            m_accept(o, &r)?;
            m_tokens(o, &r)?;
            cx.count("large documents with lines", 1);
            Ok(())
        });
    }
    let way = way_of(cx);
    let mut kn = Knobs::random(&mut cx.rng);
    if way == Way::Text { kn.text_form = true; kn.undef_refs = false; }
    kn.w[10] = 60;
    kn.w[11] = kn.w[11].max(20);
    kn.depth = kn.depth.max(2);
    if cx.rng.coin() { kn.alphabet.retain(|a| !a.contains('\n')); }
    if kn.alphabet.is_empty() { kn.alphabet.push("a".into()); }
    let g = grammar(&mut cx.rng, &kn);
    let syn = if way == Way::Text {
        let style = Style::random(&mut cx.rng);
        via_text(&mut cx.rng, &g, &style)?.1
    } else { make(&g, way)? };
    let ind = if cx.rng.coin() { Ind::default() } else {
        Ind { indent: cx.rng.below(5) as u32, align_first: cx.rng.chance(3, 4), tab_spaces: *cx.rng.pick(&[0, 1, 2, 3, 4, 4, 8, 255]) }
    };
    let max = max_len(cx);
    let mut ts = texts(&mut cx.rng, &g, &kn.alphabet, ind, 6, max);
    // Other space before lines.
    for t in ts.clone() {
        let mut o = String::new();
        for (i, l) in t.split('\n').enumerate() {
            if i > 0 { o.push('\n'); }
            match cx.rng.below(8) {
                0 => o.push(' '),
                1 => o.push('\t'),
                2 => { o.push_str(l.trim_start()); continue; }
                3 => o.push_str("\n "),
                4 if cx.rng.chance(1, 8) => {
                    // Much of it.
                    let n = *cx.rng.pick(&[5, 20, 31, 63, 64, 65, 100, 255, 256, 257, 1000]);
                    let w = *cx.rng.pick(&[" ", " ", "\n", "\t", "\u{3000}", "\u{a0}", " \n", "\r\n"]);
                    o.push_str(&w.repeat(n));
                    if cx.rng.coin() { o.push('\n'); }
                }
                _ => {}
            }
            o.push_str(l);
        }
        ts.push(o);
    }
    let gf = gfp(&g);
    let c = Case { g, ind, texts: ts, way, syn, gfp: gf, big: false };
    each(cx, &c, |cx, c, t, o| {
        let given = settings(c.ind);
        let r = real_parse(&c.syn, t, c.ind, &[])?;
        m_accept(o, &r)?;
        m_tokens(o, &r)?;
        if r.res.is_ok() { m_tree(t, &r.toks)?; }
        // What is left of the indention for the rule that follows.
        let root = c.syn.rules.last().unwrap();
        let mut toks = vec![];
        let mut ind = given;
        let lex = ReadToken::new(t, 0);
        let res = real("reading with the root rule", || root.parse(&mut toks, &TokenizerState::new(), &lex, &c.syn.rules, &mut ind))?;
        ensure!(ind.align_first == c.ind.align_first && ind.tab_spaces == c.ind.tab_spaces, "reading changes the settings");
        let want = if o.root_end.is_some() { o.ind.indent } else { c.ind.indent };
        ensure!(ind.indent == want, "the indention is {} after reading {:?}, expected {}", ind.indent, res.map(|x| x.0), want);
        Ok(())
    })
}

// ---- C21

/// Something that reads as far as the rule does, and then fails.
fn doomed(rng: &mut Rng, r0: &R) -> R {
    let fail = match rng.below(3) {
        0 => r(K::Not(Box::new(r(K::Seq(vec![]))))),
        1 => r(K::Tag { text: "\u{1}\u{2}".into(), not: false, inv: false, prop: None }),
        _ => r(K::Tag { text: String::new(), not: true, inv: false, prop: Some("never".into()) }),
    };
    let part = |rng: &mut Rng| -> Vec<R> {
        match &r0.k {
            // Only a part of it.
            K::Seq(a) if !a.is_empty() && rng.coin() => a[..rng.range(1, a.len())].to_vec(),
            _ => vec![r0.clone()],
        }
    };
    let mut v = part(rng);
    if rng.chance(1, 3) {
        // More meta data than there is text.
        let n = if rng.coin() { 1 } else { rng.range(2, 40) };
        let junk = r(K::Tag { text: String::new(), not: false, inv: false, prop: Some("junk".into()) });
        let at = if rng.coin() { 0 } else { v.len() };
        for _ in 0..n { v.insert(at, junk.clone()); }
    }
    v.push(fail);
    r(K::Seq(v))
}

/// The same language and meta data, with attempts that are given up.
fn with_attempt(rng: &mut Rng, r0: &R) -> R {
    let d = doomed(rng, r0);
    match rng.below(11) {
        8 | 9 => {
            // Alternatives that start with a token, as they stand in a table.
            let mut first = vec![];
            r0.visit(&mut |x| if let K::Tag { text, not: false, .. } = &x.k { if let Some(c) = text.chars().next() { first.push(c); } });
            let mut v: Vec<R> = vec![];
            for _ in 0..rng.range(3, 6) {
                let c = if first.is_empty() || rng.chance(1, 3) { *rng.pick(&['a', '(', 'é', '日', 'x', '0', ' ']) } else { *rng.pick(&first) };
                let t = r(K::Tag { text: c.to_string(), not: false, inv: false, prop: if rng.coin() { Some("junk".into()) } else { None } });
                let e = doomed(rng, r0);
                v.push(match e.k { K::Seq(mut a) if rng.coin() => { a.insert(0, t); r(K::Seq(a)) } k => r(K::Seq(vec![t, r(K::Opt(Box::new(r(k)))), r(K::Tag { text: "\u{1}\u{2}".into(), not: false, inv: false, prop: None })])) });
            }
            v.push(r0.clone());
            r(K::Sel(v))
        }
        0 | 1 => r(K::Sel(vec![d, r0.clone()])),
        2 => r(K::Seq(vec![r(K::Opt(Box::new(d))), r0.clone()])),
        3 => r(K::Seq(vec![r(K::Not(Box::new(d))), r0.clone()])),
        // Looks ahead.
        4 => r(K::Seq(vec![r(K::Not(Box::new(r(K::Not(Box::new(r0.clone())))))), r0.clone()])),
        5 => r(K::Seq(vec![r(K::Rep { rule: Box::new(d), opt: true }), r0.clone()])),
        6 => r(K::Seq(vec![r(K::Sep { rule: Box::new(d), by: Box::new(r0.clone()), opt: true, trail: rng.coin() }), r0.clone()])),
        7 => {
            let e = doomed(rng, r0);
            r(K::Sel(vec![d, e, r0.clone()]))
        }
        // A failure after it.
        _ => r(K::Sel(vec![r0.clone(), d])),
    }
}

fn replace_one(rng: &mut Rng, root: &R) -> R {
    let n = root.size();
    let pick = rng.below(n);
    fn go(rng: &mut Rng, x: &mut R, left: &mut isize) {
        if *left == 0 { *x = with_attempt(rng, x); *left = -1; return; }
        *left -= 1;
        for c in x.children_mut() {
            if *left < 0 { return; }
            go(rng, c, left);
        }
    }
    let mut x = root.clone();
    let mut left = pick as isize;
    go(rng, &mut x, &mut left);
    x
}

pub fn c21(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c21(cx) { return r; }
    let way = *cx.rng.pick(&[Way::Linked, Way::Optimized, Way::Built]);
    let mut c = case(cx, way, |k, _| { k.wide = false; k.p_prop = k.p_prop.max(50); k.undef_refs = false; })?;
    if c.texts.len() > 100 { c.texts = (0..100).map(|_| cx.rng.pick(&c.texts).clone()).collect(); }
    let mut variants = vec![];
    for _ in 0..if c.big { 1 } else { 3 } {
        let mut g = c.g.clone();
        for _ in 0..cx.rng.range(1, 3) {
            let i = cx.rng.below(g.rules.len());
            let x = replace_one(&mut cx.rng, &g.rules[i].1);
            g.rules[i].1 = x;
        }
        if g.size() > 600 { continue; }
        let syn = make(&g, way)?;
        let f = gfp(&g);
        variants.push((g, syn, f));
    }
    let gf = c.gfp;
    for t in &c.texts {
        // Where rules repeat without progress, the reading is not defined.
        if c.read(t).is_err() { cx.count("left out", 1); continue; }
        let a = real_parse(&c.syn, t, c.ind, &[])?;
        for (g, syn, f) in &variants {
            let o = match c.read_of(g, t) { Ok(o) => o, Err(_) => { cx.count("left out", 1); continue; } };
            cx.eval(fp(gf, t) ^ f, o.seen.backtracks_with_tokens > 0);
            cx.count("attempts given up with meta data", o.seen.backtracks_with_tokens);
            cx.count("meta data given up", o.seen.tokens_dropped);
            let pre = some_prefix(&mut cx.rng);
            let b = real_parse(syn, t, c.ind, &pre)?;
            let fail = |w: &str| show_case(Viol::new(w).with("without attempts", format!("{:?} {:?}", a.res, a.toks))
                .with("with attempts", format!("{:?} {:?}", b.res, b.toks)).with("grammar with attempts", show(g)), &c.g, t, c.ind);
            if a.res.is_ok() != b.res.is_ok() { return Err(fail("an attempt that is given up changes what is accepted")); }
            if a.res.is_ok() && !same_toks(&a.toks, &b.toks) { return Err(fail("an attempt that is given up changes the meta data")); }
            cx.count(if a.res.is_ok() { "accepted both ways" } else { "rejected both ways" }, 1);
            cx.sample(|| format!("{:?} with {} attempts given up: {:?} {:?}", t, o.seen.backtracks_with_tokens, b.res, b.toks));
        }
        // Single rules, anywhere in the text.
        for _ in 0..3 {
            let mut all = vec![];
            c.g.visit(&mut |r| all.push(r));
            let r0 = *cx.rng.pick(&all);
            let mut at = cx.rng.below(t.len() + 1);
            while !t.is_char_boundary(at) { at -= 1; }
            let want = match run_rule(&c.g, r0, &t[at..]) { Ok(x) => x, Err(_) => continue };
            let lib = to_rule(r0, true);
            let pre = some_prefix(&mut cx.rng);
            let mut toks = pre.clone();
            // Something from a reading that was given up before.
            let keep = toks.len();
            if cx.rng.coin() { toks.extend(some_prefix(&mut cx.rng)); }
            let mut ind = settings(Ind::default());
            let st = TokenizerState(keep);
            let res = real("reading with a rule", || lib.parse(&mut toks, &st, &ReadToken::new(&t[at..], at), &c.syn.rules, &mut ind))?;
            let fail = |w: String| show_case(Viol::new(w).with("rule", format!("{:?}", r0)), &c.g, t, c.ind);
            match (&res, want) {
                (Ok((range, s, _)), Some(n)) => {
                    if range.offset != at || range.length != n { return Err(fail(format!("a rule reads {:?}, expected {} bytes from {}", range, n, at))); }
                    if s.0 < keep || s.0 > toks.len() { return Err(fail(format!("a rule ends with {} of {} meta data", s.0, toks.len()))); }
                    cx.count("rules read alone", 1);
                }
                (Err(_), None) => {
                    if ind.indent != 0 { return Err(fail(format!("a rule that fails leaves the indention at {}", ind.indent))); }
                    cx.count("rules that failed alone", 1);
                }
                (r, w) => return Err(fail(format!("a rule gives {:?}, expected {:?}", r, w))),
            }
            if toks.len() < keep || !same_toks(&toks[..keep], &pre) { return Err(fail("a rule changes meta data from before".into())); }
        }
    }
    Ok(())
}

// ---- C22

struct Kind { rule: &'static str, make: fn(&mut Rng) -> (String, MetaData), }

fn sp<T: Into<String>>(s: T) -> std::sync::Arc<String> { std::sync::Arc::new(s.into()) }

const ITEMS: [Kind; 6] = [
    Kind { rule: "\"a\":\"x\"", make: |_| ("a".into(), MetaData::Bool(sp("x"), true)) },
    Kind { rule: "{\"a\":\"x\" \"b\":!\"x\"}", make: |r| { let c = r.coin(); (if c { "a" } else { "b" }.into(), MetaData::Bool(sp("x"), c)) } },
    Kind { rule: ".t?:\"x\"", make: |r| { let s = *r.pick(&["", "q", "é,;", "\\\"|"]); (format!("\"{}\"", s), MetaData::String(sp("x"), sp(s.replace("\\\"", "\"")))) } },
    Kind { rule: "...\",;| \\n<>()*\"!:\"x\"", make: |r| { let s = *r.pick(&["q", "é", "word", "日本"]); (s.into(), MetaData::String(sp("x"), sp(s))) } },
    Kind { rule: "[\"(\" .$:\"x\" \")\"]", make: |r| { let n = r.below(1000); (format!("({})", n), MetaData::F64(sp("x"), n as f64)) } },
    Kind { rule: "item", make: |r| { let c = r.coin(); (if c { "é" } else { "è" }.into(), MetaData::Bool(sp("x"), c)) } },
];

const SEPS: [(&str, &str); 8] = [("\",\"", ","), ("\";\"", ";"), ("\"||\"", "||"), (".w!", " "), ("[\",\" .w?]", ", "), ("\"\\n\"", "\n"), ("sep", "*"), ("{\"|,\" \"||\"}", "||")];
const OPT_SEPS: [(&str, &str); 3] = [(".w?", " "), ("?\",\"", ","), ("[?\",\" .w?]", ", ")];

/// Lists with something behind them that starts like an item or separator.
fn c22_near(cx: &mut Cx) -> Res {
    let way = way_of(cx);
    let c = crate::near::some(cx, way, crate::near::What::Lists)?;
    each(cx, &c, |_, c, t, o| {
        let r = real_parse(&c.syn, t, c.ind, &[])?;
        m_accept(o, &r)?;
        m_tokens(o, &r)
    })
}

pub fn c22(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c22(cx) { return r; }
    if let Some(r) = crate::every::c22(cx) { return r; }
    if cx.idx >= 400 && cx.rng.chance(1, 3) { return c22_near(cx); }
    // Counts around the ends of small counters, each with every kind of list.
    const COUNTS: [usize; 9] = [127, 128, 255, 256, 257, 1000, 65_535, 65_536, 65_537];
    const MORE: [usize; 5] = [4096, 32_768, 100_000, 131_073, 1_000_000];
    let at = cx.idx.wrapping_sub(100) as usize;
    let ladder = COUNTS.len() + if cx.thorough { MORE.len() } else { 0 };
    let count = if at < ladder * 6 { Some(*COUNTS.iter().chain(&MORE).nth(at / 6).unwrap()) } else { None };
    let rng = &mut cx.rng;
    // 0: separated, 1: repeated, 2: optional, 3: lines
    let what = match count { Some(_) => [0, 1, 3, 0, 1, 0][at % 6], None => *rng.pick(&[0, 0, 0, 1, 1, 2, 3]) };
    let kind = rng.pick(&ITEMS);
    // Raw text reads on, so items need something in between.
    let kind = if what == 1 && kind.rule.starts_with("...") { &ITEMS[5] } else { kind };
    // A separator that may be empty lets items follow one another, and is
    // read behind the last one as well.
    let zero = what == 0 && !kind.rule.starts_with("...") && rng.chance(1, 5);
    let (sep_rule, sep) = if zero { *rng.pick(&OPT_SEPS) } else { *rng.pick(&SEPS) };
    // An item that may be left out stands between any two separators.
    let zero_items = what == 0 && !zero && !kind.rule.starts_with("...") && count.is_none() && rng.chance(1, 4);
    let item_rule = if zero_items { format!("?{}", kind.rule) } else { kind.rule.to_string() };
    let (must, trail) = (rng.coin(), rng.coin());
    let core = match what {
        0 => format!(".s{}{}({} {})", if must { "!" } else { "?" }, if trail { "." } else { "" }, sep_rule, item_rule),
        1 => format!(".r{}({})", if must { "!" } else { "?" }, kind.rule),
        2 => format!("?{}", kind.rule),
        _ => format!(".l({})", kind.rule),
    };
    let greedy = kind.rule.starts_with("...");
    let around = rng.below(4);
    let wrapped = match around {
        0 => core.clone(),
        1 => format!("[\"<\" {} \">\"]", core),
        2 => format!("[\"<\" {{[{} \"!\"] [{} \">\"]}}]", core, core),
        _ => format!("[\"<\" .s!(\"#\" [\"<\" {} \">\"]) \">\"]", core),
    };
    let text = format!("1 item = {{\"é\":\"x\" \"è\":!\"x\"}}\n2 sep = \"*\"\n3 document = {}\n", wrapped);
    let opt = rules(&text)?;
    let plain = match crate::c_gram::load(&crate::c_gram::boot().0, &text)? { Ok(s) => s, Err(e) => return viol(format!("grammar text is rejected: {:?}", e)) };
    for turn in 0..if count.is_some() { 2 } else { 10 } {
        let rng = &mut cx.rng;
        let groups = if around == 3 { rng.range(1, 3) } else { 1 };
        let mut doc = String::new();
        let mut toks: Vec<MetaData> = vec![];
        let mut ok = true;
        let mut items = 0;
        if around == 3 { doc.push('<'); }
        for gi in 0..groups {
            if around > 0 {
                if gi > 0 { doc.push('#'); }
                doc.push('<');
            }
            let n = *rng.pick(&[0, 0, 1, 1, 2, 2, 3, 5, 9, 40]);
            let n = if rng.chance(1, 300) { 3000 } else { n };
            let n = count.unwrap_or(n);
            // A list of items and separators, mostly one after the other.
            let mut seq: Vec<bool> = vec![];
            for i in 0..n {
                if i > 0 && (what == 0 || what == 3) { seq.push(false); }
                seq.push(true);
            }
            if rng.chance(1, 3) { seq.push(false); }
            if zero { seq.retain(|x| *x || rng.coin()); }
            if zero_items { let p = rng.range(1, 4); seq.retain(|x| !*x || rng.chance(p, 4)); }
            // A long list is read to its end at first, and wrong somewhere then.
            if match count { Some(_) => turn > 0, None => rng.chance(1, 5) } {
                let i = rng.below(seq.len() + 1);
                match rng.below(3) {
                    0 => seq.insert(i, false),
                    1 => seq.insert(i, true),
                    _ => if i < seq.len() { seq.remove(i); },
                }
            }
            if greedy && seq.windows(2).any(|w| w[0] && w[1]) {
                // Two words are one word.
                let mut v: Vec<bool> = vec![];
                for x in seq { if !(x && v.last() == Some(&true)) { v.push(x); } }
                seq = v;
            }
            // `.w!` takes all separators at once.
            let wide_ws = what == 0 && (sep_rule == ".w!" || sep_rule == ".w?");
            for &x in &seq {
                if x {
                    let (s, t) = (kind.make)(rng);
                    doc.push_str(&s);
                    toks.push(t);
                    items += 1;
                } else { doc.push_str(if what == 3 { "\n" } else { sep }); }
            }
            let n = seq.iter().filter(|x| **x).count();
            let alternates = |seq: &[bool]| {
                let mut v: Vec<bool> = vec![];
                for &x in seq { if wide_ws && !x && v.last() == Some(&false) { continue; } v.push(x); }
                let body = v.iter().enumerate().all(|(i, x)| *x == (i % 2 == 0));
                let ends_with_sep = v.last() == Some(&false);
                (body, ends_with_sep)
            };
            let good = match what {
                0 if zero => {
                    let two = |w: &[bool]| !w[0] && !w[1] && !wide_ws;
                    if n == 0 { seq.is_empty() && !must } else { trail && seq[0] && !seq.windows(2).any(two) }
                }
                0 if zero_items => !seq.windows(2).any(|w| w[0] && w[1]),
                0 => {
                    let (body, end) = alternates(&seq);
                    if n == 0 { seq.is_empty() && !must } else { body && (!end || trail) }
                }
                1 => seq.iter().all(|x| *x) && (n > 0 || !must),
                2 => seq.iter().all(|x| *x) && n <= 1,
                _ => {
                    // Items are on lines of their own, with any number of empty ones.
                    seq.windows(2).all(|w| !(w[0] && w[1])) && (around == 0 || seq.last() != Some(&true))
                }
            };
            ok &= good;
            if around > 0 { doc.push('>'); }
        }
        if around == 3 { doc.push('>'); }
        cx.eval(hash_bytes(doc.as_bytes()) ^ hash_bytes(core.as_bytes()), items > 0);
        for (s, name) in [(&plain, "plain"), (&opt, "optimized")] {
            let r = real_parse(s, &doc, Ind::default(), &[])?;
            let fail = |w: String| Viol::new(w).with("grammar text", text.clone()).with("text", clip(&doc, 500)).with("rules", name);
            if r.res.is_ok() != ok { return Err(fail(format!("{} items are {}: {:?}", items, if ok { "rejected" } else { "accepted" }, r.res))); }
            if ok {
                let got: Vec<&MetaData> = r.toks.iter().map(|t| &t.data).collect();
                if got.len() != toks.len() || !got.iter().zip(&toks).all(|(a, b)| **a == *b) {
                    return Err(fail(format!("{} items give {} meta data: {}", toks.len(), got.len(), clip(&format!("{:?}", got), 400))));
                }
                cx.count("items counted", items as u64);
            }
            cx.count(if ok { "lists accepted" } else { "lists rejected" }, 1);
        }
        cx.count(["separated lists", "repeated lists", "optional items", "lines"][what], 1);
        if zero { cx.count("lists with separators that may be empty", 1); }
        if zero_items { cx.count("lists with items that may be left out", 1); }
        cx.max("max items", items as u64);
        cx.sample(|| format!("{} on {:?}: {}", core, clip(&doc, 200), ok));
    }
    Ok(())
}
