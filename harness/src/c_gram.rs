//! Grammar text: C03, C10, C11, C17, C19, C20.

use crate::ast::*;
use crate::c_parse::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::*;
use crate::interp::*;
use crate::print::{self, Style};
use crate::reader::{self, Read};
use crate::rng::{hash_bytes, Rng};
use piston_meta::{MetaData, ParseError, Syntax};
use std::sync::OnceLock;

pub fn repo() -> std::path::PathBuf {
    std::env::var("MON_REPO").map(Into::into).unwrap_or_else(|_| "/repo".into())
}

pub fn asset(name: &str) -> Result<String, Viol> {
    std::fs::read_to_string(repo().join("assets").join(name))
        .map_err(|e| Viol::new(format!("assets/{} can not be read: {}", name, e)))
}

/// The rules the library reads grammar text with, plain and optimized.
pub fn boot() -> &'static (Syntax, Syntax) {
    static B: OnceLock<(Syntax, Syntax)> = OnceLock::new();
    B.get_or_init(|| {
        let r = piston_meta::bootstrap::rules();
        (r.clone(), r.optimize())
    })
}

/// Reads and converts, with nothing left out.
pub fn load(rules: &Syntax, text: &str) -> Result<Result<Syntax, RErr>, Viol> {
    let mut toks = vec![];
    if let Err(e) = real("reading grammar text", || piston_meta::parse(rules, text, &mut toks))? { return Ok(Err(e)); }
    let mut ignored = vec![];
    match real("converting", || piston_meta::bootstrap::convert(&toks, &mut ignored))? {
        Ok(s) if ignored.is_empty() => Ok(Ok(s)),
        Ok(_) => viol(format!("meta data of grammar text was left out when converting: {:?}", ignored)),
        Err(()) => viol("meta data of grammar text can not be converted"),
    }
}

fn same_rules(a: &G, b: &G) -> Option<String> {
    if a.rules == b.rules { return None; }
    for (i, (x, y)) in a.rules.iter().zip(&b.rules).enumerate() {
        if x != y { return Some(format!("node {}: expected {:?}, got {:?}", i, x, y)); }
    }
    Some(format!("expected {} nodes, got {}", a.rules.len(), b.rules.len()))
}

fn text_alphabet() -> Vec<String> {
    ["[", "]", "{", "}", "(", ")", ":", ".", "!", "?", "\"", "_", "=", " ", "\n", "1", "2 a = ", ".w?", ".w!", ".t?", ".t!", ".$",
     ".$_", "...", "..", ".l(", ".l+(", ".r?(", ".r!(", ".s?(", ".s!.(", "/*", "*/", "//", "\"x\"", "_s", "_s:\"t\"", "a", "é", "日",
     "\\", "\r", "\t", "\u{3000}", "node", "+", "-", "0", "e", "*", "/", "\"\"", "\\u00e9", ":!\"p\"", ":\"p\"", " b ", "?", "!"].iter().map(|s| s.to_string()).collect()
}

/// The turn of a grammar with many nodes.
fn many(cx: &mut Cx) -> Option<(G, Knobs, Vec<String>)> {
    let at = cx.idx.wrapping_sub(60) as usize;
    if at >= 2 * NODES.len() { return crate::wide::grammar(cx); }
    cx.count("grammars of many nodes", 1);
    cx.max("max nodes of a grammar", NODES[at / 2] as u64 + 2);
    let (g, kn) = many_nodes(&mut cx.rng, NODES[at / 2]);
    Some((g, kn, vec![]))
}

/// With more steps where there is more to do.
fn read_any<'a>(g: &'a G, t: &'a str, ind: Ind, large: bool) -> Result<Outcome<'a>, &'static str> {
    if large { read_with(g, t, ind, crate::big::BIG_FUEL, crate::big::BIG_DEPTH) } else { read(g, t, ind) }
}

fn text_grammar(cx: &mut Cx) -> (G, Knobs, Vec<String>) {
    if let Some(x) = many(cx) { return x; }
    let mut kn = Knobs::text_form(&mut cx.rng);
    kn.undef_refs = cx.rng.chance(1, 10);
    (grammar(&mut cx.rng, &kn), kn, vec![])
}

/// How far `/*` nests without an end. Reading takes twice as long with each.
pub fn open_comments(t: &str) -> usize {
    let b = t.as_bytes();
    let (mut i, mut open, mut max) = (0, 0usize, 0);
    while i + 1 < b.len() {
        if &b[i..i + 2] == b"/*" { open += 1; i += 2; }
        else if &b[i..i + 2] == b"*/" { open = open.saturating_sub(1); i += 2; }
        else { i += 1; }
        max = max.max(open);
    }
    max
}

pub fn c03(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c03(cx) { return r; }
    if let Some(r) = crate::every::c03(cx) { return r; }
    if let Some(v) = crate::wide::long_texts(cx) {
        for (base, t) in v { compare_reader(cx, &base)?; compare_reader(cx, &t)?; }
        return Ok(());
    }
    let (g, kn, docs) = text_grammar(cx);
    let style = Style::random(&mut cx.rng);
    let text = print::print(&mut cx.rng, &g, &style);
    let fail = |v: Viol| v.with("grammar text", text.clone()).with("rules", format!("{:?}", g.rules));
    for (rules, name) in [(&boot().0, "plain"), (&boot().1, "optimized")] {
        let s = load(rules, &text).map_err(fail)?;
        let s = match s { Ok(s) => s, Err(e) => return Err(fail(Viol::new(format!("grammar text is rejected: {:?}", e)))) };
        if let Some(why) = same_rules(&g, &from_syntax(&s)) {
            return Err(fail(Viol::new(format!("grammar text is read as other rules ({}): {}", name, why))));
        }
    }
    cx.count("rules read back", g.size() as u64);
    cx.max("max bytes of a string in a grammar", longest(&g) as u64);
    cx.max("max rules of a grammar", g.size() as u64);
    g.visit(&mut |r| cx.st.kinds[0][r.k.kind()] += 1);
    cx.eval(hash_bytes(text.as_bytes()), g.size() >= 3);
    cx.sample(|| text.clone());
    // What it does.
    let s = match real("loading", || piston_meta::syntax(&text)).map_err(fail)? {
        Ok(s) => s,
        Err(e) => return Err(fail(Viol::new(format!("grammar text is rejected: {:?}", e)))),
    };
    ensure!(s.names.iter().map(|n| n.to_string()).collect::<Vec<_>>() == g.rules.iter().map(|r| r.0.clone()).collect::<Vec<_>>(),
        "the names of the nodes are {:?}", s.names);
    let ind = indent_settings(&mut cx.rng);
    let large = !docs.is_empty();
    let mut ts = texts(&mut cx.rng, &g, &kn.alphabet, ind, 3, 80);
    ts.extend(docs);
    for t in ts {
        if let Ok(o) = read_any(&g, &t, ind, large) {
            let r = real_parse(&s, &t, ind, &[])?;
            m_accept(&o, &r).and_then(|_| m_tokens(&o, &r)).map_err(|v| show_case(v, &g, &t, ind).with("grammar text", text.clone()))?;
            cx.count("documents read", 1);
        }
    }
    // Broken grammar text: what an independent reader makes of it.
    let alphabet = text_alphabet();
    for _ in 0..4 {
        let mut t = mutate(&mut cx.rng, &text, &alphabet);
        if cx.rng.chance(1, 6) {
            let n = cx.rng.range(1, 30);
            t = (0..n).map(|_| cx.rng.pick(&alphabet).clone()).collect();
        }
        compare_reader(cx, &t)?;
    }
    Ok(())
}

/// The library and the independent reader agree on grammar text.
pub fn compare_reader(cx: &mut Cx, t: &str) -> Res {
    if open_comments(t) > 8 { return Ok(()); }
    let expected = match reader::read(t) {
        Read::Undecided => { cx.count("grammar texts left out", 1); return Ok(()); }
        Read::Rejected => None,
        Read::Grammar(g) => Some(g),
    };
    let fail = |v: Viol| v.with("grammar text", t);
    let s = real("loading", || piston_meta::syntax(t)).map_err(fail)?;
    cx.eval(hash_bytes(t.as_bytes()), t.len() > 4);
    match (&expected, &s) {
        (None, Err(_)) => { cx.count("broken grammar texts rejected", 1); return Ok(()); }
        (None, Ok(s)) => return Err(fail(Viol::new("grammar text that is not one is accepted")
            .with("library", format!("{:?}", from_syntax(s).rules)))),
        (Some(g), Err(e)) => return Err(fail(Viol::new(format!("grammar text is rejected: {:?}", e)).with("rules", format!("{:?}", g.rules)))),
        (Some(_), Ok(_)) => {}
    }
    let g = expected.unwrap();
    match load(&boot().0, t).map_err(fail)? {
        Err(e) => Err(fail(Viol::new(format!("the plain rules reject grammar text: {:?}", e)))),
        Ok(s) => {
            if let Some(why) = same_rules(&g, &from_syntax(&s)) {
                return Err(fail(Viol::new(format!("changed grammar text is read as other rules: {}", why))));
            }
            cx.count("changed grammar texts read back", 1);
            Ok(())
        }
    }
}

/// Rules made from the grammar text that describes the grammar text.
struct Selfs { text: String, one: Syntax, two: Syntax, opt: Syntax }

fn selfs() -> Result<&'static Selfs, Viol> {
    static S: OnceLock<Result<Selfs, String>> = OnceLock::new();
    S.get_or_init(|| {
        let f = || -> Result<Selfs, Viol> {
            let text = asset("self-syntax.txt")?;
            let must = |r: Result<Syntax, RErr>| r.map_err(|e| Viol::new(format!("the self syntax is rejected: {:?}", e)));
            let one = must(load(&boot().0, &text)?)?;
            let two = must(load(&one, &text)?)?;
            if one != two || from_syntax(&one) != from_syntax(&two) {
                return viol("reading the self syntax with itself gives other rules");
            }
            let opt = match real("loading the self syntax", || piston_meta::syntax(&text))? {
                Ok(s) => s,
                Err(e) => return viol(format!("the self syntax is rejected: {:?}", e)),
            };
            Ok(Selfs { text, one, two, opt })
        };
        f().map_err(|v| v.what)
    }).as_ref().map_err(|e| Viol::new(e.clone()))
}

pub fn c10(cx: &mut Cx) -> Res {
    let s = selfs()?;
    let alphabet = text_alphabet();
    let mut ts: Vec<String> = vec![];
    let each = crate::every::texts_for(cx).or_else(|| crate::wide::long_texts(cx).map(|v| v.into_iter().map(|x| x.1).collect()));
    match cx.rng.below(6) {
        _ if each.is_some() => ts = each.unwrap(),
        0 => {
            // The self syntax itself, changed.
            let cut = s.text.rfind("*/").unwrap_or(0) + 2;
            let t = &s.text[cut.min(s.text.len())..];
            if cx.idx < 8 { ts.push(s.text.clone()); }
            ts.push(t.to_string());
            for _ in 0..3 { ts.push(mutate(&mut cx.rng, t, &alphabet)); }
        }
        1 => {
            let n = cx.rng.range(1, 40);
            ts.push((0..n).map(|_| cx.rng.pick(&alphabet).clone()).collect());
        }
        _ => {
            let (g, _, _) = text_grammar(cx);
            let style = Style::random(&mut cx.rng);
            let t = print::print(&mut cx.rng, &g, &style);
            for _ in 0..3 { ts.push(mutate(&mut cx.rng, &t, &alphabet)); }
            ts.push(t);
        }
    }
    for t in &ts {
        if open_comments(t) > 8 { continue; }
        let a = real_parse(&boot().0, t, Ind::default(), &[])?;
        let fail = |v: Viol, name: &str, b: &RealOut| v.with("grammar text", t.clone()).with("built-in rules", format!("{:?} {:?}", a.res, a.toks))
            .with(name, format!("{:?} {:?}", b.res, b.toks));
        for (rules, name) in [(&boot().1, "optimized built-in rules"), (&s.one, "self syntax"),
            (&s.two, "self syntax read by itself"), (&s.opt, "optimized self syntax")] {
            let b = real_parse(rules, t, Ind::default(), &[])?;
            if a.res.is_ok() != b.res.is_ok() { return Err(fail(Viol::new(format!("the {} disagree on acceptance", name)), name, &b)); }
            if a.res.is_ok() && !same_toks(&a.toks, &b.toks) { return Err(fail(Viol::new(format!("the {} read other meta data", name)), name, &b)); }
            if let (Err(x), Err(y)) = (&a.res, &b.res) {
                if x.next_offset() != y.next_offset() { return Err(fail(Viol::new(format!("the {} report an error at another depth", name)), name, &b)); }
            }
            cx.eval(hash_bytes(t.as_bytes()), t.len() > 4);
        }
        cx.count(if a.res.is_ok() { "grammar texts accepted" } else { "grammar texts rejected" }, 1);
        if a.res.is_ok() {
            // The same rules come out.
            let x = load(&boot().0, t);
            let y = load(&s.one, t);
            match (x, y) {
                (Ok(Ok(x)), Ok(Ok(y))) => ensure!(from_syntax(&x) == from_syntax(&y), "the self syntax gives other rules for {:?}", t),
                (Err(_), Err(_)) => {}
                _ => return viol(format!("the self syntax converts another way for {:?}", t)),
            }
        }
        cx.sample(|| t.clone());
    }
    Ok(())
}

struct Old { old: Syntax, one: Syntax, new_self: Syntax }

fn old() -> Result<&'static Old, Viol> {
    static S: OnceLock<Result<Old, String>> = OnceLock::new();
    S.get_or_init(|| {
        let f = || -> Result<Old, Viol> {
            let must = |name: &str| -> Result<Syntax, Viol> {
                let t = asset(name)?;
                match load(&boot().0, &t)? {
                    Ok(s) => Ok(s),
                    Err(e) => viol(format!("assets/{} is rejected: {:?}", name, e)),
                }
            };
            let old = must("old-syntax.txt")?;
            let t = asset("old-self-syntax.txt")?;
            let again = match load(&old, &t)? {
                Ok(s) => s,
                Err(e) => return viol(format!("the older self syntax is rejected: {:?}", e)),
            };
            if from_syntax(&old) != from_syntax(&again) {
                return viol("the older self syntax, read as older grammar text, gives other rules than its description");
            }
            Ok(Old { old, one: must("self-syntax-1.0.txt")?, new_self: must("new-self-syntax.txt")? })
        };
        f().map_err(|v| v.what)
    }).as_ref().map_err(|e| Viol::new(e.clone()))
}

pub fn c11(cx: &mut Cx) -> Res {
    let o = old()?;
    let which = cx.rng.below(3);
    let mut kn = Knobs::text_form(&mut cx.rng);
    if which == 0 {
        kn.old_form = true;
        kn.props.retain(|p| p != "n\nl");
    }
    let mut docs = vec![];
    let mut g = match crate::every::c11_grammar(cx, which == 0) {
        Some(g) => { kn.alphabet = g.rules.iter().map(|x| x.0.replacen('n', "", 1)).chain(Some("x".into())).filter(|x| !x.is_empty()).collect(); g }
        None => {
            // What the older form does not have is left out.
            let has = |g: &G| { let mut n = false; g.visit(&mut |r| n |= matches!(r.k, K::Not(_) | K::Lines { indent: true, .. })); n };
            match crate::wide::grammar(cx).filter(|x| which > 0 || !has(&x.0)) {
                Some((g, k, d)) => { kn.alphabet = k.alphabet; docs = d; g }
                None => grammar(&mut cx.rng, &kn),
            }
        }
    };
    let mut indent = false;
    if which > 0 {
        let drop = cx.rng.chance(4, 5);
        for (_, r) in g.rules.iter_mut() {
            r.visit_mut(&mut |r| if let K::Lines { indent: i, .. } = &mut r.k { if drop { *i = false; } else { indent |= *i; } });
        }
    }
    let style = Style::random(&mut cx.rng);
    let (rules, name, text) = match which {
        0 => (&o.old, "older", print::print_old(&mut cx.rng, &g, &style)),
        1 => (&o.one, "1.0", print::print(&mut cx.rng, &g, &style)),
        _ => (&o.new_self, "testing", print::print(&mut cx.rng, &g, &style)),
    };
    let fail = |v: Viol| v.with("grammar text", text.clone()).with("rules", format!("{:?}", g.rules));
    let s = load(rules, &text).map_err(fail)?;
    cx.eval(hash_bytes(text.as_bytes()), g.size() >= 3);
    let s = match s {
        Ok(s) => s,
        Err(e) => {
            if indent { cx.count("newer rules rejected by older syntax", 1); return Ok(()); }
            return Err(fail(Viol::new(format!("grammar text of the {} syntax is rejected: {:?}", name, e))));
        }
    };
    if indent { return Err(fail(Viol::new(format!("the {} syntax reads a rule it does not have", name)))); }
    if let Some(why) = same_rules(&g, &from_syntax(&s)) {
        return Err(fail(Viol::new(format!("grammar text of the {} syntax is read as other rules: {}", name, why))));
    }
    cx.count(&format!("grammars read back: {}", name), 1);
    if which > 0 {
        // It says the same in the current syntax.
        match load(&boot().0, &text).map_err(fail)? {
            Ok(x) => if x != s { return Err(fail(Viol::new(format!("grammar text of the {} syntax is read as other rules with the current syntax", name)))); },
            Err(e) => return Err(fail(Viol::new(format!("grammar text of the {} syntax is rejected with the current syntax: {:?}", name, e)))),
        }
        cx.count("grammars of the 1.0 form loaded with the current syntax", 1);
    }
    cx.count("rules read back", g.size() as u64);
    cx.sample(|| text.clone());
    let ind = Ind::default();
    let opt = real("optimizing", || s.clone().optimize())?;
    let large = !docs.is_empty();
    let ts = if large { docs } else { texts(&mut cx.rng, &g, &kn.alphabet, ind, 3, 80) };
    for t in ts {
        if let Ok(o) = read_any(&g, &t, ind, large) {
            for s in [&s, &opt] {
                let r = real_parse(s, &t, ind, &[])?;
                m_accept(&o, &r).and_then(|_| m_tokens(&o, &r)).map_err(|v| show_case(v, &g, &t, ind).with("grammar text", text.clone()))?;
                cx.count("documents read", 1);
            }
        }
    }
    Ok(())
}

pub fn id_of(e: &ParseError) -> Option<usize> {
    use ParseError as P;
    Some(match e {
        P::ExpectedWhitespace(i) | P::ExpectedNewLine(i) | P::ExpectedSomething(i) | P::ExpectedNumber(i)
        | P::ParseNumberError(_, i) | P::ExpectedText(i) | P::EmptyTextNotAllowed(i) | P::ParseStringError(_, i)
        | P::ExpectedTag(_, i) | P::DidNotExpectTag(_, i) | P::InvalidRule(_, i) => *i,
        P::NoRules | P::ExpectedEnd | P::Conversion(_) => return None,
    })
}

fn could_fail_so(k: &K, e: &ParseError) -> bool {
    use ParseError as P;
    match (k, e) {
        (K::Ws { opt: false }, P::ExpectedWhitespace(_)) => true,
        (K::Lines { .. }, P::ExpectedNewLine(_)) => true,
        (K::Until { opt: false, .. }, P::ExpectedSomething(_)) | (K::UntilWs { opt: false, .. }, P::ExpectedSomething(_))
        | (K::Sel(_), P::ExpectedSomething(_)) => true,
        (K::Num { .. }, P::ExpectedNumber(_)) | (K::Num { .. }, P::ParseNumberError(..)) => true,
        (K::Text { .. }, P::ExpectedText(_)) | (K::Text { empty: false, .. }, P::EmptyTextNotAllowed(_))
        | (K::Text { .. }, P::ParseStringError(..)) => true,
        (K::Tag { text, not: false, .. }, P::ExpectedTag(t, _)) => **t == **text,
        (K::Tag { text, not: true, .. }, P::DidNotExpectTag(t, _)) => **t == **text,
        (K::Not(_), P::DidNotExpectTag(..)) => true,
        (K::Node { index: None, .. }, P::InvalidRule(..)) => true,
        (K::Sel(a), P::InvalidRule(..)) => a.is_empty(),
        _ => false,
    }
}

/// Numbers of nodes from small to far too large: the errors name them, or they are rejected.
fn c17_large(cx: &mut Cx) -> Res {
    let most = usize::max_value() as f64;
    let v = match cx.rng.below(4) {
        0 => most / 2000.0 * (0.99 + 0.02 * cx.rng.below(1000) as f64 / 1000.0),
        1 => most / 1000.0 * (0.5 + 4.0 * cx.rng.below(1000) as f64 / 1000.0),
        2 => most / 1000.0 * (1.0 + cx.rng.below(1 << 30) as f64 / (1u64 << 20) as f64),
        _ => { let d = cx.rng.range(1, 25); (0..d).fold(0.0, |x, _| 10.0 * x + cx.rng.range(0, 9) as f64) }
    }.floor();
    let n = cx.rng.range(1, 5);
    let other = cx.rng.below(50);
    let items: Vec<String> = (0..n).map(|i| format!("\"t{}\"", i)).collect();
    let mut nodes = vec![format!("{} other = \"o\"", other)];
    let numeral = if v < 1e15 || cx.rng.coin() { format!("{:.0}", v) } else { format!("{:e}", v) };
    nodes.push(format!("{} a = [other {}]", numeral, items.join(" ")));
    let t = nodes.join("\n") + "\n";
    let fail = |v: Viol| v.with("grammar text", t.clone());
    let fits = (v + 1.0) * 1000.0 < most;
    let syn = match real("loading", || piston_meta::syntax(&t))? {
        Err(e) => {
            cx.count("numbers of nodes that are rejected", 1);
            // Half of what fits may be used.
            if v * 2001.0 < most { return Err(fail(Viol::new(format!("the number {} fits, but is rejected: {:?}", v, e)))); }
            cx.eval(hash_bytes(t.as_bytes()), true);
            return Ok(());
        }
        Ok(s) => s,
    };
    if v > most / 1000.0 * 1.000001 { return Err(fail(Viol::new(format!("the number {} does not fit, but is accepted", v)))); }
    for i in 0..n {
        // Fails at this item.
        let d: String = "o".to_string() + &(0..i).map(|k| format!("t{}", k)).collect::<String>();
        let e = match real_parse(&syn, &d, Ind::default(), &[])?.res { Err(e) => e, Ok(()) => return Err(fail(Viol::new("accepted"))) };
        let id = match id_of(&e.data) { Some(x) => x, None => return Err(fail(Viol::new(format!("no number in {:?}", e)))) };
        // Numerals of more digits are only read about.
        let want = v * 1000.0 + 2.0 + i as f64;
        let good = if v < 1e15 { id == v as usize * 1000 + 2 + i } else { !fits || (id as f64 / want - 1.0).abs() < 1e-12 };
        if !good { return Err(fail(Viol::new(format!("the error of rule {} in node {} has the number {}", i + 2, v, id)))); }
        cx.count("errors in nodes with a large number", 1);
    }
    cx.eval(hash_bytes(t.as_bytes()), true);
    Ok(())
}

pub fn c17(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c17(cx) { return r; }
    if cx.rng.chance(1, 30) { return c17_large(cx); }
    let mut kn = Knobs::text_form(&mut cx.rng);
    kn.undef_refs = cx.rng.chance(1, 8);
    kn.rules = kn.rules.max(2);
    let mut docs = vec![];
    let mut g = match many(cx) { Some((g, k, d)) => { kn = k; docs = d; g } None => grammar(&mut cx.rng, &kn) };
    // Numbers in front of nodes, unique, so an id names one rule.
    let base = if cx.rng.chance(1, 4) { cx.rng.below(1 << 33) } else { cx.rng.below(20) };
    let mut ids: Vec<u64> = (0..g.ids.len()).map(|i| (base + i * cx.rng.range(1, 3) + i) as u64).collect();
    for i in 1..ids.len() { if ids[i] <= ids[i - 1] { ids[i] = ids[i - 1] + 1; } }
    // Nodes with thousands of rules leave out the numbers that these take.
    let step = g.rules.iter().map(|r| r.1.size() as u64 / 1000 + 1).max().unwrap_or(1);
    for i in ids.iter_mut() { *i *= step; }
    if cx.rng.coin() { ids.reverse(); }
    g.ids = ids.clone();
    g.assign_ids();
    let style = Style::random(&mut cx.rng);
    let (text, syn) = via_text(&mut cx.rng, &g, &style)?;
    let plain = match load(&boot().0, &text)? { Ok(s) => s, Err(e) => return viol(format!("rejected {:?}", e)) };
    if let Some(why) = same_rules(&g, &from_syntax(&plain)) {
        return Err(Viol::new(format!("grammar text is read as other rules, or rules with other numbers: {}", clip(&why, 3000))).with("grammar text", text.clone()));
    }
    let mut by_id: std::collections::HashMap<usize, Vec<(usize, &R)>> = Default::default();
    for (i, (_, rule)) in g.rules.iter().enumerate() {
        // Sub rules are numbered from 1, in the order they end.
        let n = rule.size();
        rule.visit(&mut |r| by_id.entry(r.id).or_default().push((i, r)));
        {
            let mut all = vec![];
            rule.visit(&mut |r| all.push(r.id));
            all.sort();
            let want: Vec<usize> = (1..=n).map(|k| ids[i] as usize * 1000 + k).collect();
            ensure!(all == want, "harness: ids {:?}", all);
        }
    }
    let large = !docs.is_empty();
    let mut ts = if large { docs } else { texts(&mut cx.rng, &g, &kn.alphabet, Ind::default(), 8, 100) };
    let more: Vec<String> = ts.iter().map(|t| mutate(&mut cx.rng, t, &kn.alphabet)).collect();
    ts.extend(more);
    let gf = gfp(&g);
    for t in &ts {
        let o = match read_any(&g, t, Ind::default(), large) { Ok(o) => o, Err(_) => continue };
        if o.ok { continue; }
        observe(cx, &o);
        cx.eval(fp(gf, t), true);
        for (s, optimized) in [(&syn, true), (&plain, false)] {
            let r = real_parse(s, t, Ind::default(), &[])?;
            let fail = |v: Viol| show_case(v, &g, t, Ind::default()).with("grammar text", text.clone()).with("library", format!("{:?}", r.res));
            let e = match &r.res { Err(e) => e, Ok(()) => return Err(fail(Viol::new("accepted"))) };
            m_error(&o, &r, optimized).map_err(fail)?;
            match id_of(&e.data) {
                None => cx.count("errors without a rule", 1),
                Some(id) => {
                    cx.count("errors with the number of a rule", 1);
                    let rs = match by_id.get(&id) {
                        Some(rs) => rs,
                        None => return Err(fail(Viol::new(format!("the error names #{}, which is no rule", id)))),
                    };
                    if !rs.iter().any(|r| could_fail_so(&r.1.k, &e.data)) {
                        return Err(fail(Viol::new(format!("the error names #{}, a rule that can not fail so: {:?}", id, rs))));
                    }
                    ensure!(rs.len() == 1 || step == 1, "harness: several rules have the number {}", id);
                    ensure!(rs.iter().all(|r| ids[r.0] == id as u64 / 1000 / step * step), "#{} is in another node", id);
                    cx.count("numbers traced to the node", 1);
                    // As text.
                    let mut v = vec![];
                    let shown = match real("parsing", || piston_meta::parse_errstr(s, t, &mut v))? { Err(x) => x, Ok(()) => return viol("accepted") };
                    if !shown.starts_with(&format!("Error #{}, ", id)) {
                        return Err(fail(Viol::new(format!("the report does not start with the number #{}: {:?}", id, clip(&shown, 200)))));
                    }
                }
            }
        }
    }
    cx.sample(|| text.clone());
    Ok(())
}

pub fn c19(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c19(cx) { return r; }
    if let Some(r) = crate::every::c19(cx) { return r; }
    if let Some(r) = crate::wide::c19(cx) { return r; }
    let (g, kn, docs) = text_grammar(cx);
    let mut base: Option<(String, G, Syntax)> = None;
    for i in 0..4 {
        let style = if i == 0 { Style::plain() } else {
            let mut s = Style::random(&mut cx.rng);
            match i { 1 => s.comments = 70, 2 => s.reuse = 100, _ => { s.layout = true; s.escapes = true; } }
            s
        };
        let text = print::print(&mut cx.rng, &g, &style);
        let s = match real("loading", || piston_meta::syntax(&text))? {
            Ok(s) => s,
            Err(e) => return Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", text)),
        };
        let plain = match load(&boot().0, &text)? {
            Ok(s) => from_syntax(&s),
            Err(e) => return Err(Viol::new(format!("grammar text is rejected by the plain rules: {:?}", e)).with("grammar text", text)),
        };
        cx.eval(hash_bytes(text.as_bytes()), g.size() >= 2);
        if style.comments > 0 { cx.count("with comments", 1); }
        if style.reuse > 0 { cx.count("with reused strings", 1); }
        if style.layout { cx.count("with another layout", 1); }
        match &base {
            None => base = Some((text, plain, s)),
            Some((t0, p0, s0)) => {
                let fail = |w: String| Viol::new(w).with("one way", t0.clone()).with("other way", text.clone());
                if let Some(why) = same_rules(p0, &plain) {
                    return Err(fail(format!("another layout gives other rules: {}", why)));
                }
                if s0 != &s { return Err(fail("another layout gives a syntax that is not equal".into())); }
                if i == 3 {
                    let large = !docs.is_empty();
                    let mut ts = texts(&mut cx.rng, &g, &kn.alphabet, Ind::default(), 2, 60);
                    ts.extend(docs.iter().cloned());
                    for t in ts {
                        if read_any(&g, &t, Ind::default(), large).is_err() { continue; }
                        let a = real_parse(s0, &t, Ind::default(), &[])?;
                        let b = real_parse(&s, &t, Ind::default(), &[])?;
                        if a.res != b.res || !same_toks(&a.toks, &b.toks) {
                            return Err(fail(format!("another layout reads {:?} another way: {:?} {:?}, {:?} {:?}", t, a.res, a.toks, b.res, b.toks)));
                        }
                        cx.count("documents read both ways", 1);
                    }
                }
                cx.sample(|| format!("{}\n-- is --\n{}", t0, text));
            }
        }
    }
    // A string that is not defined is reported.
    let mut style = Style::random(&mut cx.rng);
    style.reuse = 100;
    style.comments = 0;
    let text = print::print(&mut cx.rng, &g, &style);
    let defs: Vec<usize> = text.match_indices('_').map(|x| x.0).collect();
    if !defs.is_empty() {
        // Rename a definition, so its uses are undefined.
        let t = rename_def(&mut cx.rng, &text);
        if let Some(t) = t {
            match reader::read(&t) {
                Read::Rejected => {
                    let fail = |w: &str| Viol::new(w).with("grammar text", t.clone());
                    match real("loading", || piston_meta::syntax(&t))? {
                        Ok(_) => return Err(fail("a string that is not defined is not reported")),
                        Err(e) => {
                            cx.count("undefined strings reported", 1);
                            ensure!(e.next_offset() <= t.len(), "the error {:?} is outside of the text", e);
                        }
                    }
                }
                _ => {}
            }
            compare_reader(cx, &t)?;
        }
    }
    // Two strings with one name: the first counts.
    if let Some(t) = duplicate_def(&mut cx.rng, &text) { compare_reader(cx, &t)?; cx.count("strings defined twice", 1); }
    Ok(())
}

fn def_lines(text: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut at = 0;
    for line in text.split('\n') {
        if line.trim_start().starts_with('_') { v.push(at + (line.len() - line.trim_start().len())); }
        at += line.len() + 1;
    }
    v
}

fn rename_def(rng: &mut Rng, text: &str) -> Option<String> {
    let v = def_lines(text);
    if v.is_empty() { return None; }
    let at = *rng.pick(&v) + 1;
    Some(format!("{}Z{}", &text[..at], &text[at..]))
}

fn duplicate_def(rng: &mut Rng, text: &str) -> Option<String> {
    let v = def_lines(text);
    if v.is_empty() { return None; }
    let at = *rng.pick(&v);
    let name: String = text[at..].chars().take_while(|c| *c != ':').collect();
    // Before or after the definition.
    let new = format!("{}: \"other\"\n", name);
    let other = *rng.pick(&v);
    Some(format!("{}{}{}", &text[..other], new, &text[other..]))
}

pub fn c20(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c20(cx) { return r; }
    let way = way_of(cx);
    let mut kn = Knobs::random(&mut cx.rng);
    kn.text_form = way == Way::Text;
    kn.dup_names = cx.rng.chance(2, 3);
    kn.undef_refs = cx.rng.chance(1, 3);
    kn.cyclic = true;
    kn.rules = cx.rng.range(2, 7);
    kn.w[11] = kn.w[11].max(25);
    kn.wide = false;
    let each = crate::every::c20_grammar(cx, way);
    let mut given = vec![];
    let mut large = false;
    let mut g = match many(cx) {
        _ if each.is_some() => { let (g, t) = each.unwrap(); given = t; g }
        Some((mut g, k, d)) => {
            kn = k;
            large = !d.is_empty();
            given = d;
            if !large && cx.rng.coin() {
                // Some names twice: the first counts.
                for _ in 0..20.max(g.rules.len() / 4) { let i = cx.rng.below(g.rules.len() - 2); let j = cx.rng.below(g.rules.len() - 2); g.rules[i].0 = g.rules[j].0.clone(); }
                g.resolve();
            }
            g
        }
        None => grammar(&mut cx.rng, &kn),
    };
    if way != Way::Text { some_ids(&mut cx.rng, &mut g); }
    let mk = |cx: &mut Cx, g: &G| -> Result<Syntax, Viol> {
        if way == Way::Text {
            let style = Style::random(&mut cx.rng);
            Ok(via_text(&mut cx.rng, g, &style)?.1)
        } else { make(g, way) }
    };
    let syn = mk(cx, &g)?;
    // All nodes get fresh names, so that each name has one node; references follow.
    let mut h = g.clone();
    for (i, (n, _)) in h.rules.iter_mut().enumerate() { *n = format!("fresh{}", i); }
    for (_, r) in h.rules.iter_mut() {
        r.visit_mut(&mut |r| if let K::Node { name, index, .. } = &mut r.k {
            *name = match index { Some(i) => format!("fresh{}", i), None => "nowhere".into() };
        });
    }
    let renamed = mk(cx, &h)?;
    // Nodes that are shadowed and not the last can be put anywhere before the last.
    let ind = Ind::default();
    let gf = gfp(&g);
    let mut dups = 0;
    let mut forward = 0;
    for (i, (_, r)) in g.rules.iter().enumerate() {
        r.visit(&mut |r| if let K::Node { name, index, .. } = &r.k {
            if g.rules.iter().filter(|x| x.0 == *name).count() > 1 { dups += 1; }
            if index.map_or(false, |j| j > i) { forward += 1; }
        });
    }
    cx.count("references to a name with several nodes", dups);
    cx.count("references to later nodes", forward);
    let mut ts = texts(&mut cx.rng, &g, &kn.alphabet, ind, 6, 80);
    let many = g.rules.len() > 100 && given.is_empty();
    ts.extend(given);
    if many {
        // Each of many nodes, whether it is used or shadowed.
        let n = g.rules.len() - 2;
        let picked: Vec<usize> = if n < 400 { (0..n).collect() } else { (0..400).map(|_| cx.rng.below(n)).collect() };
        for &i in &picked { ts.push(sentence_of(&mut cx.rng, &g, i, &kn.alphabet, ind, 80)); }
        let doc: String = picked.iter().map(|&i| {
            // What the name means, which may be another node.
            let i = g.rules.iter().position(|x| x.0 == g.rules[i].0).unwrap();
            sentence_of(&mut cx.rng, &g, i, &kn.alphabet, ind, 80) + " "
        }).collect();
        ts.push(doc);
    }
    for t in ts {
        let o = match read_any(&g, &t, ind, large) { Ok(o) => o, Err(_) => continue };
        observe(cx, &o);
        cx.eval(fp(gf, &t), nontrivial(&o));
        let fail = |v: Viol| show_case(v, &g, &t, ind).with("made", format!("{:?}", way));
        let a = real_parse(&syn, &t, ind, &[])?;
        let b = real_parse(&renamed, &t, ind, &[])?;
        m_accept(&o, &a).and_then(|_| m_tokens(&o, &a)).and_then(|_| m_error(&o, &a, way == Way::Optimized || way == Way::Text)).map_err(fail)?;
        // A table leaves out tokens and texts, and never a name that is not defined.
        if let (Err(e), Some(last)) = (&a.res, o.evs.last()) {
            if !o.ok && matches!(last.k, EvK::Invalid(_)) && !matches!(e.data, ParseError::InvalidRule(..)) {
                return Err(fail(Viol::new("a name that is not defined is not reported").with("library", format!("{:?}", e)).with("deepest", format!("{:?}", o.evs))));
            }
        }
        if a.res != b.res || !same_toks(&a.toks, &b.toks) {
            return Err(fail(Viol::new("giving every node a name of its own changes the reading")
                .with("library", format!("{:?} {:?}", a.res, a.toks)).with("renamed", format!("{:?} {:?}", b.res, b.toks))));
        }
        if let Err(e) = &a.res { if let ParseError::InvalidRule(..) = e.data { cx.count("undefined references reported", 1); } }
        if o.ok && kn.undef_refs { cx.count("accepted with an undefined reference elsewhere", 1); }
        cx.count("nodes read", a.toks.iter().filter(|x| matches!(x.data, MetaData::StartNode(_))).count() as u64);
    }
    cx.sample(|| show(&g));
    Ok(())
}
