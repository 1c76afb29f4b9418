//! Reading documents: C01, C02, C04, C05, C06, C07.

use crate::ast::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::*;
use crate::interp::*;
use crate::print::Style;
use piston_meta::meta_rules::IndentSettings;
use piston_meta::tokenizer::TokenizerState;
use piston_meta::{MetaData, Range, Rule, Syntax};
use read_token::ReadToken;

pub struct Case {
    pub g: G,
    pub ind: Ind,
    pub texts: Vec<String>,
    pub way: Way,
    pub syn: Syntax,
    pub gfp: u64,
    /// A large document, for which the model gets more steps.
    pub big: bool,
}

impl Case {
    /// The reading of a text with some rules, where it ends.
    pub fn read_of<'a>(&self, g: &'a G, t: &'a str) -> Result<Outcome<'a>, &'static str> {
        if self.big { read_with(g, t, self.ind, crate::big::BIG_FUEL, crate::big::BIG_DEPTH) } else { read(g, t, self.ind) }
    }
    pub fn read<'a>(&'a self, t: &'a str) -> Result<Outcome<'a>, &'static str> { self.read_of(&self.g, t) }
}

pub fn max_len(cx: &mut Cx) -> usize {
    *cx.rng.pick(&[40, 80, 200, 600])
}

pub fn way_of(cx: &mut Cx) -> Way {
    *cx.rng.pick(&[Way::Built, Way::Linked, Way::Optimized, Way::Text])
}

/// A random grammar in some form, with texts.
pub fn case(cx: &mut Cx, way: Way, tweak: fn(&mut Knobs, &mut crate::rng::Rng)) -> Result<Case, Viol> {
    if let Some(c) = crate::every::case(cx, way)? { return Ok(c); }
    if let Some(c) = crate::wide::case(cx, way)? { return Ok(c); }
    if let Some(c) = crate::big::big_case(cx, way)? { return Ok(c); }
    let (what, one_in) = if way == Way::Linked { (crate::near::What::Choices, 6) } else { (crate::near::What::Any, 10) };
    if let Some(c) = crate::near::case(cx, way, what, one_in)? { return Ok(c); }
    let mut kn = Knobs::random(&mut cx.rng);
    if way == Way::Text { kn.text_form = true; }
    tweak(&mut kn, &mut cx.rng);
    let mut g = grammar(&mut cx.rng, &kn);
    if way == Way::Text { kn.undef_refs = false; }
    let syn = if way == Way::Text {
        let style = Style::random(&mut cx.rng);
        via_text(&mut cx.rng, &g, &style)?.1
    } else {
        some_ids(&mut cx.rng, &mut g);
        make(&g, way)?
    };
    let ind = indent_settings(&mut cx.rng);
    let n = cx.rng.range(3, 8);
    let max = max_len(cx);
    let t = texts(&mut cx.rng, &g, &kn.alphabet, ind, n, max);
    let gfp = gfp(&g);
    Ok(Case { g, ind, texts: t, way, syn, gfp, big: false })
}

/// Calls with every text the model can decide.
pub fn each<F>(cx: &mut Cx, c: &Case, mut f: F) -> Res
    where F: FnMut(&mut Cx, &Case, &str, &Outcome) -> Res
{
    cx.max("max bytes of a string in a grammar", longest(&c.g) as u64);
    cx.max("max rules of a grammar", c.g.size() as u64);
    for t in &c.texts {
        let o = match c.read(t) {
            Ok(o) => o,
            Err(why) => { cx.count(&format!("left out: {}", why), 1); continue; }
        };
        observe(cx, &o);
        cx.eval(fp(c.gfp, t), nontrivial(&o));
        f(cx, c, t, &o).map_err(|v| show_case(v, &c.g, t, c.ind).with("made", format!("{:?}", c.way)))?;
        cx.sample(|| format!("{} on {:?} ({:?}): {}", show(&c.g).lines().next().unwrap_or(""), clip(t, 300), c.way,
            if o.ok { format!("accepted, {:?}", &o.toks[..o.toks.len().min(20)]) } else { format!("rejected, deepest failure at {}: {:?}", o.far, o.evs.first()) }));
    }
    Ok(())
}

pub fn c01(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c01(cx) { return r; }
    let way = way_of(cx);
    let c = case(cx, way, |_, _| {})?;
    cx.count(&format!("grammars: {:?}", way), 1);
    each(cx, &c, |cx, c, t, o| {
        let prefix = some_prefix(&mut cx.rng);
        let r = real_parse(&c.syn, t, c.ind, &prefix)?;
        m_accept(o, &r)?;
        m_tokens(o, &r)
    })
}

/// Every rule of a grammar, with the grammar it refers to.
fn all_rules<'a>(g: &'a G) -> Vec<&'a R> {
    let mut v = vec![];
    g.visit(&mut |r| v.push(r));
    v
}

pub fn c02(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c02(cx) { return r; }
    let c = case(cx, Way::Linked, |k, rng| {
        // Selects are what gets optimized.
        k.w[6] = k.w[6].max(20);
        k.w[1] = k.w[1].max(20);
        k.w[4] = k.w[4].max(6);
        k.width = k.width.max(2);
        k.wide = rng.chance(1, 8);
    })?;
    let opt = real("optimizing", || c.syn.clone().optimize())?;
    let opt2 = real("optimizing twice", || opt.clone().optimize())?;
    ensure!(opt.names == c.syn.names, "optimizing changed the names");
    ensure!(opt.rules.len() == c.syn.rules.len(), "optimizing changed the number of rules");
    let mut fast = 0;
    fn has_fast(r: &Rule, n: &mut u64) {
        match r {
            Rule::FastSelect(f) => { *n += 1; for a in &f.args { has_fast(a, n); } }
            Rule::Select(s) => for a in &s.args { has_fast(a, n) },
            Rule::Sequence(s) => for a in &s.args { has_fast(a, n) },
            Rule::SeparateBy(s) => { has_fast(&s.rule, n); has_fast(&s.by, n); }
            Rule::Repeat(s) => has_fast(&s.rule, n),
            Rule::Lines(s) => has_fast(&s.rule, n),
            Rule::Optional(s) => has_fast(&s.rule, n),
            Rule::Not(s) => has_fast(&s.rule, n),
            _ => {}
        }
    }
    for r in &opt.rules { has_fast(r, &mut fast); }
    cx.count("selects replaced by a table", fast);
    each(cx, &c, |cx, c, t, o| {
        let prefix = some_prefix(&mut cx.rng);
        let a = real_parse(&c.syn, t, c.ind, &prefix)?;
        let b = real_parse(&opt, t, c.ind, &prefix)?;
        let b2 = real_parse(&opt2, t, c.ind, &prefix)?;
        for (b, name) in [(&b, "optimized"), (&b2, "optimized twice")] {
            let out = || format!("plain: {:?} {:?}\n{}: {:?} {:?}", a.res, a.toks, name, b.res, b.toks);
            ensure!(a.res.is_ok() == b.res.is_ok(), "{} syntax disagrees on acceptance\n{}", name, out());
            if a.res.is_ok() {
                ensure!(same_toks(&a.toks, &b.toks), "{} syntax gives other meta data\n{}", name, out());
            }
            if let (Err(x), Err(y)) = (&a.res, &b.res) {
                ensure!(x.next_offset() == y.next_offset(), "{} syntax reports an error at another depth\n{}", name, out());
            }
            m_accept(o, b)?;
            m_error(o, b, true)?;
        }
        Ok(())
    })?;
    // What is predicted from the next byte.
    let rules = all_rules(&c.g);
    let lib = to_syntax(&c.g, true);
    for _ in 0..4 {
        let r = *cx.rng.pick(&rules);
        let lr = to_rule(r, true);
        let b = real("predicting a byte", || piston_meta::optimize::unique_byte(&lr, &lib.rules))?;
        let mut g = c.g.clone();
        g.rules.push(("root".into(), r.clone()));
        g.ids.push(0);
        let mut tries: Vec<String> = c.texts.iter().take(3).cloned().collect();
        for _ in 0..3 { tries.push(sentence(&mut cx.rng, &g, &["a".into(), "é".into()], c.ind, 30)); }
        tries.push(String::new());
        if let Some(b) = b {
            cx.count("bytes predicted", 1);
            for t in &tries {
                if t.as_bytes().first() == Some(&b) { continue; }
                if let Ok(Some(_)) = run_rule(&c.g, r, t) {
                    return Err(show_case(Viol::new(format!("a rule is predicted to start with byte {:#x}, but accepts {:?}", b, t))
                        .with("rule", format!("{:?}", r)), &c.g, t, c.ind));
                }
                cx.count("texts with another byte rejected", 1);
            }
        }
        if let (K::Sel(args), Rule::Select(ls)) = (&r.k, &lr) {
            let (table, upto) = real("building a table", || piston_meta::optimize::unique_table_from_select(ls, &lib.rules))?;
            ensure!(upto <= args.len(), "the table covers {} of {} alternatives", upto, args.len());
            for t in &tries {
                for (i, a) in args.iter().enumerate().take(upto) {
                    let hit = t.as_bytes().first().map_or(255, |b| table[*b as usize]) as usize;
                    if hit == i { continue; }
                    if let Ok(Some(_)) = run_rule(&c.g, a, t) {
                        return Err(show_case(Viol::new(format!("the table selects {} for {:?}, but alternative {} accepts it", hit, t, i))
                            .with("select", format!("{:?}", r)), &c.g, t, c.ind));
                    }
                    cx.count("table entries checked", 1);
                }
            }
            for (b, &i) in table.iter().enumerate() {
                ensure!(i == 255 || (i as usize) < upto, "table entry {} of byte {:#x} is not below {}", i, b, upto);
            }
        }
    }
    Ok(())
}

pub fn c04(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c04(cx) { return r; }
    let way = way_of(cx);
    let mut c = case(cx, way, |_, _| {})?;
    // Texts with something more after what is accepted.
    let extra: Vec<String> = c.texts.iter().map(|t| {
        let tail = *cx.rng.pick(&["x", "é", "日", "😀", " ", "\n", "\u{3000}", "\u{0}", "\u{fffd}", "\u{7f}", "日本x", "aaaa"]);
        let rep = cx.rng.range(1, 3);
        format!("{}{}", t, tail.repeat(rep))
    }).collect();
    c.texts.extend(extra);
    each(cx, &c, |cx, c, t, o| {
        let r = real_parse(&c.syn, t, c.ind, &[])?;
        m_accept(o, &r)?;
        // Independent of the model: where the root rule stops.
        let mut toks = vec![];
        let mut ind = settings(c.ind);
        let root = c.syn.rules.last().unwrap();
        let lex = ReadToken::new(t, 0);
        let direct = real("reading with the root rule", || root.parse(&mut toks, &TokenizerState::new(), &lex, &c.syn.rules, &mut ind))?;
        match &direct {
            Ok((range, _, _)) => {
                ensure!(range.offset == 0 && range.next_offset() <= t.len(), "the root rule reads {:?} of {} bytes", range, t.len());
                let all = range.next_offset() == t.len();
                cx.count(if all { "read all" } else { "stopped early" }, 1);
                if !all && t[range.next_offset()..].chars().count() < t.len() - range.next_offset() { cx.count("stopped before multi-byte text", 1); }
                ensure!(r.res.is_ok() == all, "the root rule reads {} of {} bytes, and parsing gives {:?}", range.next_offset(), t.len(), r.res);
                if let Err(e) = &r.res {
                    ensure!(e.next_offset() >= range.next_offset(), "the error {:?} is before the end of what was read ({})", e, range.next_offset());
                }
            }
            Err(_) => ensure!(r.res.is_err(), "the root rule fails, and parsing succeeds"),
        }
        ensure!(o.root_end == direct.as_ref().ok().map(|x| x.0.next_offset()),
            "the root rule reads {:?}, expected {:?}", direct.as_ref().ok().map(|x| x.0), o.root_end);
        Ok(())
    })
}

pub fn c05(cx: &mut Cx) -> Res {
    if cx.idx < 64 {
        // No rules at all, which changes nothing either.
        let before: Vec<_> = (0..cx.idx + 1).map(|i| Range::new(i as usize, 2).wrap(MetaData::F64(std::sync::Arc::new("x".into()), i as f64))).collect();
        let t = "x".repeat(cx.idx as usize % 3);
        for ind in [Ind::default(), Ind { indent: 3, align_first: false, tab_spaces: 1 }] {
            let r = real_parse(&Syntax::new(), &t, ind, &before)?;
            ensure!(r.res.is_err() && r.toks.is_empty(), "reading without rules gives {:?} {:?}", r.res, r.toks);
        }
        cx.count("readings without rules", 2);
    }
    let way = way_of(cx);
    let c = case(cx, way, |k, _| {
        k.p_prop = k.p_prop.max(60);
        k.w[11] = k.w[11].max(14);
        k.rules = k.rules.max(2);
    })?;
    // The same vector is used again and again.
    let mut all: Vec<Range<MetaData>> = vec![];
    each(cx, &c, |cx, c, t, o| {
        if all.len() > 200 { all.clear(); }
        let r = real_parse(&c.syn, t, c.ind, &all)?;
        m_ranges(t, &r)?;
        if r.res.is_ok() {
            m_tree(t, &r.toks)?;
            cx.count("trees checked", 1);
            cx.count("nodes checked", r.toks.iter().filter(|x| matches!(x.data, MetaData::StartNode(_))).count() as u64);
        } else {
            cx.count("kept after error", all.len() as u64);
        }
        // Nothing left over from readings that were given up.
        m_tokens(o, &r)?;
        all.extend(r.toks);
        Ok(())
    })
}

/// Decodes a quoted string without the library.
pub fn unquote(s: &str) -> Option<String> {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() < 2 || cs[0] != '"' || cs[cs.len() - 1] != '"' { return None; }
    let mut o = String::new();
    let mut i = 1;
    while i < cs.len() - 1 {
        if cs[i] == '"' { return None; }
        if cs[i] != '\\' { o.push(cs[i]); i += 1; continue; }
        i += 1;
        match *cs.get(i)? {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            'b' => o.push('\u{8}'),
            'f' => o.push('\u{c}'),
            '"' => o.push('"'),
            '\\' => o.push('\\'),
            '/' => o.push('/'),
            'u' => {
                if i + 4 >= cs.len() { return None; }
                let h: String = cs[i + 1..i + 5].iter().collect();
                o.push(std::char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                i += 4;
            }
            _ => return None,
        }
        i += 1;
    }
    Some(o)
}

/// Values next to each other, with the same property: what one is does not depend on the others.
fn c06_shared(cx: &mut Cx) -> Res {
    let way = way_of(cx);
    let mut kn = Knobs::random(&mut cx.rng);
    if way == Way::Text { kn.text_form = true; kn.undef_refs = false; }
    kn.wide = false;
    kn.p_prop = 100;
    kn.props = (0..cx.rng.range(1, 2)).map(|i| cx.rng.pick(&[["p", "q"], ["é", "é:"], ["value", "valua"], ["a b", "a"]])[i].to_string()).collect();
    let mut g = grammar(&mut cx.rng, &kn);
    if cx.rng.coin() {
        // Tokens, words and numbers in any order, many times.
        let mut words: Vec<String> = (0..cx.rng.range(2, 6)).map(|_| (0..cx.rng.range(1, 3)).map(|_| cx.rng.pick(&kn.alphabet).clone()).collect()).collect();
        words.sort_by_key(|w| std::cmp::Reverse(w.len()));
        words.dedup();
        let prop = |rng: &mut crate::rng::Rng| Some(rng.pick(&kn.props).clone());
        let mut v: Vec<R> = vec![];
        for w in &words {
            let k = K::Tag { text: w.clone(), not: false, inv: cx.rng.coin(), prop: prop(&mut cx.rng) };
            let not = K::Tag { text: cx.rng.pick(&words).clone(), not: true, inv: cx.rng.coin(), prop: prop(&mut cx.rng) };
            v.push(if cx.rng.chance(1, 4) { r(K::Seq(vec![r(k), r(not)])) } else { r(k) });
        }
        v.push(r(K::Num { us: cx.rng.coin(), prop: prop(&mut cx.rng) }));
        v.push(r(K::Text { empty: true, prop: prop(&mut cx.rng) }));
        let any: String = words.concat().chars().take(4).collect();
        if !any.is_empty() { v.push(r(K::UntilWs { any: format!("{}\"0123456789.", any), opt: false, prop: prop(&mut cx.rng) })); }
        let item = r(K::Seq(vec![r(K::Sel(v)), r(K::Ws { opt: true })]));
        let item = if cx.rng.chance(1, 4) { r(K::Opt(Box::new(item.clone()))) } else { item };
        let n = cx.rng.range(2, 6);
        let root = match cx.rng.below(3) {
            0 => r(K::Seq(vec![item; n])),
            _ => r(K::Rep { rule: Box::new(if let K::Opt(x) = item.k { *x } else { item }), opt: true }),
        };
        g = G { rules: vec![("document".into(), root)], ids: vec![1] };
        kn.alphabet = words;
        kn.alphabet.extend(["12".to_string(), "0.5".into(), "\"\"".into(), "\"é\"".into(), " ".into()]);
    } else if cx.rng.coin() {
        // The names of nodes too.
        let all = cx.rng.pick(&kn.props).clone();
        for (_, x) in g.rules.iter_mut() {
            x.visit_mut(&mut |x| if let K::Node { prop, .. } = &mut x.k { *prop = Some(all.clone()); });
        }
    }
    g.resolve();
    g.assign_ids();
    let mut t = texts(&mut cx.rng, &g, &kn.alphabet, Ind::default(), 8, 60);
    for _ in 0..4 { let n = cx.rng.range(2, 9); t.push((0..n).map(|_| cx.rng.pick(&kn.alphabet).clone()).collect()); }
    let c = crate::big::with_texts(cx, g, t, way)?;
    each(cx, &c, |cx, c, t, o| {
        let r = real_parse(&c.syn, t, c.ind, &[])?;
        m_accept(o, &r)?;
        m_tokens(o, &r)?;
        if r.res.is_ok() { cx.count("values that share a property", r.toks.len() as u64); }
        Ok(())
    })
}

pub fn c06(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c06(cx) { return r; }
    if cx.rng.chance(1, 5) { return c06_shared(cx); }
    let way = way_of(cx);
    let mut kn = Knobs::random(&mut cx.rng);
    if way == Way::Text { kn.text_form = true; kn.undef_refs = false; }
    for i in 1..6 { kn.w[i] = kn.w[i].max(8); }
    let (mut g, given) = match crate::every::case(cx, way)?.map(|c| (c.g, c.texts)).or_else(|| crate::big::big(cx)) {
        Some((g, t)) => (g, Some(t)),
        None => (grammar(&mut cx.rng, &kn), None),
    };
    // Every rule gets a property of its own, so a value names its rule.
    let mut n = 0;
    let mut by_prop: std::collections::HashMap<String, K> = Default::default();
    for (_, r) in g.rules.iter_mut() {
        r.visit_mut(&mut |r| {
            let k = r.k.clone();
            let p = match &mut r.k {
                K::Tag { prop, .. } | K::Until { prop, .. } | K::UntilWs { prop, .. }
                | K::Text { prop, .. } | K::Num { prop, .. } | K::Node { prop, .. } => prop,
                _ => return,
            };
            n += 1;
            let name = format!("p{}", n);
            *p = Some(name.clone());
            by_prop.insert(name, k);
        });
    }
    let syn = if way == Way::Text {
        let style = Style::random(&mut cx.rng);
        via_text(&mut cx.rng, &g, &style)?.1
    } else { make(&g, way)? };
    let big = given.is_some();
    let ind = if big { Ind::default() } else { indent_settings(&mut cx.rng) };
    let max = max_len(cx);
    let t = match given { Some(t) => t, None => texts(&mut cx.rng, &g, &kn.alphabet, ind, 8, max) };
    let gf = gfp(&g);
    let c = Case { g, ind, texts: t, way, syn, gfp: gf, big };
    each(cx, &c, |cx, c, t, o| {
        let r = real_parse(&c.syn, t, c.ind, &[])?;
        if r.res.is_err() { return Ok(()); }
        m_ranges(t, &r)?;
        for tok in &r.toks {
            let src = &t[tok.offset..tok.next_offset()];
            let bad = |why: &str| -> Res { viol(format!("{}: {:?} read from {:?}", why, tok, src)) };
            let rule = |n: &str| by_prop.get(n);
            match &tok.data {
                MetaData::Bool(n, v) => match rule(n) {
                    Some(K::Tag { text, not, inv, .. }) => {
                        cx.count("bools checked", 1);
                        if *not { if !src.is_empty() || t[tok.offset..].starts_with(&text[..]) { return bad("not the absence of the token"); } }
                        else if src != text { return bad("not the source of the token"); }
                        if *v == *inv { return bad("wrong bool"); }
                    }
                    _ => return bad("a bool under a name no token has"),
                },
                MetaData::F64(n, v) => match rule(n) {
                    Some(K::Num { us, .. }) => {
                        cx.count("numbers checked", 1);
                        if !us && src.contains('_') { return bad("underscore where it is not allowed"); }
                        // The lexer takes a lone `.` for a number, and a lone `e` for `e0`.
                        if !src.split(|c| c == 'e' || c == 'E').next().unwrap().contains(|c: char| c.is_ascii_digit()) { continue; }
                        let mut plain: String = src.chars().filter(|c| *c != '_').collect();
                        if let Some(i) = plain.find(|c| c == 'e' || c == 'E') {
                            if !plain[i..].contains(|c: char| c.is_ascii_digit()) { plain.truncate(i); }
                            else if plain[i + 1..].trim_start_matches(&['+', '-'][..]).trim_start_matches('0').len() > 2 {
                                cx.count("numerals with a large exponent left out", 1);
                                continue;
                            }
                        }
                        match plain.parse::<f64>() {
                            Ok(x) => {
                                let tol = x.abs() * 1e-12;
                                if !((x - v).abs() <= tol || x.to_bits() == v.to_bits()) { return bad(&format!("not the number {}", x)); }
                            }
                            Err(_) => return bad("not a number"),
                        }
                    }
                    _ => return bad("a number under a name no number has"),
                },
                MetaData::String(n, v) => match rule(n) {
                    Some(K::Text { empty, .. }) => {
                        cx.count("quoted strings checked", 1);
                        match unquote(src) {
                            Some(x) if x == **v => {}
                            x => return bad(&format!("not the string {:?}", x)),
                        }
                        if src.len() == 2 && !empty { return bad("empty"); }
                    }
                    Some(K::Until { any, opt, .. }) => {
                        cx.count("raw texts checked", 1);
                        if src != **v { return bad("not the source"); }
                        if src.chars().any(|c| any.contains(c)) { return bad("reads past a stop character"); }
                        if src.is_empty() && !opt { return bad("empty"); }
                        if let Some(ch) = t[tok.next_offset()..].chars().next() { if !any.contains(ch) { return bad("stops early"); } }
                    }
                    Some(K::UntilWs { any, opt, .. }) => {
                        cx.count("raw texts checked", 1);
                        if src != **v { return bad("not the source"); }
                        if src.chars().any(|c| c.is_whitespace() || any.contains(c)) { return bad("reads past a stop character"); }
                        if src.is_empty() && !opt { return bad("empty"); }
                        if let Some(ch) = t[tok.next_offset()..].chars().next() { if !(ch.is_whitespace() || any.contains(ch)) { return bad("stops early"); } }
                    }
                    _ => return bad("a string under a name no text has"),
                },
                MetaData::StartNode(n) | MetaData::EndNode(n) => match rule(n) {
                    Some(K::Node { .. }) => cx.count("nodes checked", 1),
                    _ => return bad("a node under a name no reference has"),
                },
            }
        }
        // Every value the reading produces is there, once.
        m_tokens(o, &r)
    })
}

pub fn c07(cx: &mut Cx) -> Res {
    let way = way_of(cx);
    let mut c = case(cx, way, |k, _| {
        k.depth = k.depth.max(3);
        k.width = k.width.max(2);
    })?;
    // Broken texts fail.
    let alphabet: Vec<String> = vec!["a".into(), "é".into(), " ".into(), "\n".into(), "\"".into(), "1".into()];
    let more: Vec<String> = c.texts.iter().map(|t| mutate(&mut cx.rng, t, &alphabet)).collect();
    c.texts.extend(more);
    each(cx, &c, |cx, c, t, o| {
        let r = real_parse(&c.syn, t, c.ind, &[])?;
        m_accept(o, &r)?;
        if let Err(e) = &r.res {
            m_ranges(t, &r)?;
            m_error(o, &r, c.way == Way::Optimized || c.way == Way::Text)?;
            cx.count("errors checked", 1);
            cx.count("errors at several equally deep failures", (o.evs.len() > 1) as u64);
            cx.count("errors deeper than where reading stopped", (o.root_end.map_or(false, |x| x < e.next_offset())) as u64);
        } else if !c.texts.is_empty() {
            // The furthest failure of a successful rule is kept as well.
            let root = c.syn.rules.last().unwrap();
            let mut toks = vec![];
            let mut ind: IndentSettings = settings(c.ind);
            let lex = ReadToken::new(t, 0);
            let res = real("reading with the root rule", || root.parse(&mut toks, &TokenizerState::new(), &lex, &c.syn.rules, &mut ind))?;
            if let Ok((_, _, Some(e))) = res {
                // A table skips alternatives that would fail at once, when another one is read.
                let table = c.way == Way::Optimized || c.way == Way::Text;
                ensure!(e.next_offset() == o.far || (table && e.next_offset() < o.far), "the failure kept by a successful rule ends at {}, the deepest at {}: {:?}, {:?}", e.next_offset(), o.far, e, o.evs);
                ensure!(table || last_of(o, &e), "the failure kept by a successful rule is not the last one at the deepest position: {:?}, {:?}", e, o.evs);
                cx.count("failures kept by successful rules", 1);
            }
        }
        Ok(())
    })
}
