//! Every character there is, in every place where one can be. Characters are
//! taken 64 at a time: all below U+3100 and those at the ends of planes and
//! of blocks with odd members each time, others at random; all of them in a
//! thorough run.

use crate::ast::*;
use crate::c_data;
use crate::c_gram::*;
use crate::c_out;
use crate::c_parse::*;
use crate::big::with_texts;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::{Knobs, WS};
use crate::interp::Ind;
use crate::print;
use crate::rng::hash_bytes;
use piston_meta::{MetaData, ParseError, Range};
use std::sync::Arc;

const FIRST: u64 = 5000;
const LOW: u64 = 0x3100 / 64;
const ALL: u64 = 0x110000 / 64;
const RANDOM: u64 = 60;
/// One character of each block.
const ODD: [u32; 30] = [
    0x4e00, 0x9fff, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfb1d, 0xfdd0, 0xfe00, 0xfe70, 0xfeff, 0xff21, 0xfff0, 0xffff,
    0x10000, 0x1d173, 0x1d7ce, 0x1f1e6, 0x1f600, 0x1f900, 0x1ffff, 0x20000, 0x2fffe, 0xe0001, 0xe0041, 0xe0100, 0xfffff, 0x100000, 0x10ffff,
];

/// The turn of some characters.
pub fn chunk(cx: &mut Cx) -> Option<Vec<char>> {
    let at = cx.idx.wrapping_sub(FIRST);
    let n = if cx.small { 0 } else if cx.thorough { ALL } else { LOW + ODD.len() as u64 + RANDOM };
    if at >= n { return None; }
    let k = if cx.thorough || at < LOW { at } else if at < LOW + ODD.len() as u64 { ODD[(at - LOW) as usize] as u64 / 64 } else { cx.rng.below(ALL as usize) as u64 };
    let v: Vec<char> = (k * 64..k * 64 + 64).filter_map(|c| std::char::from_u32(c as u32)).collect();
    if v.is_empty() { return None; }
    cx.count("characters tried everywhere", v.len() as u64);
    Some(v)
}

fn tag(s: &str, p: Prop) -> R { r(K::Tag { text: s.into(), not: false, inv: false, prop: p }) }
fn some(s: &str) -> Prop { Some(s.into()) }
fn node(n: &str) -> R { r(K::Node { name: n.into(), prop: None, index: None }) }

/// A grammar with characters in all of its rules, with texts. What comes first
/// in a text says which rule it is for.
pub fn case(cx: &mut Cx, way: Way) -> Result<Option<Case>, Viol> {
    let cs = match chunk(cx) { Some(c) => c, None => return Ok(None) };
    let all: String = cs.iter().collect();
    let one = *cx.rng.pick(&cs);
    let s1 = one.to_string();
    let ch = r(K::Sel(cs.iter().map(|c| tag(&c.to_string(), some(&format!("is {}", c)))).collect()));
    // As parts of longer tokens.
    let word = r(K::Sel(cs.iter().map(|c| tag(&format!("{}{}b", c, one), some("word"))).collect()));
    let bx = |x: R| Box::new(x);
    let forms: Vec<R> = vec![
        node("ch"),
        r(K::Seq(vec![r(K::Ws { opt: false }), tag("x", some("x"))])),
        r(K::Seq(vec![r(K::UntilWs { any: ";".into(), opt: false, prop: some("u") }), r(K::Opt(bx(r(K::Ws { opt: false })))), tag("x", None)])),
        r(K::Lines { rule: bx(tag("x", some("x"))), indent: false }),
        r(K::Lines { rule: bx(tag("x", some("x"))), indent: true }),
        r(K::Until { any: all.clone(), opt: true, prop: some("v") }),
        r(K::UntilWs { any: all.clone(), opt: true, prop: some("w") }),
        r(K::Sep { rule: bx(node("ch")), by: bx(tag(&s1, None)), opt: true, trail: cx.rng.coin() }),
        r(K::Rep { rule: bx(node("ch")), opt: true }),
        r(K::Text { empty: true, prop: some("t") }),
        r(K::Seq(vec![r(K::Num { us: cx.rng.coin(), prop: some("n") }), r(K::Until { any: "".into(), opt: true, prop: some("rest") })])),
        r(K::Seq(vec![r(K::Tag { text: s1.clone(), not: true, inv: false, prop: some("not") }), r(K::Until { any: "\n".into(), opt: true, prop: some("rest") })])),
        r(K::Seq(vec![r(K::Not(bx(node("ch")))), r(K::Until { any: "x".into(), opt: true, prop: some("rest") })])),
        word,
        r(K::Seq(vec![r(K::Until { any: s1.clone(), opt: false, prop: some("v") }), node("ch")])),
    ];
    let lead: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
    let doc = r(K::Sel(forms.into_iter().enumerate().map(|(i, f)| r(K::Seq(vec![tag(&lead[i].to_string(), None), f]))).collect()));
    let mut g = G { rules: vec![("ch".into(), ch), ("document".into(), doc)], ids: vec![1, 2] };
    g.resolve();
    if way == Way::Text { g.assign_ids(); } else { g.assign_unique_ids(); }
    let mut texts = vec![];
    for &c in &cs {
        let o = *cx.rng.pick(&cs);
        texts.push(format!("A{}", c));
        texts.push(match cx.rng.below(3) { 0 => format!("B{}x", c), 1 => format!("B{} {}x", c, c), _ => format!("B {}x", c) });
        texts.push(match cx.rng.below(3) { 0 => format!("Cab{}x", c), 1 => format!("C{}x", c), _ => format!("Cé{}{}x", c, o) });
        texts.push(match cx.rng.below(4) { 0 => format!("Dx\n{}\nx", c), 1 => format!("D{}\nx\n{}{}", c, c, o), 2 => format!("Dx{}\nx", c), _ => format!("Dx{}x", c) });
        texts.push(match cx.rng.below(3) { 0 => format!("Ex\n{}\nx", c), 1 => format!("E{}x\nx", c), _ => format!("E x\n {}x", c) });
        texts.push(format!("F{}{}", ["", "x", "日é"][cx.rng.below(3)], c));
        texts.push(format!("{}ab{}", ["F", "G"][cx.rng.below(2)], c));
        texts.push(match cx.rng.below(3) { 0 => format!("H{}{}{}", c, one, o), 1 => format!("H{}{}", c, one), _ => format!("H{}{}", one, c) });
        texts.push(format!("I{}{}{}{}", c, o, one, ["", "?"][cx.rng.below(2)]));
        texts.push(match cx.rng.below(4) { 0 => format!("J\"a\\{}\"", c), 1 => format!("J\"{}\"{}", o, c), _ => format!("J\"a{}b{}\"", c, o) });
        texts.push(match cx.rng.below(3) { 0 => format!("K1{}2", c), 1 => format!("K{}2", c), _ => format!("K1.5{}", c) });
        texts.push(format!("{}{}{}", ["L", "M"][cx.rng.below(2)], c, o));
        texts.push(format!("N{}{}b", c, ["", &s1][cx.rng.chance(4, 5) as usize]));
        texts.push(format!("O{}{}{}", o, one, c));
        texts.push(format!("{}{}", c, ["", "A"][cx.rng.below(2)]));
    }
    cx.count("grammars with characters everywhere", 1);
    Ok(Some(with_texts(cx, g, texts, way)?))
}

fn is_word(c: char) -> bool { !c.is_whitespace() && !"[]{}():.!?\"".contains(c) }

/// Grammar texts with a character in one place.
pub fn grammar_texts(cx: &mut Cx, c: char) -> Vec<String> {
    let esc = if (c as u32) < 0x10000 { format!("\\u{:04x}", c as u32) } else { c.to_string() };
    let w = *cx.rng.pick(&WS);
    vec![
        format!("1 a = [\"{}\":\"x{}\" \"y\"]\n", c, c),
        format!("1 a = \"{}\"\n", esc),
        format!("1 a = \"\\{}\"\n", c),
        format!("1 {}a = \"x\"\n2 b{} = [{}a:\"x\" b{}]\n", c, c, c, c),
        format!("1{}a{}={}[\"x\"{}\"y\"{}]\n", c, w, c, c, c),
        format!("_s{}: \"x\"\n1 a = [_s{}:\"p\" ..._s{}?]\n", c, c, c),
        format!("1 a = \"x\"{}\n{}2 b = a\n{}\n", c, c, c),
        format!("/*{}*/\n//{}\n1 a = \"x\" // {}\n/* {} /*{}*/ */\n", c, c, c, c, c),
        format!("{}1 a = \"x\"\n", c),
        format!("1 a = \"x\"\n{}", c),
        format!("1 a = .{}(\"x\")\n", c),
        format!("{} a = \"x\"\n", c),
        format!("1{} a = \"x\"\n", c),
    ]
}

/// Grammar text, against an independent reader of it.
pub fn c03(cx: &mut Cx) -> Option<Res> {
    let cs = chunk(cx)?;
    Some((|| {
        for &c in &cs { for t in grammar_texts(cx, c) { compare_reader(cx, &t)?; } }
        Ok(())
    })())
}

pub fn texts_for(cx: &mut Cx) -> Option<Vec<String>> {
    let cs = chunk(cx)?;
    let mut v = vec![];
    for &c in &cs { v.extend(grammar_texts(cx, c)); }
    Some(v)
}

pub fn c08(cx: &mut Cx) -> Option<Res> {
    let cs = chunk(cx)?;
    Some((|| {
        for &c in &cs {
            let text = match cx.rng.below(4) {
                0 => format!("ab\n{}x{}\tcd\ne{}", c, c, c),
                1 => format!("{}\nx", c),
                2 => format!("{}{}\r\n{}", "x".repeat(cx.rng.range(70, 130)), c, c),
                _ => format!("{}\n{}x\n{}", c, c, c).repeat(2),
            };
            let at: Vec<usize> = text.char_indices().map(|x| x.0).chain(Some(text.len())).collect();
            for _ in 0..4 {
                let (a, b) = (*cx.rng.pick(&at), *cx.rng.pick(&at));
                let e = if cx.rng.coin() { c_out::some_error(&mut cx.rng) } else { ParseError::ExpectedTag(Arc::new(c.to_string()), 7) };
                c_out::check_report(cx, &text, Range::new(a.min(b), a.max(b) - a.min(b)).wrap(e))?;
            }
        }
        Ok(())
    })())
}

pub fn c12(cx: &mut Cx) -> Option<Res> {
    let cs = chunk(cx)?;
    Some((|| {
        let mut d = vec![];
        let at = Range::new(0, 0);
        let mut put = |x: MetaData| d.push(at.wrap(x));
        let arc = |s: String| Arc::new(s);
        for &c in &cs {
            put(MetaData::StartNode(arc(format!("{}", c))));
            put(MetaData::String(arc(format!("a{}", c)), arc(c.to_string())));
            put(MetaData::String(arc(format!("{}b", c)), arc(format!("1{}1", c))));
            put(MetaData::Bool(arc(format!("{}{}", c, c)), true));
            put(MetaData::F64(arc(format!("\\{}", c)), c as u32 as f64));
            put(MetaData::EndNode(arc(format!("{}", c))));
        }
        c_out::check_json(cx, &d)?;
        for &c in &cs {
            let mut w: Vec<u8> = vec![];
            ensure!(real("writing a string", || piston_meta::json::write_string(&mut w, &c.to_string()))?.is_ok(), "writing to memory fails");
            c_out::read_string(&w, &c.to_string())?;
        }
        Ok(())
    })())
}

/// Nodes named by characters.
pub fn c20_grammar(cx: &mut Cx, way: Way) -> Option<(G, Vec<String>)> {
    let mut cs = chunk(cx)?;
    if way == Way::Text { cs.retain(|c| is_word(*c)); }
    // A name in grammar text starts with more than a character that means something.
    let first = cx.rng.coin();
    let name = |c: char| if first && c != '_' { format!("{}n", c) } else { format!("n{}", c) };
    let mut rules = vec![];
    for (i, &c) in cs.iter().enumerate() { rules.push((name(c), tag(&format!("{},", i), some("is")))); }
    if way != Way::Text { for (i, &c) in cs.iter().enumerate() { rules.push((c.to_string(), tag(&format!("{};", i), some("is")))); } }
    let refs: Vec<R> = rules.iter().rev().map(|x| r(K::Node { name: x.0.clone(), prop: if cx.rng.coin() { Some(x.0.clone()) } else { None }, index: None })).collect();
    if refs.is_empty() { return None; }
    rules.push(("document".into(), r(K::Rep { rule: Box::new(r(K::Sel(refs))), opt: true })));
    let ids = (1..=rules.len() as u64).collect();
    let mut g = G { rules, ids };
    g.resolve();
    let mut ts: Vec<String> = (0..cs.len()).map(|i| format!("{},{};", i, i)).collect();
    ts.extend((0..cs.len()).map(|i| format!("{},", i)));
    if way == Way::Text { g.assign_ids(); }
    Some((g, ts))
}

/// Meta data with names that differ in a character.
pub fn c15(cx: &mut Cx) -> Option<Vec<RTok>> {
    let cs = chunk(cx)?;
    let mut d = vec![];
    let names: Vec<String> = cs.iter().map(|c| match cx.rng.below(3) { 0 => c.to_string(), 1 => format!("a{}", c), _ => format!("{}a", c) }).collect();
    for (i, n) in names.iter().enumerate() {
        let name = Arc::new(n.clone());
        d.push(Range::new(2 * i, 1).wrap(match cx.rng.below(5) {
            0 => MetaData::StartNode(name),
            1 => MetaData::Bool(name, cx.rng.coin()),
            2 => MetaData::F64(name, 1.0),
            3 => MetaData::String(name, Arc::new("x".into())),
            _ => MetaData::EndNode(name),
        }));
    }
    Some(d)
}

/// Grammars whose meta data has a character in names and values.
pub fn c16(cx: &mut Cx) -> Option<Res> {
    let ts = texts_for(cx)?;
    Some((|| {
        for t in &ts {
            let mut d = vec![];
            if real("reading grammar text", || piston_meta::parse(&boot().1, t, &mut d))?.is_err() { continue; }
            c_data::check_convert(cx, &d).map_err(|v| v.with("grammar text", t.clone()))?;
        }
        Ok(())
    })())
}

/// Comments, space and names of strings change nothing.
pub fn c19(cx: &mut Cx) -> Option<Res> {
    let cs = chunk(cx)?;
    Some((|| {
        let base = "_s: \"x\"\n1 a = [_s:\"p\" .w? \"y\"]\n2 b = .r?(a)\n";
        let want = real("loading", || piston_meta::syntax(base))?.map_err(|e| Viol::new(format!("grammar text is rejected: {:?}", e)))?;
        for &c in &cs {
            let mut ts = vec![format!("/*{}*/\n{}/* a{} */\n", c, base, c), format!("// {}a{}\n{}", if c == '\n' { ' ' } else { c }, if c == '\n' { ' ' } else { c }, base)];
            if is_word(c) { ts.push(base.replace("_s", &format!("_s{}", c))); }
            if c.is_whitespace() {
                ts.push(base.replace(' ', &c.to_string()));
                ts.push(base.replace('\n', &format!("\n{}\n{}", c, c)));
                ts.push(format!("{}{}{}", c, base, c));
            }
            let esc = if (c as u32) < 0x10000 { format!("\\u{:04X}", c as u32) } else { c.to_string() };
            for t in &ts {
                match real("loading", || piston_meta::syntax(t))? {
                    Ok(s) => if s != want { return Err(Viol::new(format!("{:?} in another layout gives other rules", c)).with("grammar text", t.clone())); },
                    Err(e) => return Err(Viol::new(format!("grammar text with {:?} in its layout is rejected: {:?}", c, e)).with("grammar text", t.clone())),
                }
                cx.eval(hash_bytes(t.as_bytes()), true);
                cx.count("with another layout", 1);
            }
            if c != '"' && c != '\\' {
                // Written out, and as a string that is used again.
                let a = format!("1 a = [\"{}\" \"y{}\":\"p\"]\n", c, c);
                let b = format!("_s: \"{}\"\n_t: \"y{}\"\n1 a = [_s _t:\"p\"]\n", esc, esc);
                let load = |t: &str| -> Result<piston_meta::Syntax, Viol> {
                    real("loading", || piston_meta::syntax(t))?.map_err(|e| Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", t))
                };
                if load(&a)? != load(&b)? { return Err(Viol::new(format!("{:?} as a reused string gives other rules", c)).with("one way", a).with("other way", b)); }
                cx.eval(hash_bytes(a.as_bytes()), true);
                cx.count("with reused strings", 1);
            }
        }
        Ok(())
    })())
}

/// Older grammar text, with names in quotes.
pub fn c11_grammar(cx: &mut Cx, old: bool) -> Option<G> {
    let cs = chunk(cx)?;
    let mut rules: Vec<(String, R)> = vec![];
    let first = cx.rng.coin();
    for &c in &cs {
        if !old && !is_word(c) { continue; }
        let name = if first && (old || c != '_') { format!("{}n", c) } else { format!("n{}", c) };
        rules.push((name, tag(&format!("{}x", c), some(if c == '\n' { "p".to_string() } else { format!("p{}", c) }.as_str()))));
    }
    if rules.is_empty() { rules.push(("n".into(), tag("x", None))); }
    let refs: Vec<R> = rules.iter().map(|x| node(&x.0)).collect();
    let stops: String = cs.iter().filter(|c| **c != '\n').collect();
    rules.push(("d".into(), r(K::Seq(vec![r(K::Sel(refs)), r(K::Opt(Box::new(r(K::UntilWs { any: stops.clone(), opt: false, prop: some("u") })))), r(K::Opt(Box::new(r(K::Until { any: stops, opt: false, prop: some("v") }))))]))));
    let ids = (1..=rules.len() as u64).collect();
    let mut g = G { rules, ids };
    g.assign_ids();
    g.resolve();
    Some(g)
}

/// Lists with a character between the items, and of a character.
pub fn c22(cx: &mut Cx) -> Option<Res> {
    let mut cs = chunk(cx)?;
    cs.retain(|c| *c != 'x');
    Some((|| {
        let (must, trail) = (cx.rng.coin(), cx.rng.coin());
        let bx = |x: R| Box::new(x);
        let s = |c: &char| c.to_string();
        let sep = |c: &char| r(K::Seq(vec![tag(&s(c), None), r(K::Sep { rule: bx(tag("x", some("x"))), by: bx(tag(&s(c), None)), opt: !must, trail })]));
        let rep = |c: &char| r(K::Seq(vec![tag("x", None), r(K::Rep { rule: bx(tag(&s(c), some("y"))), opt: !must }), tag("x", None), tag(&s(c), None)]));
        let rules = vec![("d".to_string(), r(K::Sel(cs.iter().map(sep).chain(cs.iter().map(rep)).collect())))];
        let mut g = G { rules, ids: vec![1] };
        g.resolve();
        let way = *cx.rng.pick(&[Way::Built, Way::Linked, Way::Optimized, Way::Text]);
        let c = with_texts(cx, g, vec![], way)?;
        for &ch in &cs {
            for _ in 0..3 {
                let n = *cx.rng.pick(&[0, 1, 2, 3, 20]);
                let tail = cx.rng.chance(1, 3);
                let (text, ok, want) = if cx.rng.coin() {
                    let t = vec!["x"; n].join(&ch.to_string());
                    (format!("{}{}{}", ch, t, if tail { s(&ch) } else { String::new() }), if n == 0 { !must && !tail } else { !tail || trail }, "x")
                } else {
                    (format!("x{}{}{}", s(&ch).repeat(n), if tail { "" } else { "x" }, ch), !tail && (n > 0 || !must), "y")
                };
                let o = real_parse(&c.syn, &text, Ind::default(), &[])?;
                let fail = |w: String| Viol::new(w).with("text", text.clone()).with("made", format!("{:?}", way));
                if o.res.is_ok() != ok { return Err(fail(format!("{} items are {}: {:?}", n, if ok { "rejected" } else { "accepted" }, o.res))); }
                if ok && (o.toks.len() != n || o.toks.iter().any(|t| t.data != MetaData::Bool(Arc::new(want.to_string()), true))) {
                    return Err(fail(format!("{} items give {:?}", n, o.toks)));
                }
                cx.eval(hash_bytes(text.as_bytes()), n > 0);
                cx.count(if ok { "lists accepted" } else { "lists rejected" }, 1);
                if ok { cx.count("items counted", n as u64); }
            }
        }
        Ok(())
    })())
}

/// The text of a grammar with documents.
pub fn c18(cx: &mut Cx) -> Result<Option<(G, Knobs, String, Vec<String>)>, Viol> {
    let mut c = match case(cx, Way::Linked)? { Some(c) => c, None => return Ok(None) };
    let t = print::print(&mut cx.rng, &c.g, &print::Style::plain());
    c.g.assign_ids();
    let docs = (0..60).map(|_| cx.rng.pick(&c.texts).clone()).collect();
    let kn = Knobs::text_form(&mut cx.rng);
    Ok(Some((c.g, kn, t, docs)))
}
