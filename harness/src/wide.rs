//! Grammars with many parts: long sequences, wide choices, groups in groups,
//! all first bytes, and grammar text with very much between its parts. What
//! is done for a few parts must be done for thousands.

use crate::ast::*;
use crate::big::with_texts;
use crate::c_gram::{self, load};
use crate::c_parse::Case;
use crate::eng::*;
use crate::fw::*;
use crate::gen::{quote, Knobs};
use crate::rng::{hash_bytes, Rng};

const FIRST: u64 = 700;
/// Numbers of parts where counters, buffers and tables run over.
pub const SIZES: [usize; 12] = [33, 64, 100, 129, 200, 256, 257, 513, 999, 1001, 1500, 2500];
const MORE: [usize; 3] = [5000, 20_000, 70_000];
const KINDS: usize = 7 + 14;

fn tag(s: &str, p: Prop) -> R { r(K::Tag { text: s.into(), not: false, inv: false, prop: p }) }

/// The turn of some grammar.
fn turn(cx: &mut Cx) -> Option<(usize, usize)> {
    let at = cx.idx.wrapping_sub(FIRST) as usize;
    let sizes = SIZES.len() + if cx.thorough { MORE.len() } else { 0 };
    if cx.small || at >= KINDS * sizes { return None; }
    let n = *SIZES.iter().chain(&MORE).nth(at / KINDS).unwrap();
    Some((at % KINDS, n))
}

/// A part of its own, with a text that it reads.
fn part(rng: &mut Rng, i: usize) -> (R, String) {
    let prop = |rng: &mut Rng, i: usize| -> Prop { if rng.chance(2, 3) { Some(format!("p{}", i)) } else { None } };
    let p = prop(rng, i);
    match rng.below(12) {
        0 => { let s = format!("{}", i); (r(K::Seq(vec![r(K::Num { us: rng.coin(), prop: p }), tag(";", None)])), s + ";") }
        1 => (r(K::Seq(vec![r(K::UntilWs { any: ";".into(), opt: rng.coin(), prop: p }), tag(";", None)])), format!("w{};", i)),
        2 => (r(K::Seq(vec![r(K::Until { any: ";".into(), opt: rng.coin(), prop: p }), tag(";", None)])), format!("a {};", i)),
        3 => { let q = quote(rng, &format!("é{}", i)); (r(K::Text { empty: rng.coin(), prop: p }), q) }
        4 => (r(K::Ws { opt: false }), " ".into()),
        5 => (r(K::Not(Box::new(r(K::Seq(vec![tag(&format!("!{}", i), None)]))))), String::new()),
        6 => { let s = format!("o{};", i); (r(K::Opt(Box::new(r(K::Seq(vec![tag(&s, p)]))))), if rng.coin() { s } else { String::new() }) }
        n => {
            let lead = ["k", "é", "日", "", "😀", "x"];
            let s = format!("{}{};", lead[n % lead.len()], i);
            let inv = p.is_some() && rng.chance(1, 5);
            (r(K::Tag { text: s.clone(), not: false, inv, prop: p }), s)
        }
    }
}

/// A character for each of the bytes that a text can start with.
fn starts(rng: &mut Rng) -> Vec<char> {
    let mut v: Vec<char> = (0u8..0x80).map(|b| b as char).collect();
    for lead in 0xc2u32..=0xf4 {
        let (lo, hi) = match lead {
            0xc2..=0xdf => ((lead & 0x1f) << 6, ((lead & 0x1f) << 6) + 63),
            0xe0 => (0x800, 0xfff),
            0xed => (0xd000, 0xd7ff),
            0xe1..=0xef => ((lead & 0xf) << 12, ((lead & 0xf) << 12) + 0xfff),
            0xf0 => (0x10000, 0x3ffff),
            0xf4 => (0x100000, 0x10ffff),
            _ => ((lead & 7) << 18, ((lead & 7) << 18) + 0x3ffff),
        };
        let c = lo + rng.below((hi - lo + 1) as usize) as u32;
        v.push(std::char::from_u32(c).unwrap());
    }
    for i in (1..v.len()).rev() { let j = rng.below(i + 1); v.swap(i, j); }
    v
}

/// A grammar with `n` parts of a kind, with documents.
pub fn parts(rng: &mut Rng, kind: usize, n: usize) -> (G, Knobs, Vec<String>) {
    let mut kn = Knobs::text_form(rng);
    kn.dup_names = false;
    kn.alphabet = ["a", ";", "1", "é", " ", "k", "w", "\"", "x"].iter().map(|x| x.to_string()).collect();
    let bx = |x: R| Box::new(x);
    let mut docs: Vec<String> = vec![];
    let mut rules: Vec<(String, R)> = vec![];
    let mut doc = String::new();
    // Before which byte each part begins.
    let mut at: Vec<usize> = vec![];
    match kind {
        // One after the other, in one sequence or in sequences of sequences.
        0 | 1 => {
            let mut items = vec![];
            for i in 0..n {
                let (x, s) = part(rng, i);
                at.push(doc.len());
                items.push(x);
                doc.push_str(&s);
            }
            let root = if kind == 0 { r(K::Seq(items)) } else {
                let mut groups = vec![];
                let mut it = items.into_iter().peekable();
                while it.peek().is_some() {
                    let k = *rng.pick(&[1, 2, 10, 40, 300, 1000]);
                    let g: Vec<R> = it.by_ref().take(k).collect();
                    groups.push(r(K::Seq(g)));
                }
                r(K::Seq(groups))
            };
            rules.push(("document".into(), root));
        }
        // Many that may be left out.
        2 => {
            let mut items = vec![];
            for i in 0..n {
                let s = format!("{},", i);
                at.push(doc.len());
                if rng.chance(2, 3) { doc.push_str(&s); }
                items.push(r(K::Opt(bx(r(K::Seq(vec![tag(&s, Some(format!("p{}", i)))]))))));
            }
            rules.push(("document".into(), r(K::Seq(items))));
        }
        // One of many words, again and again.
        3 | 4 => {
            let mut args = vec![];
            let mut words = vec![];
            for i in 0..n {
                // Some begin as others do.
                let s = match rng.below(4) { 0 => format!("w{};", i), 1 => format!("é{};", i), _ => format!("{};", i) };
                let p = if rng.chance(3, 4) { Some(format!("p{}", i)) } else { None };
                let inv = p.is_some() && rng.chance(1, 5);
                args.push(r(K::Tag { text: s.clone(), not: false, inv, prop: p }));
                words.push(s);
            }
            let word = if kind == 3 { r(K::Sel(args)) } else {
                let mut groups = vec![];
                let mut it = args.into_iter().peekable();
                while it.peek().is_some() {
                    let k = *rng.pick(&[1, 2, 10, 60, 300]);
                    let g: Vec<R> = it.by_ref().take(k).collect();
                    groups.push(if rng.chance(1, 4) { r(K::Seq(vec![r(K::Sel(g))])) } else { r(K::Sel(g)) });
                }
                r(K::Sel(groups))
            };
            let root = if rng.coin() { rules.push(("word".into(), word)); r(K::Rep { rule: bx(r(K::Node { name: "word".into(), prop: Some("w".into()), index: None })), opt: rng.coin() }) }
                else { r(K::Rep { rule: bx(word), opt: rng.coin() }) };
            rules.push(("document".into(), root));
            for k in 0..n.min(600) {
                let i = if n <= 600 { k } else { rng.below(n) };
                at.push(doc.len());
                doc.push_str(&words[i]);
            }
            for i in [0, n - 1, n / 2] { docs.push(words[i].clone()); }
        }
        // All bytes that a text can start with, then some again.
        5 => {
            let chars = starts(rng);
            let keep = match rng.below(4) { 0 => rng.range(100, chars.len()), _ => chars.len() };
            let mut args: Vec<R> = vec![];
            for (i, c) in chars[..keep].iter().enumerate() {
                let s = if rng.chance(1, 4) { format!("{}z", c) } else { c.to_string() };
                let p = if rng.chance(3, 4) { Some(format!("p{}", i)) } else { None };
                let inv = p.is_some() && rng.chance(1, 5);
                args.push(r(K::Tag { text: s, not: false, inv, prop: p }));
            }
            // How many of `n` are left.
            for i in 0..n.saturating_sub(keep) {
                let c = chars[rng.below(chars.len())];
                args.push(tag(&format!("{}{}", c, i), Some(format!("q{}", i))));
            }
            if rng.chance(1, 3) { let i = rng.below(args.len()); let x = args[i].clone(); let j = rng.below(args.len() + 1); args.insert(j, x); }
            for c in &chars { docs.push(c.to_string()); docs.push(format!("{}z", c)); }
            for _ in 0..10 { let i = rng.below(n); docs.push(format!("{}{}", chars[rng.below(chars.len())], i)); }
            for _ in 0..60 { at.push(doc.len()); let c = chars[rng.below(chars.len())]; doc.push(c); if rng.coin() { doc.push('z'); } }
            rules.push(("document".into(), r(K::Rep { rule: bx(r(K::Sel(args))), opt: rng.coin() })));
        }
        // Rules of one kind only, from any place on.
        7..=20 => {
            let mut items: Vec<R> = (0..rng.below(4)).map(|_| r(K::Ws { opt: true })).collect();
            for i in 0..n {
                let p = if rng.coin() { Some(format!("p{}", i)) } else { None };
                let t = tag("t", None);
                at.push(doc.len());
                let (k, s) = match kind - 7 {
                    0 => (K::Ws { opt: false }, " ".to_string()),
                    1 => (K::Tag { text: format!("{};", i), not: false, inv: p.is_some() && rng.coin(), prop: p }, format!("{};", i)),
                    2 => (K::Until { any: "".into(), opt: true, prop: p }, String::new()),
                    3 => (K::UntilWs { any: "".into(), opt: true, prop: p }, String::new()),
                    4 => (K::Text { empty: true, prop: p }, format!("\"{}\"", i)),
                    5 => (K::Num { us: rng.coin(), prop: p }, format!("+{}", i)),
                    6 => (K::Sel(vec![t, r(K::Num { us: false, prop: p })]), "t".into()),
                    7 => (K::Seq(vec![t]), "t".into()),
                    8 => (K::Sep { rule: bx(t), by: bx(tag(",", p)), opt: rng.coin(), trail: true }, "t,".into()),
                    9 => (K::Rep { rule: bx(tag(&format!("{};", i), p)), opt: rng.coin() }, format!("{};{};", i, i)),
                    10 => (K::Lines { rule: bx(tag(&format!("{};", i), p)), indent: rng.coin() }, format!("{};\n", i)),
                    11 => (K::Node { name: "t".into(), prop: p, index: None }, "t".into()),
                    12 => (K::Opt(bx(r(K::Seq(vec![tag(&format!("{};", i), p)])))), format!("{};", i)),
                    _ => (K::Not(bx(r(K::Seq(vec![tag("x", p)])))), String::new()),
                };
                items.push(r(k));
                doc.push_str(&s);
            }
            rules.push(("t".into(), tag("t", Some("t".into()))));
            rules.push(("document".into(), r(K::Seq(items))));
        }
        _ => {
            let k = 4;
            let mut i = 0;
            let mut texts: Vec<String> = vec![];
            for node in 0..k {
                let mut items = vec![];
                let mut s = String::new();
                for j in 0..n / k + 1 {
                    if node > 0 && j == n / k / 2 {
                        items.push(r(K::Node { name: format!("n{}", node - 1), prop: Some(format!("n{}", node - 1)), index: None }));
                        s.push_str(&texts[node - 1].clone());
                    }
                    let (x, t) = part(rng, i);
                    items.push(x);
                    s.push_str(&t);
                    i += 1;
                }
                rules.push((format!("n{}", node), r(K::Seq(items))));
                texts.push(s);
            }
            doc = texts.pop().unwrap();
            for _ in 0..20 { let mut c = rng.below(doc.len() + 1); while !doc.is_char_boundary(c) { c -= 1; } at.push(c); }
        }
    }
    // Broken near the end, anywhere, or not at all.
    for _ in 0..6 {
        if at.is_empty() { break; }
        let i = if rng.coin() { rng.below(at.len()) } else { at.len() - 1 - rng.below(at.len().min(10)) };
        let c = at[i];
        docs.push(match rng.below(3) { 0 => doc[..c].to_string(), 1 => format!("{}?{}", &doc[..c], &doc[c..]), _ => format!("{}?", &doc[..c]) });
    }
    docs.push(crate::gen::mutate(rng, &doc, &kn.alphabet));
    docs.push(format!("{}x", doc));
    docs.push(doc);
    docs.push(String::new());
    let ids = (1..=rules.len() as u64).collect();
    let mut g = G { rules, ids };
    g.assign_ids();
    g.resolve();
    (g, kn, docs)
}

/// Grammar text with many parts.
pub fn grammar(cx: &mut Cx) -> Option<(G, Knobs, Vec<String>)> {
    let (kind, n) = turn(cx)?;
    cx.count("grammars of many parts", 1);
    cx.max("max parts of a grammar", n as u64);
    Some(parts(&mut cx.rng, kind, n))
}

/// One that is not too large, any time.
pub fn smaller(rng: &mut Rng) -> (G, Knobs, Vec<String>) {
    let n = *rng.pick(&[5, 9, 13, 17, 33, 65, 129, 180, 257, 300]);
    let kind = rng.below(KINDS);
    let (g, kn, mut docs) = parts(rng, kind, n);
    while docs.len() > 6 { let i = rng.below(docs.len()); docs.swap_remove(i); }
    (g, kn, docs)
}

/// The same as a case of a check that reads documents.
pub fn case(cx: &mut Cx, way: Way) -> Result<Option<Case>, Viol> {
    let (g, docs) = match grammar(cx) { Some((g, _, d)) => (g, d), None => {
        if cx.small || !cx.rng.chance(1, 800) { return Ok(None); }
        let (g, _, d) = smaller(&mut cx.rng);
        (g, d)
    } };
    Ok(Some(with_texts(cx, g, docs, way)?))
}

/// How much is put between the parts of grammar text.
const LONG: [usize; 12] = [127, 255, 256, 257, 999, 1025, 4097, 9_999, 10_100, 65_535, 65_537, 140_000];
const PLACES: usize = 16;

/// Grammar text as it is, and with very much in a place where it means nothing.
pub fn long_texts(cx: &mut Cx) -> Option<Vec<(String, String)>> {
    let at = cx.idx.wrapping_sub(FIRST + 400) as usize;
    if cx.small || at >= LONG.len() * PLACES { return None; }
    let n = LONG[at / PLACES];
    let rng = &mut cx.rng;
    let fill = |rng: &mut Rng, n: usize, set: &[&str]| -> String {
        let one = *rng.pick(set);
        let mix = rng.coin();
        let mut s = String::new();
        while s.len() < n { s.push_str(if mix { *rng.pick(set) } else { one }); }
        s
    };
    let base = "_s: \"x\"\n_t: \"p\"\n1 a = [_s:_t .w? \"y\"]\n2 b = .s?(\",\" {a:\"a\" .$:\"n\"})\n3 c = [b !\"z\" ?.t?:\"t\"]\n";
    let space = [" ", "\t", "\u{3000}", "\u{a0}"];
    let any = [" ", "\t", "\n", "\u{3000}", "\r\n", "  "];
    let body = ["x", " ", "\n", "1 a = \"x\"\n", "é", "'", "日本", "_s: \"t\" ", "* ", "/ "];
    let line = ["x", " ", "1 a = \"x\" ", "é", "\"", "/*", "_", "\u{3000}"];
    let anyfill = fill(rng, n, &any);
    let spaces = fill(rng, n, &space);
    let comment = match rng.below(4) {
        0 => format!("//{}\n", fill(rng, n, &line)),
        1 => format!("/*{}*/\n", fill(rng, n, &body)),
        2 => { let mut s = String::new(); while s.len() < n { s.push_str(*rng.pick(&["// c\n", "/* c */\n", "//\n", "/**/\n"])); } s }
        _ => { let mut s = String::from("/*"); while s.len() < n { s.push_str(*rng.pick(&["/* c */", "/**/", " ", "/*\n*/\n"])); } s + "*/\n" }
    };
    let lines: Vec<&str> = base.lines().collect();
    let with = |i: usize, what: &str| -> String {
        let mut o = String::new();
        for (k, l) in lines.iter().enumerate() { if k == i { o.push_str(what); } o.push_str(l); o.push('\n'); }
        if i == lines.len() { o.push_str(what); }
        o
    };
    let t = match at % PLACES {
        0..=2 => with([0, 3, 5][at % PLACES], &format!("{}\n", anyfill)),
        3..=8 => with(at % PLACES - 3, &comment),
        9 => base.replace("[_s", &format!("[{}_s", anyfill)),
        10 => base.replace(" .w? ", &anyfill.replace("\r\n", "\n").as_str().chars().chain(" .w? ".chars()).collect::<String>()),
        11 => base.replace("\"y\"]", &format!("\"y\"{}]", anyfill)),
        12 => base.replace("= ", &format!("={}", spaces)),
        13 => base.replace("2 b", &format!("2{}b{}", spaces, spaces)),
        14 => base.replace(": ", &format!(":{}", spaces)),
        // Twice.
        _ => { let c = comment.clone(); with(1, &c).replace("3 c", &format!("{}3 c", c)) }
    };
    cx.count("grammar texts with very much between the parts", 1);
    let mut v = vec![(base.to_string(), t)];
    // As much by itself: names and strings that are used again.
    let m = n.min(2000);
    let strings: String = (0..m).map(|i| format!("_s{}: \"x{}\"\n", i, i)).collect();
    let k = cx.rng.below(m);
    if at % PLACES == 0 {
        v.push((format!("1 a = [\"x{}\" \"x{}\":\"x0\"]\n", k, m - 1), format!("{}1 a = [_s{} _s{}:_s0]\n", strings, k, m - 1)));
    }
    if at % PLACES == 1 {
        let (p, q) = (format!("_{}a", "n".repeat(n)), format!("_{}b", "n".repeat(n)));
        v.push(("1 a = [\"b\" \"a\"]\n".into(), format!("{}: \"a\"\n{}: \"b\"\n1 a = [{} {}]\n", p, q, q, p)));
    }
    Some(v)
}

/// Such texts are the same grammar.
pub fn c19(cx: &mut Cx) -> Option<Res> {
    let v = long_texts(cx)?;
    Some((|| {
        for (base, t) in &v {
            let fail = |w: String| Viol::new(w).with("one way", base.clone()).with("other way", clip(t, 3000));
            let want = real("loading", || piston_meta::syntax(base))?.map_err(|e| fail(format!("grammar text is rejected: {:?}", e)))?;
            match real("loading", || piston_meta::syntax(t))? {
                Ok(s) => if s != want { return Err(fail("very much between the parts gives other rules".into())); },
                Err(e) => return Err(fail(format!("grammar text with very much between its parts is rejected: {:?}", e))),
            }
            let a = load(&c_gram::boot().0, base)?.map_err(|e| fail(format!("{:?}", e)))?;
            let b = load(&c_gram::boot().0, t)?.map_err(|e| fail(format!("grammar text with very much between its parts is rejected: {:?}", e)))?;
            if a != b { return Err(fail("very much between the parts gives other rules (plain)".into())); }
            cx.eval(hash_bytes(t.as_bytes()), true);
            cx.count("with another layout", 1);
        }
        Ok(())
    })())
}
