//! Grammars as people write them, with documents of every size. The sizes
//! around powers of two and of ten are always tried; the others at random.

use crate::ast::*;
use crate::eng::*;
use crate::fw::*;
use crate::interp::Ind;
use crate::print::Style;
use crate::c_parse::Case;
use crate::rng::Rng;
use std::sync::OnceLock;

/// Model steps for a large document.
pub const BIG_FUEL: u64 = 30_000_000;
pub const BIG_DEPTH: usize = 12_000;

struct Kind {
    name: &'static str,
    grammar: &'static str,
    /// A document of about so many items.
    doc: fn(&mut Rng, usize) -> String,
    /// Above this many items, depth or time would be what fails.
    max: usize,
}

fn word(rng: &mut Rng) -> &'static str {
    *rng.pick(&["x", "name", "key", "a1", "été", "日本", "long-name_of.a:thing", "\u{1d11e}", "z"])
}

fn text(rng: &mut Rng) -> String {
    let s = *rng.pick(&["", "x", "two words", "a\\nb", "\\\"q\\\"", "\\u00e9", "é", "日本語", "\\\\", "tab\\t", "//", "/*"]);
    format!("\"{}\"", s)
}

fn num(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => rng.below(10).to_string(),
        1 => format!("{}.{}", rng.below(1000), rng.below(1000)),
        2 => format!("-{}", rng.below(100_000)),
        3 => format!("{}e{}", rng.below(100), rng.below(20)),
        4 => format!("{}E-{}", rng.below(100), rng.below(20)),
        _ => rng.below(1_000_000_000).to_string(),
    }
}

fn sp(rng: &mut Rng) -> &'static str { *rng.pick(&["", "", "", " ", "\n", "\t ", "\r\n", "\u{3000}"]) }

fn json(rng: &mut Rng, left: &mut usize, depth: usize, o: &mut String) {
    *left = left.saturating_sub(1);
    let kind = if depth > 30 || *left == 0 { rng.range(2, 5) } else { *rng.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5]) };
    match kind {
        0 | 1 => {
            o.push(if kind == 0 { '{' } else { '[' });
            o.push_str(sp(rng));
            let n = rng.below(if depth < 2 { 40 } else { 5 });
            for i in 0..n {
                if i > 0 { o.push_str(sp(rng)); o.push(','); o.push_str(sp(rng)); }
                if kind == 0 { o.push_str(&text(rng)); o.push_str(sp(rng)); o.push(':'); o.push_str(sp(rng)); }
                json(rng, left, depth + 1, o);
            }
            o.push_str(sp(rng));
            o.push(if kind == 0 { '}' } else { ']' });
        }
        2 => o.push_str(&text(rng)),
        3 => o.push_str(&num(rng)),
        4 => o.push_str(*rng.pick(&["true", "false"])),
        _ => o.push_str("null"),
    }
}

fn expr(rng: &mut Rng, left: &mut usize, depth: usize, o: &mut String) {
    let n = rng.range(1, 4);
    for i in 0..n {
        if i > 0 { o.push(*rng.pick(&['+', '*', '-', '/'])); }
        *left = left.saturating_sub(1);
        if *left > 0 && depth < 60 && rng.chance(2, 3) {
            o.push('(');
            expr(rng, left, depth + 1, o);
            o.push(')');
        } else { o.push_str(&rng.below(1000).to_string()); }
    }
}

fn outline(rng: &mut Rng, n: usize, tabs: bool) -> String {
    let mut o = String::new();
    // Columns of the lines that are open.
    let mut open = vec![0usize];
    let step = *rng.pick(&[1, 2, 4, 7]);
    let nl = *rng.pick(&["\n", "\r\n", "\n\n", "\n  \n"]);
    for i in 0..n {
        if i > 0 {
            match rng.below(4) {
                0 => if open.len() < 70 { let c = open[open.len() - 1] + if tabs { 4 } else { step }; open.push(c); },
                1 => { let k = rng.below(3); for _ in 0..k { if open.len() > 1 { open.pop(); } } }
                _ => {}
            }
        }
        let c = open[open.len() - 1];
        if tabs && rng.coin() { o.push_str(&"\t".repeat(c / 4)); } else { o.push_str(&" ".repeat(c)); }
        o.push_str(&word(rng).replace(':', "_"));
        if rng.chance(1, 3) { o.push_str(": "); o.push_str(&num(rng)); }
        o.push_str(nl);
    }
    o
}

fn xml(rng: &mut Rng, left: &mut usize, depth: usize, o: &mut String) {
    *left = left.saturating_sub(1);
    let name = *rng.pick(&["a", "div", "é"]);
    o.push('<');
    o.push_str(name);
    for _ in 0..rng.below(3) { o.push(' '); o.push_str(*rng.pick(&["id", "class", "x"])); o.push('='); o.push_str(&text(rng)); }
    if rng.chance(1, 4) { o.push_str("/>"); return; }
    o.push('>');
    let n = if *left == 0 || depth > 40 { 0 } else { rng.below(if depth < 2 { 30 } else { 5 }) };
    for _ in 0..n {
        if rng.coin() { o.push_str(*rng.pick(&["text", " é ", "\n"])); }
        xml(rng, left, depth + 1, o);
    }
    o.push_str("</");
    o.push_str(name);
    o.push('>');
}

static KINDS: &[Kind] = &[
    Kind { name: "objects", max: 300_000, doc: |rng, n| {
        // An array of as many values as wanted.
        let mut o = String::from("[");
        let mut left = n;
        while left > 0 { if o.len() > 1 { o.push_str(", "); } json(rng, &mut left, 1, &mut o); }
        o.push(']');
        o
    }, grammar: "
_sep: \",\"
1 object = [\"{\" .w? .s?([.w? _sep .w?] pair:\"pair\") .w? \"}\"]
2 pair = [.t?:\"key\" .w? \":\" .w? value]
3 array = [\"[\" .w? .s?([.w? _sep .w?] value) .w? \"]\"]
4 value = {object:\"object\" array:\"array\" .t?:\"text\" .$:\"num\" \"true\":\"bool\" \"false\":!\"bool\" \"null\":\"null\"}
5 document = [.w? value .w?]
" },
    Kind { name: "cells", max: 300_000, doc: |rng, n| {
        let cols = rng.range(1, 9);
        let mut o = String::new();
        for _ in 0..n / cols + 1 {
            for j in 0..cols {
                if j > 0 { o.push(','); }
                match rng.below(4) { 0 => o.push_str(&text(rng)), 1 => o.push_str(&num(rng)), 2 => {} _ => o.push_str(word(rng)) }
            }
            o.push('\n');
        }
        o
    }, grammar: "
1 cell = {[.t?:\"quoted\" ?\" \"] .$_:\"num\" ...\",\\n\"?:\"raw\"}
2 row = .s!(\",\" cell:\"cell\")
3 document = .r?([row:\"row\" \"\\n\"])
" },
    Kind { name: "expressions", max: 20_000, doc: |rng, n| {
        let mut left = n;
        let mut o = String::new();
        while left > 0 { expr(rng, &mut left, 0, &mut o); o.push_str(";\n"); }
        o
    }, grammar: "
1 item = {[\"(\" sum:\"sum\" \")\"] .$:\"n\"}
2 product = .s!({\"*\":\"mul\" \"/\":!\"mul\"} item)
3 sum = .s!({\"+\":\"add\" \"-\":!\"add\"} product:\"product\")
4 document = .l([sum:\"sum\" \";\"])
" },
    Kind { name: "outlines", max: 20_000, doc: |rng, n| outline(rng, n, false), grammar: "
1 node = [...\": \\t\\r\\n\"!:\"name\" ?[\":\" .w! .$:\"value\"] .l+(node:\"node\")]
2 document = .l+(node:\"node\")
" },
    Kind { name: "outlines with tabs", max: 20_000, doc: |rng, n| outline(rng, n, true), grammar: "
1 node = [...\": \\t\\r\\n\"!:\"name\" ?[\":\" .w! .$:\"value\"] ?.l+(node:\"node\")]
2 document = .l+(node:\"node\")
" },
    Kind { name: "elements", max: 100_000, doc: |rng, n| { let mut o = String::new(); let mut left = n; while left > 0 { xml(rng, &mut left, 0, &mut o); } o }, grammar: "
_end: \"<>=/\"
1 attr = [.._end!:\"attr\" \"=\" .t?:\"val\"]
2 element = [\"<\" .._end!:\"name\" .r?([.w! attr:\"attr\"]) {\"/>\":\"empty\" [\">\" .r?({element:\"element\" ...\"<\"!:\"text\"}) \"</\" .._end!:\"close\" \">\"]}]
3 document = .r!(element:\"element\")
" },
    Kind { name: "code", max: 200_000, doc: |rng, n| {
        let mut o = String::new();
        for _ in 0..n {
            match rng.below(5) {
                0 => { o.push_str("// é comment\n"); }
                1 => { o.push_str("/* a /* nested */ one **/ "); }
                2 => { o.push_str(&format!("let {} = {};\n", word(rng).replace(&[':', '.'][..], "_"), num(rng))); }
                3 => { o.push_str(&format!("print({});", text(rng))); }
                _ => { o.push_str("fn f(a,b,) {} "); }
            }
        }
        o
    }, grammar: "
_id: \"(){}=;,. \\n/\"
0 block = [\"/*\" .r?({block [!\"*/\" !\"/*\" {\"*\" \"/\" ...\"*/\"!}]}) \"*/\"]
1 comment = {[\"//\" ...\"\\n\"? {\"\\n\" !...\"\"!}] block}
2 space = .r?({.w! comment})
3 args = .s?.([\",\" space] .._id!:\"arg\")
4 let = [\"let\" .w! .._id!:\"name\" .w? \"=\" .w? {.$:\"num\" .t?:\"text\"} \";\"]
5 call = [!\"fn\" .._id!:\"call\" \"(\" ?{.t?:\"text\" .$:\"num\"} \")\" \";\"]
6 fn = [\"fn\" .w! .._id!:\"fn\" \"(\" args:\"args\" \")\" .w? \"{\" space \"}\"]
7 document = [space .r?([{let:\"let\" fn:\"fn\" call:\"call\"} space])]
" },
    Kind { name: "lines", max: 300_000, doc: |rng, n| {
        let nl = *rng.pick(&["\n", "\r\n", "\n\n"]);
        (0..n).map(|i| format!("{}{}={}{}", word(rng).replace('=', ""), i, word(rng), nl)).collect()
    }, grammar: "
1 pair = [..\"=\"!:\"key\" \"=\" ..\"\\n\"?:\"value\"]
2 document = .l(pair:\"pair\")
" },
    Kind { name: "long values", max: 300_000, doc: |rng, n| {
        let w = word(rng);
        format!("{}|{}|{}|{}", w.repeat(n / w.len() + 1), format!("\"{}\"", "é\\n".repeat(n / 4)), " \u{3000}".repeat(n / 8), "_".repeat(n))
    }, grammar: "
1 document = [...\"|\"!:\"raw\" \"|\" .t?:\"text\" \"|\" .w? \"|\" ..\"\"!:\"line\"]
" },
    Kind { name: "nested", max: 700, doc: |rng, n| {
        let n = n.max(1);
        let core = *rng.pick(&["x", "", "1", "()"]);
        format!("{}{}{}", "(".repeat(n), core, ")".repeat(n))
    }, grammar: "
1 inner = [\"(\" {inner:\"inner\" \"x\":\"x\" .$:\"n\" ...\")\"?} \")\"]
2 document = inner:\"inner\"
" },
    Kind { name: "given up late", max: 100_000, doc: |rng, n| {
        let end = *rng.pick(&["!", "?", ";", ".", ""]);
        format!("{}{}", "ab ".repeat(n / 2), end)
    }, grammar: "
1 w = {\"a\":\"a\" \"b\":!\"a\" .w!}
2 first = [.r?(w:\"first\") \"!\":\"end\"]
3 second = [.s?.(?\",\" w:\"second\") \"?\":\"end\"]
4 third = [?first ?[.r!(w) \"-\"] .r?(w:\"third\") \";\"]
5 document = {first:\"f\" third:\"t\" [!first !third .r!(w:\"last\") \".\"]}
" },
    Kind { name: "until a word", max: 100_000, doc: |rng, n| {
        let mut o = String::new();
        for i in 0..n { o.push_str(*rng.pick(&["line", "é", "en", "END", "e n d"])); if i % 3 == 0 { o.push_str(" x"); } o.push('\n'); }
        o.push_str("end");
        o
    }, grammar: "
1 document = [.r?([!\"end\" ...\"\\n\"?:\"line\" \"\\n\"]) \"end\":\"end\"]
" },
    Kind { name: "lists of lists", max: 100_000, doc: |rng, n| {
        let mut o = String::new();
        for i in 0..n {
            if i > 0 { o.push_str(*rng.pick(&[",", ",", ",", ";", "|"])); }
            o.push_str(*rng.pick(&["1", "22", "3.5"]));
        }
        o.push_str(*rng.pick(&["", ",", ";"]));
        o
    }, grammar: "
1 row = .s!.(\",\":\"comma\" .$:\"n\")
2 table = .s!({\"|\":\"bar\" \"||\":!\"bar\"} row:\"row\")
3 document = .s?.(\";\" table:\"table\")
" },
    Kind { name: "choices", max: 100_000, doc: |rng, n| {
        (0..n).map(|_| *rng.pick(&["if ", "else ", "elif ", "end ", "é ", "è ", "日 ", "旦 ", "while ", "x ", "_ ", "42 "])).collect()
    }, grammar: "
1 word = {\"if\":\"if\" \"while\":\"while\" {\"é\":\"e1\" \"è\":\"e2\"} {\"else\":\"else\" \"elif\":\"elif\" \"end\":\"end\"} \"日\":\"day\" \"旦\":\"dawn\" .$:\"n\" ..\"\"!:\"other\"}
2 document = .s?.(.w! word:\"word\")
" },
    Kind { name: "many stops", max: 300_000, doc: |rng, n| {
        let nl = *rng.pick(&["\n", "\r\n"]);
        let w = word(rng).replace(&['=', ':', ';', '.'][..], "");
        let mut o = String::new();
        while o.len() < n { o.push_str(&w); o.push_str(*rng.pick(&["=", "=", "-", "+"])); o.push_str(&w.repeat(1 + rng.below(3))); o.push_str(nl); }
        o
    }, grammar: "
_stop: \"=;|\\u00a7\\u65e5\\u0000\\n\"
1 key = {..._stop!:\"key\" ...\"#;=\"!:\"other\"}
2 value = {...\"\\t@;\\n\"?:\"value\"}
3 pair = [key ?{\";\" \"|\" \"=\"} value .w?]
4 document = .r?(pair:\"pair\")
" },
    Kind { name: "stops that never come", max: 300_000, doc: |rng, n| {
        let w = *rng.pick(&["x", "a b ", "é", "1\n"]);
        w.repeat(n / w.len() + 1)
    }, grammar: "
1 part = [!...\"#\\u65e5|\"! {\"x\" \"a b \" \"é\" \"1\\n\"}]
2 some = [.r?([\"x\" ?...\"é#\"? \";\"]) \"!\"]
3 document = [?[...\"#@|\"! \"|\"] ?some ...\"@|#;\\u0000\"!:\"all\"]
" },
    Kind { name: "texts and numbers", max: 200_000, doc: |rng, n| {
        let mut o = String::new();
        while o.len() < n {
            match rng.below(4) { 0 => o.push_str(&text(rng)), 1 => o.push_str(&format!("{}_{}", rng.below(1000), rng.below(1000))), 2 => o.push_str(&num(rng)), _ => o.push_str("-") }
            o.push_str(*rng.pick(&[" ", "\n", "\t\t", "\r\n "]));
        }
        o
    }, grammar: "
1 value = {.t!:\"some\" .t?:\"text\" .$_:\"num\" \"-\":\"no\"}
2 document = .r?([?.w? !\"+\" ?.$:\"plain\" ?value .w!])
" },
    Kind { name: "looked ahead", max: 100_000, doc: |rng, n| {
        (0..n).map(|_| *rng.pick(&["ab", "abc", "abd", "b", "é", "éé", "\n"])).collect()
    }, grammar: "
1 word = {[\"ab\" !!\"c\" \"c\":\"c\"] [\"ab\":\"ab\" !{\"d\" \"c\"}] [!!\"éé\" \"é\":\"e\"] [\"ab\":!\"ab\" !!\"d\"] \"d\":\"d\" \"b\" \"é\":!\"e\" .w!}
2 document = .r!(word)
" },
];

/// Sizes where counters and tables run over.
const SIZES: [usize; 3] = [255, 1025, 65_700];
const MORE: [usize; 5] = [127, 4097, 32_769, 131_073, 300_000];

fn grammars() -> &'static [G] {
    static S: OnceLock<Vec<G>> = OnceLock::new();
    S.get_or_init(|| KINDS.iter().map(|k| match crate::reader::read(k.grammar) {
        crate::reader::Read::Grammar(g) => g,
        x => panic!("the grammar of {} is {:?}", k.name, x),
    }).collect())
}

fn size(rng: &mut Rng, max: usize) -> usize {
    // As many small as large ones.
    let bits = rng.range(1, 13);
    (rng.below(1 << bits) + (1 << (bits - 1))).min(max)
}

/// One of the grammars with documents, when it is the turn of one.
pub fn big(cx: &mut Cx) -> Option<(G, Vec<String>)> {
    big_of(cx, 1200)
}

pub fn big_of(cx: &mut Cx, one_in: usize) -> Option<(G, Vec<String>)> {
    if cx.small { return None; }
    let per = KINDS.len() as u64;
    let ladder = (SIZES.len() + if cx.thorough { MORE.len() } else { 0 }) as u64;
    let at = cx.idx.wrapping_sub(100);
    let (k, n, whole) = if at < per * ladder {
        let i = (at / per) as usize;
        let k = (at % per) as usize;
        (k, if i < SIZES.len() { SIZES[i] } else { MORE[i - SIZES.len()] }, true)
    } else {
        if !cx.rng.chance(1, one_in) { return None; }
        let k = cx.rng.below(KINDS.len());
        (k, size(&mut cx.rng, 8000), false)
    };
    let kind = &KINDS[k];
    let n = n.min(kind.max);
    let g = grammars()[k].clone();
    let d = (kind.doc)(&mut cx.rng, n);
    let mut docs = vec![];
    let alphabet: Vec<String> = ["a", "é", " ", "\n", "\"", "1", "(", "]", ",", "  "].iter().map(|x| x.to_string()).collect();
    // Broken near the end, where everything before it was read.
    let mut b = d.clone();
    let mut cut = b.len().saturating_sub(cx.rng.below(30));
    while !b.is_char_boundary(cut) { cut -= 1; }
    b.truncate(cut);
    docs.push(b);
    if !whole || n < 2000 {
        docs.push(crate::gen::mutate(&mut cx.rng, &d, &alphabet));
        let mut t = d.clone();
        t.push_str(*cx.rng.pick(&["x", "é", " ", "\n", "1", "\u{0}"]));
        docs.push(t);
    }
    docs.push(d);
    cx.count(&format!("documents: {}", kind.name), docs.len() as u64);
    cx.max("max bytes of a document", docs.iter().map(|d| d.len()).max().unwrap_or(0) as u64);
    Some((g, docs))
}

/// Documents of some kinds only, now and then.
pub fn only(cx: &mut Cx, names: &[&str]) -> Result<Option<Case>, Viol> {
    if !cx.rng.chance(1, 3000) { return Ok(None); }
    let name = *cx.rng.pick(names);
    let i = KINDS.iter().position(|k| k.name == name).unwrap();
    let n = size(&mut cx.rng, KINDS[i].max.min(8000));
    let d = (KINDS[i].doc)(&mut cx.rng, n);
    let a: Vec<String> = [" ", "\n", "\t", "x", ":", "  "].iter().map(|x| x.to_string()).collect();
    let docs = vec![crate::gen::mutate(&mut cx.rng, &d, &a), d];
    let g = grammars()[i].clone();
    let way = *cx.rng.pick(&[Way::Built, Way::Linked, Way::Optimized, Way::Text]);
    Ok(Some(with_texts(cx, g, docs, way)?))
}

/// A grammar with a document of some 10 or 100 KB.
pub fn document(rng: &mut Rng, i: usize) -> (G, String) {
    let k = i % KINDS.len();
    let n = (*rng.pick(&[700, 3000, 9000])).min(KINDS[k].max);
    (grammars()[k].clone(), (KINDS[k].doc)(rng, n))
}

/// How many kinds of documents there are.
pub fn kinds() -> usize { KINDS.len() }

/// The name and grammar of a kind, and documents of some size and of a larger one.
pub fn two_sizes(rng: &mut Rng, i: usize, n: usize, m: usize) -> (&'static str, &'static str, String, String) {
    let k = &KINDS[i];
    let seed = rng.next();
    let mut doc = |n: usize| (k.doc)(&mut Rng::new(seed), n.min(k.max));
    (k.name, k.grammar, doc(n), doc(m))
}

/// The same as a case of a check that reads documents.
pub fn big_case(cx: &mut Cx, way: Way) -> Result<Option<Case>, Viol> {
    let (g, texts) = match big(cx) { Some(x) => x, None => return Ok(None) };
    Ok(Some(with_texts(cx, g, texts, way)?))
}

pub fn with_texts(cx: &mut Cx, mut g: G, texts: Vec<String>, way: Way) -> Result<Case, Viol> {
    let syn = if way == Way::Text {
        let style = Style::random(&mut cx.rng);
        via_text(&mut cx.rng, &g, &style)?.1
    } else { some_ids(&mut cx.rng, &mut g); make(&g, way)? };
    let gfp = gfp(&g);
    Ok(Case { g, ind: Ind::default(), texts, way, syn, gfp, big: true })
}
