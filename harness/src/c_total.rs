//! Nothing panics, hangs or overflows the stack (C09).

use crate::ast::*;
use crate::c_gram::open_comments;
use crate::c_parse::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::*;
use crate::interp::*;
use crate::print::{self, Style};
use crate::rng::{hash_bytes, Rng};
use piston_meta::{bootstrap, json, ParseErrorHandler, Syntax};

fn hostile_char(rng: &mut Rng) -> char {
    match rng.below(12) {
        0 => loop { if let Some(c) = std::char::from_u32(rng.below(0x110000) as u32) { break c; } },
        1 => std::char::from_u32(rng.below(0x80) as u32).unwrap(),
        2 => *rng.pick(&['\u{0}', '\u{feff}', '\u{2028}', '\u{85}', '\u{a0}', '\u{3000}', '\u{10ffff}', '\u{200b}', '\u{202e}', '\r', '\u{b}', '\u{c}', '\u{1680}']),
        3 => *rng.pick(&['é', '日', '😀', '\u{301}']),
        _ => *rng.pick(&['[', ']', '{', '}', '(', ')', ':', '.', '!', '?', '"', '_', '=', ' ', '\n', '1', 'a', 'l', 'r', 's', 't', 'w', '$', '+', '/', '*', '\\', 'u', '0', '-', 'e']),
    }
}

const WORDS: [&str; 46] = ["[", "]", "{", "}", "(", ")", ":", ".", "!", "?", "\"", "_", "=", " ", "\n", "1", "2 a = ", ".w?", ".w!", ".t?", ".t!", ".$",
    ".$_", "...", "..", ".l(", ".l+(", ".r?(", ".r!(", ".s?(", ".s!.(", "/*", "*/", "//", "\"x\"", "_s", "\n_s: \"t\"\n", "a", "é", "\\", "\"\\u12\"", "\"\\ud800\"",
    "1e400 a = \"b\"\n", "-1 b = a\n", "99999999999999999999 c = b\n", "\n3 a = {a [a a]}\n"];

fn soup(rng: &mut Rng) -> String {
    let n = *rng.pick(&[1, 3, 10, 40, 200]);
    let mut s = String::new();
    let m = rng.below(3);
    for _ in 0..rng.range(1, n) {
        if m == 0 || (m == 1 && rng.coin()) { s.push(hostile_char(rng)); } else { s.push_str(*rng.pick(&WORDS)); }
    }
    s
}

/// Deep and wide, but not so that the stack of a thread would not do.
fn nested(rng: &mut Rng) -> String {
    let d = *rng.pick(&[1, 5, 20, 60]);
    let (open, close) = *rng.pick(&[("[", "]"), ("{", "}"), ("?", ""), ("!", ""), (".r?(", ")"), (".l(", ")"), (".l+(", ")"), (".s?(\",\" ", ")"), ("[\"a\" ", " \"b\"]"), ("{\"a\" ", " b}"), ("{{\"a\"} ", "}"), (".s!.({\"a\" \",\"} ", ")")]);
    let core = *rng.pick(&["\"x\"", "a", ".w?", "", ".$", "..\"\"?", "z"]);
    let mut t = format!("1 a = {}{}{}\n", open.repeat(d), core, close.repeat(d));
    if rng.chance(1, 3) { t = t.replacen(close, "", 1); }
    t.push_str("2 b = [a \"b\"]\n");
    t
}

/// Rules that refer to themselves first, in rings, twice and to nowhere.
fn circular(rng: &mut Rng) -> String {
    let n = rng.range(1, 12);
    let mut t = String::new();
    for i in 0..n {
        let k = rng.range(1, 5);
        let mut alts = String::new();
        for _ in 0..k {
            let j = if rng.chance(1, 20) { 99 } else { rng.below(n) };
            alts.push_str(&match rng.below(9) {
                0 => format!("\"{}\" ", j),
                1 => format!("[n{} \"x\"] ", j),
                2 => format!("{{n{} n{}}} ", j, rng.below(n)),
                3 => format!("[.w? n{}] ", j),
                4 => format!("?n{} ", j),
                5 => format!("!n{} ", j),
                6 => format!(".s?(n{} n{}) ", j, rng.below(n)),
                7 => format!("n{}:\"p\" ", j),
                _ => format!("n{} ", j),
            });
        }
        t.push_str(&format!("{} n{} = {{{}}}\n", i, if rng.chance(1, 15) { 0 } else { i }, alts.trim_end()));
    }
    t
}

/// A chain of rules, each using the one before several times.
fn chain(rng: &mut Rng) -> String {
    let n = *rng.pick(&[5, 20, 60]);
    let f = *rng.pick(&["{a# a#}", "{a# \"x\" a#}", "{[a# a#] a#}", "[a# a#]", "{{a# a#} {a# a#}}", "{?a# a#}", "[?a# a#]", "{.w? a#}", ".s?(a# a#)", "[!a# a#]"]);
    let mut t = String::from("0 a0 = \"y\"\n");
    for i in 1..n { t.push_str(&format!("{} a{} = {}\n", i, i, f.replace('#', &(i - 1).to_string()))); }
    t
}

fn load_any(cx: &mut Cx, t: &str) -> Result<Option<Syntax>, Viol> {
    if open_comments(t) > 8 { cx.count("left out: comments nested without end", 1); return Ok(None); }
    let fail = |v: Viol| v.with("grammar text", clip(t, 3000));
    let r = real("loading grammar text", || piston_meta::syntax(t)).map_err(fail)?;
    cx.eval(hash_bytes(t.as_bytes()), t.len() > 3);
    match r {
        Ok(s) => {
            cx.count("hostile grammar texts accepted", 1);
            ensure!(s.names.len() == s.rules.len(), "{} names for {} rules", s.names.len(), s.rules.len());
            Ok(Some(s))
        }
        Err(e) => {
            cx.count("hostile grammar texts rejected", 1);
            let ok = e.next_offset() <= t.len() && t.is_char_boundary(e.offset);
            let again = || e.range().wrap(crate::c_out::copy(&e.data));
            if !ok { return Err(fail(Viol::new(format!("the error {:?} is outside of the text", e)))); }
            let mut w = vec![];
            real("writing a report", || ParseErrorHandler::new(t).write(&mut w, again())).map_err(fail)?.map_err(|e| Viol::new(e.to_string()))?;
            Ok(None)
        }
    }
}

/// Reads with rules whose reading is known to end, and uses what comes out.
fn use_it(cx: &mut Cx, g: &G, s: &Syntax, d: &str, ind: Ind) -> Res {
    let res = if d.len() > 5000 { read_with(g, d, ind, crate::big::BIG_FUEL, crate::big::BIG_DEPTH) } else { read(g, d, ind) };
    if res.is_err() { cx.count("left out: reading does not end", 1); return Ok(()); }
    let fail = |v: Viol| show_case(v, g, d, ind);
    let r = real_parse(s, d, ind, &[]).map_err(fail)?;
    cx.eval(hash_bytes(d.as_bytes()) ^ gfp(g), d.len() > 1);
    cx.count("hostile documents read", 1);
    match r.res {
        Err(e) => {
            let mut w = vec![];
            real("writing a report", || ParseErrorHandler::new(d).write(&mut w, e)).map_err(fail)?.map_err(|e| Viol::new(e.to_string()))?;
        }
        Ok(()) => {
            let mut w = vec![];
            real("writing JSON", || json::write(&mut w, &r.toks)).map_err(fail)?.map_err(|e| Viol::new(e.to_string()))?;
            let _ = real("converting", || bootstrap::convert(&r.toks, &mut vec![])).map_err(fail)?;
        }
    }
    Ok(())
}

/// Large documents of many kinds, and how much of them is meta data.
fn large(cx: &mut Cx) -> Res {
    let n = *cx.rng.pick(&[1000usize, 5000, 20_000]);
    let n = if cx.rng.chance(1, 10) { 100_000 } else { n };
    let what = cx.rng.below(9);
    let (g, d): (&str, String) = match what {
        0 => ("1 d = .s?(\",\" .$:\"n\")", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(",")),
        1 => ("1 d = .l([...\"=\\n\"!:\"k\" \"=\" ...\"\\n\"?:\"v\"])", (0..n).map(|i| format!("key{}=välue{}\n", i, i)).collect()),
        2 => ("1 d = .r?([.t?:\"s\" .w?])", "\"text \\n é\" ".repeat(n)),
        3 => ("1 d = ...\"\"!:\"all\"", "日本x".repeat(n)),
        4 => ("1 n = [..\"\"!:\"name\" .l+(n:\"n\")]\n2 d = .l+(n:\"n\")", (0..n).map(|i| format!("{}n{}\n", " ".repeat(i % 7), i)).collect()),
        5 => ("1 w = {\"a\":\"a\" \"b\":\"b\" \"c\":\"c\" \"é\":\"e\" [\"d\" ?\"e\"]}\n2 d = .s!.(.w! w:\"w\")", "a b c é d de ".repeat(n / 4)),
        6 => ("1 c = {[\"//\" ...\"\\n\"? \"\\n\"] [\"/*\" ...\"*\"? \"*/\"] .w!}\n2 d = .r?({c \"x\":\"x\"})", "// é\nx /* y */ xx \n".repeat(n / 4)),
        // One long line that is wrong at its end.
        7 => ("1 d = .s?(\",\" .$:\"n\")", format!("{},é", "1,2".repeat(n))),
        // Many lines, then an error.
        _ => ("1 d = .l(\"é\":\"x\")", format!("{}?", "é\n".repeat(n))),
    };
    let g = g.to_string();
    let bad = cx.rng.chance(1, 5);
    let d = if bad { let mut x = d; x.push('\u{1}'); x } else { d };
    cx.count("bytes of large documents", d.len() as u64);
    cx.max("max bytes of a document", d.len() as u64);
    // On a stack as threads have it: depth must not come from length.
    let id = what;
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || -> Result<(bool, usize), Viol> {
        let s = match real("loading", || piston_meta::syntax(&g))? { Ok(s) => s, Err(e) => return Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", g)) };
        let mut v = vec![];
        let r = real("parsing", || piston_meta::parse(&s, &d, &mut v))?;
        let mut w = vec![];
        match r {
            Ok(()) => { real("writing JSON", || json::write(&mut w, &v))?.ok(); Ok((true, v.len())) }
            Err(e) => { real("writing a report", || ParseErrorHandler::new(&d).write(&mut w, e))?.ok(); Ok((false, w.len())) }
        }
    }).unwrap().join();
    match r {
        Ok(r) => {
            let (ok, len) = r?;
            let want = !(bad || id >= 7) || (bad && (id == 3 || id == 4));
            ensure!(ok == want, "large document {} of {} is {}", id, n, if ok { "accepted" } else { "rejected" });
            cx.count(if ok { "large documents accepted" } else { "large documents rejected" }, 1);
            if ok { cx.count("meta data of large documents", len as u64); }
            cx.eval(hash_bytes(format!("{} {}", id, n).as_bytes()), true);
            Ok(())
        }
        Err(_) => viol("a thread that reads a large document panicked"),
    }
}

/// Large grammar texts.
fn large_grammar(cx: &mut Cx) -> Res {
    let n = *cx.rng.pick(&[50usize, 300, 1500]);
    let t: String = match cx.rng.below(6) {
        0 => (0..n).map(|i| format!("{} n{} = [\"a{}\":\"x\" ?n{}]\n", i, i, i, if i > 0 { i - 1 } else { 0 })).collect(),
        1 => format!("1 d = {{{}}}", (0..n).map(|i| format!("\"k{}\":\"v\"", i)).collect::<Vec<_>>().join(" ")),
        2 => format!("1 d = [{}]", "\"é\" ".repeat(n)),
        3 => format!("{}1 d = [{}]", (0..n).map(|i| format!("_s{}: \"é{}\"\n", i, i)).collect::<String>(), (0..n).map(|i| format!("_s{}", i).replace('_', "...")).map(|_| "\"x\"".to_string()).collect::<Vec<_>>().join(" ")),
        4 => format!("{}1 d = \"x\"\n", "// comment é\n/* and /* another */ one */\n".repeat(n)),
        _ => (0..n).map(|i| format!("{} n{} = {{n{} n{} \"c{}\"}}\n", i, i, (i * 7 + 1) % n, (i * 3 + 2) % n, i)).collect(),
    };
    cx.count("bytes of large grammar texts", t.len() as u64);
    match load_any(cx, &t)? { Some(_) => { cx.count("large grammar texts loaded", 1); Ok(()) } None => Err(Viol::new("a large grammar text is rejected").with("grammar text", clip(&t, 400))) }
}

/// Everything that is done with a document, in microseconds of processor time:
/// reading, writing JSON, and reporting an error at its end.
fn costs(s: &Syntax, d: &str) -> Result<[u64; 3], Viol> {
    let mut best = [u64::MAX; 3];
    for _ in 0..3 {
        let mut v = vec![];
        let t0 = thread_cpu_us();
        let r = real("parsing", || piston_meta::parse(s, d, &mut v))?;
        let t1 = thread_cpu_us();
        let mut w = Vec::with_capacity(d.len());
        real("writing JSON", || json::write(&mut w, &v))?.ok();
        let t2 = thread_cpu_us();
        w.clear();
        let e = r.err().unwrap_or_else(|| piston_meta::Range::new(d.len(), 0).wrap(piston_meta::ParseError::ExpectedEnd));
        real("writing a report", || ParseErrorHandler::new(d).write(&mut w, e))?.ok();
        let t3 = thread_cpu_us();
        for (b, t) in best.iter_mut().zip([t1 - t0, t2 - t1, t3 - t2]) { *b = (*b).min(t); }
    }
    Ok(best)
}

/// Eight times the size must not take far more than eight times as long.
fn growth(cx: &mut Cx, i: usize) -> Res {
    let (n, m) = (8_000, 64_000);
    let (name, grammar, small, large) = crate::big::two_sizes(&mut cx.rng, i, n, m);
    let s = match real("loading", || piston_meta::syntax(grammar))? { Ok(s) => s, Err(e) => return Err(Viol::new(format!("grammar text is rejected: {:?}", e))) };
    for round in 0.. {
        let a = costs(&s, &small)?;
        let b = costs(&s, &large)?;
        let mut slow = None;
        for (j, what) in ["reading", "writing JSON of", "reporting an error at the end of"].iter().enumerate() {
            // Per byte, in percent.
            let ratio = 100 * (b[j] + 1) * small.len() as u64 / ((a[j] + 1) * large.len() as u64);
            if std::env::var_os("MON_SHOW").is_some() { eprintln!("{} {} {}: {} us for {} bytes, {} us for {} bytes, {}%", piston_meta::parse(&s, &small, &mut vec![]).is_ok(), what, name, a[j], small.len(), b[j], large.len(), ratio); }
            if b[j] > 50_000 && ratio > 350 {
                slow = Some(Viol::new(format!("{} {} takes {} us for {} bytes, and {} us for {} bytes", what, name, a[j], small.len(), b[j], large.len())).with("grammar text", grammar));
            }
        }
        match slow { None => break, Some(v) => if round == 2 { return Err(v); } }
    }
    cx.eval(hash_bytes(name.as_bytes()), true);
    cx.count("growth of time measured", 1);
    Ok(())
}

/// The same for grammar text. Names are searched for, which is allowed for.
fn load_growth(cx: &mut Cx, i: usize) -> Res {
    let make = |n: usize| -> String { match i {
        0 => (0..n).map(|i| format!("{} n{} = [\"a{}\":\"x\" .w? {{.$:\"n\" .t?:\"t\" \"b\"}}]\n", i, i, i)).collect(),
        1 => format!("1 d = {{{}}}", (0..n).map(|i| format!("\"k{}\":\"v\"", i)).collect::<Vec<_>>().join(" ")),
        2 => format!("1 d = [{}]", "\"é\" ?.w! !\"x\" ".repeat(n).trim_end()),
        3 => format!("{}1 d = \"x\"\n", "// comment é\n/* and /* another */ one */\n".repeat(n)),
        4 => format!("{}1 d = \"x\"\n", (0..n).map(|i| format!("_s{}: \"é{}\"\n", i, i)).collect::<String>()),
        // One half of one kind, the other half of another.
        5..=16 => {
            let k = ["[\"a\" \"b\"]", "{\"a\" \"b\"}", "?\"a\"", "!n", ".l(\"a\")", ".r?(\"a\")", ".s!.(\",\" \"a\")", ".w!", ".t?:\"t\"", ".$_:\"n\"", "...\",\"!:\"u\"", "..\"\"?"][i - 5];
            format!("{}{}", format!("1 n = {}\n", k).repeat(n / 2), format!("2 m = n:\"n{}\"\n", i).repeat(n / 2))
        }
        _ => format!("_s: \"{}\"\n1 d = [_s{}]\n", "é\\n".repeat(n), " _s".repeat(30)),
    } };
    let (a, b) = (make(600), make(4800));
    for round in 0.. {
        let mut best = [u64::MAX; 2];
        for (k, t) in [&a, &b].iter().enumerate() {
            for _ in 0..3 {
                let t0 = thread_cpu_us();
                let ok = real("loading", || piston_meta::syntax(t))?.is_ok();
                best[k] = best[k].min(thread_cpu_us() - t0);
                if !ok { return Err(Viol::new("a large grammar text is rejected").with("grammar text", clip(t, 400))); }
            }
        }
        let ratio = 100 * (best[1] + 1) * a.len() as u64 / ((best[0] + 1) * b.len() as u64);
        if std::env::var_os("MON_SHOW").is_some() { eprintln!("loading {}: {} us for {} bytes, {} us for {} bytes, {}%", i, best[0], a.len(), best[1], b.len(), ratio); }
        if best[1] < 50_000 || ratio < 350 { break; }
        if round == 2 {
            return Err(Viol::new(format!("loading takes {} us for {} bytes, and {} us for {} bytes", best[0], a.len(), best[1], b.len())).with("grammar text", clip(&a, 400)));
        }
    }
    cx.eval(hash_bytes(a.as_bytes()), true);
    cx.count("growth of time measured", 1);
    Ok(())
}

/// The same thing many times over, where only the count is large: what is read
/// in a loop needs no more stack for it.
const RUNS: [(&str, &str, &str, &str, bool); 44] = [
    // Grammar, what comes first, what is repeated, what ends it, whether it fits.
    ("1 d = .l(\"x\":\"x\")", "x\n", "\n", "x\n", true),
    ("1 d = .l(\"x\":\"x\")", "", "\n", "x", true),
    ("1 d = .l(\"x\":\"x\")", "x\r\n", " \r\n", "x", true),
    ("1 d = .l(\"x\":\"x\")", "x", "\n\t ", "\nx\n", true),
    ("1 d = .l(\"x\":\"x\")", "x", "\n", "", true),
    ("1 d = .l(\"x\":\"x\")", "", "x\n", "", true),
    ("1 d = .l(\"x\":\"x\")", "", "x\n", "y", false),
    ("1 d = .l(?\"x\":\"x\")", "", " \n", "x", true),
    ("1 n = [\"x\":\"x\" .l+(n:\"n\")]\n2 d = .l+(n)", "x\n", "\n", "  x\n", true),
    ("1 n = [\"x\":\"x\" .l+(n:\"n\")]\n2 d = .l+(n)", "x\n", "  x\n", "", true),
    ("1 n = [\"x\":\"x\" .l+(n:\"n\")]\n2 d = .l+(n)", "x\n  x\n", " \t\n", "  x\nx", true),
    ("1 n = [\"x\":\"x\" .l+(n:\"n\")]\n2 d = .l+(n)", "", "x\n x\n", "", true),
    ("1 d = [\"x\" .w? \"y\"]", "x", " ", "y", true),
    ("1 d = [\"x\" .w! \"y\"]", "x", "\n", "y", true),
    ("1 d = [\"x\" .w! \"y\"]", "x", "\u{3000}", "z", false),
    ("1 d = [.r?(.w!) \"y\"]", "", "\t\r\n", "y", true),
    ("1 d = .r?(\"x\":\"x\")", "", "x", "", true),
    ("1 d = .r!(\"x\")", "", "x", "y", false),
    ("1 d = .r!([\"é\":\"x\" ?\"y\":!\"x\"])", "", "éyé", "y", true),
    ("1 d = .r!({\"x\" {\"y\" [\"z\" ?.w!]}})", "", "xyz ", "", true),
    ("1 w = {\"x\":\"x\" .w!}\n2 d = .r?(w:\"w\")", "", "x ", "", true),
    ("1 d = .s?(\",\" \"x\":\"x\")", "x", ",x", "", true),
    ("1 d = .s?.(\",\" \"x\":\"x\")", "", "x,", "", true),
    ("1 d = .s!.(\",\" ?\"x\":\"x\")", "", ",", "x", true),
    ("1 d = .s!(.w! \"x\")", "x", "\nx", "\n", false),
    ("1 d = .s!({\",\":\"c\" \";\"} .$:\"n\")", "1", ",2;3", "", true),
    ("1 d = ..\"\"!:\"all\"", "", "日", "", true),
    ("1 d = ...\"\"!:\"all\"", "", "\n", "", true),
    ("1 d = [...\"|日\"!:\"all\" \"|\"]", "", "x旦", "|", true),
    ("1 d = [..\"|;\"?:\"all\" .w! \"|\"]", "x", "/", "\n|", true),
    ("1 d = .t?:\"t\"", "\"", "x", "\"", true),
    ("1 d = .t?:\"t\"", "\"", "\\\\", "\"", true),
    ("1 d = .t!:\"t\"", "\"", "\\u00e9", "\"", true),
    ("1 d = .t!:\"t\"", "\"", "\\\"\\n\n", "", false),
    ("1 d = .r?(.t?:\"t\")", "", "\"\"", "", true),
    ("1 d = .$:\"n\"", "0", "0", "1", true),
    ("1 d = .$_:\"n\"", "1", "_", "1", true),
    ("1 d = .$:\"n\"", "0.", "7", "", true),
    ("1 d = .$:\"n\"", "-0.0", "0", "5e-3", true),
    ("1 d = .r?([.$:\"n\" .w!])", "", "1\n", "", true),
    ("1 d = [?[.r?(\"x\") \"y\"] !.r!([\"x\" \"y\"]) !!.r!(\"x\") ...\"\"?]", "", "x", "", true),
    ("1 d = .r?([!\"z\" {[\"x\" \"y\"] [\"x\" !\"y\"]}])", "", "xyx", "", true),
    ("1 a = ?\"x\"\n2 b = [a:\"a\" ?\"y\"]\n3 d = .r?([!.r!(\"z\") b:\"b\" \";\"])", "", "xy;", "", true),
    ("1 d = [.r?([\"x\" .l(\"y\")]) .l(\"z\":\"z\")]", "", "xy\n", "\nz", true),
];

/// The same in grammar text.
const TEXT_RUNS: [(&str, &str, &str); 12] = [
    ("1 d = \"x\"", "\n", ""),
    ("", "\n", "1 d = \"x\"\n"),
    ("", " \t\r\n", "1 d = \"x\"\n"),
    ("", "//\n", "1 d = \"x\"\n"),
    ("// ", "é/", "\n1 d = \"x\"\n"),
    ("/*", "*", "*/\n1 d = \"x\"\n"),
    ("/*", " /**/", "*/\n1 d = \"x\"\n"),
    ("1 d = [", " ", "\"x\"]\n"),
    ("1 d = \"", "x", "\"\n"),
    ("1 d = \"", "\\n", "\"\n"),
    ("_s: \"", "é", "\"\n1 d = ..._s!\n"),
    ("1 ", "d", " = \"x\"\n"),
];

fn run(cx: &mut Cx, i: usize) -> Res {
    let n = if cx.thorough { 2_000_000 } else { 300_000 };
    let (what, read): (String, Box<dyn Fn() -> Result<(bool, usize), Viol> + Send>);
    let (ok, len) = if i < RUNS.len() {
        let (g, first, again, last, ok) = RUNS[i];
        let d = format!("{}{}{}", first, again.repeat(n), last);
        let len = d.len();
        what = format!("{:?}, {} times {:?}, {:?} read with {:?}", first, n, again, last, g);
        read = Box::new(move || {
            let s = match real("loading", || piston_meta::syntax(g))? { Ok(s) => s, Err(e) => return Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", g)) };
            let mut v = vec![];
            let r = real("parsing", || piston_meta::parse(&s, &d, &mut v))?;
            let mut w = vec![];
            match r {
                Ok(()) => { real("writing JSON", || json::write(&mut w, &v))?.ok(); Ok((true, v.len())) }
                Err(e) => { real("writing a report", || ParseErrorHandler::new(&d).write(&mut w, e))?.ok(); Ok((false, w.len())) }
            }
        });
        (ok, len)
    } else {
        let (first, again, last) = TEXT_RUNS[i - RUNS.len()];
        let t = format!("{}{}{}", first, again.repeat(n), last);
        let len = t.len();
        what = format!("grammar text {:?}, {} times {:?}, {:?}", first, n, again, last);
        read = Box::new(move || Ok((real("loading", || piston_meta::syntax(&t))?.is_ok(), 1)));
        (true, len)
    };
    // Far less than one frame for each of them.
    match std::thread::Builder::new().stack_size(384 << 10).spawn(read).unwrap().join() {
        Ok(r) => { let (a, _) = r?; if a != ok { return Err(Viol::new(format!("{} is {}", what, if a { "accepted" } else { "rejected" }))); } }
        Err(_) => return Err(Viol::new(format!("a thread panicked: {}", what))),
    }
    cx.eval(hash_bytes(what.as_bytes()), true);
    cx.count("long runs read on a small stack", 1);
    cx.max("max bytes of a run", len as u64);
    Ok(())
}

pub fn c09(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c09(cx) { return r; }
    let at = cx.idx.wrapping_sub(2000) as usize;
    if at < crate::big::kinds() && !cx.small { return growth(cx, at); }
    let at = at.wrapping_sub(crate::big::kinds());
    if at < 18 && !cx.small { return load_growth(cx, at); }
    let at = at.wrapping_sub(18);
    if at < RUNS.len() + TEXT_RUNS.len() && !cx.small { return run(cx, at); }
    if let Some(ts) = crate::every::texts_for(cx) {
        for t in &ts { load_any(cx, t)?; }
        return Ok(());
    }
    match cx.rng.below(40) {
        0 => large(cx),
        1 => large_grammar(cx),
        2..=11 => {
            let t = match cx.rng.below(6) {
                0 | 1 => soup(&mut cx.rng),
                2 => nested(&mut cx.rng),
                3 => circular(&mut cx.rng),
                4 => chain(&mut cx.rng),
                _ => {
                    let kn = Knobs::text_form(&mut cx.rng);
                    let g = grammar(&mut cx.rng, &kn);
                    let style = Style::random(&mut cx.rng);
                    let t = print::print(&mut cx.rng, &g, &style);
                    let a: Vec<String> = WORDS.iter().map(|x| x.to_string()).chain((0..5).map(|_| hostile_char(&mut cx.rng).to_string())).collect();
                    mutate(&mut cx.rng, &t, &a)
                }
            };
            cx.sample(|| clip(&t, 300));
            if let Some(s) = load_any(cx, &t)? {
                // Read something with it, where that ends.
                let g = from_syntax(&s);
                if g.size() < 3000 {
                    for _ in 0..3 {
                        let d = match cx.rng.below(3) { 0 => String::new(), 1 => soup(&mut cx.rng), _ => sentence(&mut cx.rng, &g, &["a".into(), "é".into()], Ind::default(), 60) };
                        use_it(cx, &g, &s, &d, Ind::default())?;
                    }
                }
            }
            Ok(())
        }
        _ => {
            let way = way_of(cx);
            let c = case(cx, way, |_, _| {})?;
            let mut ts = c.texts.clone();
            for _ in 0..3 { ts.push(soup(&mut cx.rng)); }
            for t in c.texts.iter().take(3) {
                // Any character anywhere.
                let a: Vec<String> = (0..4).map(|_| hostile_char(&mut cx.rng).to_string()).collect();
                ts.push(mutate(&mut cx.rng, t, &a));
            }
            let ind = if cx.rng.coin() { c.ind } else { Ind { indent: *cx.rng.pick(&[0, 1, 7, 1000, 4_000_000_000]), align_first: cx.rng.coin(), tab_spaces: *cx.rng.pick(&[0, 1, 4, 255]) } };
            for t in &ts { use_it(cx, &c.g, &c.syn, t, ind)?; }
            Ok(())
        }
    }
}
