//! Histories and threads (C14), and entry points that must agree (C18).

use crate::ast::*;
use crate::c_gram::{boot, load};
use crate::c_out::copy;
use crate::c_parse::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crate::gen::*;
use crate::interp::*;
use crate::print::{self, Style};
use crate::rng::{hash_bytes, mix, Rng};
use piston_meta::meta_rules::IndentSettings;
use piston_meta::tokenizer::TokenizerState;
use piston_meta::{json, ParseErrorHandler, Syntax};
use read_token::ReadToken;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

// ---- Other processes

/// Everything there is to see of reading a document with grammar text.
pub fn observe_text(grammar: &str, doc: &str) -> String {
    let mut o = String::new();
    match piston_meta::syntax(grammar) {
        Err(e) => o += &format!("{:?}\n{}", e, piston_meta::syntax_errstr(grammar).err().unwrap_or_default()),
        Ok(s) => {
            o += &format!("{:?}\n", s);
            let mut toks = vec![];
            let r = piston_meta::parse(&s, doc, &mut toks);
            o += &format!("{:?}\n{:?}\n", r, if r.is_ok() { &toks[..] } else { &[] });
            let mut w = vec![];
            if r.is_ok() { let _ = json::write(&mut w, &toks); }
            o += &String::from_utf8_lossy(&w);
            let mut v = vec![];
            o += &format!("{:?}", piston_meta::parse_errstr(&s, doc, &mut v));
        }
    }
    o
}

/// What is observed of syntaxes that optimizing does not change in the order
/// of anything: digests, so they fit on a line.
fn digest(s: &str) -> String { format!("{:016x}", hash_bytes(s.as_bytes())) }

/// Threads start together, however many there are.
#[derive(Clone, Default)]
struct Gate(Arc<AtomicBool>);

impl Gate {
    fn wait(&self) { while !self.0.load(Ordering::SeqCst) { std::thread::yield_now(); } }
    fn open(&self) { self.0.store(true, Ordering::SeqCst); }
}

/// Entry point of the processes this harness starts.
pub fn aux(args: &[String]) -> i32 {
    let file = |i: usize| std::fs::read_to_string(&args[i]).unwrap();
    match &args[0][..] {
        // Grammar, document: what is seen.
        "observe" => { print!("{}", digest(&observe_text(&file(1), &file(2)))); 0 }
        // Many documents at once, in a process that did not use the library yet.
        "first" => {
            let n = args[1].parse::<usize>().unwrap();
            let gate = Gate::default();
            let k = (args.len() - 2) / 2;
            let hs: Vec<_> = (0..n).filter_map(|i| {
                let b = gate.clone();
                let (g, d) = (file(2 + 2 * (i % k)), file(3 + 2 * (i % k)));
                std::thread::Builder::new().spawn(move || { b.wait(); digest(&observe_text(&g, &d)) }).ok()
            }).collect();
            gate.open();
            for h in hs { println!("{}", h.join().unwrap_or_else(|_| "panic".into())); }
            0
        }
        // Files: the meta data, or a report and a panic.
        "load" => { println!("{:?}", piston_meta::load_syntax_data(&args[1], &args[2])); 0 }
        "json" => {
            let s = piston_meta::syntax(&file(1)).unwrap();
            let mut v = vec![];
            piston_meta::parse(&s, &file(2), &mut v).unwrap();
            json::print(&v);
            0
        }
        "error" => {
            let (g, d) = (file(1), file(2));
            match piston_meta::syntax(&g) {
                Err(e) => ParseErrorHandler::new(&g).error(e),
                Ok(s) => {
                    let mut v = vec![];
                    if let Err(e) = piston_meta::parse(&s, &d, &mut v) { ParseErrorHandler::new(&d).error(e); }
                }
            }
            0
        }
        "unwrap" => {
            let (g, d) = (file(1), file(2));
            let s = piston_meta::stderr_unwrap(&g, piston_meta::syntax(&g));
            let mut v = vec![];
            piston_meta::stderr_unwrap(&d, piston_meta::parse(&s, &d, &mut v));
            println!("{:?}", v);
            0
        }
        _ => 2,
    }
}

struct Ran { out: String, err: String, ok: bool }

fn run_aux(args: &[&str]) -> Result<Ran, Viol> {
    let exe = std::env::current_exe().map_err(|e| Viol::new(e.to_string()))?;
    for _ in 0..3 {
        if let Ok(o) = Command::new(&exe).arg("aux").args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output() {
            return Ok(Ran { out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into(), ok: o.status.success() });
        }
        std::thread::sleep(std::time::Duration::from_millis(200));
    }
    // Not a fault of the library.
    std::process::exit(99)
}

fn put(cx: &Cx, name: &str, s: &str) -> String {
    let p = cx.scratch.join(name);
    std::fs::write(&p, s).unwrap();
    p.to_str().unwrap().to_string()
}

/// The text of a grammar that is not too large, with documents that the model can decide.
fn text_case(cx: &mut Cx, broken: bool) -> (G, Knobs, String, Vec<String>) {
    let mut kn = Knobs::text_form(&mut cx.rng);
    kn.wide = false;
    kn.p_prop = kn.p_prop.max(60);
    let g = grammar(&mut cx.rng, &kn);
    let style = Style::random(&mut cx.rng);
    let mut t = print::print(&mut cx.rng, &g, &style);
    if broken {
        let a: Vec<String> = ["\"", "]", "{", "é", "_zz", "1 a = ", ".", "?"].iter().map(|x| x.to_string()).collect();
        t = mutate(&mut cx.rng, &t, &a);
    }
    let docs: Vec<String> = texts(&mut cx.rng, &g, &kn.alphabet, Ind::default(), 6, 80).into_iter()
        .filter(|d| read(&g, d, Ind::default()).is_ok()).collect();
    (g, kn, t, docs)
}

// ---- C14

#[derive(Clone)]
struct Job { syn: Arc<Syntax>, text: String, ind: Ind }

#[derive(Clone, Debug)]
struct Seen { res: Result<(), RErr2>, toks: Vec<RTok>, ok: bool, report: String }
type RErr2 = String;

fn same_seen(a: &Seen, b: &Seen) -> bool {
    a.res == b.res && a.ok == b.ok && a.report == b.report && (!a.ok || same_toks(&a.toks, &b.toks))
}

fn see(s: &Syntax, text: &str, ind: Ind, pre: &[RTok]) -> Result<Seen, Viol> {
    let r = real_parse(s, text, ind, pre)?;
    let report = match &r.res {
        Ok(()) => { let mut w = vec![]; real("writing JSON", || json::write(&mut w, &r.toks))?.ok(); String::from_utf8_lossy(&w).into() }
        Err(e) => {
            let mut w = vec![];
            let e2 = e.range().wrap(copy(&e.data));
            real("writing a report", || ParseErrorHandler::new(text).write(&mut w, e2))?.ok();
            String::from_utf8_lossy(&w).into()
        }
    };
    let ok = r.res.is_ok();
    Ok(Seen { res: r.res.map_err(|e| format!("{:?}", e)), toks: if ok { r.toks } else { vec![] }, ok, report })
}

fn jobs(cx: &mut Cx, n: usize) -> Result<Vec<Job>, Viol> {
    let mut v = vec![];
    for _ in 0..n {
        let way = way_of(cx);
        let c = case(cx, way, |k, _| k.wide = false)?;
        let decided: Vec<bool> = c.texts.iter().map(|t| c.read(t).is_ok()).collect();
        let syn = Arc::new(c.syn);
        for (t, ok) in c.texts.into_iter().zip(decided) {
            if ok { v.push(Job { syn: syn.clone(), text: t, ind: c.ind }); }
        }
    }
    Ok(v)
}

pub fn c14(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c14(cx) { return r; }
    // One in so many cases starts threads or processes.
    match cx.rng.below(100) {
        0..=2 => c14_threads(cx),
        3 => c14_processes(cx),
        4..=29 => c14_equal(cx),
        30..=49 => c14_relatives(cx),
        _ => c14_history(cx),
    }
}

/// So many readings that a case stays short with large documents.
fn steps(js: &[Job], most: usize) -> usize {
    let max = js.iter().map(|j| j.text.len()).max().unwrap_or(0);
    (1_500_000 / (max + 1)).max(4).min(most)
}

/// Any history gives what was given at first.
fn c14_history(cx: &mut Cx) -> Res {
    let n = cx.rng.range(1, 3);
    let js = jobs(cx, n)?;
    if js.is_empty() { return Ok(()); }
    let mut first = vec![];
    for j in &js { first.push(see(&j.syn, &j.text, j.ind, &[])?); }
    let kept: Vec<Syntax> = js.iter().map(|j| (*j.syn).clone()).collect();
    let others: Vec<Syntax> = js.iter().map(|j| (*j.syn).clone()).collect();
    let mut acc: Vec<RTok> = vec![];
    let steps = steps(&js, 24);
    for step in 0..steps {
        let i = cx.rng.below(js.len());
        let j = &js[i];
        let s: &Syntax = if cx.rng.coin() { &j.syn } else { &others[i] };
        if acc.len() > 300 || cx.rng.chance(1, 5) { acc.clear(); }
        let got = see(s, &j.text, j.ind, &acc)?;
        if !same_seen(&got, &first[i]) {
            return Err(Viol::new(format!("reading again gives something else, after {} readings", step + js.len()))
                .with("text", j.text.clone()).with("indent", format!("{:?}", j.ind)).with("syntax", format!("{:?}", from_syntax(s).rules))
                .with("first", format!("{:?}", first[i])).with("then", format!("{:?}", got)));
        }
        if step == steps - 1 { cx.sample(|| format!("reading {} of a history over {} documents: {:?}", step + js.len(), js.len(), got)); }
        acc.extend(got.toks);
        cx.eval(mix(hash_bytes(j.text.as_bytes()) ^ step as u64) ^ i as u64, got.ok || got.report.len() > 20);
        cx.count("readings repeated", 1);
        // Something else in between.
        match cx.rng.below(6) {
            0 => { let _ = real("loading", || piston_meta::syntax("1 a = [\"a\" \n 2 b"))?; cx.count("failures in between", 1); }
            1 => { let _ = real("loading", || piston_meta::syntax("1 a = \"x\":\"y\"\n2 b = [a .w?]"))?; }
            _ => {}
        }
    }
    for (j, k) in js.iter().zip(&kept) { ensure!(*j.syn == *k, "reading changes the syntax"); }
    cx.count("histories", 1);
    Ok(())
}

/// Syntaxes are equal exactly when they come from the same rules.
fn c14_equal(cx: &mut Cx) -> Res {
    let (g, kn, t, docs) = if cx.rng.chance(1, 8) {
        let (g, kn, d) = crate::wide::smaller(&mut cx.rng);
        let style = Style::random(&mut cx.rng);
        let t = print::print(&mut cx.rng, &g, &style);
        cx.count("grammars of many parts", 1);
        (g, kn, t, d)
    } else { text_case(cx, false) };
    let fail = |w: &str| Viol::new(w.to_string()).with("grammar text", t.clone());
    let get = |t: &str| -> Result<(Syntax, Syntax), Viol> {
        let a = match real("loading", || piston_meta::syntax(t))? { Ok(s) => s, Err(e) => return Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", t)) };
        let b = match load(&boot().0, t)? { Ok(s) => s, Err(e) => return Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", t)) };
        Ok((a, b))
    };
    let (a, plain) = get(&t)?;
    let (b, plain2) = get(&t)?;
    cx.eval(hash_bytes(t.as_bytes()), g.size() > 2);
    if a != b || b != a { return Err(fail("loading grammar text twice gives syntaxes that are not equal")); }
    if plain != plain2 { return Err(fail("converting grammar text twice gives syntaxes that are not equal")); }
    if a != a.clone() { return Err(fail("a syntax is not equal to its clone")); }
    let o = real("optimizing", || plain.clone().optimize())?;
    if o != a || o != real("optimizing", || plain2.optimize())? { return Err(fail("optimizing the same rules gives syntaxes that are not equal")); }
    // Other rules.
    let mut h = g.clone();
    let i = cx.rng.below(h.rules.len());
    let other = grammar(&mut cx.rng, &kn);
    match cx.rng.below(4) {
        0 => { let j = cx.rng.below(other.rules.len()); h.rules[i].1 = other.rules[j].1.clone(); }
        1 => h.rules[i].0 = "another-name".into(),
        _ => {
            // A small change in one place.
            let n = h.rules[i].1.size();
            let pick = cx.rng.below(n);
            let mut k = 0;
            h.rules[i].1.visit_mut(&mut |r| {
                if k == pick {
                    match &mut r.k {
                        K::Ws { opt } | K::Until { opt, .. } | K::UntilWs { opt, .. } | K::Rep { opt, .. } | K::Sep { opt, .. } => *opt = !*opt,
                        K::Tag { text, .. } => text.push('x'),
                        K::Text { empty, .. } => *empty = !*empty,
                        K::Num { us, .. } => *us = !*us,
                        K::Lines { indent, .. } => *indent = !*indent,
                        K::Sel(v) | K::Seq(v) => {
                            let (a, b) = (cx.rng.below(v.len()), cx.rng.below(v.len()));
                            match cx.rng.below(3) {
                                0 if v.len() > 1 => { v.remove(a); }
                                1 if v.len() > 1 => v.swap(a, b),
                                _ => { let x = v[a].clone(); v.push(x); }
                            }
                        }
                        K::Node { prop, .. } => *prop = match prop { Some(_) => None, None => Some("p".into()) },
                        _ => {}
                    }
                }
                k += 1;
            });
        }
    }
    for (_, r) in h.rules.iter_mut() { r.visit_mut(&mut |r| if let K::Node { index, .. } = &mut r.k { *index = None; }); }
    h.resolve();
    h.assign_ids();
    let style = Style::random(&mut cx.rng);
    let ht = print::print(&mut cx.rng, &h, &style);
    let (c, plain_c) = get(&ht)?;
    let same = h.rules == g.rules;
    if (a == c) != same || (plain == plain_c) != same {
        return Err(fail(if same { "the same rules in another layout are not equal" } else { "other rules are equal" }).with("other", ht));
    }
    cx.count(if same { "equal syntaxes compared" } else { "different syntaxes compared" }, 1);
    for d in &docs {
        let x = see(&a, d, Ind::default(), &[])?;
        let y = see(&b, d, Ind::default(), &[])?;
        if !same_seen(&x, &y) { return Err(fail("loading twice reads in two ways").with("text", d.clone()).with("one", format!("{:?}", x)).with("other", format!("{:?}", y))); }
    }
    Ok(())
}

/// Grammars that have much in common do not take anything from one another.
fn c14_relatives(cx: &mut Cx) -> Res {
    let (g, kn, _, docs) = text_case(cx, false);
    // Every relative, the rules it is expected to give, and its text.
    let mut family: Vec<(G, String)> = vec![];
    let n = cx.rng.range(3, 6);
    for k in 0..n {
        let mut h = g.clone();
        for _ in 0..if k == 0 { 0 } else { cx.rng.range(1, 3) } {
            let len = h.rules.len();
            let i = cx.rng.below(len);
            let j = cx.rng.below(len);
            match cx.rng.below(8) {
                // Another order.
                0 => h.rules.rotate_left(i),
                1 => h.rules.swap(i, j),
                // A name that is there twice, in front or behind.
                2 => { let r = (h.rules[i].0.clone(), h.rules[j].1.clone()); h.rules.insert(0, r); }
                3 => { let r = (h.rules[i].0.clone(), h.rules[j].1.clone()); let at = cx.rng.below(len + 1); h.rules.insert(at, r); }
                // Names that go away or change places.
                4 => { let x = h.rules[i].0.clone(); h.rules[i].0 = std::mem::replace(&mut h.rules[j].0, x); }
                5 => h.rules[i].0 = format!("{}x", h.rules[i].0),
                6 => if len > 1 { h.rules.remove(i); },
                _ => { let o = grammar(&mut cx.rng, &kn); let r = o.rules[0].1.clone(); h.rules[i].1 = r; }
            }
        }
        h.ids = h.rules.iter().map(|_| 1 + cx.rng.below(60) as u64).collect();
        h.resolve();
        h.assign_ids();
        let style = Style::random(&mut cx.rng);
        let t = print::print(&mut cx.rng, &h, &style);
        family.push((h, t));
    }
    let mut first: Vec<Option<(Syntax, Vec<Seen>)>> = family.iter().map(|_| None).collect();
    let docs: Vec<&String> = docs.iter().take(3).collect();
    for step in 0..3 * n {
        // All in turn, and then in any order.
        let i = if step < n { step } else { cx.rng.below(n) };
        let (h, t) = &family[i];
        let fail = |w: &str| Viol::new(w.to_string()).with("grammar text", t.clone()).with("loaded before", family.iter().map(|f| f.1.clone()).collect::<Vec<_>>().join("\n---\n"));
        let s = if cx.rng.chance(1, 4) {
            match load(&boot().0, t)? { Ok(s) => real("optimizing", || s.optimize())?, Err(e) => return Err(fail(&format!("grammar text is rejected: {:?}", e))) }
        } else {
            match real("loading", || piston_meta::syntax(t))? { Ok(s) => s, Err(e) => return Err(fail(&format!("grammar text is rejected: {:?}", e))) }
        };
        cx.eval(hash_bytes(t.as_bytes()) ^ step as u64, h.size() > 2);
        let got = from_syntax(&s);
        if got.rules != h.rules { return Err(fail("a grammar loaded after its relatives has other rules").with("expected", format!("{:?}", h.rules)).with("got", format!("{:?}", got.rules))); }
        if let Some((f, seen)) = &first[i] {
            if *f != s { return Err(fail("loading again gives a syntax that is not equal")); }
            for (d, x) in docs.iter().zip(seen) {
                let y = see(&s, d, Ind::default(), &[])?;
                if !same_seen(x, &y) { return Err(fail("a grammar loaded after its relatives reads in another way").with("text", (*d).clone()).with("one", format!("{:?}", x)).with("other", format!("{:?}", y))); }
            }
        } else {
            let mut seen = vec![];
            for d in &docs {
                if read(h, d, Ind::default()).is_err() { seen.clear(); break; }
                seen.push(see(&s, d, Ind::default(), &[])?);
            }
            first[i] = Some((s, seen));
        }
        cx.count("relatives loaded", 1);
    }
    Ok(())
}

/// Threads that share syntaxes see what one thread sees.
/// Documents that are read for a while when deep within each other.
fn deep_jobs(cx: &mut Cx) -> Result<Vec<Job>, Viol> {
    let mut v = vec![];
    for _ in 0..cx.rng.range(1, 4) {
        let (g, open, core, close) = *cx.rng.pick(&[
            ("1 n = [\"(\" {n:\"n\" .r!(\"x\")} \")\"]\n2 d = n:\"n\"", "(", "x", ")"),
            ("1 n = {[\"[\" n:\"list\" \"]\"] .s?(.w! .t?)}\n2 d = n", "[", "\"é\\n\" ", "]"),
            ("1 n = [\"a\" ?.w! {n .r?([.$ \",\"])} \"b\":\"b\"]\n2 d = .r?(n:\"n\")", "a", "1,", "b"),
            ("1 v = [\"{\" .w? .s?([.w? \",\" .w?] {v:\"v\" \"x\"}) .w? \"}\"]\n2 d = v:\"v\"", "{ ", "x,", "}"),
            ("1 a = [\"<\" b \">\"]\n2 b = {a:\"a\" c}\n3 c = .r?(...\";<>\"!)\n4 d = b", "<", "日", ">"),
        ]);
        let g = format!("{}\n", g);
        let syn = Arc::new(match real("loading", || piston_meta::syntax(&g))? { Ok(s) => s, Err(e) => return Err(Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", g)) });
        let d = *cx.rng.pick(&[50usize, 120, 300, 500, 700]);
        let m = *cx.rng.pick(&[10usize, 2000, 20_000]);
        let bad = cx.rng.chance(1, 4);
        let text = format!("{}{}{}{}", open.repeat(d), core.repeat(m).trim_end_matches(&[' ', ','][..]), if bad { "?" } else if core.ends_with("1,") { "," } else { "" }, close.repeat(d));
        v.push(Job { syn, text, ind: Ind::default() });
    }
    cx.count("deep documents for threads", v.len() as u64);
    Ok(v)
}

fn c14_threads(cx: &mut Cx) -> Res {
    let deep = !cx.small && cx.rng.chance(1, 4);
    let js = if deep { deep_jobs(cx)? } else { jobs(cx, 4)? };
    if js.is_empty() { return Ok(()); }
    let (_, _, t, docs) = text_case(cx, false);
    let texts: Arc<Vec<(String, String)>> = Arc::new(docs.into_iter().take(2).map(|d| (t.clone(), d)).collect());
    let steps = steps(&js, 40);
    let mut first = vec![];
    for j in &js { first.push(see(&j.syn, &j.text, j.ind, &[])?); }
    let seen: Vec<String> = texts.iter().map(|x| digest(&observe_text(&x.0, &x.1))).collect();
    let shared = Arc::new((js, first, seen));
    let n = if deep { *cx.rng.pick(&[8, 33, 64]) } else { *cx.rng.pick(&[2, 4, 8, 8, 16, 33, 64]) };
    if deep {
        for s in &shared.1 { cx.count(if s.ok { "deep documents accepted" } else { "deep documents rejected" }, 1); }
    }
    let steps = if deep { 8 } else { steps };
    let steps = if n > 8 { steps * 8 / n + 1 } else { steps };
    let gate = Gate::default();
    let order = Arc::new(std::sync::Mutex::new(Vec::<u8>::new()));
    let hs: Vec<_> = (0..n).filter_map(|k| {
        let (shared, gate, texts, order) = (shared.clone(), gate.clone(), texts.clone(), order.clone());
        let mut rng = Rng::new(cx.rng.next());
        std::thread::Builder::new().stack_size(if deep { 16 << 20 } else if n > 8 { 8 << 20 } else { 64 << 20 }).spawn(move || -> Result<u64, Viol> {
            gate.wait();
            let mut done = 0;
            for step in 0..steps {
                let i = rng.below(shared.0.len());
                let j = &shared.0[i];
                let got = see(&j.syn, &j.text, j.ind, &[])?;
                if !same_seen(&got, &shared.1[i]) {
                    return Err(Viol::new("a thread reads something else than was read alone").with("text", j.text.clone())
                        .with("syntax", format!("{:?}", from_syntax(&j.syn).rules)).with("alone", format!("{:?}", shared.1[i])).with("thread", format!("{:?}", got)));
                }
                done += 1;
                if step % 16 == 3 && !texts.is_empty() {
                    let x = rng.below(texts.len());
                    let d = real("loading in a thread", || digest(&observe_text(&texts[x].0, &texts[x].1)))?;
                    if d != shared.2[x] { return Err(Viol::new("a thread loads something else than was loaded alone").with("grammar text", texts[x].0.clone()).with("text", texts[x].1.clone())); }
                    done += 1;
                }
                if rng.chance(1, 8) { std::thread::yield_now(); }
                if step % 4 == 0 { if let Ok(mut o) = order.try_lock() { o.push(k as u8); } }
            }
            Ok(done)
        }).ok() // As many as there is room for.
    }).collect();
    gate.open();
    let n = hs.len();
    for h in hs {
        match h.join() {
            Ok(r) => { let d = r?; cx.count("readings in threads", d); }
            Err(_) => return viol("a thread panicked"),
        }
    }
    let o = order.lock().unwrap();
    let switches = o.windows(2).filter(|w| w[0] != w[1]).count();
    cx.count("switches between threads observed", switches as u64);
    cx.count("threads", n as u64);
    cx.eval(hash_bytes(&o), true);
    Ok(())
}

/// Another process sees what this one sees, whatever was done here before.
fn c14_processes(cx: &mut Cx) -> Res {
    let mut files = vec![];
    let mut want = vec![];
    for i in 0..3 {
        let broken = cx.rng.chance(1, 4);
        let (_, _, t, docs) = text_case(cx, broken);
        if crate::c_gram::open_comments(&t) > 8 { continue; }
        let d = if broken { String::new() } else { match docs.get(0) { Some(d) => d.clone(), None => continue } };
        if broken && !matches!(crate::reader::read(&t), crate::reader::Read::Rejected) { continue; }
        want.push(real("loading", || digest(&observe_text(&t, &d)))?);
        files.push(put(cx, &format!("g{}", i), &t));
        files.push(put(cx, &format!("d{}", i), &d));
    }
    if files.is_empty() { return Ok(()); }
    let r = run_aux(&["observe", &files[0], &files[1]])?;
    let fail = |w: &str, i: usize, o: &str| Viol::new(w.to_string()).with("grammar text", std::fs::read_to_string(&files[2 * i]).unwrap_or_default())
        .with("text", std::fs::read_to_string(&files[2 * i + 1]).unwrap_or_default()).with("output", o.to_string());
    if !r.ok || r.out != want[0] { return Err(fail("a new process sees something else", 0, &(r.out + &r.err))); }
    cx.count("processes", 1);
    let n = *cx.rng.pick(&[2usize, 4, 8, 17, 64]);
    let ns = n.to_string();
    let mut a: Vec<&str> = vec!["first", &ns];
    a.extend(files.iter().map(|f| &f[..]));
    let r = run_aux(&a)?;
    let lines: Vec<&str> = r.out.lines().collect();
    if !r.ok || lines.len() > n { return Err(fail("threads that use the library first, at once, fail", 0, &(r.out.clone() + &r.err))); }
    for (i, l) in lines.iter().enumerate() {
        if *l != want[i % want.len()] { return Err(fail("threads that use the library first, at once, see something else", i % want.len(), &r.out)); }
        cx.count("first uses at once", 1);
    }
    cx.eval(hash_bytes(want.join("").as_bytes()), true);
    Ok(())
}

// ---- C18

pub fn c18(cx: &mut Cx) -> Res {
    if let Some(r) = crate::fixed::c18(cx) { return r; }
    let broken = cx.rng.chance(1, 4);
    let turn = cx.idx.wrapping_sub(60);
    let large = turn < 24;
    let broken = broken && !large;
    let (g, kn, t, mut docs) = if large {
        // Longer than what is read from a file or written at once.
        cx.count("large grammars and documents", 1);
        if turn % 8 == 7 {
            // An error that names a token longer than what is written at once.
            let kn = Knobs::text_form(&mut cx.rng);
            let w = cx.rng.pick(&["y", "é", "日本", "a\n", "\t", "word "]).to_string();
            let long = w.repeat(*[3_000, 9_000, 70_000].get(turn as usize / 8).unwrap_or(&9_000));
            let mut g = G { rules: vec![("document".into(), r(K::Tag { text: long.clone(), not: false, inv: false, prop: Some("x".into()) }))], ids: vec![1] };
            g.assign_ids();
            let style = Style::random(&mut cx.rng);
            let t = print::print(&mut cx.rng, &g, &style);
            (g, kn, t, vec![format!("{}?", w), long])
        } else if turn % 3 == 2 {
            let (g, kn) = many_nodes(&mut cx.rng, *[300, 1001, 2000].get(turn as usize % 4).unwrap_or(&700));
            let style = Style::random(&mut cx.rng);
            let t = print::print(&mut cx.rng, &g, &style);
            let docs = texts(&mut cx.rng, &g, &kn.alphabet, Ind::default(), 4, 4000).into_iter().filter(|d| read(&g, d, Ind::default()).is_ok()).collect();
            (g, kn, t, docs)
        } else {
            let kn = Knobs::text_form(&mut cx.rng);
            let (g, d) = crate::big::document(&mut cx.rng, turn as usize);
            let style = Style::random(&mut cx.rng);
            let t = print::print(&mut cx.rng, &g, &style);
            let docs = if cx.rng.coin() { vec![d] } else { vec![mutate(&mut cx.rng, &d, &kn.alphabet), d] };
            (g, kn, t, docs)
        }
    } else if let Some(x) = crate::every::c18(cx)? { x } else { text_case(cx, broken) };
    let read = |g: &G, d: &str, ind: Ind| read_with(g, d, ind, if large { crate::big::BIG_FUEL } else { FUEL }, if large { crate::big::BIG_DEPTH } else { DEPTH }).map(|_| ());
    if crate::c_gram::open_comments(&t) > 8 { return Ok(()); }
    let more = mutate(&mut cx.rng, docs.get(0).map_or("x", |s| &s[..]), &kn.alphabet);
    if read(&g, &more, Ind::default()).is_ok() { docs.push(more); }
    let fail = |w: String| Viol::new(w).with("grammar text", t.clone());
    let text_of = |text: &str, e: &RErr| -> Result<String, Viol> {
        let mut w = vec![];
        let e = e.range().wrap(copy(&e.data));
        real("writing a report", || ParseErrorHandler::new(text).write(&mut w, e))?.map_err(|e| Viol::new(e.to_string()))?;
        String::from_utf8(w).map_err(|e| Viol::new(e.to_string()))
    };
    // Loading grammar text.
    let a = real("loading", || piston_meta::syntax(&t))?;
    let b = real("loading", || piston_meta::syntax_errstr(&t))?;
    cx.eval(hash_bytes(t.as_bytes()), t.len() > 20);
    match (&a, &b) {
        (Ok(x), Ok(y)) => if x != y { return Err(fail("the two ways to load grammar text give other syntaxes".into())); },
        (Err(e), Err(s)) => {
            let want = text_of(&t, e)?;
            if want != *s { return Err(fail(format!("the error as text is {:?}, expected {:?}", s, want))); }
            cx.count("load errors compared", 1);
        }
        _ => return Err(fail(format!("one way to load grammar text accepts, the other does not: {:?} {:?}", a.as_ref().err(), b.as_ref().err()))),
    }
    let ways = |cx: &mut Cx, s: &Syntax, d: &str, ind: Ind| -> Result<Seen, Viol> {
        let fail = |w: String| Viol::new(w).with("grammar text", t.clone()).with("text", d).with("settings", format!("{:?}", ind));
        let set = settings(ind);
        let mut v1 = vec![];
        let r1 = real("parsing", || piston_meta::parse_with_indent(s, d, &mut v1, &set))?;
        ensure!(set.indent == ind.indent && set.align_first == ind.align_first && set.tab_spaces == ind.tab_spaces, "the settings of the caller change");
        let mut v2 = vec![];
        let r2 = real("parsing", || piston_meta::parse_errstr_with_indent(s, d, &mut v2, &set))?;
        if r1.is_ok() != r2.is_ok() || (r1.is_ok() && !same_toks(&v1, &v2)) { return Err(fail("parsing with the error as text gives something else".into())); }
        if let (Err(e), Err(x)) = (&r1, &r2) {
            let want = text_of(d, e)?;
            if want != *x { return Err(fail(format!("the error as text is {:?}, expected {:?}", x, want))); }
            cx.count("parse errors compared", 1);
        }
        if ind == Ind::default() {
            let def = IndentSettings::default();
            let (mut v3, mut v4, mut v5) = (vec![], vec![], vec![]);
            let r3 = real("parsing", || piston_meta::parse(s, d, &mut v3))?;
            let r4 = real("parsing", || piston_meta::parse_errstr(s, d, &mut v4))?;
            let r5 = real("parsing", || piston_meta::parse_with_indent(s, d, &mut v5, &def))?;
            if r3 != r1 || r5 != r1 || r4 != r2 { return Err(fail(format!("parsing without settings gives something else: {:?} {:?} {:?} {:?} {:?}", r1, r2, r3, r4, r5))); }
            if r1.is_ok() && !(same_toks(&v1, &v3) && same_toks(&v1, &v4) && same_toks(&v1, &v5)) { return Err(fail("parsing without settings gives other meta data".into())); }
        }
        // The last rule on its own.
        let mut v6 = vec![];
        let mut set = settings(ind);
        let r6 = match s.rules.last() {
            None => return Err(fail("no rules".into())),
            Some(root) => real("reading with the root rule", || root.parse(&mut v6, &TokenizerState::new(), &ReadToken::new(d, 0), &s.rules, &mut set))?,
        };
        match (&r1, &r6) {
            (Ok(()), Ok((range, st, _))) => {
                if range.next_offset() != d.len() || range.offset != 0 { return Err(fail(format!("the root rule reads {:?} of {} bytes, and parsing accepts", range, d.len()))); }
                v6.truncate(st.0);
                if !same_toks(&v1, &v6) { return Err(fail("the root rule gives other meta data".into())); }
            }
            (Err(_), Ok((range, ..))) => if range.next_offset() >= d.len() { return Err(fail("the root rule reads all, and parsing fails".into())); },
            (Err(a), Err(b)) => if a != b { return Err(fail(format!("the root rule fails with {:?}, and parsing with {:?}", b, a))); },
            (Ok(()), Err(e)) => return Err(fail(format!("the root rule fails with {:?}, and parsing accepts", e))),
        }
        cx.count(if r1.is_ok() { "documents accepted by all" } else { "documents rejected by all" }, 1);
        let got = see(s, d, ind, &[])?;
        cx.sample(|| format!("{:?} through every entry point: {:?}", d, got));
        Ok(got)
    };
    if let Ok(s) = &a {
        if !broken {
            for d in docs.clone() {
                let ind = if cx.rng.coin() { Ind::default() } else { indent_settings(&mut cx.rng) };
                let ind = if large { Ind::default() } else { ind };
                if read(&g, &d, ind).is_err() { continue; }
                cx.eval(hash_bytes(d.as_bytes()) ^ hash_bytes(t.as_bytes()), true);
                ways(cx, s, &d, ind)?;
            }
        }
    }
    // Through files.
    if let (Ok(s), false, true) = (&a, broken, cx.rng.chance(1, 4)) {
        for d in docs.iter().take(3) {
            if large || read(&g, d, Ind::default()).is_err() { continue; }
            let mut v = vec![];
            if real("parsing", || piston_meta::parse(s, d, &mut v))?.is_err() { continue; }
            let (gf, df) = (put(cx, "grammar", &t), put(cx, "document", d));
            let here = real("loading files", || piston_meta::load_syntax_data(&gf, &df))?;
            if !same_toks(&here, &v) { return Err(fail("loading files gives other meta data".into()).with("text", d.clone()).with("from files", format!("{:?}", here)).with("from strings", format!("{:?}", v))); }
            cx.count("pairs of files loaded", 1);
        }
    }
    // Through files and processes.
    if !large && !cx.rng.chance(1, 60) { return Ok(()); }
    if broken && a.is_ok() { return Ok(()); }
    let d = docs.get(0).cloned().unwrap_or_default();
    let (gf, df) = (put(cx, "grammar", &t), put(cx, "document", &d));
    let (want_err, toks): (Option<String>, Vec<RTok>) = match &a {
        Err(e) => (Some(text_of(&t, e)?), vec![]),
        Ok(s) => {
            if docs.is_empty() { return Ok(()); }
            let mut v = vec![];
            match real("parsing", || piston_meta::parse(s, &d, &mut v))? { Ok(()) => (None, v), Err(e) => (Some(text_of(&d, &e)?), vec![]) }
        }
    };
    let r = run_aux(&["error", &gf, &df])?;
    let fail = |w: &str, r: &Ran| Viol::new(w.to_string()).with("grammar text", t.clone()).with("text", d.clone())
        .with("expected", format!("{:?} {:?}", want_err, toks)).with("stdout", r.out.clone()).with("stderr", r.err.clone());
    if r.err != want_err.clone().unwrap_or_default() || !r.ok { return Err(fail("the report on standard error is another one", &r)); }
    for name in ["load", "unwrap"] {
        let r = run_aux(&[name, &gf, &df])?;
        match &want_err {
            None => if !r.ok || r.out != format!("{:?}\n", toks) { return Err(fail(&format!("`{}` gives other meta data", name), &r)); },
            Some(e) => {
                if r.ok { return Err(fail(&format!("`{}` does not panic", name), &r)); }
                if !r.err.starts_with(&e[..]) { return Err(fail(&format!("`{}` does not report the error", name), &r)); }
            }
        }
        cx.count("processes", 1);
    }
    // Files that are no text are no documents.
    {
        let odd = cx.scratch.join("odd");
        let _ = std::fs::remove_file(&odd);
        let odd = odd.to_str().unwrap().to_string();
        let grammar = cx.rng.coin();
        let mut b = if grammar { t.clone() } else { d.clone() }.into_bytes();
        let path = match cx.rng.below(4) {
            0 => odd,
            1 => cx.scratch.to_str().unwrap().to_string(),
            _ => {
                let i = cx.rng.below(b.len() + 1);
                // Never part of UTF-8, or half of a character.
                let bad: &[u8] = *cx.rng.pick(&[&[0xff][..], &[0xc0, 0x80], &[0x80], &[0xed, 0xa0, 0x80], &[0xf5]]);
                // Not between the bytes of a character, which they might complete.
                let i = (0..=i).rev().find(|&j| b.get(j).map_or(true, |x| x & 0xc0 != 0x80)).unwrap_or(0);
                b.splice(i..i, bad.iter().cloned());
                std::fs::write(&odd, &b).unwrap();
                odd
            }
        };
        if !grammar && a.is_err() { return Ok(()); }
        let r = if grammar { run_aux(&["load", &path, &df])? } else { run_aux(&["load", &gf, &path])? };
        if r.ok || !r.out.is_empty() { return Err(fail("a file that is no text is loaded", &r).with("file", String::from_utf8_lossy(&b).to_string()).with("as", if grammar { "grammar" } else { "document" })); }
        cx.count("files that are no text", 1);
    }
    if want_err.is_none() {
        let here = real("loading files", || piston_meta::load_syntax_data(&gf, &df))?;
        ensure!(same_toks(&here, &toks), "loading files gives other meta data");
        let r = run_aux(&["json", &gf, &df])?;
        let mut w = vec![];
        real("writing JSON", || json::write(&mut w, &toks))?.map_err(|e| Viol::new(e.to_string()))?;
        if r.out.as_bytes() != &w[..] || !r.ok { return Err(fail("the JSON on standard output is another one", &r)); }
        cx.count("JSON on standard output compared", 1);
    } else { cx.count("reports on standard error compared", 1); }
    Ok(())
}
