//! Cases written by hand: inputs that failed once, and the listed findings.
//! They run first, as the cases 0, 1, ... of their check.

use crate::fw::*;
use piston_meta::{bootstrap, json, MetaData, Range, Syntax};
use std::sync::Arc;

macro_rules! none { ($($n:ident)*) => { $(pub fn $n(_: &mut Cx) -> Option<Res> { None })* } }
none!(c01 c14 c15 c18 c20 c21);

fn nth(cx: &mut Cx, cases: &[fn() -> Res]) -> Option<Res> {
    let f = cases.get(cx.idx as usize)?;
    cx.eval(0xf1 ^ cx.idx, true);
    cx.count("cases written by hand", 1);
    Some(f())
}

fn load(t: &str) -> Result<Syntax, Viol> {
    real("loading", || piston_meta::syntax(t))?.map_err(|e| Viol::new(format!("grammar text is rejected: {:?}", e)).with("grammar text", t))
}

/// Reads a document; the meta data is short enough to compare as text.
fn doc(t: &str, d: &str) -> Result<Result<Vec<Range<MetaData>>, Range<piston_meta::ParseError>>, Viol> {
    let s = load(t)?;
    let mut v = vec![];
    let r = real("parsing", || piston_meta::parse(&s, d, &mut v))?;
    Ok(r.map(|_| v))
}

fn accepts(t: &str, d: &str, want: bool) -> Res {
    let r = doc(t, d)?;
    if r.is_ok() == want { return Ok(()); }
    Err(Viol::new(format!("{:?} is {}", d, if want { "rejected" } else { "accepted" })).with("grammar text", t).with("result", format!("{:?}", r)))
}

fn rejects_text(t: &str) -> Res {
    match real("loading", || piston_meta::syntax(t))? {
        Err(_) => Ok(()),
        Ok(s) => Err(Viol::new("grammar text that is not one is accepted").with("grammar text", t).with("rules", format!("{:?}", s.names))),
    }
}

pub fn c02(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        // The alternatives after those in the table match nothing.
        || accepts("1 a = {\"x\" \"y\" \"z\" ?\"w\"}", "", true),
        || accepts("1 a = [\"q\" {\"x\" \"y\" \"z\" [\"w\" \"v\"] ?\"w\"}]", "q", true),
    ])
}

pub fn c03(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        || rejects_text("1 a = _x\n"),
        || rejects_text("1 a = [\"a\" ..._x!:\"y\"]\n"),
        || accepts("1 a = .s?(\",\" \"x\")", "x,x", true),
        || accepts("1 a = .s?(\",\" \"x\")", "x,x,", false),
        || accepts("1 a = .s?.(\",\" \"x\")", "x,x,", true),
        || accepts("1 a = .s!(\",\" \"x\")", "x,", false),
    ])
}

pub fn c04(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        || accepts("1 a = \"é\"", "éx", false),
        || accepts("1 a = \"日本\"", "日本é", false),
        || accepts("1 a = \"é\"", "é", true),
        || accepts("1 a = \"x\"", "x\n", false),
    ])
}

/// The value of a numeral, which is wrong for some that are listed.
fn numeral(src: &str, want: f64, key: &str) -> Res {
    match doc("1 a = .$:\"v\"", src)? {
        Err(_) => Ok(()),
        Ok(v) => {
            let got = match v.get(0).map(|x| &x.data) { Some(MetaData::F64(_, x)) => *x, _ => f64::NAN };
            if got == want || (got.is_infinite() && want.is_infinite()) { return Ok(()); }
            Err(Viol::new(format!("{} is read as {:?}", src, got)).key(key))
        }
    }
}

pub fn c06(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        || numeral("1e4294967296", f64::INFINITY, "numeral-1e4294967296"),
        || numeral("0e400", 0.0, "numeral-0e400"),
        || numeral("1e2", 100.0, "-"),
        || numeral("0.5", 0.5, "-"),
        || numeral("-12.25E-1", -1.225, "-"),
    ])
}

pub fn c08(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[|| {
        let d = "é日x\né?";
        let e = match doc("1 a = [\"é日x\\n\" \"éy\"]", d)? { Err(e) => e, Ok(_) => return viol("the text is accepted") };
        let mut w = vec![];
        real("writing a report", || piston_meta::ParseErrorHandler::new(d).write(&mut w, e))?.map_err(|e| Viol::new(e.to_string()))?;
        let s = String::from_utf8(w).map_err(|e| Viol::new(e.to_string()))?;
        if !s.contains("2,1: é?\n") { return Err(Viol::new("the report does not show the line").with("report", s)); }
        Ok(())
    }])
}

/// A comment that opens many and ends none.
fn open_comments() -> Res {
    let time = |n: usize| -> Result<u64, Viol> {
        let t = "/* ".repeat(n);
        let a = thread_cpu_us();
        let r = real("loading", || piston_meta::syntax(&t))?;
        if r.is_ok() { return viol("a comment that does not end is accepted"); }
        Ok(thread_cpu_us() - a)
    };
    let less = time(8)?.max(1);
    let mut n = 14;
    // Each one more doubles the time: 26 would take minutes, and take
    // microseconds when they do not.
    while n <= 26 {
        let took = time(n)?;
        if took > 500_000 && took > 100 * less {
            return Err(Viol::new(format!("loading {} nested comments that do not end takes {} us, and 8 take {} us", n, took, less)).key("open-comments"));
        }
        n += 1;
    }
    Ok(())
}

pub fn c09(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        open_comments,
        || { let _ = real("loading", || piston_meta::syntax("1 a = {a \"x\" \"y\" \"z\"}\n"))?; Ok(()) },
        || { let _ = real("loading", || piston_meta::syntax("1 a = {b \"x\" \"y\" \"z\"}\n2 b = {a \"x\" \"y\" \"z\"}\n"))?; Ok(()) },
        || { let _ = real("loading", || piston_meta::syntax("18446744073709551615 a = \"x\"\n"))?; Ok(()) },
        || { let _ = real("loading", || piston_meta::syntax("1e30 a = \"x\"\n"))?; Ok(()) },
        || { let _ = real("loading", || piston_meta::syntax("-5 a = \"x\"\n"))?; Ok(()) },
        || { let t = format!("1 a = {}\"x\" \"y\" \"z\"{}\n", "{".repeat(40), "}".repeat(40)); load(&t).map(|_| ()) },
        || { let r = doc("1 a = .l(\"x\":\"y\")", "x\n\u{3000}\u{85}\nx\u{2028}\n")?; let _ = r; Ok(()) },
    ])
}

fn json_of(d: Vec<MetaData>) -> Result<String, Viol> {
    let d: Vec<_> = d.into_iter().map(|x| Range::empty(0).wrap(x)).collect();
    let mut w = vec![];
    real("writing JSON", || json::write(&mut w, &d))?.map_err(|e| Viol::new(e.to_string()))?;
    String::from_utf8(w).map_err(|e| Viol::new(e.to_string()))
}

pub fn c12(cx: &mut Cx) -> Option<Res> {
    fn n(s: &str) -> Arc<String> { Arc::new(s.into()) }
    nth(cx, &[
        || { let s = json_of(vec![MetaData::F64(n("a"), f64::NAN)])?; if s.contains("null") { Ok(()) } else { viol(format!("NaN is written as {}", s)) } },
        || { let s = json_of(vec![MetaData::F64(n("a"), f64::INFINITY)])?; if s.contains("null") { Ok(()) } else { viol(format!("an infinite number is written as {}", s)) } },
        || { let s = json_of(vec![MetaData::String(n("a"), n("\u{1}\u{1f}"))])?; if s.contains("\\u0001\\u001f") || s.contains("\\u0001\\u001F") { Ok(()) } else { viol(format!("control characters are written as {}", s)) } },
        || { json_of(vec![MetaData::EndNode(n("a"))])?; Ok(()) },
        || { json_of(vec![MetaData::StartNode(n("a"))])?; Ok(()) },
    ])
}

pub fn c13(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        || accepts("1 n = [..\"\"!:\"name\" .l+(n:\"n\")]\n2 d = .l+(n:\"n\")", "a\n  b\n\tc\nd\n", true),
        || accepts("1 d = [.l(\"x\") \"y\"]", "x\n\u{3000}\ny", true),
    ])
}

pub fn c16(cx: &mut Cx) -> Option<Res> {
    fn n(s: &str) -> Arc<String> { Arc::new(s.into()) }
    fn conv(d: Vec<MetaData>) -> Res {
        let d: Vec<_> = d.into_iter().map(|x| Range::empty(0).wrap(x)).collect();
        let _ = real("converting", || bootstrap::convert(&d, &mut vec![]))?;
        Ok(())
    }
    nth(cx, &[
        || conv(vec![MetaData::StartNode(n("node"))]),
        || conv(vec![MetaData::EndNode(n("node"))]),
        || conv(vec![MetaData::StartNode(n("string")), MetaData::StartNode(n("x"))]),
        || { let r = bootstrap::Convert::new(&[]); let _ = r; Ok(()) },
    ])
}

pub fn c17(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[|| {
        // Ids that do not fit must not come out as those of other nodes.
        for t in ["18446744073709552000 a = \"x\"\n", "9007199254740993000 a = \"x\"\n"] {
            let d = match real("loading", || piston_meta::syntax(t))? { Err(_) => continue, Ok(s) => s };
            let mut v = vec![];
            let r = real("parsing", || piston_meta::parse(&d, "y", &mut v))?;
            return Err(Viol::new(format!("a node with an id that does not fit reports {:?}", r)).with("grammar text", t));
        }
        Ok(())
    }])
}

pub fn c19(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        || rejects_text("_a: \"x\"\n1 a = _b\n"),
        || accepts("_a: \"x\"\n1 a = _a\n", "x", true),
    ])
}

pub fn c22(cx: &mut Cx) -> Option<Res> {
    nth(cx, &[
        || accepts("1 a = .s?(\",\" \"x\")", "x,", false),
        || accepts("1 a = .s!.(\",\" \"x\")", "x,x,", true),
    ])
}
