//! A small program for Miri: threads that use the library first, at the same
//! time, and share a syntax. They must see what one thread sees.

use std::sync::{Arc, Barrier};

const G: &str = "_s: \"xyz\"\n1 w = {\"x\":\"x\" \"y\":!\"x\" \"z\":\"z\" [\"é\" ?.$:\"n\"]}\n2 d = .s?.(\",\" w:\"w\")\n";

fn see(s: &piston_meta::Syntax, d: &str) -> String {
    let mut v = vec![];
    let r = piston_meta::parse_errstr(s, d, &mut v);
    let mut w = vec![];
    if r.is_ok() { piston_meta::json::write(&mut w, &v).unwrap(); }
    format!("{:?} {}", r, String::from_utf8(w).unwrap())
}

fn main() {
    let n = 3;
    let bar = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|i| {
        let bar = bar.clone();
        std::thread::spawn(move || {
            bar.wait();
            // The first use of the library.
            let g = if i == 2 { "1 d = [\"x\"" } else { G };
            piston_meta::syntax(g)
        })
    }).collect();
    let mut rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    assert!(rs[2].is_err());
    let s = Arc::new(rs.remove(0).unwrap());
    assert!(*s == rs.remove(0).unwrap());
    let docs = ["x,y,z", "x,é12,z,", "x,,y", "q"];
    let alone: Vec<String> = docs.iter().map(|d| see(&s, d)).collect();
    let bar = Arc::new(Barrier::new(2));
    let hs: Vec<_> = (0..2).map(|i| {
        let (s, bar) = (s.clone(), bar.clone());
        std::thread::spawn(move || {
            bar.wait();
            (0..4).map(|k| { let j = (k + i * 2) % 4; (j, see(&s, docs[j])) }).collect::<Vec<_>>()
        })
    }).collect();
    let mut n = 0;
    for h in hs {
        for (j, got) in h.join().unwrap() { assert_eq!(got, alone[j]); n += 1; }
    }
    println!("{} readings in threads are those of one thread", n);
}
