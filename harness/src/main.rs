mod ast;
mod big;
mod c_data;
mod c_gram;
mod c_hist;
mod c_out;
mod c_parse;
mod c_shape;
mod c_total;
mod eng;
mod every;
mod fixed;
mod fw;
mod gen;
mod interp;
mod near;
mod print;
mod reader;
mod rng;
mod wide;

use fw::Check;

pub static CHECKS: &[Check] = &[
    Check {
        id: "C01", cases: (600000, 60000000), run: c_parse::c01,
        rule: "a case is a random grammar of every kind of rule, made directly, linked, optimized or loaded from text, with texts made from the grammar, mutated and random, read under random indention settings; non-trivial: the model ran at least one rule on a text that is not empty",
        assumptions: &["the reading of the rules in interp.rs, an independent interpreter written from the documentation", "read_token 1.0.0 for where numbers, strings and whitespace end"],
        need: &["accepted", "rejected", "meta data compared", "rules failed: lines", "rules run: separate_by"],
    },
    Check {
        id: "C02", cases: (400000, 40000000), run: c_parse::c02,
        rule: "a case is a random linked grammar rich in alternatives, read as it is, optimized, and optimized twice, plus tables and byte predictions for rules of it; non-trivial as for C01",
        assumptions: &["the model in interp.rs decides which error is allowed"],
        need: &["selects replaced by a table", "accepted", "rejected", "bytes predicted", "table entries checked"],
    },
    Check {
        id: "C03", cases: (150000, 15000000), run: c_gram::c03,
        rule: "a case is a random grammar printed in random layout, mutations of it, and texts read with it; non-trivial: a text of more than one rule",
        assumptions: &["the reader of grammar text in reader.rs, written from the documentation"],
        need: &["rules read back", "broken grammar texts rejected", "documents read"],
    },
    Check {
        id: "C04", cases: (600000, 60000000), run: c_parse::c04,
        rule: "a case is a random grammar with texts and every kind of tail after a text it accepts; non-trivial as for C01",
        assumptions: &["the model in interp.rs decides where reading ends"],
        need: &["read all", "stopped early", "stopped before multi-byte text"],
    },
    Check {
        id: "C05", cases: (600000, 60000000), run: c_parse::c05,
        rule: "a case is a random grammar with texts; the meta data is checked as a tree over the text, after errors too; non-trivial as for C01",
        assumptions: &[],
        need: &["trees checked", "nodes checked", "kept after error"],
    },
    Check {
        id: "C06", cases: (600000, 60000000), run: c_parse::c06,
        rule: "a case is a random grammar where every rule has a property name of its own, with texts; each value is recomputed from the source it covers; non-trivial as for C01",
        assumptions: &["numerals have at most 15 digits and exponents at most 2, beyond which read_token rounds"],
        need: &["bools checked", "numbers checked", "quoted strings checked", "raw texts checked"],
    },
    Check {
        id: "C07", cases: (600000, 60000000), run: c_parse::c07,
        rule: "a case is a random grammar with texts it rejects; the error is compared with every failure the model met; non-trivial as for C01",
        assumptions: &["the model in interp.rs lists the failures"],
        need: &["errors checked", "errors deeper than where reading stopped"],
    },
    Check {
        id: "C08", cases: (400000, 40000000), run: c_out::c08,
        rule: "a case is a text with an error range, from a parse or at random, and a writer that is interrupted or fails; non-trivial: the text is longer than one line or has multi-byte characters",
        assumptions: &["a report as the documentation shows it: line,column in characters, the line, a mark under it"],
        need: &["reports compared", "reports of parses", "multi-byte texts", "writes that failed", "interrupted writes"],
    },
    Check {
        id: "C09", cases: (120000, 12000000), run: c_total::c09,
        rule: "a case is hostile grammar text (soup, deep nesting, rings of rules, chains, mutations), a large document or grammar, or a random grammar with hostile documents; non-trivial: more than a few bytes",
        assumptions: &["rules that repeat without progress, refer to themselves first while reading, or nest until the stack is full are left out", "20 s of processor time for a case that takes milliseconds is taken for a hang"],
        need: &["hostile grammar texts rejected", "hostile grammar texts accepted", "hostile documents read", "large documents accepted", "large documents rejected"],
    },
    Check {
        id: "C10", cases: (100000, 10000000), run: c_gram::c10,
        rule: "a case is grammar text, valid, mutated or hostile, read by the built-in rules and by what the self-syntax loads as, repeatedly; non-trivial: a text of more than one rule",
        assumptions: &[],
        need: &["grammar texts accepted", "grammar texts rejected"],
    },
    Check {
        id: "C11", cases: (400000, 40000000), run: c_gram::c11,
        rule: "a case is a grammar in an older form of the syntax, loaded through that form and read back; non-trivial: more than one rule",
        assumptions: &["the older forms are those that the files in assets define"],
        need: &["grammars read back: 1.0", "grammars read back: older", "documents read"],
    },
    Check {
        id: "C12", cases: (1200000, 120000000), run: c_out::c12,
        rule: "a case is meta data, random, from a parse or unbalanced, and a writer that is interrupted or fails; non-trivial: the meta data has a node or a value that needs care",
        assumptions: &["the JSON reader in c_out.rs, written from RFC 8259"],
        need: &["trees read back", "values read back", "strings read back", "unbalanced meta data written", "writes that failed"],
    },
    Check {
        id: "C13", cases: (700000, 70000000), run: c_shape::c13,
        rule: "a case is a grammar of lines with texts of random indention, or an outline whose tree is known; non-trivial: more than one line",
        assumptions: &["with tabs, only settings that align to the first line"],
        need: &["lines read", "outlines read", "outlines with tabs", "lines ended by indention"],
    },
    Check {
        id: "C14", cases: (150000, 15000000), run: c_hist::c14,
        rule: "a case is a history of readings of several documents with several syntaxes, with failures and loads in between, or 2 to 8 threads that share syntaxes, or new processes, or two loads of the same rules; non-trivial: something was read or reported",
        assumptions: &[],
        need: &["readings repeated", "readings in threads", "switches between threads observed", "first uses at once", "equal syntaxes compared", "different syntaxes compared"],
    },
    Check {
        id: "C15", cases: (800000, 80000000), run: c_data::c15,
        rule: "a case is meta data with a random walk of searches over it, compared with the same walk over a list; non-trivial: at least one step found something",
        assumptions: &[],
        need: &["found", "not found"],
    },
    Check {
        id: "C16", cases: (100000, 10000000), run: c_data::c16,
        rule: "a case is meta data of a grammar, whole, changed or unbalanced, converted, and walked with the cursor; non-trivial: more than one item",
        assumptions: &[],
        need: &["conversions of everything", "conversions that fail", "conversions that leave something out", "cursor steps"],
    },
    Check {
        id: "C17", cases: (200000, 20000000), run: c_gram::c17,
        rule: "a case is a random grammar text with known numbers and a document it rejects; non-trivial: the error carries a number",
        assumptions: &[],
        need: &["errors with the number of a rule", "numbers traced to the node"],
    },
    Check {
        id: "C18", cases: (250000, 25000000), run: c_hist::c18,
        rule: "a case is a grammar text and documents, whole or broken, given to every entry point, one in 60 through files and processes; non-trivial: more than a few bytes",
        assumptions: &[],
        need: &["documents accepted by all", "documents rejected by all", "load errors compared", "parse errors compared", "processes", "JSON on standard output compared", "reports on standard error compared"],
    },
    Check {
        id: "C19", cases: (80000, 8000000), run: c_gram::c19,
        rule: "a case is a grammar printed plainly, in another layout, with comments, and with reused strings, and documents read with each; non-trivial: more than one rule",
        assumptions: &["the reader of grammar text in reader.rs"],
        need: &["with another layout", "with comments", "with reused strings", "documents read both ways", "undefined strings reported"],
    },
    Check {
        id: "C20", cases: (600000, 60000000), run: c_gram::c20,
        rule: "a case is a grammar of nodes with the same, later and undefined names, with texts; non-trivial: a reference was followed",
        assumptions: &["the model in interp.rs"],
        need: &["references to later nodes", "references to a name with several nodes", "undefined references reported"],
    },
    Check {
        id: "C21", cases: (200000, 20000000), run: c_shape::c21,
        rule: "a case is a grammar read with and without attempts that are given up, and rules read alone from a state that is known; non-trivial as for C01",
        assumptions: &[],
        need: &["attempts given up with meta data", "accepted both ways", "rejected both ways", "rules that failed alone"],
    },
    Check {
        id: "C22", cases: (250000, 25000000), run: c_shape::c22,
        rule: "a case is a list with a known number of items and separators, read by repeated, separated, optional and line rules; non-trivial: at least one item",
        assumptions: &[],
        need: &["items counted", "separated lists", "repeated lists", "lists rejected", "lists with separators that may be empty", "optional items"],
    },
];

fn find(id: &str) -> &'static Check {
    match CHECKS.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => { eprintln!("no check {}", id); std::process::exit(2) }
    }
}

fn main() {
    fw::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match &arg(1)[..] {
        "check" => fw::check_main(find(&arg(2))),
        "worker" => fw::worker_main(find(&arg(2)), num(3), num(4), num(5), num(6), arg(7) == "thorough", arg(8).into(), num(9), num(10)),
        "case" => {
            let out = a.get(6).map(|x| x.into());
            fw::case_main(find(&arg(2)), num(3), num(4), arg(5) == "thorough", out)
        }
        // A file that a check left behind: the same case again.
        "replay" => {
            let t = std::fs::read_to_string(arg(2)).unwrap_or_default();
            let field = |k: &str| -> String {
                let tag = format!(" \"{}\": ", k);
                t.lines().find_map(|l| l.strip_prefix(&tag[..])).unwrap_or("").trim_end_matches(',').trim_matches('"').to_string()
            };
            let n = |k: &str| field(k).parse::<u64>().unwrap_or_else(|_| { eprintln!("not a replay file"); std::process::exit(2) });
            match fw::case_main(find(&field("property")), n("case"), n("seed"), field("tier") == "thorough", None) {
                0 => 0,
                _ => { println!("VIOLATION property={} replay={}", field("property"), arg(2)); 1 }
            }
        }
        "aux" => c_hist::aux(&a[2..]),
        _ => { eprintln!("usage: mon check ID | case ID N SEED TIER"); 2 }
    };
    std::process::exit(code);
}
