//! Runs the expr! sources compiled into this program (one closure per source, in the file named by
//! MACRO_SRC) and, for comparison, builds the expression the specification reads from each source.
#![allow(unused_parens)]
#[path = "../ast.rs"]
mod ast;
use serde_json::{json, Value};
use std::io::BufRead;

include!(env!("MACRO_SRC"));

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).unwrap();
    let terms: Vec<Value> =
        std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    for (k, f) in cases() {
        let m = std::panic::catch_unwind(|| ast::enc(&f()));
        let t = terms[k].clone();
        let b = if t[0] == "bad" { Ok(json!(["none"])) } else { std::panic::catch_unwind(|| ast::enc(&ast::build(&t))) };
        let out = match (m, b) {
            (Ok(m), Ok(b)) => json!({"k": k, "st": "ok", "r": [m, b], "x": {"rej": false}}),
            (Err(_), Err(_)) => json!({"k": k, "st": "big"}),
            _ => json!({"k": k, "st": "panic", "m": "only one of the macro and the calls panics"}),
        };
        println!("{out}");
    }
}
