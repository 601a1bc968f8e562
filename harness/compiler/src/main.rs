//! Runs the compiler on texts given by the checks, many in one process.
//!
//!   compiler-harness tokens FILE      lines {"n": 1, "t": [code points]}
//!   compiler-harness compile FILE     lines {"n": 1, "files": ["text", ...]}
//!
//!   compiler-harness session FILE     lines {"n": 1, "files": ["text", ...], "log": [["new", slot, file], ...]}
//!
//! The first one prints, for each text, a line with its tokens. The second one does what the binary
//! hampi-asn1c does. The generated code is printed by the compiler itself, between marker lines;
//! the last one carries the verdict: ok, err, panic or hang.

use asn1_compiler::{parser::parse, tokenizer::tokenize, Asn1Compiler};
use serde_json::{json, Value};
use std::io::{BufRead, Cursor, Write};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

static CURRENT: AtomicU64 = AtomicU64::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);
const LIMIT: u64 = 100; // of ticks of 100ms

fn watch() {
    let mut seen = (0, 0);
    loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = CURRENT.load(Ordering::SeqCst);
        if now == u64::MAX {
            return;
        }
        let t = TICKS.fetch_add(1, Ordering::SeqCst);
        if now != seen.0 {
            seen = (now, t);
        } else if now != 0 && t - seen.1 > LIMIT {
            println!("\n\u{1}END {} hang", now);
            std::io::stdout().flush().unwrap();
            std::process::exit(3);
        }
    }
}

fn between<'a>(s: &'a str, from: &str, to: &str) -> Option<(&'a str, &'a str)> {
    let i = s.find(from)? + from.len();
    let j = i + s[i..].find(to)?;
    Some((&s[i..j], &s[j..]))
}

// What is in a token can only be seen in its Debug representation.
fn token(debug: &str) -> Option<Value> {
    let (kind, rest) = between(debug, "type: ", ",")?;
    let (line, rest) = between(rest, "line: ", ",")?;
    let (column, rest) = between(rest, "column: ", " }")?;
    let text = &rest[rest.find("text: ")? + 6..];
    let text = text.strip_suffix(" }")?;
    Some(json!([kind, line.parse::<u64>().ok()?, column.parse::<u64>().ok()?, unescape(text)?]))
}

// The code points of a string literal.
fn unescape(s: &str) -> Option<Vec<u32>> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = vec![];
    let mut chars = s.chars();
    while let Some(c) = chars.next() {
        if c != '\\' {
            out.push(c as u32);
            continue;
        }
        out.push(match chars.next()? {
            'n' => 10,
            't' => 9,
            'r' => 13,
            '0' => 0,
            'u' => {
                let hex: String = chars.by_ref().take_while(|c| *c != '}').filter(|c| *c != '{').collect();
                u32::from_str_radix(&hex, 16).ok()?
            }
            c => c as u32,
        });
    }
    Some(out)
}

fn tokens(case: &Value) -> Value {
    let text: String = case["t"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
    let n = &case["n"];
    match catch_unwind(|| tokenize(Cursor::new(text.into_bytes()))) {
        Err(_) => json!({"n": n, "v": "panic"}),
        Ok(Err(_)) => json!({"n": n, "v": "err"}),
        Ok(Ok(tokens)) => {
            let seen: Option<Vec<Value>> = tokens.iter().map(|t| token(&format!("{:?}", t))).collect();
            match seen {
                Some(seen) => json!({"n": n, "v": "ok", "r": seen}),
                None => json!({"n": n, "v": "unreadable", "debug": format!("{:?}", tokens)}),
            }
        }
    }
}

fn add(compiler: &mut Asn1Compiler, file: &str) -> Result<(), String> {
    let mut tokens = tokenize(Cursor::new(file.to_string().into_bytes())).map_err(|e| e.to_string())?;
    let mut modules = parse(&mut tokens).map_err(|e| e.to_string())?;
    while let Some(module) = modules.pop() {
        if !compiler.add_module(module) {
            return Err("Module already defined".to_string());
        }
    }
    Ok(())
}

// Compilers that live side by side. One that failed is gone.
fn session(n: u64, files: &[String], log: &[Value]) {
    let mut slots: HashMap<u64, Asn1Compiler> = HashMap::new();
    for (k, ev) in log.iter().enumerate() {
        let (what, slot, file) = (ev[0].as_str().unwrap(), ev[1].as_u64().unwrap(), ev[2].as_u64().unwrap());
        println!("\u{1}BEGIN {}", n * 1000 + k as u64);
        let mut mine = slots.remove(&slot);
        let done = catch_unwind(AssertUnwindSafe(|| match (what, &mut mine) {
            ("new", _) => {
                mine = Some(Asn1Compiler::new());
                Ok(())
            }
            (_, None) => Err("gone".to_string()),
            ("file", Some(c)) => add(c, &files[file as usize - 1]),
            ("resolve", Some(c)) => c.resolve_modules().map_err(|e| e.to_string()),
            (_, Some(c)) => c.generate().map_err(|e| e.to_string()),
        }));
        if let (Ok(Ok(())), Some(c)) = (&done, mine) {
            slots.insert(slot, c);
        }
        println!("\n\u{1}END {} {}", n * 1000 + k as u64, verdict(done));
    }
}

fn verdict(r: std::thread::Result<Result<(), String>>) -> String {
    match r {
        Err(_) => "panic".to_string(),
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err {}", e.chars().take(200).collect::<String>().replace('\n', " ")),
    }
}

// As hampi-asn1c does.
fn compile(files: &[String]) -> Result<(), String> {
    let mut compiler = Asn1Compiler::new();
    for file in files {
        add(&mut compiler, file)?;
    }
    compiler.resolve_modules().map_err(|e| e.to_string())?;
    compiler.generate().map_err(|e| e.to_string())
}

fn work(mode: &str, path: &str) {
    let out = std::io::stdout();
    for line in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let n = case["n"].as_u64().unwrap();
        CURRENT.store(n, Ordering::SeqCst);
        if mode == "tokens" {
            writeln!(out.lock(), "{}", tokens(&case)).unwrap();
            continue;
        }
        let files: Vec<String> = case["files"].as_array().unwrap().iter().map(|f| f.as_str().unwrap().to_string()).collect();
        if mode == "session" {
            session(n, &files, case["log"].as_array().unwrap());
            continue;
        }
        println!("\u{1}BEGIN {}", n);
        let done = catch_unwind(|| compile(&files));
        println!("\n\u{1}END {} {}", n, verdict(done));
    }
    CURRENT.store(u64::MAX, Ordering::SeqCst);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(watch);
    let (mode, path) = (args[1].clone(), args[2].clone());
    // the stack that a main thread has
    let worker = std::thread::Builder::new().stack_size(8 << 20).spawn(move || work(&mode, &path)).unwrap();
    worker.join().unwrap();
}
