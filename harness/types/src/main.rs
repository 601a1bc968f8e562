//! Replays behaviours of AperMessages.tla on derived codecs and records messages of derived codecs
//! for AperMessagesTrace.tla.  The types are generated (lib/universe.py), TYPES_RS names the file.
//!
//!   types-harness replay UNIVERSE FILE
//!   types-harness record UNIVERSE JOBS
#![allow(dead_code, non_camel_case_types)]

use asn1_codecs::aper::{decode, encode, AperCodec, AperCodecData, AperCodecError};
use bitvec::prelude::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub trait J: Sized {
    fn from(v: &Value) -> Option<Self>;
    fn to(&self) -> Value;
}

#[allow(unused_imports, unused_variables, unreachable_patterns, unreachable_code, clippy::all)]
mod types {
    use super::*;
    include!(env!("TYPES_RS"));
}

// ---------------------------------------------------------------- values

fn magnitude(v: &Value) -> Option<u128> {
    let mut m: u128 = 0;
    for o in v["m"].as_array()? {
        if m >> 120 != 0 {
            return None;
        }
        m = (m << 8) | o.as_u64()? as u128;
    }
    Some(m)
}
pub fn jint(v: &Value) -> Option<i128> {
    let m = magnitude(v)?;
    if v["n"].as_bool()? {
        if m <= 1 << 127 { Some((m as i128).wrapping_neg()) } else { None }
    } else {
        i128::try_from(m).ok()
    }
}
pub fn ju128(v: &Value) -> Option<u128> {
    if v["n"].as_bool()? { None } else { magnitude(v) }
}
fn parts(neg: bool, m: u128) -> Value {
    let m = m.to_be_bytes();
    let first = m.iter().position(|b| *b != 0).unwrap_or(16);
    json!({"n": neg, "m": m[first..].to_vec()})
}
pub fn int_j(v: i128) -> Value {
    parts(v < 0, v.unsigned_abs())
}
pub fn u128_j(v: u128) -> Value {
    parts(false, v)
}
pub fn joctets(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|o| o.as_u64().unwrap() as u8).collect()
}
pub fn jbits(v: &Value) -> BitVec<u8, Msb0> {
    v.as_array().unwrap().iter().map(|o| o.as_u64().unwrap() == 1).collect()
}
pub fn bits_j(b: &BitSlice<u8, Msb0>) -> Value {
    Value::from(b.iter().map(|b| if *b { 1 } else { 0 }).collect::<Vec<u8>>())
}

// ---------------------------------------------------------------- the calls

pub struct Entry {
    pub enc: fn(&Value, &mut AperCodecData) -> Option<Result<(), AperCodecError>>,
    pub dec: fn(&mut AperCodecData) -> Result<Value, AperCodecError>,
}
pub fn enc<T: J + AperCodec>(v: &Value, data: &mut AperCodecData) -> Option<Result<(), AperCodecError>> {
    let x = T::from(v)?;
    // the conversions are faithful
    let mut back = x.to();
    if back != *v {
        back["differs"] = v.clone();
        panic!("conversion: {}", back);
    }
    Some(x.encode(data))
}
pub fn dec<T: J + AperCodec<Output = T>>(data: &mut AperCodecData) -> Result<Value, AperCodecError> {
    T::decode(data).map(|x| x.to())
}

fn message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}
fn remaining(data: &mut AperCodecData) -> usize {
    let mut n = 0;
    while decode::decode_bool(data).is_ok() {
        n += 1;
    }
    n
}
fn total(data: &mut AperCodecData) -> usize {
    data.seek(0);
    let n = remaining(data);
    data.seek(0);
    n
}

/// {"ok", "len", "bytes"} or {"panic"}; None when the type cannot hold the value.
fn send(e: &Entry, v: &Value, lead: usize) -> Option<Value> {
    let mut data = AperCodecData::new();
    for i in 1..=lead {
        encode::encode_bool(&mut data, i % 2 == 1).unwrap();
    }
    match catch_unwind(AssertUnwindSafe(|| (e.enc)(v, &mut data))) {
        Err(p) => Some(json!({ "panic": message(p) })),
        Ok(None) => None,
        Ok(Some(Err(_))) => Some(json!({"ok": false, "len": 0})),
        Ok(Some(Ok(()))) => {
            let len = total(&mut data);
            let mut bytes = data.into_bytes();
            if len % 8 != 0 {
                *bytes.last_mut().unwrap() &= 0xffu8 << (8 - len % 8);
            }
            Some(json!({"ok": true, "len": len, "bytes": bytes}))
        }
    }
}

/// {"ok", "v", "p"} or {"panic"}
fn receive(e: &Entry, bytes: &[u8], lead: usize, key: &Value) -> Value {
    let mut data = AperCodecData::from_slice(bytes);
    for _ in 0..lead {
        if decode::decode_bool(&mut data).is_err() {
            return json!({"panic": "lead"});
        }
    }
    if let Some(k) = key.as_array().unwrap().first() {
        data.set_key(jint(k).unwrap());
    }
    let all = bytes.len() * 8;
    match catch_unwind(AssertUnwindSafe(|| {
        let r = (e.dec)(&mut data);
        (r, remaining(&mut data))
    })) {
        Err(p) => json!({ "panic": message(p) }),
        Ok((Err(_), _)) => json!({"ok": false}),
        Ok((Ok(v), left)) => json!({"ok": true, "v": v, "p": all - left}),
    }
}

fn check(u: &Value, table: &[Entry], b: &Value) -> Option<Value> {
    let t = b["t"].as_u64().unwrap() as usize - 1;
    let k = b["k"].as_u64().unwrap() as usize - 1;
    let lead = b["lead"].as_u64().unwrap() as usize;
    let ty = &u["types"][t];
    let differ = |what: &str, spec: &Value, real: Value| {
        let v = if b["mode"] == "wire" { &Value::Null } else { &ty["vals"][k] };
        Some(json!({"what": what, "spec": spec, "real": real, "behaviour": b, "ty": ty["ty"], "key": ty["key"], "value": v}))
    };
    if b["mode"] == "lib" {
        let v = &ty["vals"][k];
        let whole = b["fault"] == json!([0, 0]);
        match send(&table[t], v, lead) {
            None => return differ("hold", &b["sent"], Value::Null),
            Some(r) => {
                if r["ok"] != b["sent"]["ok"] || r["len"] != b["sent"]["len"] || (r["ok"] == true && whole && r["bytes"] != b["bytes"]) {
                    return differ("encode", &json!({"sent": b["sent"], "bytes": b["bytes"]}), r);
                }
                if r["ok"] == false {
                    return None;
                }
            }
        }
    }
    let real = receive(&table[t], &joctets(&b["bytes"]), lead, &ty["key"]);
    if real != b["out"] {
        return differ("decode", &b["out"], real);
    }
    None
}

static HEARTBEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
fn watch(limit_s: u64) {
    std::thread::spawn(move || {
        let mut last = (HEARTBEAT.load(Ordering::SeqCst), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = HEARTBEAT.load(Ordering::SeqCst);
            if now == u64::MAX {
                return;
            }
            last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
            if last.1 >= limit_s {
                let case: Value = serde_json::from_str(&CURRENT.lock().unwrap()).unwrap_or(Value::Null);
                println!("{}", json!({"what": "hang", "behaviour": case}));
                std::io::stdout().flush().unwrap();
                std::process::exit(0);
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    watch(30);
    let u: Value = serde_json::from_reader(std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap())).unwrap();
    let table = types::table();
    let (mut n, mut bad) = (0u64, 0u64);
    for line in std::io::BufReader::new(std::fs::File::open(&args[3]).unwrap()).lines() {
        let line = line.unwrap();
        let b: Value = serde_json::from_str(&line).unwrap();
        *CURRENT.lock().unwrap() = line;
        HEARTBEAT.fetch_add(1, Ordering::SeqCst);
        n += 1;
        if args[1] == "replay" {
            if let Some(m) = check(&u, &table, &b) {
                bad += 1;
                if bad <= 50 {
                    println!("{}", m);
                }
            }
        } else {
            record(&u, &table, &b);
        }
    }
    if args[1] == "replay" {
        println!("{}", json!({"replayed": n, "mismatches": bad}));
    }
    HEARTBEAT.store(u64::MAX, Ordering::SeqCst);
}

/// A job: {"t", "lead", "v": [] or [value], "cut", "flip", "bytes"}; prints the recorded trace.
fn record(u: &Value, table: &[Entry], b: &Value) {
    let t = b["t"].as_u64().unwrap() as usize - 1;
    let lead = b["lead"].as_u64().unwrap() as usize;
    let mut bytes = joctets(&b["bytes"]);
    let mut fault = json!([0, 0]);
    let mut sent = json!({"ok": false, "len": 0});
    if let Some(v) = b["v"].as_array().unwrap().first() {
        match send(&table[t], v, lead) {
            None => return,
            Some(r) => {
                if r["ok"] == true {
                    bytes = joctets(&r["bytes"]);
                    let cut = b["cut"].as_u64().unwrap() as usize;
                    let flip = b["flip"].as_u64().unwrap() as usize;
                    if cut > 0 && (bytes.len() - cut.min(bytes.len())) * 8 >= lead {
                        bytes.truncate(bytes.len() - cut.min(bytes.len()));
                        fault[0] = json!(cut);
                    }
                    if flip > 0 && flip <= bytes.len() * 8 && bytes.len() * 8 - flip >= lead {
                        let p = bytes.len() * 8 - flip;
                        bytes[p / 8] ^= 0x80 >> (p % 8);
                        fault[1] = json!(flip);
                    }
                }
                sent = r;
            }
        }
    } else {
        if bytes.len() * 8 < lead {
            return;
        }
        fault = json!([-1, 0]);
    }
    let out = if b["v"] == json!([]) || sent["ok"] == true { receive(&table[t], &bytes, lead, &u["types"][t]["key"]) } else { json!({"ok": false}) };
    let sent = if sent.get("panic").is_some() { sent } else { json!({"ok": sent["ok"], "len": sent["len"]}) };
    println!("{}", json!({"t": b["t"], "lead": lead, "v": b["v"], "sent": sent, "fault": fault, "bytes": bytes, "out": out}));
}
