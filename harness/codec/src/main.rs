//! Replays behaviours of the specification (AperCodec.tla) on the codec library, and records
//! behaviours of the codec library for validation against the specification (AperTrace.tla).
//!
//!   codec-harness replay FILE          behaviours, one JSON object per line; prints mismatches
//!   codec-harness record SEED N PROFILE   prints N recorded behaviours
//!
//! Only the public interface of the library is used.  The number of bits in a buffer and the
//! reader's position are observed by reading on to the end.

use asn1_codecs::aper::{decode, encode, AperCodecData};
use bitvec::prelude::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

mod record;

// ---------------------------------------------------------------- values

pub fn int(v: &Value) -> i128 {
    let neg = v["n"].as_bool().unwrap();
    let mut m: u128 = 0;
    for o in v["m"].as_array().unwrap() {
        m = (m << 8) | o.as_u64().unwrap() as u128;
    }
    if neg {
        (m as i128).wrapping_neg()
    } else {
        m as i128
    }
}

pub fn to_int(v: i128) -> Value {
    let m = v.unsigned_abs().to_be_bytes();
    let first = m.iter().position(|b| *b != 0).unwrap_or(16);
    json!({"n": v < 0, "m": m[first..].to_vec()})
}

fn opt(v: &Value) -> Option<i128> {
    v.as_array().unwrap().first().map(int)
}

fn octets(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|o| o.as_u64().unwrap() as u8).collect()
}

fn bits(v: &Value) -> BitVec<u8, Msb0> {
    v.as_array().unwrap().iter().map(|o| o.as_u64().unwrap() == 1).collect()
}

fn from_bits(b: &BitSlice<u8, Msb0>) -> Value {
    Value::from(b.iter().map(|b| if *b { 1 } else { 0 }).collect::<Vec<u8>>())
}

// ---------------------------------------------------------------- observation

/// Bits from the reader's position to the end.
fn remaining(data: &mut AperCodecData) -> usize {
    let mut n = 0;
    while decode::decode_bool(data).is_ok() {
        n += 1;
    }
    n
}

/// Number of bits in the buffer. (Writers do not use the reader's position.)
pub fn total(data: &mut AperCodecData) -> usize {
    data.seek(0);
    let n = remaining(data);
    data.seek(0);
    n
}

fn position(data: &mut AperCodecData, total: usize) -> usize {
    let p = total - remaining(data);
    data.seek(p);
    p
}

// ---------------------------------------------------------------- the calls

#[derive(Debug)]
pub enum Outcome {
    Value(Value),
    Refused,
    Panic(String),
}

pub fn do_encode(data: &mut AperCodecData, o: &Value) -> Outcome {
    let res = catch_unwind(AssertUnwindSafe(|| {
        let (lb, ub) = (opt(&o["lb"]), opt(&o["ub"]));
        let ext = o["ext"].as_bool().unwrap();
        let xt = o["xt"].as_bool().unwrap();
        let v = &o["v"];
        let text = |v: &Value| String::from_utf8(octets(v)).unwrap();
        match o["op"].as_str().unwrap() {
            "int" => encode::encode_integer(data, lb, ub, ext, int(v), xt),
            "enum" => encode::encode_enumerated(data, lb, ub, ext, int(v), xt),
            "idx" => encode::encode_choice_idx(data, lb.unwrap(), ub.unwrap(), ext, int(v), xt),
            "bool" => encode::encode_bool(data, v.as_bool().unwrap()),
            "hdr" => encode::encode_sequence_header(data, ext, &bits(v), xt),
            "len" => encode::encode_length_determinent(data, lb, ub, false, v.as_u64().unwrap() as usize),
            "nslen" => encode::encode_length_determinent(data, None, None, true, v.as_u64().unwrap() as usize),
            "bit" => encode::encode_bitstring(data, lb, ub, ext, &bits(v), xt),
            "oct" => encode::encode_octetstring(data, lb, ub, ext, &octets(v), xt),
            "vis" => encode::encode_visible_string(data, lb, ub, ext, &text(v), xt),
            "prt" => encode::encode_printable_string(data, lb, ub, ext, &text(v), xt),
            "utf" => encode::encode_utf8_string(data, lb, ub, ext, &text(v), xt),
            "app" => {
                let mut other = AperCodecData::new();
                for b in bits(v) {
                    encode::encode_bool(&mut other, b)?;
                }
                assert_eq!(other.length_in_bytes(), (bits(v).len() + 7) / 8);
                data.append_aligned(&mut other);
                Ok(())
            }
            "fill" => {
                for b in bits(v) {
                    encode::encode_bool(data, b)?;
                }
                Ok(())
            }
            other => panic!("unknown operation {}", other),
        }
    }));
    match res {
        Ok(Ok(())) => Outcome::Value(Value::Null),
        Ok(Err(_)) => Outcome::Refused,
        Err(e) => Outcome::Panic(message(e)),
    }
}

pub fn do_decode(data: &mut AperCodecData, o: &Value) -> Outcome {
    let res = catch_unwind(AssertUnwindSafe(|| {
        let (lb, ub) = (opt(&o["lb"]), opt(&o["ub"]));
        let ext = o["ext"].as_bool().unwrap();
        let pair = |(v, x): (i128, bool)| json!({"v": to_int(v), "x": x});
        let nbits = |data: &mut AperCodecData, n: usize| -> Result<Value, asn1_codecs::aper::AperCodecError> {
            let mut v = vec![];
            for _ in 0..n {
                v.push(if decode::decode_bool(data)? { 1 } else { 0 });
            }
            Ok(Value::from(v))
        };
        match o["op"].as_str().unwrap() {
            "int" => decode::decode_integer(data, lb, ub, ext).map(pair),
            "enum" => decode::decode_enumerated(data, lb, ub, ext).map(pair),
            "idx" => decode::decode_choice_idx(data, lb.unwrap(), ub.unwrap(), ext).map(pair),
            "bool" => decode::decode_bool(data).map(Value::from),
            "hdr" => decode::decode_sequence_header(data, ext, o["v"].as_array().unwrap().len())
                .map(|(b, x)| json!({"v": from_bits(&b), "x": x})),
            "len" => decode::decode_length_determinent(data, lb, ub, false).map(Value::from),
            "nslen" => decode::decode_length_determinent(data, None, None, true).map(Value::from),
            "bit" => decode::decode_bitstring(data, lb, ub, ext).map(|b| from_bits(&b)),
            "oct" => decode::decode_octetstring(data, lb, ub, ext).map(Value::from),
            "vis" => decode::decode_visible_string(data, lb, ub, ext).map(|s| Value::from(s.into_bytes())),
            "prt" => decode::decode_printable_string(data, lb, ub, ext).map(|s| Value::from(s.into_bytes())),
            "utf" => decode::decode_utf8_string(data, lb, ub, ext).map(|s| Value::from(s.into_bytes())),
            "align" => data.decode_align().map(|_| Value::from(0)),
            "app" => {
                data.decode_align()?;
                nbits(data, (o["v"].as_array().unwrap().len() + 7) / 8 * 8)
            }
            "fill" => nbits(data, o["v"].as_array().unwrap().len()),
            other => panic!("unknown operation {}", other),
        }
    }));
    match res {
        Ok(Ok(v)) => Outcome::Value(v),
        Ok(Err(_)) => Outcome::Refused,
        Err(e) => Outcome::Panic(message(e)),
    }
}

fn message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

// ---------------------------------------------------------------- replay

/// Steps one behaviour of the specification through the library; the first difference, if any.
fn replay(b: &Value) -> Option<Value> {
    let skip = b["skip"].as_u64().unwrap() as usize;
    let cut = b["fault"][0].as_i64().unwrap();
    let flip = b["fault"][1].as_i64().unwrap();
    let log = b["log"].as_array().unwrap();
    let bytes = octets(&b["bytes"]);
    let differ = |what: &str, i: usize, spec: Value, real: Value| {
        Some(json!({"what": what, "step": i, "spec": spec, "real": real, "behaviour": b}))
    };

    if cut >= 0 {
        let mut data = AperCodecData::new();
        for i in 1..=skip {
            encode::encode_bool(&mut data, i % 2 == 1).unwrap();
        }
        let mut refused = false;
        for (i, l) in log.iter().enumerate() {
            let before = data.get_inner().unwrap();
            let len_before = total(&mut data);
            let spec = json!({"ok": l["ok"], "len": l["len"]});
            match do_encode(&mut data, &l["o"]) {
                Outcome::Panic(m) => return differ("encode", i, spec, json!({ "panic": m })),
                Outcome::Refused => {
                    if l["ok"] == true {
                        return differ("encode", i, spec, json!({"ok": false}));
                    }
                    refused = true;
                    break;
                }
                Outcome::Value(_) => {
                    let len = total(&mut data);
                    if l["ok"] != true || l["len"].as_u64().unwrap() as usize != len {
                        return differ("encode", i, spec, json!({"ok": true, "len": len, "bytes": data.get_inner().unwrap()}));
                    }
                    // Nothing that was written before is touched.
                    let after = data.get_inner().unwrap();
                    if before.view_bits::<Msb0>()[..len_before] != after.view_bits::<Msb0>()[..len_before] {
                        return differ("append", i, json!(before), json!(after));
                    }
                }
            }
        }
        if refused {
            return None;
        }
        if cut == 0 && flip == 0 {
            let len = total(&mut data);
            let mut real = data.into_bytes();
            // bits after the last one carry nothing
            if len % 8 != 0 {
                let keep = 0xffu8 << (8 - len % 8);
                *real.last_mut().unwrap() &= keep;
            }
            if real != bytes {
                return differ("bytes", log.len(), json!(bytes), json!(real));
            }
        }
    }

    let all = bytes.len() * 8;
    let mut data = AperCodecData::from_slice(&bytes);
    for _ in 0..skip {
        if decode::decode_bool(&mut data).is_err() {
            return differ("skip", 0, Value::Null, Value::Null);
        }
    }
    for (i, s) in b["out"].as_array().unwrap().iter().enumerate() {
        match do_decode(&mut data, &log[i]["o"]) {
            Outcome::Panic(m) => return differ("decode", i, s.clone(), json!({ "panic": m })),
            Outcome::Refused => {
                if s["ok"] == true {
                    return differ("decode", i, s.clone(), json!({"ok": false}));
                }
                return match catch_unwind(AssertUnwindSafe(|| position(&mut data, all))) {
                    Ok(_) => None,
                    Err(e) => differ("position", i, s.clone(), json!({ "panic": message(e) })),
                };
            }
            Outcome::Value(v) => {
                let p = match catch_unwind(AssertUnwindSafe(|| position(&mut data, all))) {
                    Ok(p) => p,
                    Err(e) => return differ("position", i, s.clone(), json!({ "panic": message(e) })),
                };
                if s["ok"] != true || s["v"][0] != v || s["p"].as_u64().unwrap() as usize != p {
                    return differ("decode", i, s.clone(), json!({"ok": true, "v": v, "p": p}));
                }
            }
        }
    }
    None
}

/// Ends the process when one case does not: a call that never returns is reported as such.
pub static HEARTBEAT: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub fn watch(limit_s: u64) {
    std::thread::spawn(move || {
        let mut last = (HEARTBEAT.load(Ordering::SeqCst), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = HEARTBEAT.load(Ordering::SeqCst);
            if now == u64::MAX {
                return;
            }
            last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
            if last.1 >= limit_s {
                let case: Value = serde_json::from_str(&CURRENT.lock().unwrap()).unwrap_or(Value::Null);
                println!("{}", json!({"what": "hang", "behaviour": case}));
                std::io::stdout().flush().unwrap();
                std::process::exit(0);
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    watch(30);
    match args[1].as_str() {
        "replay" => {
            let file = std::fs::File::open(&args[2]).unwrap();
            let mut n = 0u64;
            let mut bad = 0u64;
            for line in std::io::BufReader::new(file).lines() {
                let line = line.unwrap();
                let b: Value = serde_json::from_str(&line).unwrap();
                *CURRENT.lock().unwrap() = line;
                HEARTBEAT.fetch_add(1, Ordering::SeqCst);
                n += 1;
                if let Some(m) = replay(&b) {
                    bad += 1;
                    if bad <= 50 {
                        println!("{}", m);
                    }
                }
            }
            println!("{}", json!({"replayed": n, "mismatches": bad}));
        }
        "record" => {
            let seed: u64 = args[2].parse().unwrap();
            let n: usize = args[3].parse().unwrap();
            record::record(seed, n, &args[4]);
        }
        _ => std::process::exit(2),
    }
    HEARTBEAT.store(u64::MAX, Ordering::SeqCst);
}
