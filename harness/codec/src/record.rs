//! Records behaviours of the library on random operations, values, faults and wire strings.

use crate::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    /// A natural number with a random number of bits, often next to a power of two.
    pub fn nat(&mut self, max_bits: u32) -> i128 {
        let k = self.below(max_bits as u64 + 1) as u32;
        if k == 0 {
            return 0;
        }
        let top = 1i128 << (k - 1);
        match self.below(4) {
            0 => top,
            1 => (top - 1) + top,
            2 => top - 1,
            _ => top + ((((self.next() as u128) << 64 | self.next() as u128) & (top as u128 - 1)) as i128),
        }
    }
}

fn op(op: &str, lb: Option<i128>, ub: Option<i128>, ext: bool, v: Value, xt: bool) -> Value {
    let b = |b: Option<i128>| match b {
        Some(x) => json!([to_int(x)]),
        None => json!([]),
    };
    json!({"op": op, "lb": b(lb), "ub": b(ub), "ext": ext, "v": v, "xt": xt})
}

/// Bounds of an INTEGER: lower, upper.
fn bounds(r: &mut Rng) -> (Option<i128>, Option<i128>) {
    let sign = if r.one_in(3) { -1 } else { 1 };
    let lb = match r.below(4) {
        0 => 0,
        1 => sign * r.nat(8),
        2 => sign * r.nat(40),
        _ => sign * r.nat(126),
    };
    match r.below(8) {
        0 => (None, None),
        1 => (Some(lb), None),
        _ => {
            let bits = if r.one_in(2) { 20 } else { 126 };
            let span = r.nat(bits);
            match lb.checked_add(span) {
                Some(ub) => (Some(lb), Some(ub)),
                None => (Some(lb), Some(lb.max(0))),
            }
        }
    }
}

fn value_in(r: &mut Rng, lb: Option<i128>, ub: Option<i128>) -> i128 {
    let pick = |r: &mut Rng| if r.one_in(2) { r.nat(126) } else { -r.nat(126) - 1 };
    match (lb, ub) {
        (Some(l), Some(u)) => {
            if r.one_in(6) {
                // outside
                let d = 1 + r.nat(20);
                if r.one_in(2) { l.checked_sub(d).unwrap_or(i128::MIN) } else { u.checked_add(d).unwrap_or(i128::MAX) }
            } else {
                let span = u - l;
                match r.below(4) {
                    0 => u - r.nat(9).min(span),
                    1 => l + r.nat(9).min(span),
                    _ => l + r.nat(126) % (span.checked_add(1).unwrap_or(i128::MAX)),
                }
            }
        }
        (Some(l), None) => {
            if r.one_in(6) { l.saturating_sub(1 + r.nat(20)) } else { l.saturating_add(r.nat(126)) }
        }
        _ => pick(r),
    }
}

fn sizes(r: &mut Rng) -> (Option<i128>, Option<i128>) {
    match r.below(10) {
        0 => (None, None),
        1 => (Some(r.nat(4)), None),
        2 | 3 => {
            let n = r.nat(6);
            (Some(n), Some(n))
        }
        4 => {
            let l = r.nat(17);
            let s = r.nat(17);
            (Some(l), Some(l + s))
        }
        5 => (None, Some(r.nat(8))),
        _ => {
            let l = r.nat(5);
            let s = r.nat(8);
            (Some(l), Some(l + s))
        }
    }
}

fn size_in(r: &mut Rng, lb: Option<i128>, ub: Option<i128>) -> usize {
    let l = lb.unwrap_or(0);
    let n = match (ub, r.below(8)) {
        (_, 0) => r.nat(8),
        (Some(u), 1) => u + 1,
        (_, 2) => l - 1,
        (Some(u), 3) => u,
        (Some(u), _) => l + r.nat(8) % (u - l + 1),
        (None, _) => l + r.nat(8),
    };
    n.clamp(0, 600) as usize
}

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..n {
        s.push((32 + r.below(95)) as u8 as char);
    }
    s.into_bytes()
}

fn utf8(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    while s.chars().count() < n {
        let c = match r.below(5) {
            0 => r.below(0x80),
            1 => r.below(0x800),
            2 => r.below(0x10000),
            3 => r.below(0x110000),
            _ => 65,
        };
        if let Some(c) = char::from_u32(c as u32) {
            s.push(c);
        }
    }
    s.into_bytes()
}

fn some_op(r: &mut Rng, kinds: &[&str]) -> Value {
    let kind = kinds[r.below(kinds.len() as u64) as usize];
    let ext = r.one_in(3);
    let xt = r.one_in(25);
    match kind {
        "int" => {
            let (lb, ub) = bounds(r);
            let v = value_in(r, lb, ub);
            op(kind, lb, ub, ext, to_int(v), xt)
        }
        "enum" | "idx" => {
            let bits = if r.one_in(6) { 17 } else { 9 };
            let ub = r.nat(bits);
            let v = value_in(r, Some(0), Some(ub));
            op(kind, Some(0), Some(ub), ext, to_int(v), xt)
        }
        "bool" => op(kind, None, None, false, Value::from(r.one_in(2)), false),
        "hdr" => {
            let n = r.below(20);
            let v: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
            op(kind, None, None, ext, Value::from(v), xt)
        }
        "len" => {
            let (lb, ub) = sizes(r);
            let v = if r.one_in(3) { r.nat(18) as usize } else { size_in(r, lb, ub) };
            op(kind, lb, ub, false, Value::from(v), false)
        }
        "nslen" => op(kind, None, None, false, Value::from(r.nat(15) as u64), false),
        "bit" => {
            let (lb, ub) = sizes(r);
            let n = size_in(r, lb, ub);
            let v: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
            op(kind, lb, ub, ext, Value::from(v), xt)
        }
        "oct" => {
            let (lb, ub) = sizes(r);
            let n = size_in(r, lb, ub);
            let v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            op(kind, lb, ub, ext, Value::from(v), xt)
        }
        "vis" | "prt" => {
            let (lb, ub) = sizes(r);
            let n = size_in(r, lb, ub);
            op(kind, lb, ub, ext, Value::from(text(r, n)), xt)
        }
        "utf" => {
            let (lb, ub) = sizes(r);
            let n = size_in(r, lb, ub);
            op(kind, lb, ub, ext, Value::from(utf8(r, n)), xt)
        }
        "app" => {
            let n = 1 + r.below(20);
            let v: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
            op(kind, None, None, false, Value::from(v), false)
        }
        _ => {
            let n = r.below(9);
            let v: Vec<u8> = (0..n).map(|_| r.below(2) as u8).collect();
            op("fill", None, None, false, Value::from(v), false)
        }
    }
}

fn decode_all(bytes: &[u8], skip: usize, log: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    let mut data = AperCodecData::from_slice(bytes);
    for _ in 0..skip {
        if decode::decode_bool(&mut data).is_err() {
            return out;
        }
    }
    let all = bytes.len() * 8;
    for l in log {
        let res = do_decode(&mut data, &l["o"]);
        let pos = catch_unwind(AssertUnwindSafe(|| position(&mut data, all)));
        match (res, pos) {
            (Outcome::Value(v), Ok(p)) => out.push(json!({"ok": true, "v": [v], "p": p})),
            (Outcome::Refused, Ok(p)) => {
                out.push(json!({"ok": false, "v": [], "p": p}));
                break;
            }
            (Outcome::Panic(m), _) => {
                out.push(json!({"ok": false, "v": [], "p": -1, "panic": m}));
                break;
            }
            (_, Err(e)) => {
                out.push(json!({"ok": false, "v": [], "p": -1, "panic": message(e)}));
                break;
            }
        }
    }
    out
}

const ALL: &[&str] = &["int", "int", "enum", "idx", "bool", "hdr", "len", "nslen", "bit", "oct", "vis", "prt", "utf", "app", "fill"];

pub fn record(seed: u64, n: usize, profile: &str) {
    let mut r = Rng::new(seed);
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    let mut parts = profile.split(':');
    let mode = parts.next().unwrap();
    let listed: Vec<&str> = parts.next().map(|s| s.split(',').filter(|x| !x.is_empty()).collect()).unwrap_or_default();
    let kinds: &[&str] = if listed.is_empty() { ALL } else { &listed };
    let max_ops: u64 = parts.next().map(|s| s.parse().unwrap()).unwrap_or(2);
    for _ in 0..n {
        let skip = r.below(8) as usize;
        let line;
        if mode == "wire" {
            // bytes from elsewhere
            let mut log = vec![];
            for _ in 0..1 + r.below(max_ops) {
                let o = some_op(&mut r, kinds);
                log.push(json!({"o": o, "ok": true, "len": 0}));
            }
            let len = 1 + r.nat(5) as usize;
            let bytes: Vec<u8> = (0..len)
                .map(|_| match r.below(3) {
                    0 => r.next() as u8,
                    1 => [0u8, 1, 2, 16, 17, 64, 127, 128, 129, 192, 193, 255][r.below(12) as usize],
                    _ => r.below(20) as u8,
                })
                .collect();
            *CURRENT.lock().unwrap() = json!({"bytes": bytes, "skip": skip, "log": log}).to_string();
            HEARTBEAT.fetch_add(1, Ordering::SeqCst);
            let out = decode_all(&bytes, skip, &log);
            line = json!({"skip": skip, "fault": [-1, 0], "bytes": bytes, "log": log, "out": out});
        } else {
            let mut data = AperCodecData::new();
            for i in 1..=skip {
                encode::encode_bool(&mut data, i % 2 == 1).unwrap();
            }
            let mut log = vec![];
            let mut refused = false;
            let ops: Vec<Value> = (0..1 + r.below(max_ops)).map(|_| some_op(&mut r, kinds)).collect();
            for o in ops {
                *CURRENT.lock().unwrap() = json!({"skip": skip, "log": log, "op": o}).to_string();
                HEARTBEAT.fetch_add(1, Ordering::SeqCst);
                match do_encode(&mut data, &o) {
                    Outcome::Value(_) => {
                        let len = total(&mut data);
                        log.push(json!({"o": o, "ok": true, "len": len}));
                    }
                    Outcome::Refused => {
                        log.push(json!({"o": o, "ok": false, "len": 0}));
                        refused = true;
                        break;
                    }
                    Outcome::Panic(m) => {
                        log.push(json!({"o": o, "ok": true, "len": -1, "panic": m}));
                        refused = true;
                        break;
                    }
                }
            }
            if refused {
                line = json!({"skip": skip, "fault": [0, 0], "bytes": [], "log": log, "out": []});
            } else {
                let len = total(&mut data);
                let mut bytes = data.into_bytes();
                if len % 8 != 0 {
                    *bytes.last_mut().unwrap() &= 0xffu8 << (8 - len % 8);
                }
                let mut fault = json!([0, 0]);
                if mode == "damage" && bytes.len() * 8 > skip + 8 {
                    let cut = r.below(3) as usize;
                    let keep = (bytes.len() - cut.min(bytes.len())).max((skip + 7) / 8);
                    let cut = bytes.len() - keep;
                    bytes.truncate(keep);
                    let mut flips = 0;
                    for _ in 0..r.below(3) {
                        let room = bytes.len() * 8 - skip;
                        if room > 0 {
                            let f = skip + r.below(room as u64) as usize;
                            bytes[f / 8] ^= 0x80 >> (f % 8);
                            flips += 1;
                        }
                    }
                    fault = json!([cut, flips]);
                }
                let out = decode_all(&bytes, skip, &log);
                line = json!({"skip": skip, "fault": fault, "bytes": bytes, "log": log, "out": out});
            }
        }
        writeln!(w, "{}", line).unwrap();
    }
}
