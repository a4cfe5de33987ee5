//! Every format into every target: what each target ends up with.
use crate::guard;
use crate::sink::Drip;
use musli::alloc::System;
use musli::reader::{Reader, SliceReader};
use musli::{Decode, Encode, FixedBytes};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Debug, PartialEq, Encode, Decode)]
struct Rec {
    a: u32,
    s: String,
    v: Vec<u16>,
    m: BTreeMap<u8, String>,
    o: Option<Kind>,
    p: (i64, f32),
}

#[derive(Debug, PartialEq, Encode, Decode)]
enum Kind {
    Unit,
    New(Vec<u8>),
    Named { x: bool, y: char },
}

#[derive(Debug, PartialEq, Encode, Decode)]
#[musli(packed)]
struct Pack {
    a: u8,
    b: u32,
    c: [u8; 5],
}

#[derive(Debug, PartialEq, Encode, Decode)]
struct Bytes {
    #[musli(bytes)]
    b: Vec<u8>,
    n: u64,
}

fn done<T, E>(r: Result<Result<T, E>, String>, v: impl FnOnce(T) -> Vec<u8>) -> Value {
    match r {
        Ok(Ok(t)) => json!({"r": "ok", "v": v(t)}),
        Ok(Err(_)) => json!({"r": "err", "v": []}),
        Err(_) => json!({"r": "panic", "v": []}),
    }
}

fn run_with<T>(v: &Value, x: T) -> Value
where
    T: std::fmt::Debug,
    T: Encode<musli::mode::Binary> + Encode<musli::mode::Text>,
    T: for<'de> Decode<'de, musli::mode::Binary, System> + for<'de> Decode<'de, musli::mode::Text, System>,
{
    let caps: Vec<usize> = v["caps"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    macro_rules! each {
        ($f:ident, $read:tt) => {{
            use musli::$f as f;
            let full = f::to_vec(&x).unwrap();
            let mut out = vec![];
            let mut note = |t: &str, cap: usize, mut o: Value, over: bool| {
                o["t"] = json!(t);
                o["cap"] = json!(cap);
                o["over"] = json!(over);
                out.push(o);
            };
            let mut sizes: Vec<usize> = caps.clone();
            for d in [0, 1, 2] {
                sizes.push((full.len() + d).saturating_sub(1));
            }
            for cap in sizes {
                let mut b = vec![0xEEu8; cap + 64];
                let r = guard(|| f::to_slice(&mut b[..cap], &x));
                let o = done(r, |n| b.get(..n).map(|x| x.to_vec()).unwrap_or_default());
                note("slice", cap, o, b[cap..].iter().any(|x| *x != 0xEE));
                let mut b = vec![0xEEu8; cap + 64];
                let r = guard(|| f::encode(&mut b[..cap], &x));
                let o = done(r, |left| b.get(..cap.wrapping_sub(left)).map(|x| x.to_vec()).unwrap_or_default());
                note("encode", cap, o, b[cap..].iter().any(|x| *x != 0xEE));
                for step in [1, 2, 7, 1000] {
                    let mut d = Drip { data: vec![], cap, step, zero: step == 7, intr: false };
                    let r = guard(|| f::to_writer(&mut d, &x));
                    let keep = d.data.clone();
                    let mut o = done(r, |()| keep);
                    // What the writer holds after a failure is a start of the whole.
                    o["start"] = json!(full.starts_with(&d.data));
                    note("writer", cap, o, false);
                }
            }
            macro_rules! fixed {
                ($n:literal) => {
                    let r = guard(|| f::to_fixed_bytes::<$n, _>(&x));
                    note("fixed", $n, done(r, |b| b.as_slice().to_vec()), false);
                    let mut b = FixedBytes::<$n>::new();
                    let r = guard(|| f::encode(&mut b, &x));
                    let keep = b.as_slice().to_vec();
                    note("fixed", $n, done(r, |()| keep), false);
                };
            }
            fixed!(0);
            fixed!(1);
            fixed!(2);
            fixed!(4);
            fixed!(9);
            fixed!(16);
            fixed!(32);
            fixed!(64);
            fixed!(200);
            let mut w = vec![9, 9];
            let r = guard(|| f::encode(&mut w, &x));
            note("vec", 1_000_000, done(r, |()| w[2..].to_vec()), false);
            let read = each!(@$read f, full, x);
            json!({"full": full, "out": out, "read": read})
        }};
        (@yes $f:ident, $full:ident, $x:ident) => {{
            // Three bytes follow the value: they are what is left of every source.
            let mut data = $full.clone();
            data.extend([1, 2, 3]);
            let want = format!("{:?}", $x);
            let mut out = vec![];
            let mut note = |t: &str, r: Result<Result<T, ()>, String>, left: usize| {
                let o = match r {
                    Ok(Ok(y)) => json!({"t": t, "r": "ok", "same": format!("{y:?}") == want, "left": left}),
                    Ok(Err(_)) => json!({"t": t, "r": "err", "same": false, "left": 0}),
                    Err(_) => json!({"t": t, "r": "panic", "same": false, "left": 0}),
                };
                out.push(o);
            };
            let mut s = &data[..];
            let r = guard(|| $f::decode(&mut s).map_err(|_| ()));
            note("slice", r, s.len());
            let mut s = SliceReader::new(&data);
            let r = guard(|| $f::decode(&mut s).map_err(|_| ()));
            note("sr", r, s.remaining());
            let mut s = SliceReader::new(&data).limit($full.len() + 1);
            let r = guard(|| $f::decode(&mut s).map_err(|_| ()));
            note("limit", r, s.remaining() + 2);
            let mut s = (&data[..]).limit($full.len());
            let r = guard(|| $f::decode(&mut s).map_err(|_| ()));
            note("exact", r, s.remaining() + 3);
            let r = guard(|| $f::decode(&data[..]).map_err(|_| ()));
            note("own", r, 3);
            json!(out)
        }};
        (@no $f:ident, $full:ident, $x:ident) => {
            json!([])
        };
    }
    match v["fmt"].as_str().unwrap() {
        "storage" => each!(storage, yes),
        "packed" => each!(packed, yes),
        "wire" => each!(wire, yes),
        "descriptive" => each!(descriptive, yes),
        _ => each!(json, no),
    }
}

pub fn run(v: &Value) -> Value {
    let n = v["n"].as_u64().unwrap();
    let b = crate::bytes(&v["b"]);
    let s: String = b.iter().map(|b| *b as char).collect();
    let mut r = match v["ty"].as_str().unwrap() {
        "u64" => run_with(v, n),
        "str" => run_with(v, s),
        "seq" => run_with(v, b.clone()),
        "rec" => run_with(
            v,
            Rec {
                a: n as u32,
                s,
                v: b.iter().map(|b| *b as u16 * 256).collect(),
                m: b.iter().map(|b| (*b, b.to_string())).collect(),
                o: match n % 4 {
                    0 => None,
                    1 => Some(Kind::Unit),
                    2 => Some(Kind::New(b.clone())),
                    _ => Some(Kind::Named { x: n % 3 == 0, y: 'é' }),
                },
                p: (-(n as i64), n as f32 / 4.0),
            },
        ),
        "kind" => run_with(v, Kind::New(b)),
        "pack" => run_with(v, Pack { a: n as u8, b: n as u32, c: [1, 2, 3, 4, n as u8] }),
        "bytes" => run_with(v, Bytes { b, n }),
        _ => panic!("type"),
    };
    r["fmt"] = v["fmt"].clone();
    r["ty"] = v["ty"].clone();
    r
}
