//! Conformance harness for programs which write and read by hand what derives do not: every method of encoders and
//! decoders, chosen by the program.
#![recursion_limit = "512"]
#[path = "../../common.rs"]
mod common;
#[cfg(any(feature = "value", feature = "desc"))]
#[path = "../../fmt/src/dynamic.rs"]
mod dynamic;
mod read;
mod write;

use common::{bytes, guard, outcome, serve};
#[allow(unused)]
use musli::options::{self, ByteOrder, Integer, Options, Width};
use read::R;
use serde_json::{json, Value};
use write::P;

struct Codec {
    enc: fn(&Value) -> Value,
    dec: fn(&Value, &[u8]) -> Value,
    outs: fn(&Value, Option<usize>) -> Groups,
    ins: fn(&Value, &[u8]) -> Groups,
}
/// Outcomes, each with the names of those who had it.
#[derive(Default)]
struct Groups(Vec<(Value, Vec<&'static str>)>);
impl Groups {
    fn add(&mut self, name: &'static str, o: Value) {
        match self.0.iter_mut().find(|x| x.0 == o) {
            Some(x) => x.1.push(name),
            None => self.0.push((o, vec![name])),
        }
    }
    fn json(self) -> Value {
        self.0.into_iter().map(|(o, ns)| json!({"r": o["r"], "v": o["v"], "by": ns})).collect()
    }
}
/// Those of a text.
#[allow(unused_macros)]
macro_rules! texts {
    (true, $g:expr, $out:expr, $e:expr, $x:expr) => {
        $g.add("string", $out(guard(|| $e.to_string($x).map(String::into_bytes).map_err(drop))));
        $g.add("string_with", $out(guard(|| $e.to_string_with(&musli::context::new(), $x).map(String::into_bytes).map_err(drop))));
    };
    ($($t:tt)*) => {};
}
/// Those which are functions of modules.
#[allow(unused_macros)]
macro_rules! frees {
    (enc, $g:expr, $out:expr, $x:expr, json) => {
        $g.add("free_string", $out(guard(|| musli::json::to_string($x).map(String::into_bytes).map_err(drop))));
        frees!(@enc, $g, $out, $x, json);
    };
    (dec, $g:expr, $out:expr, $p:expr, $b:expr, json) => {
        if let Ok(s) = std::str::from_utf8($b) {
            $g.add("free_str", $out(read::with($p, || guard(|| musli::json::from_str::<R>(s).map_err(drop)))));
        }
        frees!(@dec, $g, $out, $p, $b, json);
    };
    (enc, $g:expr, $out:expr, $x:expr, none) => {};
    (dec, $g:expr, $out:expr, $p:expr, $b:expr, none) => {};
    (enc, $g:expr, $out:expr, $x:expr, $m:ident) => { frees!(@enc, $g, $out, $x, $m); };
    (dec, $g:expr, $out:expr, $p:expr, $b:expr, $m:ident) => { frees!(@dec, $g, $out, $p, $b, $m); };
    (@enc, $g:expr, $out:expr, $x:expr, $m:ident) => {
        $g.add("free_vec", $out(guard(|| musli::$m::to_vec($x).map_err(drop))));
        $g.add("free_writer", $out(guard(|| { let mut w = vec![]; musli::$m::to_writer(&mut w, $x).map(|_| w).map_err(drop) })));
        $g.add("free_encode", $out(guard(|| { let mut w = vec![]; musli::$m::encode(&mut w, $x).map(|_| w).map_err(drop) })));
    };
    (@dec, $g:expr, $out:expr, $p:expr, $b:expr, $m:ident) => {
        $g.add("free_slice", $out(read::with($p, || guard(|| musli::$m::from_slice::<R>($b).map_err(drop)))));
        $g.add("free_decode", $out(read::with($p, || guard(|| musli::$m::decode::<_, R>($b).map_err(drop)))));
    };
}

#[allow(unused)]
mod opts {
    use super::*;
    pub const FIX: Options = options::new().fixed().byte_order(ByteOrder::Little).build();
    pub const FIXBIG: Options = options::new().fixed().byte_order(ByteOrder::Big).build();
    pub const V32: Options = options::new().pointer(Width::U32).build();
}

/// For a look at why.
#[allow(unused)]
fn show<T, E: std::fmt::Display>(r: &Result<Result<T, E>, String>) {
    if std::env::var_os("SHOW_PANICS").is_some() {
        match r {
            Ok(Err(e)) => eprintln!("{e}"),
            Err(e) => eprintln!("{e}"),
            _ => {}
        }
    }
}

fn na() -> Value {
    json!({"r": "na", "v": []})
}

macro_rules! declare {
    ($($feat:literal $fs:literal $os:literal $text:tt $m:ident $enc:expr;)*) => {
        fn codec(f: &str, o: &str) -> Codec {
            match (f, o) {
                $(#[cfg(feature = $feat)] ($fs, $os) => Codec {
                    enc: |p| { let x = P(p); outcome(guard(|| $enc.to_vec(&x)), |b| json!(b)) },
                    dec: |p, b| {
                        // Nothing decoded outlives this call.
                        let b: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) };
                        let mut s = b;
                        let r = read::with(p, || guard(|| $enc.decode::<_, R>(&mut s)));
                        show(&r);
                        let n = s.len();
                        outcome(r, |x| json!([x.0, n]))
                    },
                    outs: |p, n| {
                        let x = P(p);
                        let mut g = Groups::default();
                        let out = |r: Result<Result<Vec<u8>, ()>, String>| outcome(r, |b| json!(b));
                        let big = n.unwrap_or(1 << 14);
                        g.add("vec_with", out(guard(|| $enc.to_vec_with(&musli::context::new(), &x).map_err(drop))));
                        g.add("encode", out(guard(|| { let mut w = vec![]; $enc.encode(&mut w, &x).map(|_| w).map_err(drop) })));
                        g.add("encode_with", out(guard(|| { let mut w = vec![]; $enc.encode_with(&musli::context::new(), &mut w, &x).map(|_| w).map_err(drop) })));
                        g.add("slice", out(guard(|| { let mut w = vec![0; big]; let k = $enc.to_slice(&mut w, &x).map_err(drop)?; w.truncate(k); Ok(w) })));
                        g.add("slice_with", out(guard(|| { let mut w = vec![0; big]; let k = $enc.to_slice_with(&musli::context::new(), &mut w, &x).map_err(drop)?; w.truncate(k); Ok(w) })));
                        g.add("writer", out(guard(|| { let mut w = vec![]; $enc.to_writer(&mut w, &x).map(|_| w).map_err(drop) })));
                        g.add("writer_with", out(guard(|| { let mut w = vec![]; $enc.to_writer_with(&musli::context::new(), &mut w, &x).map(|_| w).map_err(drop) })));
                        if n.is_none_or(|n| n <= 512) {
                            g.add("fixed", out(guard(|| $enc.to_fixed_bytes::<512, _>(&x).map(|b| b.as_slice().to_vec()).map_err(drop))));
                            g.add("fixed_with", out(guard(|| $enc.to_fixed_bytes_with::<_, 512, _>(&musli::context::new(), &x).map(|b| b.as_slice().to_vec()).map_err(drop))));
                        }
                        texts!($text, g, out, $enc, &x);
                        frees!(enc, g, out, &x, $m);
                        // One byte less than is needed.
                        if let Some(n) = n.filter(|n| *n > 0) {
                            let mut w = vec![0; n - 1];
                            let short = [guard(|| $enc.to_slice(&mut w, &x).is_err()), guard(|| $enc.to_slice_with(&musli::context::new(), &mut vec![0; n - 1], &x).is_err()), guard(|| $enc.encode(&mut vec![0; n - 1][..], &x).is_err())];
                            let short = if n > 16 && matches!(guard(|| $enc.to_fixed_bytes::<16, _>(&x).is_err()), Ok(false) | Err(_)) { false } else { short.iter().all(|x| *x == Ok(true)) };
                            if !short {
                                g.add("short", json!({"r": "unexpected", "v": []}));
                            }
                        }
                        g
                    },
                    ins: |p, b| {
                        // Nothing decoded outlives this call.
                        let b: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) };
                        let mut g = Groups::default();
                        let out = |r: Result<Result<R, ()>, String>| outcome(r, |x| x.0);
                        g.add("decode_with", out(read::with(p, || guard(|| $enc.decode_with::<_, _, R>(&musli::context::new(), b).map_err(drop)))));
                        g.add("slice", out(read::with(p, || guard(|| $enc.from_slice::<R>(b).map_err(drop)))));
                        g.add("slice_with", out(read::with(p, || guard(|| $enc.from_slice_with::<_, R>(&musli::context::new(), b).map_err(drop)))));
                        g.add("traced", out(read::with(p, || guard(|| $enc.from_slice_with::<_, R>(&musli::context::new().with_trace(), b).map_err(drop)))));
                        if let Ok(s) = std::str::from_utf8(b) {
                            g.add("str", out(read::with(p, || guard(|| $enc.from_str::<R>(s).map_err(drop)))));
                            g.add("str_with", out(read::with(p, || guard(|| $enc.from_str_with::<_, R>(&musli::context::new(), s).map_err(drop)))));
                        }
                        let mut buf = vec![0u8; 1 << 24];
                        let alloc = musli::alloc::Slice::new(&mut buf[..]);
                        g.add("alloc", out(read::with(p, || guard(|| $enc.from_slice_with::<_, R>(&musli::context::new_in(&alloc), b).map_err(drop)))));
                        frees!(dec, g, out, p, b, $m);
                        g
                    },
                },)*
                _ => panic!("unknown format {f} {o}"),
            }
        }
    };
}
declare! {
    "storage" "storage" "d" false storage musli::storage::Encoding::new();
    "storage" "storage" "fix" false none musli::storage::Encoding::new().with_options::<{ opts::FIX }>();
    "storage" "storage" "v32" false none musli::storage::Encoding::new().with_options::<{ opts::V32 }>();
    "storage" "packed" "fix" false packed musli::packed::Encoding::new();
    "wire" "wire" "d" false wire musli::wire::Encoding::new();
    "wire" "wire" "fixbig" false none musli::wire::Encoding::new().with_options::<{ opts::FIXBIG }>();
    "wire" "wire" "v32" false none musli::wire::Encoding::new().with_options::<{ opts::V32 }>();
    "desc" "desc" "d" false descriptive musli::descriptive::Encoding::new();
    "desc" "desc" "v32" false none musli::descriptive::Encoding::new().with_options::<{ opts::V32 }>();
    "json" "json" "d" true json musli::json::Encoding::new();
}

// {"f","o","p":program,"suf":bytes that follow,"cut":bool}: see DirectTrace.tla
fn run(s: &Value) -> Value {
    let mut out = s.clone();
    let st = |k: &str| s[k].as_str().unwrap();
    let (mut accepted, mut panics) = (vec![], vec![]);
    read::hints();
    if st("f") == "value" {
        value(s, &mut out);
    } else {
        let c = codec(st("f"), st("o"));
        let enc = (c.enc)(&s["p"]);
        out["dec"] = na();
        out["outs"] = (c.outs)(&s["p"], enc["v"].as_array().filter(|_| enc["r"] == "ok").map(|x| x.len())).json();
        out["ins"] = json!([]);
        if enc["r"] == "ok" {
            let mut b = bytes(&enc["v"]);
            let n = b.len();
            b.extend(bytes(&s["suf"]));
            out["dec"] = (c.dec)(&s["p"], &b);
            out["hints"] = read::hints();
            out["ins"] = (c.ins)(&s["p"], &b).json();
            // Of long texts, the last ones and some.
            for k in 0..n {
                if s["cut"] == true && (k + 50 >= n || k % (1 + n / 400) == 0) {
                    match (c.dec)(&s["p"], &b[..k])["r"].as_str().unwrap() {
                        "ok" => accepted.push(k),
                        "panic" => panics.push(k),
                        _ => {}
                    }
                }
            }
        } else {
            out["hints"] = json!([]);
        }
        out["enc"] = enc;
    }
    out["accepted"] = json!(accepted);
    out["panics"] = json!(panics);
    out
}

#[cfg(feature = "value")]
fn value(s: &Value, out: &mut Value) {
    let p = P(&s["p"]);
    let v = guard(|| musli::value::encode(&p));
    out["outs"] = json!([]);
    let mut ins = Groups::default();
    out["dec"] = na();
    out["hints"] = json!([]);
    if let Ok(Ok(v)) = &v {
        // Nothing decoded outlives this call.
        let v: &'static dynamic::Dyn = unsafe { &*(v as *const dynamic::Dyn) };
        out["dec"] = outcome(read::with(&s["p"], || guard(|| musli::value::decode::<R>(v))), |x| json!([x.0, 0]));
        out["hints"] = read::hints();
        let o = |r: Result<Result<R, ()>, String>| outcome(r, |x| x.0);
        ins.add("with", o(read::with(&s["p"], || guard(|| musli::value::decode_with::<_, R, musli::mode::Binary>(&musli::context::new(), v).map_err(drop)))));
        ins.add("text", o(read::with(&s["p"], || guard(|| musli::value::decode_with::<_, R, musli::mode::Text>(&musli::context::new(), v).map_err(drop)))));
    }
    out["ins"] = ins.json();
    out["enc"] = outcome(v, |v| dynamic::dump(&v));
}
#[cfg(not(feature = "value"))]
fn value(_: &Value, _: &mut Value) {
    panic!("no dynamic values")
}

fn main() {
    serve(|_, s| run(s));
}
