//! Conformance harness for the byte formats, JSON and dynamic values.
#![recursion_limit = "512"]
#[path = "../../common.rs"]
mod common;
mod custom;
#[macro_use]
#[allow(nonstandard_style)]
mod gen;
mod prelude;

#[allow(unused)]
use common::{bytes, guard, outcome, serve};
#[allow(unused)]
use gen::*;
#[allow(unused)]
use musli::mode::Text;
use musli::options::{self, ByteOrder, Integer, Options, Width};

/// (encode, decode) of one format under one set of options.
#[allow(unused)]
macro_rules! codec {
    ($name:ident, $with:ident, $enc:expr) => {
        mod $name {
            use super::*;
            pub fn enc(t: &str, v: &Value) -> Value {
                $with!(t, T => { let x = <T as DV>::of(v); outcome(guard(|| $enc.to_vec(&x)), |b| json!(b)) })
            }
            /// A cursor shows how much was consumed; `whole` decodes from a slice.
            pub fn dec(t: &str, b: &[u8], whole: bool) -> Value {
                // Nothing decoded outlives this call.
                let b: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) };
                $with!(t, T => {
                    let mut s = b;
                    let r = guard(|| if whole { $enc.from_slice::<T>(b) } else { $enc.decode::<_, T>(&mut s) });
                    let n = s.len();
                    outcome(r, |x| json!([x.tree(), if whole { -1 } else { n as i64 }]))
                })
            }
        }
    };
}

#[allow(unused)]
mod opts {
    use super::*;
    pub const VBIG: Options = options::new().byte_order(ByteOrder::Big).build();
    pub const FIX: Options = options::new().fixed().byte_order(ByteOrder::Little).build();
    pub const FIXBIG: Options = options::new().fixed().byte_order(ByteOrder::Big).build();
    pub const FIX8: Options = options::new().integer(Integer::Fixed).pointer(Width::U8).build();
    pub const FIX16B: Options = options::new().integer(Integer::Fixed).pointer(Width::U16).byte_order(ByteOrder::Big).build();
    pub const V32: Options = options::new().pointer(Width::U32).build();
    pub const FIXV: Options = options::new().integer(Integer::Fixed).build();
}

type Enc = fn(&str, &Value) -> Value;
type Dec = fn(&str, &[u8], bool) -> Value;
macro_rules! declare {
    ($($feat:literal $fs:literal $os:literal $m:ident $with:ident $enc:expr;)*) => {
        $(#[cfg(feature = $feat)] codec!($m, $with, $enc);)*
        fn codec(f: &str, o: &str) -> (Enc, Dec) {
            match (f, o) {
                $(#[cfg(feature = $feat)] ($fs, $os) => ($m::enc, $m::dec),)*
                _ => panic!("unknown format {f} {o}"),
            }
        }
    };
}
declare! {
    "storage" "storage" "d" st_d with_type musli::storage::Encoding::new();
    "storage" "storage" "vbig" st_vbig with_opt_type musli::storage::Encoding::new().with_options::<{ opts::VBIG }>();
    "storage" "storage" "fix" st_fix with_opt_type musli::storage::Encoding::new().with_options::<{ opts::FIX }>();
    "storage" "storage" "fixbig" st_fixbig with_opt_type musli::storage::Encoding::new().with_options::<{ opts::FIXBIG }>();
    "storage" "storage" "fix8" st_fix8 with_opt_type musli::storage::Encoding::new().with_options::<{ opts::FIX8 }>();
    "storage" "storage" "fix16b" st_fix16b with_opt_type musli::storage::Encoding::new().with_options::<{ opts::FIX16B }>();
    "storage" "storage" "v32" st_v32 with_opt_type musli::storage::Encoding::new().with_options::<{ opts::V32 }>();
    "storage" "storage" "fixv" st_fixv with_opt_type musli::storage::Encoding::new().with_options::<{ opts::FIXV }>();
    "storage" "packed" "fix" pk_fix with_type musli::packed::Encoding::new();
    "storage" "packed" "d" pk_d with_opt_type musli::packed::Encoding::new().with_options::<{ options::new().build() }>();
    "storage" "packed" "fixbig" pk_fixbig with_opt_type musli::packed::Encoding::new().with_options::<{ opts::FIXBIG }>();
    "wire" "wire" "d" wi_d with_type musli::wire::Encoding::new();
    "wire" "wire" "vbig" wi_vbig with_opt_type musli::wire::Encoding::new().with_options::<{ opts::VBIG }>();
    "wire" "wire" "fix" wi_fix with_opt_type musli::wire::Encoding::new().with_options::<{ opts::FIX }>();
    "wire" "wire" "fixbig" wi_fixbig with_opt_type musli::wire::Encoding::new().with_options::<{ opts::FIXBIG }>();
    "wire" "wire" "fix8" wi_fix8 with_opt_type musli::wire::Encoding::new().with_options::<{ opts::FIX8 }>();
    "wire" "wire" "fix16b" wi_fix16b with_opt_type musli::wire::Encoding::new().with_options::<{ opts::FIX16B }>();
    "wire" "wire" "v32" wi_v32 with_opt_type musli::wire::Encoding::new().with_options::<{ opts::V32 }>();
    "wire" "wire" "fixv" wi_fixv with_opt_type musli::wire::Encoding::new().with_options::<{ opts::FIXV }>();
    "desc" "desc" "d" de_d with_type musli::descriptive::Encoding::new();
    "desc" "desc" "fix" de_fix with_opt_type musli::descriptive::Encoding::new().with_options::<{ opts::FIX }>();
    "desc" "desc" "fixbig" de_fixbig with_opt_type musli::descriptive::Encoding::new().with_options::<{ opts::FIXBIG }>();
    "desc" "desc" "v32" de_v32 with_opt_type musli::descriptive::Encoding::new().with_options::<{ opts::V32 }>();
    "text" "storage" "dThird" st_d3 with_third_type musli::storage::Encoding::new().with_mode::<prelude::Third>();
    "text" "wire" "dThird" wi_d3 with_third_type musli::wire::Encoding::new().with_mode::<prelude::Third>();
    "text" "desc" "dThird" de_d3 with_third_type musli::descriptive::Encoding::new().with_mode::<prelude::Third>();
    "text" "storage" "dText" st_dt with_type musli::storage::Encoding::new().with_mode::<Text>();
    "text" "wire" "dText" wi_dt with_type musli::wire::Encoding::new().with_mode::<Text>();
    "text" "desc" "dText" de_dt with_type musli::descriptive::Encoding::new().with_mode::<Text>();
}

// {"f":format,"o":options,"w":writer type or "","v":tree,"b":bytes when there is no writer,"suf":bytes that follow,"rs":[reader types],"whole":bool}
fn run(_mode: &str, s: &Value) -> Value {
    let mut out = s.clone();
    let st = |k: &str| s[k].as_str().unwrap();
    let o = format!("{}{}", st("o"), if st("m") == "Binary" { "" } else { st("m") });
    let mut b = bytes(&s["b"]);
    if st("w") != "" {
        let e = codec(st("f"), &o).0(st("w"), &s["v"]);
        if e["r"] == "ok" {
            b = bytes(&e["v"]);
        }
        out["enc"] = e;
    } else {
        out["enc"] = json!({"r": "na", "v": []});
    }
    b.extend(bytes(&s["suf"]));
    let ok = out["enc"]["r"] == "ok" || out["enc"]["r"] == "na";
    let ds = s["rs"].as_array().unwrap().iter().map(|t| if ok { codec(st("f"), &o).1(t.as_str().unwrap(), &b, s["whole"] == true) } else { json!({"r": "na", "v": []}) });
    out["dec"] = Value::Array(ds.collect());
    out
}

#[cfg(any(feature = "value", feature = "json"))]
mod dynamic;

// {"w":type,"v":tree,"rs":[types]}: see ValueTrace.tla
#[cfg(feature = "value")]
fn value(s: &Value) -> Value {
    use dynamic::{dump, Dyn};
    let mut out = s.clone();
    let w = s["w"].as_str().unwrap();
    let na = || json!({"r": "na", "v": []});
    let (cap, d) = with_type!(w, T => {
        let x = <T as DV>::of(&s["v"]);
        let d = outcome(guard(|| musli::descriptive::to_vec(&x)), |b| json!(b));
        (guard(|| musli::value::encode(&x)), d)
    });
    out["dd"] = if d["r"] == "ok" { outcome(guard(|| musli::descriptive::from_slice::<Dyn>(&bytes(&d["v"]))), |v| dump(&v)) } else { d };
    for k in ["vb", "vv"] {
        out[k] = na();
    }
    out["eq"] = json!([]);
    out["dec"] = json!([]);
    match cap {
        Ok(Ok(v)) => {
            out["cap"] = json!({"r": "ok", "v": dump(&v)});
            // Whether two captured values are equal, either way around.
            if let Some(w) = s["w2"].as_str().filter(|w| *w != "") {
                let other = with_type!(w, T => guard(|| musli::value::encode(&<T as DV>::of(&s["v2"]))));
                if let Ok(Ok(o)) = other {
                    out["eq"] = json!([v == o, o == v, v == v, v != o]);
                }
            }
            // Nothing decoded outlives this call.
            let y: &'static Dyn = unsafe { &*(&v as *const Dyn) };
            let dec = s["rs"].as_array().unwrap().iter().map(|r| with_type!(r.as_str().unwrap(), T => outcome(guard(|| musli::value::decode::<T>(y)), |x| x.tree())));
            out["dec"] = Value::Array(dec.collect());
            let vb = outcome(guard(|| musli::descriptive::to_vec(&v)), |b| json!(b));
            if vb["r"] == "ok" {
                out["vv"] = outcome(guard(|| musli::descriptive::from_slice::<Dyn>(&bytes(&vb["v"]))), |v| dump(&v));
            }
            out["vb"] = vb;
        }
        other => out["cap"] = outcome(other, |_| json!([])),
    }
    out
}

// {"m":mode,"w":type or "","v":tree,"b":text when there is no writer,"rs":[types or "$any"]}: see JsonTrace.tla
#[cfg(feature = "json")]
macro_rules! json_codec {
    ($name:ident, $enc:expr, $any:ty) => {
        mod $name {
            use super::*;
            fn one<T: musli::Decode<'static, $any, musli::alloc::System>>(b: &'static [u8], tree: fn(T) -> Value) -> Value {
                let na = || json!({"r": "na", "v": [], "left": 0, "valid": true});
                let done = |r: Result<Result<T, musli::json::Error>, String>, left: &[u8]| {
                    let mut o = outcome(r, tree);
                    o["left"] = json!(left.len());
                    o["valid"] = json!(std::str::from_utf8(left).is_ok() && b.ends_with(left));
                    o
                };
                let mut o = json!({"slice": done(guard(|| $enc.from_slice::<T>(b)), &[]), "str": na(), "mstr": na()});
                let mut s = b;
                let r = guard(|| $enc.decode::<_, T>(&mut s));
                o["mslice"] = done(r, s);
                if let Ok(x) = std::str::from_utf8(b) {
                    o["str"] = done(guard(|| $enc.from_str::<T>(x)), &[]);
                    let mut x = x;
                    let r = guard(|| $enc.decode::<_, T>(&mut x));
                    o["mstr"] = done(r, x.as_bytes());
                }
                o
            }
            pub fn dec(t: &str, b: &[u8]) -> Value {
                // Nothing decoded outlives this call.
                let b: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) };
                if t == "$any" { one::<dynamic::Dyn>(b, |v| dynamic::dump(&v)) } else { with_type!(t, T => one::<T>(b, |x| x.tree())) }
            }
            pub fn enc(t: &str, v: &Value) -> Value {
                with_type!(t, T => { let x = <T as DV>::of(v); outcome(guard(|| $enc.to_vec(&x)), |b| json!(b)) })
            }
        }
    };
}
#[cfg(feature = "json")]
json_codec!(json_text, musli::json::Encoding::new(), musli::mode::Text);
#[cfg(feature = "json")]
json_codec!(json_binary, musli::json::Encoding::new().with_mode::<musli::mode::Binary>(), musli::mode::Binary);
#[cfg(feature = "json")]
fn json(s: &Value) -> Value {
    let mut out = s.clone();
    let st = |k: &str| s[k].as_str().unwrap();
    let text = st("m") == "Text";
    out["full"] = json!(cfg!(feature = "jsonfull"));
    let mut b = bytes(&s["b"]);
    out["enc"] = json!({"r": "na", "v": []});
    if st("w") != "" {
        let e = if text { json_text::enc(st("w"), &s["v"]) } else { json_binary::enc(st("w"), &s["v"]) };
        b = if e["r"] == "ok" { bytes(&e["v"]) } else { vec![] };
        out["enc"] = e;
    }
    let ds = s["rs"].as_array().unwrap().iter().map(|t| { let t = t.as_str().unwrap(); if text { json_text::dec(t, &b) } else { json_binary::dec(t, &b) } });
    out["dec"] = Value::Array(ds.collect());
    out
}

fn main() {
    serve(|mode, s| match mode {
        #[cfg(feature = "value")]
        "value" => value(s),
        #[cfg(feature = "json")]
        "json" => json(s),
        _ => run(mode, s),
    });
}
