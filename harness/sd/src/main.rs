//! Conformance harness for the serde bridge.
#![recursion_limit = "512"]
#[path = "../../common.rs"]
mod common;
mod extra;
#[macro_use]
mod gen;
#[path = "../../fmt/src/dynamic.rs"]
mod dynamic;
#[path = "../../fmt/src/prelude.rs"]
mod prelude;

use dynamic::Dyn;
use common::{bytes, guard, serve};
use extra::*;
use gen::*;
use musli::mode::{Binary, Text};
use musli::options::{self, ByteOrder, Options};
use prelude::*;

const FIX: Options = options::new().fixed().byte_order(ByteOrder::Little).build();
const FIXBIG: Options = options::new().fixed().byte_order(ByteOrder::Big).build();

/// The outcome, with what is said about an error.
fn told<T, E: std::fmt::Display>(r: Result<Result<T, E>, String>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => json!({"r": "ok", "v": f(v), "text": ""}),
        Ok(Err(e)) => json!({"r": "err", "v": [], "text": e.to_string()}),
        Err(e) => json!({"r": "panic", "v": [], "text": e}),
    }
}
fn na() -> Value {
    json!({"r": "na", "v": [], "text": ""})
}

/// What one format does with the bridged types and their twins.
struct Codec {
    enc: fn(&str, &Value) -> Value,
    dec: fn(&str, &[u8]) -> Value,
    tenc: fn(&str, &Value) -> Value,
    tdec: fn(&str, &[u8]) -> Value,
}
macro_rules! codecs {
    ($($name:ident $key:literal $m:ty, $enc:expr;)*) => {
        $(mod $name {
            use super::*;
            fn read<T: DV + Decode<'static, $m, musli::alloc::System>>(b: &[u8]) -> Value {
                // Nothing decoded outlives this call.
                let b: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) };
                let mut s = b;
                let r = guard(|| $enc.decode::<_, T>(&mut s));
                let n = s.len();
                told(r, |x| json!([x.tree(), n]))
            }
            fn write<T: DV + Encode<$m>>(v: &Value) -> Value {
                let x = T::of(v);
                told(guard(|| $enc.to_vec(&x)), |b| json!(b))
            }
            pub const CODEC: Codec = Codec {
                enc: |t, v| with_bridged!(t, T => write::<T>(v)),
                dec: |t, b| with_bridged!(t, T => read::<T>(b)),
                tenc: |t, v| with_twin!(t, T => write::<T>(v), na()),
                tdec: |t, b| with_twin!(t, T => read::<T>(b), na()),
            };
        })*
        fn codec(k: &str) -> Codec {
            match k {
                $($key => $name::CODEC,)*
                other => panic!("unknown codec {other}"),
            }
        }
    };
}
codecs! {
    st_d "storage d Binary" Binary, musli::storage::Encoding::new();
    st_fix "storage fix Binary" Binary, musli::storage::Encoding::new().with_options::<FIX>();
    pk "packed fix Binary" Binary, musli::packed::Encoding::new();
    wi_d "wire d Binary" Binary, musli::wire::Encoding::new();
    wi_fix "wire fixbig Text" Text, musli::wire::Encoding::new().with_options::<FIXBIG>().with_mode::<Text>();
    de_d "desc d Binary" Binary, musli::descriptive::Encoding::new();
    js_t "json d Text" Text, musli::json::Encoding::new();
    js_b "json d Binary" Binary, musli::json::Encoding::new().with_mode::<Binary>();
}

// {"f","m","o","w":type,"v":tree,"suf":bytes that follow,"rs":[reader types],"alts":[[place,byte]],"cut":bool}: see SerdeTrace.tla
fn run(_: &str, s: &Value) -> Value {
    let mut out = s.clone();
    let st = |k: &str| s[k].as_str().unwrap();
    let w = st("w");
    let c = codec(&format!("{} {} {}", st("f"), st("o"), st("m")));
    let suf = bytes(&s["suf"]);
    let with = |e: &Value| {
        let mut b = bytes(&e["v"]);
        b.extend(&suf);
        b
    };
    let enc = (c.enc)(w, &s["v"]);
    let ok = enc["r"] == "ok";
    let b = with(&enc);
    out["dec"] = Value::Array(s["rs"].as_array().unwrap().iter().map(|t| if ok { (c.dec)(t.as_str().unwrap(), &b) } else { na() }).collect());
    out["tdec"] = Value::Array(s["rs"].as_array().unwrap().iter().map(|t| if ok { (c.tdec)(t.as_str().unwrap(), &b) } else { na() }).collect());
    let tenc = (c.tenc)(w, &s["v"]);
    // What the native type wrote is read by the bridge.
    out["back"] = if tenc["r"] == "ok" { (c.dec)(w, &with(&tenc)) } else { na() };
    out["tenc"] = tenc;
    // Every proper beginning.
    let (mut accepted, mut panics) = (vec![], vec![]);
    if ok && s["cut"] == true {
        for k in 0..b.len() - suf.len() {
            match (c.dec)(w, &b[..k])["r"].as_str().unwrap() {
                "ok" => accepted.push(k),
                "panic" => panics.push(k),
                _ => {}
            }
        }
    }
    out["accepted"] = json!(accepted);
    out["panics"] = json!(panics);
    // Altered input.
    let alts = s["alts"].as_array().unwrap().iter().filter(|_| ok && !b.is_empty()).map(|a| {
        let mut b = b.clone();
        let i = a[0].as_u64().unwrap() as usize % b.len();
        b[i] = a[1].as_u64().unwrap() as u8;
        json!([(c.dec)(w, &b), (c.tdec)(w, &b)])
    });
    out["alt"] = Value::Array(alts.collect());
    out["enc"] = enc;
    out
}

fn capture<T: DV + Encode<Binary>>(v: &Value) -> (Value, Option<Dyn>) {
    let x = T::of(v);
    let mut d = None;
    let r = told(guard(|| musli::value::encode(&x)), |y| {
        let t = dynamic::dump(&y);
        d = Some(y);
        t
    });
    (r, d)
}
fn replay<T: DV + Decode<'static, Binary, musli::alloc::System>>(d: &Option<Dyn>) -> Value {
    // Nothing decoded outlives this call.
    let Some(d) = d else { return na() };
    let d: &'static Dyn = unsafe { &*(d as *const Dyn) };
    told(guard(|| musli::value::decode::<T>(d)), |x| x.tree())
}

// {"w":type,"v":tree}: see SerdeValue.tla
fn value(s: &Value) -> Value {
    let mut out = s.clone();
    let w = s["w"].as_str().unwrap();
    let (cap, c) = with_bridged!(w, T => capture::<T>(&s["v"]));
    let (tcap, t) = with_twin!(w, T => capture::<T>(&s["v"]), (na(), None));
    out["dec"] = with_bridged!(w, T => replay::<T>(&c));
    out["back"] = with_bridged!(w, T => replay::<T>(&t));
    out["tdec"] = with_twin!(w, T => replay::<T>(&c), na());
    out["cap"] = cap;
    out["tcap"] = tcap;
    out
}

fn main() {
    serve(|mode, s| if mode == "value" { value(s) } else { run(mode, s) });
}
