//! P23: slice references, packed slices, binary search and swap.
use crate::types::*;
use crate::{guard, outcome, with_type};
use musli_zerocopy::endian::{Big, Little};
use musli_zerocopy::slice::{binary_search, binary_search_by, BinarySearch, Packed, Slice};
use musli_zerocopy::buf::Load;
use musli_zerocopy::{Buf, ByteOrder, Error, OwnedBuf, Ref, Size};
use serde_json::{json, Value};

fn arr<T: ZV>(x: &[T]) -> Value {
    Value::Array(x.iter().map(|x| x.tree()).collect())
}

fn on<S>(buf: &Buf, r: S, s: &Value) -> Value
where
    S: Slice + Load<Target = [<S as Slice>::Item]>,
    <S as Slice>::Item: ZV,
{
    let i = s["i"].as_u64().unwrap() as usize;
    let at = s["at"].as_u64().unwrap() as usize;
    let mut o = json!({});
    o["len"] = json!(r.len());
    o["empty"] = json!(r.is_empty());
    o["all"] = outcome(guard(|| buf.load(r)), arr);
    o["get"] = outcome(guard(|| match r.get(i) { None => Ok::<_, Error>(json!([])), Some(x) => Ok(json!([buf.load(x)?.tree()])) }), |v| v);
    o["split"] = outcome(guard(|| { let (a, b) = r.split_at(at); Ok::<_, Error>(json!([arr(buf.load(a)?), arr(buf.load(b)?), a.len(), b.len()])) }), |v| v);
    o
}

fn go<E: ByteOrder, O: Size>(s: &Value, mut buf: OwnedBuf<E, O>) -> Value {
    buf.extend_from_slice(&vec![0x55u8; s["pre"].as_u64().unwrap() as usize]);
    let mut o = json!({});
    with_type!(s["t"].as_str().unwrap(), T => {
        let v: Vec<T> = s["v"].as_array().unwrap().iter().map(T::of).collect();
        let r = buf.store_slice(&v);
        buf.align_in_place();
        o["ref"] = on(&buf, r, s);
        let r2 = Ref::<[T], Big, u32>::from_ref(r);
        o["refbe"] = on(&buf, r2, s);
        let p = Packed::<[T], u32, u16, Little>::from_ref(r);
        o["pk"] = on(&buf, p, s);
        let p = Packed::<[T], u16, u8, Big>::from_ref(r);
        o["pkbe"] = on(&buf, p, s);
        o["iter"] = outcome(guard(|| r.iter().map(|x| buf.load(x).map(|x| x.tree())).collect::<Result<Vec<_>, _>>()), |v| json!(v));
        o["rev"] = outcome(guard(|| r.iter().rev().map(|x| buf.load(x).map(|x| x.tree())).collect::<Result<Vec<_>, _>>()), |v| json!(v));
        // alternate both ends
        o["both"] = outcome(guard(|| {
            let mut it = r.iter();
            let mut a = Vec::new();
            loop {
                let Some(x) = it.next() else { break };
                a.push(buf.load(x)?.tree());
                let Some(x) = it.next_back() else { break };
                a.push(buf.load(x)?.tree());
            }
            Ok::<_, Error>(a)
        }), |v| json!(v));
    });
    o
}

fn bs(r: Result<Result<BinarySearch, Error>, String>) -> Value {
    outcome(r, |b| match b {
        BinarySearch::Found(i) => json!([1, i]),
        BinarySearch::Missing(i) => json!([0, i]),
    })
}

// {"k":"seq","t","cfg","pre","v","i","at"} | {"k":"bs","v":[u32 sorted],"x":n} | {"k":"swap","v":[..],"i","j","t"}
pub fn run(s: &Value) -> Value {
    let mut out = s.clone();
    match s["k"].as_str().unwrap() {
        "seq" => {
            out["res"] = match s["cfg"].as_str().unwrap() {
                "be16" => go(s, OwnedBuf::new().with_byte_order::<Big>().with_size::<u16>()),
                "le64" => go(s, OwnedBuf::new().with_byte_order::<Little>().with_size::<u64>()),
                _ => go(s, OwnedBuf::new()),
            };
        }
        "bs" => {
            let v: Vec<u32> = s["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let x = s["x"].as_u64().unwrap() as u32;
            let mut buf = OwnedBuf::new();
            let r = buf.store_slice(&v);
            let p = Packed::<[u32], u16, u8, Big>::from_ref(r);
            let vs: Vec<Ref<str>> = v.iter().map(|x| buf.store_unsized(format!("{x:05}").as_str())).collect();
            let rs = buf.store_slice(&vs);
            let xs = format!("{x:05}");
            out["r1"] = bs(guard(|| binary_search(&buf, r, &x)));
            out["r2"] = bs(guard(|| binary_search(&buf, p, &x)));
            out["r3"] = bs(guard(|| binary_search_by(&buf, rs, |c| Ok(buf.load(*c)?.cmp(xs.as_str())))));
        }
        "rawswap" => {
            let n = s["n"].as_u64().unwrap() as usize;
            let mut buf = OwnedBuf::with_capacity(512);
            buf.extend_from_slice(&(0..n).map(|x| x as u8).collect::<Vec<_>>());
            // [0, offset] or [1, distance from the largest offset]
            let off = |k: &str| { let x = s[k][1].as_u64().unwrap() as usize; if s[k][0] == 0 { x } else { usize::MAX - x } };
            let (a, b) = (off("a"), off("b"));
            out["sz"] = json!(0);
            with_type!(s["t"].as_str().unwrap(), T => {
                out["sz"] = json!(std::mem::size_of::<T>());
                out["res"] = outcome(guard(|| {
                    buf.swap(Ref::<T, Little, usize>::new(a), Ref::<T, Little, usize>::new(b))?;
                    Ok::<_, Error>(())
                }), |()| json!([]));
            });
            // the bytes, also after a refused exchange
            out["after"] = json!(buf.as_slice());
        }
        _ => {
            let i = s["i"].as_u64().unwrap() as usize;
            let j = s["j"].as_u64().unwrap() as usize;
            let mut buf = OwnedBuf::new();
            with_type!(s["t"].as_str().unwrap(), T => {
                let v: Vec<T> = s["v"].as_array().unwrap().iter().map(T::of).collect();
                let r = buf.store_slice(&v);
                buf.align_in_place();
                out["res"] = outcome(guard(|| {
                    let (Some(a), Some(b)) = (r.get(i), r.get(j)) else { return Ok::<_, Error>(json!(["none"])) };
                    buf.swap(a, b)?;
                    Ok(arr(buf.load(r)?))
                }), |v| v);
            });
        }
    }
    out
}
