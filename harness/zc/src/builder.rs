//! P18: histories of the growable and fixed-slice builders.
use crate::types::*;
use crate::{guard, with_type};
use musli_zerocopy::buf::SliceMut;
use musli_zerocopy::mem::MaybeUninit;
use musli_zerocopy::{endian, ByteOrder, OwnedBuf, Ref, Size};
use serde_json::{json, Value};

// {"tgt":"owned"|"slice","cfg":"ne32"|..,"al":initial alignment,"cap":n,"ops":[..]}
pub fn run(s: &Value) -> Value {
    let mut out = s.clone();
    macro_rules! cfg {
        ($run:ident, $b:expr) => {
            match s["cfg"].as_str().unwrap() {
                "ne32" => $run(s, $b),
                "be32" => $run(s, $b.with_byte_order::<endian::Big>()),
                "le16" => $run(s, $b.with_byte_order::<endian::Little>().with_size::<u16>()),
                "be16" => $run(s, $b.with_byte_order::<endian::Big>().with_size::<u16>()),
                "be64" => $run(s, $b.with_byte_order::<endian::Big>().with_size::<u64>()),
                "neus" => $run(s, $b.with_size::<usize>()),
                "beus" => $run(s, $b.with_byte_order::<endian::Big>().with_size::<usize>()),
                "le8" => $run(s, $b.with_size::<u8>()),
                _ => panic!("cfg"),
            }
        };
    }
    let cap = s["cap"].as_u64().unwrap() as usize;
    let ev = if s["tgt"] == "owned" {
        match s["al"].as_u64().unwrap() {
            1 => cfg!(owned, OwnedBuf::with_capacity_and_alignment::<u8>(cap)),
            2 => cfg!(owned, OwnedBuf::with_capacity_and_alignment::<u16>(cap)),
            16 => cfg!(owned, OwnedBuf::with_capacity_and_alignment::<u128>(cap)),
            _ => cfg!(owned, OwnedBuf::with_capacity(cap)),
        }
    } else {
        #[repr(align(64))]
        struct Al([u8; 4096]);
        let mut mem = Box::new(Al([0xAA; 4096]));
        let m = &mut mem.0[..cap];
        match s["al"].as_u64().unwrap() {
            1 => cfg!(fixed, SliceMut::with_alignment::<u8>(m)),
            2 => cfg!(fixed, SliceMut::with_alignment::<u16>(m)),
            16 => cfg!(fixed, SliceMut::with_alignment::<u128>(m)),
            _ => cfg!(fixed, SliceMut::new(m)),
        }
    };
    out.as_object_mut().unwrap().remove("ops");
    out["ev"] = Value::Array(ev);
    out
}

#[derive(Clone)]
struct R {
    kind: &'static str, // sized | slice | str | uninit
    t: String,
    off: usize,
    len: usize,
}

macro_rules! driver {
    ($name:ident, $Buf:ty, $clonable:tt) => {
        fn $name<E: ByteOrder, O: Size>(s: &Value, mut buf: $Buf) -> Vec<Value> {
            let mut refs: Vec<R> = Vec::new();
            let mut evs = Vec::new();
            for op in s["ops"].as_array().unwrap() {
                let o = op["op"].as_str().unwrap();
                let t = op["t"].as_str().unwrap_or("u8").to_string();
                let mut applied = true;
                let res: Result<Option<R>, String> = guard(|| match o {
                    "store" => with_type!(t.as_str(), T => {
                        let r: Ref<T, E, O> = buf.store(&T::of(&op["v"]));
                        Some(R { kind: "sized", t: t.clone(), off: r.offset(), len: 0 })
                    }),
                    "slice" => with_type!(t.as_str(), T => {
                        let v: Vec<T> = op["v"].as_array().unwrap().iter().map(T::of).collect();
                        let r: Ref<[T], E, O> = buf.store_slice(&v);
                        Some(R { kind: "slice", t: t.clone(), off: r.offset(), len: r.len() })
                    }),
                    "str" => {
                        let v = String::from_utf8(bytes(&op["v"])).unwrap();
                        let r: Ref<str, E, O> = buf.store_unsized(v.as_str());
                        Some(R { kind: "str", t: "u8".into(), off: r.offset(), len: r.len() })
                    }
                    "uninit" => with_type!(t.as_str(), T => {
                        let r: Ref<MaybeUninit<T>, E, O> = buf.store_uninit::<T>();
                        Some(R { kind: "uninit", t: t.clone(), off: r.offset(), len: 0 })
                    }),
                    "write" => {
                        let i = op["i"].as_u64().unwrap() as usize - 1;
                        match refs.get(i).cloned() {
                            Some(r) if r.kind == "uninit" => with_type!(r.t.as_str(), T => {
                                buf.load_uninit_mut(Ref::<MaybeUninit<T>, E, O>::new(r.off)).write(&T::of(&op["v"]));
                                refs[i].kind = "sized";
                                None
                            }),
                            _ => { applied = false; None }
                        }
                    }
                    "ref" => {
                        let i = op["i"].as_u64().unwrap() as usize - 1;
                        match refs.get(i).cloned() {
                            Some(r) if r.kind == "sized" => {
                                let r: Ref<Ref<u32, E, O>, E, O> = buf.store(&Ref::<u32, E, O>::new(r.off));
                                Some(R { kind: "ref", t: "u32".into(), off: r.offset(), len: 0 })
                            }
                            Some(r) if r.kind == "slice" => {
                                let r: Ref<Ref<[u32], E, O>, E, O> = buf.store(&Ref::<[u32], E, O>::with_metadata(r.off, r.len));
                                Some(R { kind: "sref", t: "u32".into(), off: r.offset(), len: 0 })
                            }
                            Some(r) if r.kind == "str" => {
                                let r: Ref<Ref<str, E, O>, E, O> = buf.store(&Ref::<str, E, O>::with_metadata(r.off, r.len));
                                Some(R { kind: "sref", t: "u32".into(), off: r.offset(), len: 0 })
                            }
                            _ => { applied = false; None }
                        }
                    }
                    "next" => with_type!(t.as_str(), T => { let off = buf.next_offset::<T>(); Some(R { kind: "off", t: t.clone(), off, len: 0 }) }),
                    "reqalign" => with_type!(t.as_str(), T => { buf.request_align::<T>(); None }),
                    "extend" => { buf.extend_from_slice(&bytes(&op["v"])); None }
                    "reserve" => { buf.reserve(op["n"].as_u64().unwrap() as usize); None }
                    "clear" => { buf.clear(); refs.clear(); None }
                    "swap" => {
                        let (i, j) = (op["i"].as_u64().unwrap() as usize - 1, op["j"].as_u64().unwrap() as usize - 1);
                        match (refs.get(i).cloned(), refs.get(j).cloned()) {
                            (Some(a), Some(b)) if a.kind == "sized" && b.kind == "sized" && a.t == b.t => with_type!(a.t.as_str(), T => {
                                buf.swap(Ref::<T, E, O>::new(a.off), Ref::<T, E, O>::new(b.off)).unwrap();
                                None
                            }),
                            _ => { applied = false; None }
                        }
                    }
                    "alignip" => { driver!(@align $clonable, buf); None }
                    "clone" => { driver!(@clone $clonable, buf); None }
                    _ => panic!("op"),
                });
                let mut e = op.clone();
                e["ap"] = json!(applied);
                match res {
                    Ok(r) => {
                        e["r"] = json!("ok");
                        let has = r.is_some();
                        e["off"] = json!(r.as_ref().map(|r| r.off as i64).unwrap_or(-1));
                        e["rlen"] = json!(r.as_ref().map(|r| r.len as i64).unwrap_or(-1));
                        if has && o != "next" { refs.push(r.unwrap()); }
                    }
                    Err(_) => {
                        e["r"] = json!("panic");
                        evs.push(e);
                        break;
                    }
                }
                e["len"] = json!(buf.len());
                e["req"] = json!(buf.requested());
                e["capok"] = json!(buf.capacity() >= buf.len());
                e["bytes"] = json!(buf.as_slice());
                let base = buf.as_slice().as_ptr() as usize & 63;
                e["base"] = json!(base);
                // Load everything stored so far through the public API.
                let mut loads = Vec::new();
                for r in &refs {
                    let g = guard(|| match r.kind {
                        "sized" => with_type!(r.t.as_str(), T => buf.load(Ref::<T, E, O>::new(r.off)).map(|x| x.tree())),
                        "slice" => with_type!(r.t.as_str(), T => buf.load(Ref::<[T], E, O>::with_metadata(r.off, r.len)).map(|x| Value::Array(x.iter().map(|x| x.tree()).collect()))),
                        "str" => buf.load(Ref::<str, E, O>::with_metadata(r.off, r.len)).map(|x| json!(x.as_bytes())),
                        "ref" => buf.load(Ref::<Ref<u32, E, O>, E, O>::new(r.off)).map(|x| json!([x.offset()])),
                        "sref" => buf.load(Ref::<Ref<str, E, O>, E, O>::new(r.off)).map(|x| json!([x.offset(), x.len()])),
                        _ => Ok(json!([])),
                    });
                    loads.push(crate::outcome(g, |v| v));
                }
                e["loads"] = Value::Array(loads);
                evs.push(e);
            }
            evs
        }
    };
    (@align true, $buf:ident) => { $buf.align_in_place() };
    (@align false, $buf:ident) => { () };
    (@clone true, $buf:ident) => { $buf = $buf.clone() };
    (@clone false, $buf:ident) => { () };
}
driver!(owned, OwnedBuf<E, O>, true);
driver!(fixed, SliceMut<'_, E, O>, false);
