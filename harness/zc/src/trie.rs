use crate::types::bytes;
use crate::{guard, outcome};
use musli_zerocopy::trie::{Flavor, TrieRef};
use musli_zerocopy::{endian, trie, Buf, Error, OwnedBuf, Ref};
use serde_json::{json, Value};

// {"ins":[[key,val],..],"q":[key,..],"flavor":"d"|"be"|"str"}
pub fn run(s: &Value) -> Value {
    let ins: Vec<(Vec<u8>, u32)> = s["ins"].as_array().unwrap().iter().map(|e| (bytes(&e[0]), e[1].as_u64().unwrap() as u32)).collect();
    let q: Vec<Vec<u8>> = s["q"].as_array().unwrap().iter().map(bytes).collect();
    let mut out = json!({"ins": s["ins"], "q": s["q"], "flavor": s["flavor"]});
    let flavor = s["flavor"].as_str().unwrap().to_string();
    let r = guard(|| match flavor.as_str() {
        "d" => {
            let mut buf = OwnedBuf::new();
            let v: Vec<_> = ins.iter().map(|(k, v)| (buf.store_slice(&k[..]), *v)).collect();
            let t = trie::store(&mut buf, v)?;
            Ok::<_, Error>(observe(&buf, t, &q))
        }
        "be" => {
            let mut buf = OwnedBuf::new().with_byte_order::<endian::Big>().with_size::<u16>();
            let v: Vec<_> = ins.iter().map(|(k, v)| (buf.store_slice(&k[..]), *v)).collect();
            let t = trie::store(&mut buf, v)?;
            Ok(observe(&buf, t, &q))
        }
        "packed" => {
            struct Packed;
            impl Flavor for Packed {
                type String = musli_zerocopy::slice::Packed<[u8], u32, u8>;
                type Values<T> = Ref<[T]> where T: musli_zerocopy::ZeroCopy;
                type Children<T> = musli_zerocopy::slice::Packed<[T], u32, u16> where T: musli_zerocopy::ZeroCopy;
            }
            let mut buf = OwnedBuf::new();
            let v: Vec<_> = ins.iter().map(|(k, v)| (buf.store_slice(&k[..]), *v)).collect();
            let mut b = trie::Builder::<u32, Packed>::with_flavor();
            for (k, v) in v {
                b.insert(&buf, k, v)?;
            }
            let t = b.build(&mut buf)?;
            Ok(observe(&buf, t, &q))
        }
        _ => {
            let mut buf = OwnedBuf::new();
            let mut v = Vec::new();
            for (k, x) in &ins {
                v.push((buf.store_unsized(core::str::from_utf8(k).unwrap()), *x));
            }
            let mut b = trie::Builder::new();
            for (k, v) in v {
                b.insert(&buf, k, v)?;
            }
            let t = b.build(&mut buf)?;
            Ok(observe(&buf, t, &q))
        }
    });
    out["res"] = outcome(r, |v| v);
    out
}

type Kv<'a> = Result<(&'a [u8], &'a u32), Error>;

fn pairs<'a>(it: impl Iterator<Item = Kv<'a>>) -> Result<Value, Error> {
    let mut v = Vec::new();
    for e in it {
        let (k, x) = e?;
        v.push(json!([k, x]));
    }
    Ok(Value::Array(v))
}
fn vals<'a>(it: impl Iterator<Item = Result<&'a u32, Error>>) -> Result<Value, Error> {
    let mut v = Vec::new();
    for e in it {
        v.push(json!(e?));
    }
    Ok(Value::Array(v))
}

fn observe<F: Flavor>(buf: &Buf, t: TrieRef<u32, F>, q: &[Vec<u8>]) -> Value {
    let mut qs = Vec::new();
    for k in q {
        let get = outcome(guard(|| t.get(buf, k)), |v| match v {
            None => json!([]),
            Some(x) => json!(x),
        });
        qs.push(json!({
            "get": get,
            "it": outcome(guard(|| pairs(t.iter_in(buf, k))), |v| v),
            "itf": outcome(guard(|| pairs(t.iter_in_fixed::<64, _>(buf, k))), |v| v),
            "vi": outcome(guard(|| vals(t.values_in(buf, k))), |v| v),
            "vif": outcome(guard(|| vals(t.values_in_fixed::<64, _>(buf, k))), |v| v),
        }));
    }
    json!({
        "q": qs,
        "iter": outcome(guard(|| pairs(t.iter(buf))), |v| v),
        "iterf": outcome(guard(|| pairs(t.iter_fixed::<64>(buf))), |v| v),
        "values": outcome(guard(|| vals(t.values(buf))), |v| v),
        "valuesf": outcome(guard(|| vals(t.values_fixed::<64>(buf))), |v| v),
    })
}
