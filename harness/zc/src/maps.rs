use crate::types::bytes;
use crate::{guard, outcome};
use musli_zerocopy::{endian, phf, swiss, ByteOrder, Error, OwnedBuf, Ref, Size};
use serde_json::{json, Value};

// {"kind":"swiss"|"phf","key":"u32"|"u64"|"str"|"bytes"|"i16","order":"ne"|"be","pre":n,
//  "ents":[[key,val]..],"q":[key..]}   key: number, or byte list for str/bytes
pub fn run(s: &Value) -> Value {
    let mut out = s.clone();
    let r = match s["order"].as_str().unwrap() {
        "be" => go(s, OwnedBuf::new().with_byte_order::<endian::Big>()),
        "le64" => go(s, OwnedBuf::new().with_byte_order::<endian::Little>().with_size::<u64>()),
        _ => go(s, OwnedBuf::new()),
    };
    out["res"] = r;
    out
}

macro_rules! len {
    (swiss, $b:ident, $m:ident) => { json!([$b.len(), $m.len(), $b.is_empty(), $m.is_empty()]) };
    (phf, $b:ident, $m:ident) => { json!([]) };
}
macro_rules! exercise {
    ($buf:ident, $K:ty, $ents:ident, $q:ident, $kind:ident, $sets:expr) => {{
        let e2 = $ents.clone();
        outcome(
            guard(|| {
                let map = $kind::store_map(&mut $buf, $ents.iter().cloned())?;
                let sref = $kind::store_set(&mut $buf, e2.iter().map(|x| x.0.clone()))?;
                let sref2 = $kind::store_set(&mut $buf, e2.iter().map(|x| x.0.clone()))?;
                $buf.align_in_place();
                let b = $buf.bind(map)?;
                let bs = $buf.bind(sref2)?;
                let mut rs = Vec::new();
                for k in $q.iter() {
                    let k: &$K = k;
                    let opt = |o: Option<&u32>| o.map(|x| vec![*x]).unwrap_or_default();
                    rs.push(json!({
                        "bg": outcome(guard(|| b.get(k)), |v| json!(opt(v))),
                        "bc": outcome(guard(|| b.contains_key(k)), |v| json!(v)),
                        "ug": outcome(guard(|| map.get(&$buf, k)), |v| json!(opt(v))),
                        "uc": outcome(guard(|| map.contains_key(&$buf, k)), |v| json!(v)),
                        "sb": outcome(guard(|| bs.contains(k)), |v| json!(v)),
                        "su": outcome(guard(|| sref.contains(&$buf, k)), |v| json!(v)),
                    }));
                }
                let lens: Value = len!($kind, b, map);
                let _ = $sets;
                Ok::<_, Error>((rs, lens))
            }),
            |(rs, lens)| json!({"q": rs, "lens": lens}),
        )
    }};
}

fn go<E: ByteOrder, O: Size>(s: &Value, mut buf: OwnedBuf<E, O>) -> Value {
    buf.extend_from_slice(&vec![7u8; s["pre"].as_u64().unwrap() as usize]);
    let swiss_kind = s["kind"] == "swiss";
    let ents = s["ents"].as_array().unwrap();
    let q = s["q"].as_array().unwrap();
    macro_rules! num {
        ($t:ty) => {{
            let ents: Vec<($t, u32)> = ents.iter().map(|e| (e[0].as_i64().unwrap() as $t, e[1].as_u64().unwrap() as u32)).collect();
            let q: Vec<$t> = q.iter().map(|e| e.as_i64().unwrap() as $t).collect();
            if swiss_kind { exercise!(buf, $t, ents, q, swiss, ()) } else { exercise!(buf, $t, ents, q, phf, ()) }
        }};
    }
    match s["key"].as_str().unwrap() {
        "u8" => num!(u8),
        "u32" => num!(u32),
        "u64" => num!(u64),
        "i16" => num!(i16),
        "str" => {
            let ents: Vec<(Ref<str, E, O>, u32)> = ents
                .iter()
                .map(|e| (buf.store_unsized(core::str::from_utf8(&bytes(&e[0])).unwrap()), e[1].as_u64().unwrap() as u32))
                .collect();
            let q: Vec<String> = q.iter().map(|e| String::from_utf8(bytes(e)).unwrap()).collect();
            let q: Vec<&str> = q.iter().map(|x| &x[..]).collect();
            if swiss_kind { exercise!(buf, str, ents, q, swiss, ()) } else { exercise!(buf, str, ents, q, phf, ()) }
        }
        _ => {
            let ents: Vec<(Ref<[u8], E, O>, u32)> = ents
                .iter()
                .map(|e| (buf.store_slice(&bytes(&e[0])[..]), e[1].as_u64().unwrap() as u32))
                .collect();
            let q: Vec<Vec<u8>> = q.iter().map(bytes).collect();
            let q: Vec<&[u8]> = q.iter().map(|x| &x[..]).collect();
            if swiss_kind { exercise!(buf, [u8], ents, q, swiss, ()) } else { exercise!(buf, [u8], ents, q, phf, ()) }
        }
    }
}
