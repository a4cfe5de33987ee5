//! Dynamic values as trees.
use serde_json::{json, Value};
pub type Dyn = musli::value::Value<musli::alloc::System>;

/// The dynamic value as a tree; numbers are only accessible by their debug output.
pub fn dump(v: &Dyn) -> Value {
    use musli::value::Value::*;
    match v {
        Unit => json!(["unit"]),
        Bool(b) => json!(["bool", *b as u8]),
        Char(c) => json!(["char", *c as u32]),
        Number(n) => {
            let s = format!("{n:?}");
            let (k, r) = s.split_once('(').unwrap();
            let r = r.strip_suffix(')').unwrap();
            macro_rules! num {
                ($($n:literal $k:literal $t:ty;)*) => {
                    match k {
                        $($n => json!(["int", $k, size_of::<$t>(), r.parse::<$t>().unwrap().to_le_bytes()]),)*
                        other => panic!("unknown number {other}"),
                    }
                };
            }
            num! { "U8" "u" u8; "U16" "u" u16; "U32" "u" u32; "U64" "u" u64; "U128" "u" u128; "I8" "i" i8; "I16" "i" i16; "I32" "i" i32; "I64" "i" i64; "I128" "i" i128; "Usize" "us" usize; "Isize" "is" isize; "F32" "f" f32; "F64" "f" f64; }
        }
        Bytes(b) => json!(["bytes", b.as_slice()]),
        String(s) => json!(["str", s.as_bytes()]),
        Sequence(s) => json!(["seq", s.iter().map(dump).collect::<Vec<_>>()]),
        Map(s) => json!(["map", s.iter().map(|(k, v)| json!([dump(k), dump(v)])).collect::<Vec<_>>()]),
        Variant(b) => json!(["var", dump(&b.0), dump(&b.1)]),
        Option(None) => json!(["none"]),
        Option(Some(v)) => json!(["some", dump(v)]),
        _ => panic!("unknown value"),
    }
}
