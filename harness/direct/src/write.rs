//! Programs as encoders: nodes are {"k": kind, "x": parts, "w": how it is written, ...}.
use crate::common::bytes;
use musli::en::{EntriesEncoder, EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder};
use musli::{Encode, Encoder};
use serde_json::Value;

#[derive(Clone, Copy)]
pub struct P<'a>(pub &'a Value);
impl<M> Encode<M> for P<'_> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        write(self.0, encoder)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

struct Show<'a>(&'a [Value]);
impl std::fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // In parts.
        for p in self.0 {
            f.write_str(text(p).as_str())?;
        }
        Ok(())
    }
}

pub fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
fn list(v: &Value) -> Vec<P<'_>> {
    v.as_array().unwrap().iter().map(P).collect()
}
macro_rules! number {
    ($e:expr, $x:expr, $($k:literal $w:literal $m:ident $t:ty;)*) => {
        match ($x[0].as_str().unwrap(), $x[1].as_u64().unwrap()) {
            $(($k, $w) => $e.$m(<$t>::from_le_bytes(bytes(&$x[2]).try_into().unwrap())),)*
            other => panic!("unknown number {other:?}"),
        }
    };
}

pub fn write<E: Encoder>(p: &Value, e: E) -> Result<(), E::Error> {
    if p["k"] == "some" {
        return inside(&p["x"], e.encode_some()?);
    }
    inside(p, e)
}
/// In dynamic values every option is an encoder of a type of its own, so they are not nested.
#[cfg(feature = "value")]
fn some<E: Encoder>(_: &Value, _: E) -> Result<(), E::Error> {
    panic!("nested option")
}
#[cfg(not(feature = "value"))]
fn some<E: Encoder>(x: &Value, e: E) -> Result<(), E::Error> {
    inside(x, e.encode_some()?)
}
fn inside<E: Encoder>(p: &Value, e: E) -> Result<(), E::Error> {
    let x = &p["x"];
    let w = p["w"].as_str().unwrap();
    match p["k"].as_str().unwrap() {
        "bool" => e.encode_bool(*x == 1),
        "char" => e.encode_char(char::from_u32(x.as_u64().unwrap() as u32).unwrap()),
        "int" => number! {
            e, x,
            "u" 1 encode_u8 u8; "u" 2 encode_u16 u16; "u" 4 encode_u32 u32; "u" 8 encode_u64 u64; "u" 16 encode_u128 u128;
            "i" 1 encode_i8 i8; "i" 2 encode_i16 i16; "i" 4 encode_i32 i32; "i" 8 encode_i64 i64; "i" 16 encode_i128 i128;
            "us" 8 encode_usize usize; "is" 8 encode_isize isize; "f" 4 encode_f32 f32; "f" 8 encode_f64 f64;
        },
        // In parts, which are joined.
        "str" => {
            let parts = x.as_array().unwrap();
            if w == "collect" {
                e.collect_string(&Show(parts))
            } else {
                e.encode_string(&parts.iter().map(text).collect::<String>())
            }
        }
        "bytes" => {
            let parts: Vec<_> = x.as_array().unwrap().iter().map(bytes).collect();
            if w == "vectored" {
                e.encode_bytes_vectored(parts.iter().map(|b| b.len()).sum(), parts.iter())
            } else {
                e.encode_bytes(&parts.concat())
            }
        }
        "array" => {
            let b = bytes(x);
            macro_rules! arr {
                ($($n:literal)*) => { match b.len() { $($n => e.encode_array::<$n>(b[..].try_into().unwrap()),)* n => panic!("no arrays of {n}") } };
            }
            arr!(0 1 3 4 16 70)
        }
        "empty" => e.encode_empty(),
        "none" => e.encode_none(),
        "some" => some(x, e),
        "pack" => {
            if w == "fn" {
                e.encode_pack_fn(|s| list(x).into_iter().try_for_each(|y| s.push(y)))
            } else {
                let mut s = e.encode_pack()?;
                for y in list(x) {
                    write(y.0, s.encode_next()?)?;
                }
                s.finish_sequence()
            }
        }
        "seq" => {
            let ys = list(x);
            let (a, b) = ys.split_at(ys.len() / 2);
            match w {
                "slice" => e.encode_slice(&ys),
                "slices" => e.encode_slices(ys.len(), [a, b]),
                "fn" => e.encode_sequence_fn(ys.len(), |s| ys.iter().try_for_each(|y| s.push(y))),
                _ => {
                    let mut s = e.encode_sequence(ys.len())?;
                    match w {
                        "push" => {
                            for y in ys {
                                s.push(y)?;
                            }
                        }
                        "next" => {
                            for y in ys {
                                write(y.0, s.encode_next()?)?;
                            }
                        }
                        "inner" => {
                            s.encode_slice(a)?;
                            s.encode_slice(b)?;
                        }
                        _ => s.encode_slices([a, b])?,
                    }
                    s.finish_sequence()
                }
            }
        }
        "map" => {
            let n = x.as_array().unwrap().len();
            match w {
                "entries" | "insertentries" => {
                    let mut m = e.encode_map_entries(n)?;
                    for y in x.as_array().unwrap() {
                        if w == "entries" {
                            write(&y[0], m.encode_entry_key()?)?;
                            write(&y[1], m.encode_entry_value()?)?;
                        } else {
                            m.insert_entry(P(&y[0]), P(&y[1]))?;
                        }
                    }
                    m.finish_entries()
                }
                "fn" => e.encode_map_fn(n, |m| fill(m, w, x.as_array().unwrap())),
                _ => {
                    let mut m = e.encode_map(n)?;
                    fill(&mut m, w, x.as_array().unwrap())?;
                    m.finish_map()
                }
            }
        }
        "var" => {
            let (t, d) = (&x[0], &x[1]);
            let n = d["x"].as_array().map_or(0, |x| x.len());
            match w {
                "unit" => e.encode_unit_variant(&P(t)),
                "seq" => {
                    let mut s = e.encode_sequence_variant(&P(t), n)?;
                    for y in list(&d["x"]) {
                        s.push(y)?;
                    }
                    s.finish_sequence()
                }
                "map" => {
                    let mut m = e.encode_map_variant(&P(t), n)?;
                    fill(&mut m, d["w"].as_str().unwrap(), d["x"].as_array().unwrap())?;
                    m.finish_map()
                }
                "fn" => e.encode_variant_fn(|v| {
                    write(t, v.encode_tag()?)?;
                    write(d, v.encode_data()?)
                }),
                "insert" => e.encode_variant()?.insert_variant(P(t), P(d)),
                _ => {
                    let mut v = e.encode_variant()?;
                    write(t, v.encode_tag()?)?;
                    write(d, v.encode_data()?)?;
                    v.finish_variant()
                }
            }
        }
        other => panic!("unknown kind {other}"),
    }
}

fn fill<E: MapEncoder>(m: &mut E, w: &str, es: &[Value]) -> Result<(), E::Error> {
    for y in es {
        let (k, v) = (&y[0], &y[1]);
        match w {
            "entry" => {
                let mut e = m.encode_entry()?;
                write(k, e.encode_key()?)?;
                write(v, e.encode_value()?)?;
                e.finish_entry()?;
            }
            "entryfn" => m.encode_entry_fn(|e| {
                write(k, e.encode_key()?)?;
                write(v, e.encode_value()?)
            })?,
            "inserted" => m.encode_entry()?.insert_entry(P(k), P(v))?,
            _ => m.insert_entry(P(k), P(v))?,
        }
    }
    Ok(())
}
