//! Programs as decoders: what was written is read as the program says ("r", "n"), and what was read returned.
use musli::de::{AsDecoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, SizeHint, UnsizedVisitor, VariantDecoder, Visitor};
use musli::{Context, Decode, Decoder};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};

thread_local! {
    static PROGRAM: Cell<*const Value> = const { Cell::new(std::ptr::null()) };
    static HINTS: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
}
/// Read by this program.
pub fn with<T>(p: &Value, f: impl FnOnce() -> T) -> T {
    let old = PROGRAM.replace(p);
    let r = f();
    PROGRAM.set(old);
    r
}
/// The size hints which were given, each with what there was.
pub fn hints() -> Value {
    Value::Array(HINTS.take())
}
fn hint(h: SizeHint, n: usize) {
    let s = h.or_default();
    HINTS.with_borrow_mut(|x| {
        if x.len() < 200 {
            // No hint is a hint of none.
            x.push(json!([s.min(1 << 30), n]))
        }
    });
}

pub struct R(pub Value);
impl<'de, M, A> Decode<'de, M, A> for R
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        // The program outlives the reading.
        let p = unsafe { &*PROGRAM.get() };
        wrapped(p, decoder).map(R)
    }
}

struct Str;
#[musli::de::unsized_visitor]
impl<'de, C> UnsizedVisitor<'de, C, str> for Str
where
    C: Context,
{
    type Ok = Vec<u8>;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "a string")
    }
    fn visit_ref(self, _: C, s: &str) -> Result<Self::Ok, Self::Error> {
        Ok(s.as_bytes().to_vec())
    }
}
struct Blob;
#[musli::de::unsized_visitor]
impl<'de, C> UnsizedVisitor<'de, C, [u8]> for Blob
where
    C: Context,
{
    type Ok = Vec<u8>;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bytes")
    }
    fn visit_ref(self, _: C, s: &[u8]) -> Result<Self::Ok, Self::Error> {
        Ok(s.to_vec())
    }
}

/// Whatever is there, as a tree.
struct Tree(Value);
impl<'de, M, A> Decode<'de, M, A> for Tree
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        decoder.decode_any(Spy).map(Tree)
    }
}
struct Spy;
macro_rules! visits {
    ($($m:ident $k:literal $t:ty;)*) => {
        $(fn $m(self, _: C, x: $t) -> Result<Value, C::Error> {
            Ok(json!(["int", $k, size_of::<$t>(), x.to_le_bytes()]))
        })*
    };
}
#[musli::de::visitor]
impl<'de, C> Visitor<'de, C> for Spy
where
    C: Context,
{
    type Ok = Value;
    type String = Text;
    type Bytes = Blobs;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "anything")
    }
    fn visit_empty(self, _: C) -> Result<Value, C::Error> {
        Ok(json!(["unit"]))
    }
    fn visit_bool(self, _: C, x: bool) -> Result<Value, C::Error> {
        Ok(json!(["bool", x as u8]))
    }
    fn visit_char(self, _: C, x: char) -> Result<Value, C::Error> {
        Ok(json!(["char", x as u32]))
    }
    visits! {
        visit_u8 "u" u8; visit_u16 "u" u16; visit_u32 "u" u32; visit_u64 "u" u64; visit_u128 "u" u128; visit_i8 "i" i8; visit_i16 "i" i16; visit_i32 "i" i32; visit_i64 "i" i64;
        visit_i128 "i" i128; visit_usize "us" usize; visit_isize "is" isize; visit_f32 "f" f32; visit_f64 "f" f64;
    }
    fn visit_none(self, _: C) -> Result<Value, C::Error> {
        Ok(json!(["none"]))
    }
    fn visit_some<D>(self, d: D) -> Result<Value, C::Error>
    where
        D: Decoder<'de, Cx = C, Error = C::Error, Allocator = C::Allocator>,
    {
        Ok(json!(["some", d.decode::<Tree>()?.0]))
    }
    fn visit_sequence<D>(self, d: &mut D) -> Result<Value, C::Error>
    where
        D: ?Sized + SequenceDecoder<'de, Cx = C, Error = C::Error, Allocator = C::Allocator>,
    {
        let mut out = vec![];
        while let Some(x) = d.try_next::<Tree>()? {
            out.push(x.0);
        }
        Ok(json!(["seq", out]))
    }
    fn visit_map<D>(self, d: &mut D) -> Result<Value, C::Error>
    where
        D: ?Sized + MapDecoder<'de, Cx = C, Error = C::Error, Allocator = C::Allocator>,
    {
        let mut out = vec![];
        while let Some((k, v)) = d.entry::<Tree, Tree>()? {
            out.push(json!([k.0, v.0]));
        }
        Ok(json!(["map", out]))
    }
    fn visit_string(self, _: C, _: SizeHint) -> Result<Text, C::Error> {
        Ok(Text)
    }
    fn visit_bytes(self, _: C, _: SizeHint) -> Result<Blobs, C::Error> {
        Ok(Blobs)
    }
    fn visit_variant<D>(self, d: &mut D) -> Result<Value, C::Error>
    where
        D: ?Sized + VariantDecoder<'de, Cx = C, Error = C::Error, Allocator = C::Allocator>,
    {
        let t = d.decode_tag()?.decode::<Tree>()?.0;
        Ok(json!(["var", t, d.decode_value()?.decode::<Tree>()?.0]))
    }
}
struct Text;
#[musli::de::unsized_visitor]
impl<'de, C> UnsizedVisitor<'de, C, str> for Text
where
    C: Context,
{
    type Ok = Value;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "a string")
    }
    fn visit_ref(self, _: C, s: &str) -> Result<Value, C::Error> {
        Ok(json!(["str", s.as_bytes()]))
    }
}
struct Blobs;
#[musli::de::unsized_visitor]
impl<'de, C> UnsizedVisitor<'de, C, [u8]> for Blobs
where
    C: Context,
{
    type Ok = Value;
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bytes")
    }
    fn visit_ref(self, _: C, s: &[u8]) -> Result<Value, C::Error> {
        Ok(json!(["bytes", s]))
    }
}

/// Skipped, read dynamically, read more than once, or read.
fn wrapped<'de, D: Decoder<'de>>(p: &Value, d: D) -> Result<Value, D::Error> {
    match p["as"].as_str().unwrap() {
        "skip" => {
            d.skip()?;
            Ok(json!(["skip"]))
        }
        "tryskip" => Ok(json!([if d.try_skip()?.is_skipped() { "skip" } else { "unsupported" }])),
        #[cfg(any(feature = "desc", feature = "value"))]
        "any" => {
            let v: musli::value::Value<D::Allocator> = d.decode()?;
            // Written and read again, for the tree.
            let b = musli::descriptive::to_vec(&v).unwrap();
            Ok(json!(["any", crate::dynamic::dump(&musli::descriptive::from_slice(&b).unwrap())]))
        }
        "visit" => Ok(json!(["any", d.decode_any(Spy)?])),
        "number" => Ok(json!(["any", d.decode_number(Spy)?])),
        "buffer" => {
            let b = d.decode_buffer()?;
            let x = read(p, b.as_decoder()?)?;
            let y = read(p, b.as_decoder()?)?;
            Ok(json!(["twice", x, y]))
        }
        "clone" => {
            let Some(c) = d.try_clone() else { return Ok(json!(["once", read(p, d)?])) };
            let x = read(p, c)?;
            Ok(json!(["twice", x, read(p, d)?]))
        }
        "decode" => with(p, || d.decode::<Inner>()).map(|x| x.0),
        _ => read(p, d),
    }
}
/// Read without being wrapped again.
struct Inner(Value);
impl<'de, M, A> Decode<'de, M, A> for Inner
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        let p = unsafe { &*PROGRAM.get() };
        read(p, decoder).map(Inner)
    }
}

macro_rules! number {
    ($d:expr, $x:expr, $($k:literal $w:literal $m:ident;)*) => {
        match ($x[0].as_str().unwrap(), $x[1].as_u64().unwrap()) {
            $(($k, $w) => json!($d.$m()?.to_le_bytes()),)*
            other => panic!("unknown number {other:?}"),
        }
    };
}

fn read<'de, D: Decoder<'de>>(p: &Value, d: D) -> Result<Value, D::Error> {
    let x = &p["x"];
    let r = p["r"].as_str().unwrap();
    let n = p["n"].as_u64().unwrap() as usize;
    let len = x.as_array().map_or(0, |x| x.len());
    Ok(match p["k"].as_str().unwrap() {
        "bool" => json!(d.decode_bool()? as u8),
        "char" => json!(d.decode_char()? as u32),
        "int" => number! {
            d, x,
            "u" 1 decode_u8; "u" 2 decode_u16; "u" 4 decode_u32; "u" 8 decode_u64; "u" 16 decode_u128;
            "i" 1 decode_i8; "i" 2 decode_i16; "i" 4 decode_i32; "i" 8 decode_i64; "i" 16 decode_i128;
            "us" 8 decode_usize; "is" 8 decode_isize; "f" 4 decode_f32; "f" 8 decode_f64;
        },
        "str" if r == "unsized" => json!(d.decode_unsized::<str, _, _>(|s: &str| Ok(s.as_bytes().to_vec()))?),
        "str" => json!(d.decode_string(Str)?),
        "bytes" if r == "unsized" => json!(d.decode_unsized_bytes::<[u8], _, _>(|s: &[u8]| Ok(s.to_vec()))?),
        "bytes" => json!(d.decode_bytes(Blob)?),
        "array" => {
            macro_rules! arr {
                ($($n:literal)*) => { match len { $($n => json!(d.decode_array::<$n>()?.to_vec()),)* n => panic!("no arrays of {n}") } };
            }
            arr!(0 1 3 4 16 70)
        }
        "empty" => {
            d.decode_empty()?;
            json!([])
        }
        "none" | "some" => match d.decode_option()? {
            Some(d) => json!([if p["k"] == "some" { wrapped(x, d)? } else { json!("unexpected") }]),
            None => json!([]),
        },
        "pack" => d.decode_pack(|s| {
            let mut out = vec![];
            for y in x.as_array().unwrap() {
                out.push(wrapped(y, s.decode_next()?)?);
            }
            Ok(Value::Array(out))
        })?,
        "seq" => {
            let ys = x.as_array().unwrap();
            if r == "hinted" {
                d.decode_sequence_hint(len, |s| elements(s, r, n, ys))?
            } else {
                d.decode_sequence(|s| elements(s, r, n, ys))?
            }
        }
        "map" => {
            let es = x.as_array().unwrap();
            match r {
                "hinted" => d.decode_map_hint(len, |m| entries(m, r, n, es))?,
                "entries" => d.decode_map_entries(|m| {
                    let mut out = vec![];
                    for y in &es[..n] {
                        hint(m.size_hint(), len - out.len());
                        let Some(k) = m.decode_entry_key()? else { break };
                        let k = wrapped(&y[0], k)?;
                        out.push(json!([k, wrapped(&y[1], m.decode_entry_value()?)?]));
                    }
                    if n == len && m.decode_entry_key()?.is_some() {
                        out.push(json!("unexpected"));
                    }
                    Ok(Value::Array(out))
                })?,
                _ => d.decode_map(|m| entries(m, r, n, es))?,
            }
        }
        "var" => d.decode_variant(|v| {
            let t = wrapped(&x[0], v.decode_tag()?)?;
            Ok(json!([t, wrapped(&x[1], v.decode_value()?)?]))
        })?,
        other => panic!("unknown kind {other}"),
    })
}

fn elements<'de, S: SequenceDecoder<'de>>(s: &mut S, r: &str, n: usize, ys: &[Value]) -> Result<Value, S::Error> {
    let mut out = vec![];
    for (i, y) in ys[..n].iter().enumerate() {
        hint(s.size_hint(), ys.len() - i);
        out.push(match r {
            "try" => match s.try_decode_next()? {
                Some(d) => wrapped(y, d)?,
                None => break,
            },
            "typed" => with(y, || s.next::<R>())?.0,
            "trytyped" => match with(y, || s.try_next::<R>())? {
                Some(x) => x.0,
                None => break,
            },
            _ => wrapped(y, s.decode_next()?)?,
        });
    }
    if n == ys.len() {
        hint(s.size_hint(), 0);
        match r {
            "over" => {
                let _ = s.decode_next()?;
                out.push(json!("unexpected"));
            }
            _ => {
                if s.try_decode_next()?.is_some() {
                    out.push(json!("unexpected"));
                }
            }
        }
    }
    Ok(Value::Array(out))
}

fn entries<'de, S: MapDecoder<'de>>(m: &mut S, r: &str, n: usize, es: &[Value]) -> Result<Value, S::Error> {
    let mut out = vec![];
    let k = if r == "rest" { n / 2 } else { n };
    for y in &es[..k] {
        hint(m.size_hint(), es.len() - out.len());
        let Some(mut e) = m.decode_entry()? else { break };
        let k = wrapped(&y[0], e.decode_key()?)?;
        out.push(json!([k, wrapped(&y[1], e.decode_value()?)?]));
    }
    if r == "rest" {
        let mut m = m.decode_remaining_entries()?;
        for y in &es[k..n] {
            let Some(d) = m.decode_entry_key()? else { break };
            let k = wrapped(&y[0], d)?;
            out.push(json!([k, wrapped(&y[1], m.decode_entry_value()?)?]));
        }
        m.end_entries()?;
    } else if n == es.len() {
        hint(m.size_hint(), 0);
        if m.decode_entry()?.is_some() {
            out.push(json!("unexpected"));
        }
    }
    Ok(Value::Array(out))
}
