//! P20: byte-order portability of numbers and references.
use crate::types::*;
use crate::{guard, outcome};
use core::num::*;
use musli_zerocopy::endian::{self, Big, Endian, Little, Native};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{ByteOrder, Ref, Size, ZeroCopy};
use serde_json::{json, Value};

fn raw<T: ZeroCopy + Copy>(v: T) -> Vec<u8> {
    let mut v = v;
    v.to_bytes().to_vec()
}

macro_rules! with_num {
    ($name:expr, $T:ident => $body:expr) => {
        match $name {
            "u8" => { type $T = u8; $body }
            "u16" => { type $T = u16; $body }
            "u32" => { type $T = u32; $body }
            "u64" => { type $T = u64; $body }
            "u128" => { type $T = u128; $body }
            "usize" => { type $T = usize; $body }
            "i8" => { type $T = i8; $body }
            "i16" => { type $T = i16; $body }
            "i32" => { type $T = i32; $body }
            "i64" => { type $T = i64; $body }
            "i128" => { type $T = i128; $body }
            "isize" => { type $T = isize; $body }
            "f32" => { type $T = f32; $body }
            "f64" => { type $T = f64; $body }
            "bool" => { type $T = bool; $body }
            "nz16" => { type $T = NonZeroU16; $body }
            "nz32" => { type $T = NonZeroU32; $body }
            "nzi64" => { type $T = NonZeroI64; $body }
            "nz128" => { type $T = NonZeroU128; $body }
            "onz16" => { type $T = Option<NonZeroU16>; $body }
            "onz64" => { type $T = Option<NonZeroU64>; $body }
            "a3u16" => { type $T = [u16; 3]; $body }
            "SW" => { type $T = SW; $body }
            "EW" => { type $T = EW; $body }
            x => panic!("num {x}"),
        }
    };
}

#[derive(ZeroCopy, Clone, Copy)]
#[repr(C)]
pub struct SW { a: u16, b: u16, c: [u32; 2], d: i64 }
impl ZV for SW {
    fn of(v: &Value) -> Self { SW { a: ZV::of(&v[0]), b: ZV::of(&v[1]), c: ZV::of(&v[2]), d: ZV::of(&v[3]) } }
    fn tree(&self) -> Value { json!([self.a.tree(), self.b.tree(), self.c.tree(), self.d.tree()]) }
}
#[derive(ZeroCopy, Clone, Copy)]
#[zero_copy(swap_bytes)]
#[repr(u16)]
pub enum EW {
    A { f: u16 } = 1,
    A_ { f: u16 } = u16::swap_bytes(1),
    B = 300,
    #[zero_copy(swap = B)]
    C = 0x2c01,
}
impl ZV for EW {
    fn of(v: &Value) -> Self {
        match v[0].as_u64().unwrap() {
            0 => EW::A { f: ZV::of(&v[1]) },
            1 => EW::A_ { f: ZV::of(&v[1]) },
            2 => EW::B,
            _ => EW::C,
        }
    }
    fn tree(&self) -> Value {
        match self {
            EW::A { f } => json!([0, f.tree()]),
            EW::A_ { f } => json!([1, f.tree()]),
            EW::B => json!([2]),
            EW::C => json!([3]),
        }
    }
}

fn refs<E: ByteOrder, O: Size + TryFrom<usize>>(s: &Value) -> Value {
    let num = |k: &str| usize::from_le_bytes(bytes(&s[k]).try_into().unwrap());
    let (off, len) = (num("off"), num("len"));
    let pair = |o: usize, l: usize, b: Vec<u8>| json!({"off": o.to_le_bytes(), "len": l.to_le_bytes(), "b": b});
    let mut out = json!({});
    out["sized"] = outcome::<_, ()>(guard(|| Ok(Ref::<u32, E, O>::new(off))), |r| pair(r.offset(), 0, raw(r)));
    out["slice"] = outcome::<_, ()>(guard(|| Ok(Ref::<[u32], E, O>::with_metadata(off, len))), |r| pair(r.offset(), r.len(), raw(r)));
    out["str"] = outcome::<_, ()>(guard(|| Ok(Ref::<str, E, O>::with_metadata(off, len))), |r| pair(r.offset(), r.len(), raw(r)));
    out["try"] = outcome(guard(|| Ref::<[u32], E, O>::try_with_metadata(off, len)), |r| pair(r.offset(), r.len(), raw(r)));
    out["packed"] = outcome(guard(|| Packed::<[u32], O, u8, E>::try_from_raw_parts_(off, len)), |r| pair(r.offset(), r.len(), raw(r)));
    let na = || json!({"r": "na", "v": []});
    for k in ["tobe", "tole", "tone", "co8", "tco8", "co16", "arr", "one8", "costr", "empty", "zero", "arr300", "arr100", "tarr300", "tarr100"] { out[k] = na(); }
    if let Ok(r) = guard(|| Ref::<[u32], E, O>::with_metadata(off, len)) {
        out["empty"] = json!({"r": "ok", "v": r.is_empty()});
        out["tobe"] = outcome::<_, ()>(guard(|| Ok(r.to_be())), |r| pair(r.offset(), r.len(), raw(r)));
        out["tole"] = outcome::<_, ()>(guard(|| Ok(r.to_le())), |r| pair(r.offset(), r.len(), raw(r)));
        out["tone"] = outcome::<_, ()>(guard(|| Ok(r.to_endian::<Native>())), |r| pair(r.offset(), r.len(), raw(r)));
        out["co8"] = outcome::<_, ()>(guard(|| Ok(r.coerce::<[u8]>())), |r| pair(r.offset(), r.len(), raw(r)));
        out["tco8"] = outcome::<_, ()>(guard(|| r.try_coerce::<[u8]>().ok_or(())), |r| pair(r.offset(), r.len(), raw(r)));
        out["co16"] = outcome::<_, ()>(guard(|| r.try_coerce::<[u16]>().ok_or(())), |r| pair(r.offset(), r.len(), raw(r)));
        out["costr"] = outcome::<_, ()>(guard(|| r.try_coerce::<[u8]>().ok_or(()).map(|r| r.coerce::<str>())), |r| pair(r.offset(), r.len(), raw(r)));
    }
    if let Ok(r) = guard(|| Ref::<[u32; 5], E, O>::new(off)) {
        out["arr"] = outcome::<_, ()>(guard(|| Ok(r.array_into_slice())), |r| pair(r.offset(), r.len(), raw(r)));
    }
    if let Ok(r) = guard(|| Ref::<[u8; 300], E, O>::new(off)) {
        out["tarr300"] = outcome::<_, ()>(guard(|| r.try_coerce::<[u8]>().ok_or(())), |r| pair(r.offset(), r.len(), raw(r)));
        out["arr300"] = outcome::<_, ()>(guard(|| Ok(r.array_into_slice())), |r| pair(r.offset(), r.len(), raw(r)));
    }
    if let Ok(r) = guard(|| Ref::<[u32; 100], E, O>::new(off)) {
        out["tarr100"] = outcome::<_, ()>(guard(|| r.try_coerce::<[u8]>().ok_or(())), |r| pair(r.offset(), r.len(), raw(r)));
        out["arr100"] = outcome::<_, ()>(guard(|| r.try_coerce::<[u16]>().ok_or(())), |r| pair(r.offset(), r.len(), raw(r)));
    }
    if let Ok(r) = guard(|| Ref::<u32, E, O>::new(off)) {
        out["one8"] = outcome::<_, ()>(guard(|| r.try_coerce::<[u8]>().ok_or(())), |r| pair(r.offset(), r.len(), raw(r)));
        out["zero"] = outcome::<_, ()>(guard(|| Ok(Ref::<u32, E, O>::zero())), |r| pair(r.offset(), 0, raw(r)));
    }
    out
}

trait TryRaw: Sized {
    fn try_from_raw_parts_(off: usize, len: usize) -> Result<Self, musli_zerocopy::Error>;
}
impl<T: ZeroCopy, O: Size, L: Size, E: ByteOrder> TryRaw for Packed<[T], O, L, E> {
    fn try_from_raw_parts_(off: usize, len: usize) -> Result<Self, musli_zerocopy::Error> {
        <Self as musli_zerocopy::slice::Slice>::try_with_metadata(off, len)
    }
}

// {"k":"num","t":..,"v":tree} | {"k":"ref","order":..,"size":..,"off":..,"len":..}
pub fn run(s: &Value) -> Value {
    let mut out = s.clone();
    if s["k"] == "num" {
        with_num!(s["t"].as_str().unwrap(), T => {
            let v = || T::of(&s["v"]);
            out["be"] = outcome::<_, ()>(guard(|| Ok(raw(Endian::<T, Big>::new(v())))), |b| json!(b));
            out["le"] = outcome::<_, ()>(guard(|| Ok(raw(Endian::<T, Little>::new(v())))), |b| json!(b));
            out["ber"] = outcome::<_, ()>(guard(|| Ok(Endian::be(v()).to_ne())), |b| b.tree());
            out["ler"] = outcome::<_, ()>(guard(|| Ok(Endian::le(v()).to_ne())), |b| b.tree());
            out["fbe"] = outcome::<_, ()>(guard(|| Ok(raw(endian::from_be(v())))), |b| json!(b));
            out["fle"] = outcome::<_, ()>(guard(|| Ok(raw(endian::from_le(v())))), |b| json!(b));
            out["raw"] = outcome::<_, ()>(guard(|| Ok(raw(v()))), |b| json!(b));
        });
        return out;
    }
    macro_rules! sz {
        ($E:ty) => {
            match s["size"].as_str().unwrap() {
                "u8" => refs::<$E, u8>(s),
                "u16" => refs::<$E, u16>(s),
                "u32" => refs::<$E, u32>(s),
                "u64" => refs::<$E, u64>(s),
                _ => refs::<$E, usize>(s),
            }
        };
    }
    let r = if s["order"] == "be" { sz!(Big) } else { sz!(Little) };
    out["res"] = r;
    out
}
