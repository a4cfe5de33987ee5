//! The universe of types the harness stores and loads.  Values travel as JSON
//! trees: a primitive is its little-endian byte list, an aggregate the list of
//! its fields, an enum the variant number followed by its fields.
use core::num::*;
use musli_zerocopy::ZeroCopy;
use serde_json::{json, Value};

pub trait ZV: ZeroCopy + Copy + 'static {
    fn of(v: &Value) -> Self;
    fn tree(&self) -> Value;
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

macro_rules! prim {
    ($($t:ty),*) => {$(impl ZV for $t {
        fn of(v: &Value) -> Self { <$t>::from_le_bytes(bytes(v).try_into().unwrap()) }
        fn tree(&self) -> Value { json!(self.to_le_bytes().to_vec()) }
    })*}
}
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);

impl ZV for bool {
    fn of(v: &Value) -> Self { bytes(v)[0] == 1 }
    fn tree(&self) -> Value {
        // SAFETY: reading the representation of a bool
        let b = unsafe { *(self as *const bool as *const u8) };
        json!([b])
    }
}
impl ZV for char {
    fn of(v: &Value) -> Self { char::from_u32(u32::from_le_bytes(bytes(v).try_into().unwrap())).unwrap() }
    fn tree(&self) -> Value {
        let b = unsafe { *(self as *const char as *const u32) };
        json!(b.to_le_bytes().to_vec())
    }
}
macro_rules! nz {
    ($($t:ident $p:ty),*) => {$(
        impl ZV for $t {
            fn of(v: &Value) -> Self { $t::new(<$p as ZV>::of(v)).unwrap() }
            fn tree(&self) -> Value { self.get().tree() }
        }
        impl ZV for Option<$t> {
            fn of(v: &Value) -> Self { $t::new(<$p as ZV>::of(v)) }
            fn tree(&self) -> Value { self.map(|x| x.get()).unwrap_or(0).tree() }
        }
    )*}
}
nz!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128);

impl<T: ZV, const N: usize> ZV for [T; N] {
    fn of(v: &Value) -> Self {
        let a = v.as_array().unwrap();
        core::array::from_fn(|i| T::of(&a[i]))
    }
    fn tree(&self) -> Value { Value::Array(self.iter().map(|x| x.tree()).collect()) }
}
impl ZV for () {
    fn of(_: &Value) -> Self {}
    fn tree(&self) -> Value { json!([]) }
}

macro_rules! st {
    ($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(ZeroCopy, Clone, Copy)]
        $(#[$m])*
        pub struct $n { $(pub $f: $t),* }
        impl ZV for $n {
            #[allow(unused_assignments, unused_mut, unused_variables)]
            fn of(v: &Value) -> Self { let a = v.as_array().unwrap(); let mut i = 0; $(let $f = <$t as ZV>::of(&a[i]); i += 1;)* $n { $($f),* } }
            fn tree(&self) -> Value { Value::Array(vec![$({ let x = self.$f; x.tree() }),*]) }
        }
    }
}
st!(#[repr(C)] S1 { a: u8, b: u32 });
st!(#[repr(C)] S2 { a: u8, b: u64, c: u16 });
st!(#[repr(C)] S3 { a: u16, b: S1, c: u8 });
st!(#[repr(C)] S4 { a: [S1; 2], b: u128, c: bool });
st!(#[repr(transparent)] T5 { a: u32 });
st!(#[repr(C, packed)] P6 { a: u8, b: u32, c: u16 });
st!(#[repr(C, packed(2))] P7 { a: u8, b: u8, c: u32, d: u8, e: u64 });
st!(#[repr(C)] S8 { a: NonZeroU16, b: bool, c: char });
st!(#[repr(C)] S9 { a: E1, b: u8, c: E2 });
st!(#[repr(C, align(16))] A10 { a: u8, b: u16 });
st!(#[repr(C)] S11 { a: bool, b: bool, c: NonZeroU32, d: [bool; 3] });
st!(#[repr(C)] Z12 { });

#[derive(ZeroCopy, Clone, Copy)]
#[repr(u8)]
pub enum E1 { A, B(u32), C { a: u16, b: u8 }, D(bool, u16) }
impl ZV for E1 {
    fn of(v: &Value) -> Self {
        match v[0].as_u64().unwrap() {
            0 => E1::A,
            1 => E1::B(ZV::of(&v[1])),
            2 => E1::C { a: ZV::of(&v[1]), b: ZV::of(&v[2]) },
            _ => E1::D(ZV::of(&v[1]), ZV::of(&v[2])),
        }
    }
    fn tree(&self) -> Value {
        match self {
            E1::A => json!([0]),
            E1::B(x) => json!([1, x.tree()]),
            E1::C { a, b } => json!([2, a.tree(), b.tree()]),
            E1::D(a, b) => json!([3, a.tree(), b.tree()]),
        }
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(u16)]
pub enum E2 { A = 1, B = 300, C(u64) = 5, D = 258 }
impl ZV for E2 {
    fn of(v: &Value) -> Self {
        match v[0].as_u64().unwrap() {
            0 => E2::A,
            1 => E2::B,
            2 => E2::C(ZV::of(&v[1])),
            _ => E2::D,
        }
    }
    fn tree(&self) -> Value {
        match self {
            E2::A => json!([0]),
            E2::B => json!([1]),
            E2::C(x) => json!([2, x.tree()]),
            E2::D => json!([3]),
        }
    }
}
#[derive(ZeroCopy, Clone, Copy)]
#[repr(i8)]
pub enum E3 { N = -3, O, P = 7, Q }
impl ZV for E3 {
    fn of(v: &Value) -> Self {
        match v[0].as_u64().unwrap() { 0 => E3::N, 1 => E3::O, 2 => E3::P, _ => E3::Q }
    }
    fn tree(&self) -> Value {
        json!([match self { E3::N => 0, E3::O => 1, E3::P => 2, E3::Q => 3 }])
    }
}

/// Call a macro body with `$T` bound to the type named by a string.
#[macro_export]
macro_rules! with_type {
    ($name:expr, $T:ident => $body:expr) => {{
        #[allow(unused_imports)]
        use core::num::*;
        use $crate::types::*;
        match $name {
            "u8" => { type $T = u8; $body }
            "u16" => { type $T = u16; $body }
            "u32" => { type $T = u32; $body }
            "u64" => { type $T = u64; $body }
            "u128" => { type $T = u128; $body }
            "i16" => { type $T = i16; $body }
            "i64" => { type $T = i64; $body }
            "f32" => { type $T = f32; $body }
            "bool" => { type $T = bool; $body }
            "char" => { type $T = char; $body }
            "nz8" => { type $T = NonZeroU8; $body }
            "nz32" => { type $T = NonZeroU32; $body }
            "nzi64" => { type $T = NonZeroI64; $body }
            "nz128" => { type $T = NonZeroU128; $body }
            "onz16" => { type $T = Option<NonZeroU16>; $body }
            "a3u16" => { type $T = [u16; 3]; $body }
            "a2S1" => { type $T = [S1; 2]; $body }
            "a4bool" => { type $T = [bool; 4]; $body }
            "unit" => { type $T = (); $body }
            "S1" => { type $T = S1; $body }
            "S2" => { type $T = S2; $body }
            "S3" => { type $T = S3; $body }
            "S4" => { type $T = S4; $body }
            "T5" => { type $T = T5; $body }
            "P6" => { type $T = P6; $body }
            "P7" => { type $T = P7; $body }
            "S8" => { type $T = S8; $body }
            "S9" => { type $T = S9; $body }
            "A10" => { type $T = A10; $body }
            "S11" => { type $T = S11; $body }
            "Z12" => { type $T = Z12; $body }
            "E1" => { type $T = E1; $body }
            "E2" => { type $T = E2; $body }
            "E3" => { type $T = E3; $body }
            other => panic!("unknown type {other}"),
        }
    }};
}
