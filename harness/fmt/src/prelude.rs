pub use musli::{Decode, Encode};
pub use serde_json::{json, Value};
pub use std::borrow::Cow;
pub use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
pub use std::ffi::{CStr, CString, OsStr, OsString};
pub use std::marker::PhantomData;
pub use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
pub use std::num::*;
pub use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
pub use std::path::{Path, PathBuf};
pub use std::rc::Rc;
pub use std::sync::Arc;

/// Conversion between values and trees.
pub trait DV: Sized {
    fn of(v: &Value) -> Self;
    fn tree(&self) -> Value;
}

pub fn bs(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

macro_rules! num {
    ($($t:ty),*) => {$(
        impl DV for $t {
            fn of(v: &Value) -> Self { <$t>::from_le_bytes(bs(v).try_into().unwrap()) }
            fn tree(&self) -> Value { json!(self.to_le_bytes().to_vec()) }
        }
    )*};
}
num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
macro_rules! nz {
    ($($t:ty),*) => {$(
        impl DV for $t {
            fn of(v: &Value) -> Self { <$t>::new(DV::of(v)).unwrap() }
            fn tree(&self) -> Value { self.get().tree() }
        }
    )*};
}
nz!(NonZeroU8, NonZeroU16, NonZeroI32, NonZeroU64, NonZeroU128, NonZeroUsize);
impl DV for bool {
    fn of(v: &Value) -> Self { v.as_u64().unwrap() == 1 }
    fn tree(&self) -> Value { json!(*self as u8) }
}
impl DV for char {
    fn of(v: &Value) -> Self { char::from_u32(v.as_u64().unwrap() as u32).unwrap() }
    fn tree(&self) -> Value { json!(*self as u32) }
}
impl DV for () {
    fn of(_: &Value) -> Self {}
    fn tree(&self) -> Value { json!([]) }
}
impl<T> DV for PhantomData<T> {
    fn of(_: &Value) -> Self { PhantomData }
    fn tree(&self) -> Value { json!([]) }
}
impl DV for RangeFull {
    fn of(_: &Value) -> Self { .. }
    fn tree(&self) -> Value { json!([]) }
}
impl DV for String {
    fn of(v: &Value) -> Self { String::from_utf8(bs(v)).unwrap() }
    fn tree(&self) -> Value {
        // The bytes, which the code under test has promised to be UTF-8.
        json!(self.as_bytes())
    }
}
impl DV for Cow<'static, str> {
    fn of(v: &Value) -> Self { Cow::Owned(String::of(v)) }
    fn tree(&self) -> Value { json!(self.as_bytes()) }
}
impl DV for CString {
    fn of(v: &Value) -> Self { CString::new(bs(v)).unwrap() }
    fn tree(&self) -> Value { json!(self.as_bytes()) }
}
macro_rules! paths {
    ($($t:ty, $b:ty;)*) => {$(
        impl DV for $t {
            fn of(v: &Value) -> Self { <$b>::from(OsString::of(v)).into() }
            fn tree(&self) -> Value { use std::os::unix::ffi::OsStrExt; let s: &OsStr = (**self).as_ref(); json!(s.as_bytes()) }
        }
    )*};
}
paths!(PathBuf, PathBuf; Box<Path>, PathBuf; Arc<Path>, PathBuf; Rc<OsStr>, OsString; Box<OsStr>, OsString;);
impl DV for OsString {
    fn of(v: &Value) -> Self { use std::os::unix::ffi::OsStringExt; OsString::from_vec(bs(v)) }
    fn tree(&self) -> Value { use std::os::unix::ffi::OsStrExt; json!(self.as_bytes()) }
}
macro_rules! cstrs {
    ($($t:ty)*) => {$(
        impl DV for $t {
            fn of(v: &Value) -> Self { CString::of(v).into() }
            fn tree(&self) -> Value { json!(self.to_bytes()) }
        }
    )*};
}
cstrs!(Box<CStr> Rc<CStr> Cow<'static, CStr>);
impl DV for &'static CStr {
    fn of(v: &Value) -> Self { Box::leak(CString::of(v).into()) }
    fn tree(&self) -> Value { json!(self.to_bytes()) }
}
impl DV for Ipv4Addr {
    fn of(v: &Value) -> Self { <[u8; 4]>::try_from(bs(v)).unwrap().into() }
    fn tree(&self) -> Value { json!(self.octets()) }
}
impl DV for Ipv6Addr {
    fn of(v: &Value) -> Self { <[u8; 16]>::try_from(bs(v)).unwrap().into() }
    fn tree(&self) -> Value { json!(self.octets()) }
}
impl DV for IpAddr {
    fn of(v: &Value) -> Self { if v[0] == 0 { IpAddr::V4(DV::of(&v[1])) } else { IpAddr::V6(DV::of(&v[1])) } }
    fn tree(&self) -> Value { match self { IpAddr::V4(x) => json!([0, x.tree()]), IpAddr::V6(x) => json!([1, x.tree()]) } }
}
impl<T: DV> DV for Option<T> {
    fn of(v: &Value) -> Self { v.get(0).map(DV::of) }
    fn tree(&self) -> Value { match self { None => json!([]), Some(x) => json!([x.tree()]) } }
}
impl<T: DV, E: DV> DV for Result<T, E> {
    fn of(v: &Value) -> Self { if v[0] == 0 { Ok(DV::of(&v[1])) } else { Err(DV::of(&v[1])) } }
    fn tree(&self) -> Value { match self { Ok(x) => json!([0, x.tree()]), Err(x) => json!([1, x.tree()]) } }
}
macro_rules! list {
    ($($t:ident [$($b:tt)*]),*) => {$(
        impl<T: DV $($b)*> DV for $t<T> {
            fn of(v: &Value) -> Self { v.as_array().unwrap().iter().map(DV::of).collect() }
            fn tree(&self) -> Value { Value::Array(self.iter().map(|x| x.tree()).collect()) }
        }
    )*};
}
list!(Vec [], BTreeSet [+ Ord]);
/// In two parts.
impl<T: DV> DV for VecDeque<T> {
    fn of(v: &Value) -> Self {
        let v = Vec::<T>::of(v);
        let (n, mut front) = (v.len() / 3, vec![]);
        let mut q = VecDeque::with_capacity(v.len());
        for (i, x) in v.into_iter().enumerate() {
            if i < n { front.push(x) } else { q.push_back(x) }
        }
        while let Some(x) = front.pop() {
            q.push_front(x)
        }
        q
    }
    fn tree(&self) -> Value { Value::Array(self.iter().map(|x| x.tree()).collect()) }
}
impl<T: DV> DV for Box<[T]> {
    fn of(v: &Value) -> Self { Vec::of(v).into() }
    fn tree(&self) -> Value { Value::Array(self.iter().map(|x| x.tree()).collect()) }
}
/// In order: a hash table has none.
impl<T: DV + Ord + std::hash::Hash> DV for HashSet<T> {
    fn of(v: &Value) -> Self { v.as_array().unwrap().iter().map(DV::of).collect() }
    fn tree(&self) -> Value { Value::Array(self.iter().collect::<BTreeSet<_>>().into_iter().map(|x| x.tree()).collect()) }
}
impl<T: DV + Ord + Clone> DV for BinaryHeap<T> {
    fn of(v: &Value) -> Self { v.as_array().unwrap().iter().map(DV::of).collect() }
    fn tree(&self) -> Value { Value::Array(self.clone().into_sorted_vec().iter().map(|x| x.tree()).collect()) }
}
impl<K: DV + Ord + std::hash::Hash, T: DV> DV for HashMap<K, T> {
    fn of(v: &Value) -> Self { v.as_array().unwrap().iter().map(|x| (K::of(&x[0]), T::of(&x[1]))).collect() }
    fn tree(&self) -> Value { Value::Array(self.iter().collect::<BTreeMap<_, _>>().into_iter().map(|(k, x)| json!([k.tree(), x.tree()])).collect()) }
}
/// Borrowed values are leaked: the process is short-lived.
impl DV for &'static str {
    fn of(v: &Value) -> Self { String::of(v).leak() }
    fn tree(&self) -> Value { json!(self.as_bytes()) }
}
impl DV for Box<str> {
    fn of(v: &Value) -> Self { String::of(v).into() }
    fn tree(&self) -> Value { json!(self.as_bytes()) }
}
impl DV for &'static [u8] {
    fn of(v: &Value) -> Self { bs(v).leak() }
    fn tree(&self) -> Value { json!(self) }
}
impl DV for SocketAddrV4 {
    fn of(v: &Value) -> Self { SocketAddrV4::new(DV::of(&v[0]), DV::of(&v[1])) }
    fn tree(&self) -> Value { json!([self.ip().tree(), self.port().tree()]) }
}
impl DV for SocketAddrV6 {
    fn of(v: &Value) -> Self { SocketAddrV6::new(DV::of(&v[0]), DV::of(&v[1]), DV::of(&v[2]), DV::of(&v[3])) }
    fn tree(&self) -> Value { json!([self.ip().tree(), self.port().tree(), self.flowinfo().tree(), self.scope_id().tree()]) }
}
impl DV for SocketAddr {
    fn of(v: &Value) -> Self { if v[0] == 0 { SocketAddr::V4(DV::of(&v[1])) } else { SocketAddr::V6(DV::of(&v[1])) } }
    fn tree(&self) -> Value { match self { SocketAddr::V4(x) => json!([0, x.tree()]), SocketAddr::V6(x) => json!([1, x.tree()]) } }
}
impl<K: DV + Ord, T: DV> DV for BTreeMap<K, T> {
    fn of(v: &Value) -> Self { v.as_array().unwrap().iter().map(|x| (K::of(&x[0]), T::of(&x[1]))).collect() }
    fn tree(&self) -> Value { Value::Array(self.iter().map(|(k, x)| json!([k.tree(), x.tree()])).collect()) }
}
impl<T: DV, const N: usize> DV for [T; N] {
    fn of(v: &Value) -> Self { std::array::from_fn(|i| T::of(&v[i])) }
    fn tree(&self) -> Value { Value::Array(self.iter().map(|x| x.tree()).collect()) }
}
macro_rules! tup {
    ($($t:ident $n:tt),*) => {
        impl<$($t: DV),*> DV for ($($t,)*) {
            fn of(v: &Value) -> Self { ($($t::of(&v[$n]),)*) }
            fn tree(&self) -> Value { Value::Array(vec![$(self.$n.tree()),*]) }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);
impl<T: DV> DV for Wrapping<T> {
    fn of(v: &Value) -> Self { Wrapping(T::of(v)) }
    fn tree(&self) -> Value { self.0.tree() }
}
macro_rules! ptr {
    ($($t:ident),*) => {$(
        impl<T: DV> DV for $t<T> {
            fn of(v: &Value) -> Self { $t::new(T::of(v)) }
            fn tree(&self) -> Value { (**self).tree() }
        }
    )*};
}
ptr!(Box, Rc, Arc);
macro_rules! rng {
    ($t:ident, $($f:ident)*, $s:ident => $new:expr) => {
        impl<T: DV> DV for $t<T> {
            fn of(v: &Value) -> Self { let $s = v; $new }
            fn tree(&self) -> Value { rng!(@ self $($f)*) }
        }
    };
    (@ $s:ident start end) => { json!([$s.start.tree(), $s.end.tree()]) };
    (@ $s:ident start) => { json!([$s.start.tree()]) };
    (@ $s:ident end) => { json!([$s.end.tree()]) };
}
rng!(Range, start end, v => Range { start: T::of(&v[0]), end: T::of(&v[1]) });
rng!(RangeFrom, start, v => RangeFrom { start: T::of(&v[0]) });
rng!(RangeTo, end, v => RangeTo { end: T::of(&v[0]) });
rng!(RangeToInclusive, end, v => RangeToInclusive { end: T::of(&v[0]) });
impl<T: DV> DV for RangeInclusive<T> {
    fn of(v: &Value) -> Self { RangeInclusive::new(T::of(&v[0]), T::of(&v[1])) }
    fn tree(&self) -> Value { json!([self.start().tree(), self.end().tree()]) }
}

/// A mode of one's own.
pub enum Third {}
