//! Diagnostics: which place an error names, when a leaf refuses to be written
//! or read, when the input ends early, and when a context is used again.
use crate::guard;
use musli::alloc::{Allocator, System};
use musli::context;
use musli::en::SequenceEncoder;
use musli::{Context, Decode, Decoder, Encode, Encoder};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::fmt;

thread_local! {
    static REFUSE: Cell<u8> = const { Cell::new(0) };
}
const ENC: u8 = 1;
const DEC: u8 = 2;

/// A leaf which may refuse.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct X(u8);
impl<M> Encode<M> for X {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E>(&self, e: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        if self.0 == 255 && REFUSE.get() & ENC != 0 {
            return Err(e.cx().message("refused"));
        }
        e.encode_u8(self.0)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for X {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        let cx = d.cx();
        let b = d.decode_u8()?;
        if b == 255 && REFUSE.get() & DEC != 0 {
            return Err(cx.message("refused"));
        }
        Ok(X(b))
    }
}
impl<M> musli::en::EncodePacked<M> for X {
    fn encode_packed<E>(&self, e: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        Encode::<M>::encode(self, e)
    }
}

trait Mk {
    fn mk(v: &Value) -> Self;
}
impl Mk for X {
    fn mk(v: &Value) -> X {
        X(v.as_u64().unwrap() as u8)
    }
}
impl Mk for u32 {
    fn mk(v: &Value) -> u32 {
        v.as_u64().unwrap() as u32
    }
}
impl Mk for String {
    fn mk(v: &Value) -> String {
        v.as_str().unwrap().into()
    }
}
fn list(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
macro_rules! seqs { ($($t:ident),*) => { $(impl<T: Mk + Ord + std::hash::Hash> Mk for $t<T> { fn mk(v: &Value) -> Self { list(v).iter().map(T::mk).collect() } })* } }
seqs!(BTreeSet, HashSet, BinaryHeap);
/// In two parts, which wrap around the buffer.
impl<T: Mk> Mk for VecDeque<T> {
    fn mk(v: &Value) -> Self {
        let v = list(v);
        let n = v.len() / 2;
        let mut q = VecDeque::with_capacity(v.len());
        q.extend(v[n..].iter().map(T::mk));
        v[..n].iter().rev().for_each(|x| q.push_front(T::mk(x)));
        q
    }
}
/// Written as several slices at once, or as slices of a sequence which is already being written.
#[derive(Debug, Clone, PartialEq)]
pub struct Parts<const AT_ONCE: bool>(Vec<X>);
impl<const AT_ONCE: bool> Mk for Parts<AT_ONCE> {
    fn mk(v: &Value) -> Self {
        Parts(Vec::mk(v))
    }
}
impl<M, const AT_ONCE: bool> Encode<M> for Parts<AT_ONCE> {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<E>(&self, e: E) -> Result<(), E::Error>
    where
        E: Encoder<Mode = M>,
    {
        let (n, v) = (self.0.len(), &self.0[..]);
        let parts = [&v[..n / 3], &v[n / 3..n / 3], &v[n / 3..n * 2 / 3], &v[n * 2 / 3..]];
        if AT_ONCE {
            e.encode_slices(n, parts)
        } else {
            let mut s = e.encode_sequence(n)?;
            s.encode_slices(parts)?;
            s.finish_sequence()
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator, const AT_ONCE: bool> Decode<'de, M, A> for Parts<AT_ONCE> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D>(d: D) -> Result<Self, D::Error>
    where
        D: Decoder<'de, Mode = M, Allocator = A>,
    {
        Ok(Parts(d.decode()?))
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(v: &Value) -> Self {
        list(v).iter().map(T::mk).collect()
    }
}
impl<T: Mk> Mk for Box<[T]> {
    fn mk(v: &Value) -> Self {
        list(v).iter().map(T::mk).collect()
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(v: &Value) -> Self {
        Box::new(T::mk(v))
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(v: &Value) -> Self {
        list(v).first().map(T::mk)
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(v: &Value) -> Self {
        let mut i = list(v).iter();
        std::array::from_fn(|_| T::mk(i.next().unwrap()))
    }
}
impl<K: Mk + Ord, T: Mk> Mk for BTreeMap<K, T> {
    fn mk(v: &Value) -> Self {
        list(v).iter().map(|e| (K::mk(&e[0]), T::mk(&e[1]))).collect()
    }
}
impl<K: Mk + Eq + std::hash::Hash, T: Mk> Mk for HashMap<K, T> {
    fn mk(v: &Value) -> Self {
        list(v).iter().map(|e| (K::mk(&e[0]), T::mk(&e[1]))).collect()
    }
}
impl<A: Mk, B: Mk> Mk for (A, B) {
    fn mk(v: &Value) -> Self {
        (A::mk(&v[0]), B::mk(&v[1]))
    }
}
impl<A: Mk, B: Mk, C: Mk> Mk for (A, B, C) {
    fn mk(v: &Value) -> Self {
        (A::mk(&v[0]), B::mk(&v[1]), C::mk(&v[2]))
    }
}
impl<T: Mk, E: Mk> Mk for Result<T, E> {
    fn mk(v: &Value) -> Self {
        if v[0] == 0 {
            Ok(T::mk(&v[1][0]))
        } else {
            Err(E::mk(&v[1][0]))
        }
    }
}

macro_rules! def {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode)]
        $(#[$m])*
        struct $n { $($(#[$fm])* $f: $t),* }
        impl Mk for $n {
            #[allow(unused)]
            fn mk(v: &Value) -> Self {
                let mut i = list(v).iter();
                $n { $($f: Mk::mk(i.next().unwrap())),* }
            }
        }
    };
    ($(#[$m:meta])* struct $n:ident ( $($(#[$fm:meta])* $t:ty),* $(,)? )) => {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode)]
        $(#[$m])*
        struct $n($($(#[$fm])* $t),*);
        impl Mk for $n {
            #[allow(unused)]
            fn mk(v: &Value) -> Self {
                let mut i = list(v).iter();
                $n($(<$t>::mk(i.next().unwrap())),*)
            }
        }
    };
}
macro_rules! maps {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {
        #[derive(Debug, Encode, Decode)]
        $(#[$m])*
        struct $n { $($(#[$fm])* $f: $t),* }
        impl Mk for $n {
            fn mk(v: &Value) -> Self {
                let mut i = list(v).iter();
                $n { $($f: Mk::mk(i.next().unwrap())),* }
            }
        }
    };
}
macro_rules! en {
    ($(#[$m:meta])* enum $n:ident { $($(#[$vm:meta])* $v:ident $(($($t:ty),*))? $({ $($f:ident: $ft:ty),* })?),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode)]
        $(#[$m])*
        enum $n { $($(#[$vm])* $v $(($($t),*))? $({ $($f: $ft),* })?),* }
        impl Mk for $n {
            #[allow(unused)]
            fn mk(v: &Value) -> Self {
                let mut i = list(&v[1]).iter();
                let mut n = v[0].as_i64().unwrap();
                $(
                    if n == 0 {
                        return $n::$v $(($(<$t>::mk(i.next().unwrap())),*))? $({ $($f: <$ft>::mk(i.next().unwrap())),* })?;
                    }
                    n -= 1;
                )*
                panic!("variant")
            }
        }
    };
}

def!(struct S { a: X, b: X });
def!(struct P(X, X));
def!(struct U {});
def!(struct N { s: S, p: P, v: Vec<X>, o: Option<S> });
def!(#[musli(packed)] struct K { a: X, b: S, c: X });
def!(#[musli(packed)] struct KT(X, Vec<X>));
def!(#[musli(transparent)] struct T(S));
def!(#[musli(transparent)] struct TX { x: X });
def!(#[musli(name_all = "kebab-case")] struct R { first_one: X, #[musli(name = "other")] second_one: S });
def!(#[musli(name_all = "index")] struct I { a: X, b: T, c: K });
def!(struct D { #[musli(default)] a: Vec<X>, b: TX, #[musli(packed)] c: (X, X) });
def!(struct Deep { v: Vec<Vec<N>>, e: Vec<E>, b: Box<[S]> });
maps!(struct M { #[musli(trace)] n: BTreeMap<u32, X>, #[musli(trace)] s: BTreeMap<String, S>, p: BTreeMap<u32, X> });
maps!(struct H { #[musli(trace)] h: HashMap<String, Vec<X>> });
en!(enum E { A, B(X), C { x: X, y: Vec<X> }, D(X, S), #[musli(transparent)] T(S), #[musli(packed)] K { x: X, y: X } });
en!(#[musli(tag = "kind")] enum EI { A, C { x: X, y: Vec<X> }, D(X, S) });
en!(#[musli(tag = "kind", content = "body")] enum EA { A, B(X), C { x: X, y: Vec<X> } });
en!(#[musli(untagged)] enum EU { A { x: X, y: Vec<X> }, B { z: S, w: X }, C { q: P } });
en!(#[musli(name_all = "index")] enum ER { A(X), B { b: X } });
def!(struct HU { u: Vec<EU>, i: EI, a: EA, last: X });

/// What a context was told.
#[derive(Default)]
struct Rec {
    pos: Cell<usize>,
    stack: RefCell<Vec<Value>>,
    events: RefCell<Vec<Value>>,
    errors: Cell<usize>,
    bad: Cell<bool>,
}
#[derive(Debug)]
struct Failed;
#[derive(Clone, Copy)]
struct Rx<'a>(&'a Rec);
impl Rx<'_> {
    fn enter(self, step: Value) {
        self.0.events.borrow_mut().push(json!([self.0.pos.get(), 1, step]));
        self.0.stack.borrow_mut().push(step);
    }
    fn leave(self, kinds: &str) {
        let top = self.0.stack.borrow_mut().pop();
        let Some(top) = top else {
            self.0.bad.set(true);
            return;
        };
        if !kinds.contains(top[0].as_str().unwrap()) {
            self.0.bad.set(true);
        }
        self.0.events.borrow_mut().push(json!([self.0.pos.get(), 0, top]));
    }
    fn fail(self) -> Failed {
        self.0.errors.set(self.0.errors.get() + 1);
        Failed
    }
}
impl Context for Rx<'_> {
    type Error = Failed;
    type Mark = (usize, usize, usize);
    type Allocator = System;
    fn clear(self) {}
    fn advance(self, n: usize) {
        self.0.pos.set(self.0.pos.get() + n);
    }
    fn mark(self) -> Self::Mark {
        (self.0.pos.get(), self.0.stack.borrow().len(), self.0.errors.get())
    }
    fn restore(self, mark: &Self::Mark) {
        self.0.pos.set(mark.0);
        while self.0.stack.borrow().len() > mark.1 {
            let top = self.0.stack.borrow_mut().pop().unwrap();
            self.0.events.borrow_mut().push(json!([mark.0, 0, top]));
        }
        self.0.errors.set(mark.2);
    }
    fn alloc(self) -> System {
        System::new()
    }
    fn custom<E>(self, _: E) -> Self::Error
    where
        E: 'static + Send + Sync + std::error::Error,
    {
        self.fail()
    }
    fn message<M>(self, _: M) -> Self::Error
    where
        M: fmt::Display,
    {
        self.fail()
    }
    fn enter_struct(self, name: &'static str) {
        self.enter(json!(["s", name]));
    }
    fn leave_struct(self) {
        self.leave("s");
    }
    fn enter_enum(self, name: &'static str) {
        self.enter(json!(["e", name]));
    }
    fn leave_enum(self) {
        self.leave("e");
    }
    fn enter_variant<T>(self, name: &'static str, _: T)
    where
        T: fmt::Display,
    {
        self.enter(json!(["v", name]));
    }
    fn leave_variant(self) {
        self.leave("v");
    }
    fn enter_named_field<F>(self, name: &'static str, _: F)
    where
        F: fmt::Display,
    {
        self.enter(json!(["f", name]));
    }
    fn enter_unnamed_field<F>(self, index: u32, _: F)
    where
        F: fmt::Display,
    {
        self.enter(json!(["u", index.to_string()]));
    }
    fn leave_field(self) {
        self.leave("fu");
    }
    fn enter_sequence_index(self, index: usize) {
        self.enter(json!(["i", index.to_string()]));
    }
    fn leave_sequence_index(self) {
        self.leave("i");
    }
    fn enter_map_key<F>(self, key: F)
    where
        F: fmt::Display,
    {
        self.enter(json!(["k", key.to_string()]));
    }
    fn leave_map_key(self) {
        self.leave("k");
    }
}

/// The text of an error, and the bytes it names.
pub(crate) fn split(e: String) -> Value {
    if let Some(i) = e.rfind(" (at byte") {
        let nums: Vec<u64> = e[i..].split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        return json!({"text": &e[..i], "at": nums});
    }
    json!({"text": e, "at": []})
}

type Out = (&'static str, Vec<Value>);

fn run_with<T>(v: &Value) -> Value
where
    T: Mk,
    T: Encode<musli::mode::Binary> + Encode<musli::mode::Text>,
    T: for<'de> Decode<'de, musli::mode::Binary, System> + for<'de> Decode<'de, musli::mode::Text, System>,
{
    let typed = v["typed"].as_bool().unwrap();
    let dir = v["dir"].as_str().unwrap();
    let bad = T::mk(&v["v"]);
    let good = T::mk(&v["good"]);
    macro_rules! go {
        ($f:ident) => {{
            REFUSE.set(0);
            let e = musli::$f::Encoding::<_>::new();
            let bytes = |x: &T| e.to_vec(x);
            let (Ok(bd), Ok(gd)) = (bytes(&bad), bytes(&good)) else {
                return json!({"r": "unsupported"});
            };
            let cx = context::new().with_trace();
            let cx = if typed { cx.with_type() } else { cx };
            if dir == "cut" {
                let fmt_json = stringify!($f) == "json";
                let full = Rec::default();
                let ok = guard(|| e.decode_with::<_, _, T>(Rx(&full), &bd[..]).is_ok()).unwrap_or(false);
                let mut cuts = vec![];
                for k in 0..bd.len() {
                    let rec = Rec::default();
                    let r = match guard(|| e.decode_with::<_, _, T>(Rx(&rec), &bd[..k]).is_ok()) {
                        Ok(true) => "ok",
                        Ok(false) => "err",
                        Err(_) => "panic",
                    };
                    let stack = rec.stack.borrow().clone();
                    // What a user is shown for the same input.
                    _ = guard(|| e.decode_with::<_, _, T>(&cx, &bd[..k]).is_ok());
                    let last = cx.errors().last().map(|e| split(e.to_string())).unwrap_or(json!({"text": "", "at": []}));
                    // The part of a number is a number, which ends where it is cut.
                    let number = |i: usize| fmt_json && bd.get(i).is_some_and(|b| b"+-.eE0123456789".contains(b));
                    let mut to = k;
                    if k > 0 && number(k - 1) {
                        while number(to) {
                            to += 1;
                        }
                    }
                    let absent = fmt_json && bd[k..].starts_with(b"null");
                    cuts.push(json!({"k": k, "to": to, "null": absent, "r": r, "stack": stack, "errors": rec.errors.get(), "bad": rec.bad.get(), "n": cx.errors().count(), "last": last}));
                }
                let r = json!({"r": if ok { "ok" } else { "err" }, "len": bd.len(), "events": full.events.borrow().clone(), "left": full.stack.borrow().clone(), "bad": full.bad.get(), "errors": full.errors.get(), "pos": full.pos.get(), "cuts": cuts});
                r
            } else {
                REFUSE.set(if dir == "enc" { ENC } else { DEC });
                let once = |x: &T, d: &[u8]| -> Out {
                    let r = guard(|| {
                        if dir == "enc" {
                            let mut out = Vec::new();
                            e.encode_with(&cx, &mut out, x).is_ok()
                        } else {
                            e.decode_with::<_, _, T>(&cx, d).is_ok()
                        }
                    });
                    let errs = cx.errors().map(|e| split(e.to_string())).collect();
                    (match r { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" }, errs)
                };
                let first = once(&bad, &bd);
                let again = once(&good, &gd);
                // Where does the context think it is after a success?
                _ = (&cx).message("probe");
                let probe: Vec<Value> = cx.errors().map(|e| split(e.to_string())).collect();
                let third = once(&bad, &bd);
                REFUSE.set(0);
                json!({"r": "ok", "len": bd.len(), "first": {"r": first.0, "errs": first.1}, "again": {"r": again.0, "errs": again.1}, "probe": probe, "third": {"r": third.0, "errs": third.1}})
            }
        }};
    }
    match v["fmt"].as_str().unwrap() {
        "storage" => go!(storage),
        "packed" => go!(packed),
        "wire" => go!(wire),
        "descriptive" => go!(descriptive),
        "json" => go!(json),
        _ => panic!("format"),
    }
}

pub fn run(v: &Value) -> Value {
    macro_rules! pick {
        ($($name:literal $t:ty),* $(,)?) => { match v["ty"].as_str().unwrap() { $($name => run_with::<$t>(v),)* x => panic!("type {x}") } }
    }
    let mut r = pick! {
        "X" X, "S" S, "P" P, "U" U, "N" N, "K" K, "KT" KT, "T" T, "TX" TX, "R" R, "I" I, "D" D, "Deep" Deep, "M" M, "H" H,
        "E" E, "EI" EI, "EA" EA, "EU" EU, "ER" ER, "HU" HU,
        "vec" Vec<X>, "vecS" Vec<S>, "vecvec" Vec<Vec<X>>, "deque" VecDeque<X>, "set" BTreeSet<X>, "hset" HashSet<X>, "heap" BinaryHeap<X>, "bslice" Box<[X]>, "parts" Parts<true>, "partsIn" Parts<false>,
        "arr" [X; 3], "arrS" [S; 2], "tup" (X, S), "opt" Option<S>, "res" Result<X, S>, "box" Box<S>, "map" BTreeMap<u32, X>, "optvec" Vec<Option<X>>,
    };
    r["ty"] = v["ty"].clone();
    r["t"] = v["t"].clone();
    r["v"] = v["v"].clone();
    r["dir"] = v["dir"].clone();
    r["fmt"] = v["fmt"].clone();
    r["typed"] = v["typed"].clone();
    r
}
