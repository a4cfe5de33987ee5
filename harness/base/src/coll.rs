//! Collections placed in an allocator: contents and drops after every operation.
use crate::guard;
use musli::alloc::{Allocator, Box as MBox, Slice, String as MString, System, Vec as MVec};
use musli::{Decode, Decoder, Encode, Encoder};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;

thread_local! {
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static MADE: Cell<u32> = const { Cell::new(0) };
}

fn drops() -> Vec<u32> {
    DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}

/// An element which reports its drop.
struct D(u32);
impl Drop for D {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(self.0));
    }
}

/// A larger one, with a larger alignment.
#[repr(align(16))]
struct L(u32, [u64; 3]);
impl Drop for L {
    fn drop(&mut self) {
        let bad = self.1 != [self.0 as u64; 3];
        DROPS.with(|d| d.borrow_mut().push(if bad { 999_999 } else { self.0 }));
    }
}

/// One without a size.
struct Z;
impl Drop for Z {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(0));
    }
}

/// One without a size which is aligned all the same.
#[repr(align(32))]
struct O;
impl Drop for O {
    fn drop(&mut self) {
        let bad = self as *const O as usize % 32 != 0;
        DROPS.with(|d| d.borrow_mut().push(if bad { 999_999 } else { 0 }));
    }
}

trait El: Sized + PartialOrd + std::fmt::Debug {
    fn make(x: u32) -> Self;
    fn see(&self) -> u32;
}
impl El for D {
    fn make(x: u32) -> Self {
        D(x)
    }
    fn see(&self) -> u32 {
        self.0
    }
}
impl El for L {
    fn make(x: u32) -> Self {
        L(x, [x as u64; 3])
    }
    fn see(&self) -> u32 {
        self.0
    }
}
impl El for Z {
    fn make(_: u32) -> Self {
        Z
    }
    fn see(&self) -> u32 {
        0
    }
}
impl El for O {
    fn make(_: u32) -> Self {
        O
    }
    fn see(&self) -> u32 {
        0
    }
}
impl El for u8 {
    fn make(x: u32) -> Self {
        x as u8
    }
    fn see(&self) -> u32 {
        *self as u32
    }
}
impl El for u64 {
    fn make(x: u32) -> Self {
        (x as u64) << 32 | x as u64
    }
    fn see(&self) -> u32 {
        if (*self >> 32) as u32 == *self as u32 {
            *self as u32
        } else {
            999_999
        }
    }
}
impl El for () {
    fn make(_: u32) -> Self {}
    fn see(&self) -> u32 {
        0
    }
}

macro_rules! by_sight { ($($t:ty),*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.see() == o.see() } }
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.see().partial_cmp(&o.see()) } }
    impl std::fmt::Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.see().fmt(f) } }
)* } }
by_sight!(D, L, Z, O);

/// How two items compare, if all ways of asking agree.
fn compare<T: El, A: Allocator>(x: &Item<T, A>, y: &Item<T, A>) -> Option<&'static str> {
    use std::cmp::Ordering::*;
    let (o, same) = match (x, y) {
        (Item::Vec(x), Item::Vec(y)) => {
            let (a, b): (&[T], &[T]) = (x, y.as_ref());
            let mut same = vec![x == y, !(x != y), *x == *b, *x == b, *b == *x, b == *x, a == b, !(*x != *b), !(b != *x), x.is_empty() && y.len() == 0 || x.len() == y.len() && std::borrow::Borrow::<[T]>::borrow(x) == b];
            if let Ok(b) = <&[T; 2]>::try_from(b) {
                same.extend([*x == *b, *x == b, *b == *x, b == *x]);
            }
            if format!("{x:?}{y:#?}") != format!("{a:?}{b:#?}") {
                return None;
            }
            (x.partial_cmp(y)?, same)
        }
        (Item::Box(x), Item::Box(y)) => {
            let o = x.partial_cmp(y)?;
            if (x < y, x <= y, x > y, x >= y) != (o == Less, o != Greater, o == Greater, o != Less) || format!("{x:?}") != format!("{:?}", **x) {
                return None;
            }
            (o, vec![x == y, !(x != y), x.as_ref() == &**y])
        }
        (Item::Str(x), Item::Str(y)) => {
            let (a, b): (&str, &str) = (x, y.as_ref());
            let cow = std::borrow::Cow::Borrowed(b);
            let same = vec![x == y, !(x != y), *x == *b, *x == b, *b == *x, b == *x, *x == cow, cow == *x, a == b, !(*x != *b), !(b != *x), std::borrow::Borrow::<str>::borrow(x) == b];
            if x.partial_cmp(y) != Some(x.cmp(y)) || format!("{x:?}{y}{x:>9.3}") != format!("{a:?}{b}{a:>9.3}") || x.is_empty() != (x.len() == 0) {
                return None;
            }
            (x.cmp(y), same)
        }
        _ => return Some("skip"),
    };
    same.iter().all(|s| *s == (o == Equal)).then_some(match o {
        Less => "lt",
        Equal => "eq",
        Greater => "gt",
    })
}

enum Item<T, A: Allocator> {
    Vec(MVec<T, A>),
    Box(MBox<T, A>),
    Str(MString<A>),
}

fn contents<T: El, A: Allocator>(i: &Item<T, A>) -> Vec<u32> {
    match i {
        Item::Vec(v) => v.as_slice().iter().map(El::see).collect(),
        Item::Box(b) => vec![b.see()],
        Item::Str(s) => s.as_str().bytes().map(u32::from).collect(),
    }
}

fn num(v: &Value) -> usize {
    match v.as_u64().unwrap() {
        2_000_000_000 => usize::MAX,
        1_999_999_999 => usize::MAX / 2,
        n => n as usize,
    }
}

fn chars(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect()
}

type Copies<T, A> = fn(&mut MVec<T, A>, &[u32]) -> Result<(), musli::alloc::AllocError>;
type Merge<T, A> = fn(&mut MVec<T, A>, MVec<T, A>) -> Result<(), musli::alloc::AllocError>;
type Std<T, A> = fn(MVec<T, A>) -> (bool, MVec<T, A>);

fn go<T: El, A: Allocator>(v: &Value, a: A, copies: Option<Copies<T, A>>, merge: Option<Merge<T, A>>, std: Std<T, A>, sstd: fn(MString<A>) -> (bool, MString<A>)) -> Vec<Value> {
    let mut out = vec![];
    let mut slots: Vec<Option<Item<T, A>>> = (0..8).map(|_| None).collect();
    drops();
    for op in v["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let i = op[1].as_u64().unwrap() as usize;
        let mut back: Vec<u32> = vec![];
        let r = guard(|| {
            macro_rules! vec {
                () => {
                    match &mut slots[i] {
                        Some(Item::Vec(v)) => v,
                        _ => return "skip",
                    }
                };
            }
            macro_rules! string {
                () => {
                    match &mut slots[i] {
                        Some(Item::Str(v)) => v,
                        _ => return "skip",
                    }
                };
            }
            let ok = |b: bool| if b { "ok" } else { "err" };
            match name {
                "new" | "cap" | "box" | "snew" | "scap" | "utf8" if slots[i].is_some() => "skip",
                "new" => {
                    slots[i] = Some(Item::Vec(MVec::new_in(a)));
                    "ok"
                }
                "cap" => match MVec::with_capacity_in(num(&op[2]), a) {
                    Ok(v) => {
                        let enough = v.capacity() >= num(&op[2]);
                        slots[i] = Some(Item::Vec(v));
                        if enough { "ok" } else { "small" }
                    }
                    Err(_) => "err",
                },
                "box" => match MBox::new_in(T::make(op[2].as_u64().unwrap() as u32), a) {
                    Ok(b) => {
                        slots[i] = Some(Item::Box(b));
                        "ok"
                    }
                    Err(_) => "err",
                },
                "put" => match &mut slots[i] {
                    Some(Item::Box(b)) => {
                        **b = T::make(op[2].as_u64().unwrap() as u32);
                        "ok"
                    }
                    _ => "skip",
                },
                "push" => {
                    let v = vec!();
                    ok(v.push(T::make(op[2].as_u64().unwrap() as u32)).is_ok())
                }
                "pop" => {
                    let v = vec!();
                    match v.pop() {
                        Some(x) => {
                            back.push(x.see());
                            std::mem::forget(x);
                            "ok"
                        }
                        None => "none",
                    }
                }
                "clear" => {
                    vec!().clear();
                    "ok"
                }
                "res" => {
                    let v = vec!();
                    let n = num(&op[2]);
                    let l = v.len();
                    match v.reserve(n) {
                        Ok(()) => {
                            if v.capacity() >= l.saturating_add(n) { "ok" } else { "small" }
                        }
                        Err(_) => "err",
                    }
                }
                "swap" => {
                    let v = vec!();
                    let (x, y) = (op[2].as_u64().unwrap() as usize, op[3].as_u64().unwrap() as usize);
                    if x >= v.len() || y >= v.len() {
                        return "skip";
                    }
                    v.as_slice_mut().swap(x, y);
                    "ok"
                }
                "raw" => {
                    let Some(Item::Vec(_)) = &slots[i] else { return "skip" };
                    let Some(Item::Vec(v)) = slots[i].take() else { return "skip" };
                    let (b, n) = v.into_raw_parts();
                    slots[i] = Some(Item::Vec(MVec::from_raw_parts(b, n)));
                    "ok"
                }
                "std" => match slots[i].take() {
                    Some(Item::Vec(v)) => {
                        let (k, v) = std(v);
                        slots[i] = Some(Item::Vec(v));
                        ok(k)
                    }
                    Some(Item::Str(s)) => {
                        let (k, s) = sstd(s);
                        slots[i] = Some(Item::Str(s));
                        ok(k)
                    }
                    x => {
                        slots[i] = x;
                        "skip"
                    }
                },
                "xs" => {
                    let Some(f) = copies else { return "skip" };
                    let v = vec!();
                    let x: Vec<u32> = op[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
                    ok(f(v, &x).is_ok())
                }
                "ext" => {
                    let Some(f) = merge else { return "skip" };
                    let j = op[2].as_u64().unwrap() as usize;
                    let (Some(Item::Vec(_)), Some(Item::Vec(_)), true) = (&slots[i], &slots[j], i != j) else { return "skip" };
                    let Some(Item::Vec(o)) = slots[j].take() else { return "skip" };
                    ok(f(vec!(), o).is_ok())
                }
                "drop" => {
                    if slots[i].take().is_none() {
                        return "skip";
                    }
                    "ok"
                }
                "cmp" => {
                    let (Some(x), Some(y)) = (&slots[i], &slots[op[2].as_u64().unwrap() as usize]) else { return "skip" };
                    compare(x, y).unwrap_or("odd")
                }
                "snew" => {
                    slots[i] = Some(Item::Str(MString::new_in(a)));
                    "ok"
                }
                "scap" => match MString::with_capacity_in(num(&op[2]), a) {
                    Ok(v) => {
                        slots[i] = Some(Item::Str(v));
                        "ok"
                    }
                    Err(_) => "err",
                },
                "spush" => {
                    let c = char::from_u32(op[2].as_u64().unwrap() as u32).unwrap();
                    ok(string!().push(c).is_ok())
                }
                "sstr" => {
                    let c = chars(&op[2]);
                    ok(string!().push_str(&c).is_ok())
                }
                "sfmt" => {
                    let c = chars(&op[2]);
                    // Every piece on its own: a failure in the middle keeps what was written.
                    ok(string!().write_str(&c).is_ok())
                }
                "schr" => {
                    let c = char::from_u32(op[2].as_u64().unwrap() as u32).unwrap();
                    ok(string!().write_char(c).is_ok())
                }
                "utf8" => {
                    let mut v = MVec::new_in(a);
                    if v.extend_from_slice(&crate::bytes(&op[2])).is_err() {
                        return "full";
                    }
                    match MString::from_utf8(v) {
                        Ok(s) => {
                            slots[i] = Some(Item::Str(s));
                            "ok"
                        }
                        Err(e) => {
                            back = e.as_bytes().iter().map(|x| u32::from(*x)).collect();
                            if e.into_bytes().iter().map(|x| u32::from(*x)).ne(back.iter().copied()) {
                                back.push(999_999);
                            }
                            "err"
                        }
                    }
                }
                "sbytes" => {
                    let Some(Item::Str(_)) = &slots[i] else { return "skip" };
                    let Some(Item::Str(s)) = slots[i].take() else { return "skip" };
                    back = s.into_bytes().iter().map(|x| u32::from(*x)).collect();
                    "ok"
                }
                _ => panic!("op {name}"),
            }
        })
        .unwrap_or("panic");
        let gone = drops();
        if r == "skip" {
            continue;
        }
        let arg = op.get(2).cloned().unwrap_or(json!(0));
        let live: Vec<Value> = slots.iter().enumerate().filter_map(|(k, s)| s.as_ref().map(|s| json!([k, contents(s)]))).collect();
        out.push(json!({"op": name, "i": i, "a": if arg.is_number() { arg.clone() } else { json!(0) }, "b": op.get(3).cloned().unwrap_or(json!(0)), "s": if arg.is_array() { arg } else { json!([]) }, "r": r, "back": back, "gone": gone, "live": live}));
        if r == "panic" {
            std::mem::forget(slots);
            return out;
        }
    }
    drop(slots);
    out.push(json!({"op": "end", "i": 0, "a": 0, "b": 0, "s": [], "r": "ok", "back": [], "gone": drops(), "live": []}));
    out
}

/// An element which may refuse to be decoded.
#[derive(Debug)]
struct G(u32);
impl Drop for G {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(self.0));
    }
}
impl El for G {
    fn make(x: u32) -> Self {
        G(x)
    }
    fn see(&self) -> u32 {
        self.0
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for G {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<X>(d: X) -> Result<Self, X::Error>
    where
        X: Decoder<'de, Mode = M, Allocator = A>,
    {
        use musli::Context as _;
        let cx = d.cx();
        let b = d.decode_u8()?;
        if b == 255 {
            return Err(cx.message("refused"));
        }
        // Several elements may carry the same byte: they are numbered as they are made.
        let n = MADE.with(|m| {
            m.set(m.get() + 1);
            m.get()
        });
        Ok(G(n * 256 + b as u32))
    }
}
impl<M> Encode<M> for G {
    const IS_BITWISE_ENCODE: bool = false;
    type Encode = Self;
    fn encode<X>(&self, e: X) -> Result<(), X::Error>
    where
        X: Encoder<Mode = M>,
    {
        e.encode_u8(self.0 as u8)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl PartialEq for G {
    fn eq(&self, o: &G) -> bool {
        self.0 % 256 == o.0 % 256
    }
}
impl Eq for G {}
impl PartialOrd for G {
    fn partial_cmp(&self, o: &G) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for G {
    fn cmp(&self, o: &G) -> std::cmp::Ordering {
        (self.0 % 256).cmp(&(o.0 % 256))
    }
}
impl std::hash::Hash for G {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.0 % 256).hash(h);
    }
}

#[derive(Encode, Decode)]
struct S3 {
    a: G,
    b: G,
    c: G,
}

#[derive(Encode, Decode)]
#[musli(packed)]
struct P3(G, G, G);

#[derive(Encode, Decode)]
struct PA {
    #[musli(packed)]
    a: [G; 3],
    b: G,
}

#[derive(Encode, Decode)]
enum E3 {
    A(G, G),
    B { x: G, y: Vec<G> },
}

fn decode(v: &Value) -> Value {
    let elems: Vec<u32> = crate::bytes(&v["data"]).iter().map(|b| *b as u32).collect();
    let fmt = v["fmt"].as_str().unwrap();
    let cut = v["cut"].as_u64().unwrap() as usize;
    macro_rules! run {
        ($t:ty, $f:expr, $b:expr) => {{
            let f: fn(&$t) -> Vec<u32> = $f;
            let b: fn(&mut dyn FnMut() -> G, usize) -> $t = $b;
            let value = b(&mut next(&elems), elems.len());
            let mut data = match fmt {
                "storage" => musli::storage::to_vec(&value).unwrap(),
                _ => musli::descriptive::to_vec(&value).unwrap(),
            };
            drop(value);
            drops();
            MADE.with(|m| m.set(0));
            data.truncate(data.len().saturating_sub(cut));
            if let Some(m) = v["flip"].as_array() {
                let at = m[0].as_u64().unwrap() as usize;
                if at < data.len() {
                    data[at] ^= m[1].as_u64().unwrap() as u8;
                }
            }
            let r: Result<Result<$t, ()>, String> = guard(|| match fmt {
                "storage" => musli::storage::decode::<_, $t>(&data[..]).map_err(|_| ()),
                _ => musli::descriptive::decode::<_, $t>(&data[..]).map_err(|_| ()),
            });
            let early = drops();
            match r {
                Ok(Ok(x)) => {
                    let held = f(&x);
                    drop(x);
                    ("ok", held, early)
                }
                Ok(Err(())) => ("err", vec![], early),
                Err(_) => ("panic", vec![], early),
            }
        }};
    }
    fn next(e: &[u32]) -> impl FnMut() -> G + '_ {
        let mut i = 0;
        move || {
            i += 1;
            G(if e.is_empty() { 7 } else { e[(i - 1) % e.len()] })
        }
    }
    fn ids<'a>(x: impl IntoIterator<Item = &'a G>) -> Vec<u32> {
        x.into_iter().map(|g| g.0).collect()
    }
    fn all<C: FromIterator<G>>(f: &mut dyn FnMut() -> G, n: usize) -> C {
        (0..n).map(|_| f()).collect()
    }
    let (r, held, early) = match v["ty"].as_str().unwrap() {
        "vec" => run!(Vec<G>, |x| ids(x), |f, n| all(f, n)),
        "deque" => run!(std::collections::VecDeque<G>, |x| ids(x), |f, n| all(f, n)),
        "heap" => run!(std::collections::BinaryHeap<G>, |x| ids(x), |f, n| all(f, n)),
        "set" => run!(std::collections::BTreeSet<G>, |x| ids(x), |f, n| all(f, n)),
        "hset" => run!(std::collections::HashSet<G>, |x| ids(x), |f, n| all(f, n)),
        "map" => run!(std::collections::BTreeMap<u8, G>, |x| ids(x.values()), |f, n| (0..n).map(|i| (i as u8, f())).collect()),
        "kmap" => run!(std::collections::BTreeMap<G, G>, |x| x.iter().flat_map(|(k, v)| [k.0, v.0]).collect(), |f, n| (0..n / 2).map(|_| (f(), f())).collect()),
        "hmap" => run!(std::collections::HashMap<G, Box<G>>, |x| x.iter().flat_map(|(k, v)| [k.0, v.0]).collect(), |f, n| (0..n / 2).map(|_| (f(), Box::new(f()))).collect()),
        "box" => run!(Box<G>, |x| vec![x.0], |f, _| Box::new(f())),
        "bslice" => run!(Box<[G]>, |x| ids(x.iter()), |f, n| all(f, n)),
        "rc" => run!(std::rc::Rc<G>, |x| vec![x.0], |f, _| std::rc::Rc::new(f())),
        "opt" => run!(Option<G>, |x| ids(x), |f, n| (n > 0).then(f)),
        "res" => run!(Result<G, Vec<G>>, |x| match x { Ok(g) => vec![g.0], Err(v) => ids(v) }, |f, n| if n == 1 { Ok(f()) } else { Err(all(f, n)) }),
        "arr0" => run!([G; 0], |x| ids(x), |_, _| []),
        "arr3" => run!([G; 3], |x| ids(x), |f, _| [f(), f(), f()]),
        "arr32" => run!([[G; 2]; 3], |x| ids(x.iter().flatten()), |f, _| [[f(), f()], [f(), f()], [f(), f()]]),
        "tup" => run!((G, Vec<G>, G), |x| std::iter::once(&x.0).chain(&x.1).chain([&x.2]).map(|g| g.0).collect(), |f, n| (f(), all(f, n), f())),
        "s3" => run!(S3, |x| vec![x.a.0, x.b.0, x.c.0], |f, _| S3 { a: f(), b: f(), c: f() }),
        "p3" => run!(P3, |x| vec![x.0 .0, x.1 .0, x.2 .0], |f, _| P3(f(), f(), f())),
        "pa" => run!(PA, |x| x.a.iter().chain([&x.b]).map(|g| g.0).collect(), |f, _| PA { a: [f(), f(), f()], b: f() }),
        "e3" => run!(E3, |x| match x { E3::A(a, b) => vec![a.0, b.0], E3::B { x, y } => std::iter::once(x).chain(y).map(|g| g.0).collect() }, |f, n| if n == 2 { E3::A(f(), f()) } else { E3::B { x: f(), y: all(f, n) } }),
        "range" => run!(std::ops::Range<G>, |x| vec![x.start.0, x.end.0], |f, _| f()..f()),
        "nest" => run!(Vec<Option<Vec<G>>>, |x| x.iter().flatten().flatten().map(|g| g.0).collect(), |f, n| (0..n).map(|i| (i % 2 == 0).then(|| all(f, i))).collect()),
        _ => panic!("type"),
    };
    let late = drops();
    json!({"r": r, "made": MADE.with(|m| m.get()), "held": held, "early": early, "late": late})
}

pub fn run(v: &Value) -> Value {
    if v["kind"] == "dec" {
        let mut r = decode(v);
        r["kind"] = json!("dec");
        r["steps"] = json!([]);
        r["alloc"] = json!("");
        r["el"] = json!("");
        return r;
    }
    let el = v["el"].as_str().unwrap();
    macro_rules! pick {
        ($a:expr, $at:ty, $std:ident) => {{
            let a = $a;
            fn c<T: El + Copy, A: Allocator>(v: &mut MVec<T, A>, x: &[u32]) -> Result<(), musli::alloc::AllocError> {
                v.extend_from_slice(&x.iter().map(|x| T::make(*x)).collect::<Vec<_>>())
            }
            fn m<T: El + Copy, A: Allocator>(v: &mut MVec<T, A>, o: MVec<T, A>) -> Result<(), musli::alloc::AllocError> {
                v.extend(o)
            }
            match el {
                "d" => go::<D, $at>(v, a, None, None, $std::<D>::vec, $std::<D>::string),
                "l" => go::<L, $at>(v, a, None, None, $std::<L>::vec, $std::<D>::string),
                "z" => go::<Z, $at>(v, a, None, None, $std::<Z>::vec, $std::<D>::string),
                "o" => go::<O, $at>(v, a, None, None, $std::<O>::vec, $std::<D>::string),
                "u" => go::<u8, $at>(v, a, Some(c), Some(m), $std::<u8>::vec, $std::<D>::string),
                "w" => go::<u64, $at>(v, a, Some(c), Some(m), $std::<u64>::vec, $std::<D>::string),
                "n" => go::<(), $at>(v, a, Some(c), Some(m), $std::<()>::vec, $std::<D>::string),
                _ => panic!("el"),
            }
        }};
    }
    struct Sys<T>(T);
    impl<T> Sys<T> {
        fn vec(v: MVec<T, System>) -> (bool, MVec<T, System>) {
            match v.into_std() {
                Ok(mut v) => {
                    v.shrink_to_fit();
                    (true, MVec::from(v))
                }
                Err(v) => (false, v),
            }
        }
        fn string(v: MString<System>) -> (bool, MString<System>) {
            match v.into_std() {
                Ok(v) => (true, MString::from(v)),
                Err(v) => (false, v),
            }
        }
    }
    struct Other<T>(T);
    impl<T> Other<T> {
        fn vec<A: Allocator>(v: MVec<T, A>) -> (bool, MVec<T, A>) {
            match v.into_std() {
                Ok(_) => panic!("not a system allocation"),
                Err(v) => (false, v),
            }
        }
        fn string<A: Allocator>(v: MString<A>) -> (bool, MString<A>) {
            match v.into_std() {
                Ok(_) => panic!("not a system allocation"),
                Err(v) => (false, v),
            }
        }
    }
    let kind = v["alloc"].as_str().unwrap();
    let steps = match kind {
        "sys" => pick!(System::new(), System, Sys),
        _ => {
            let mut b = vec![0u64; v["size"].as_u64().unwrap() as usize / 8];
            let s = Slice::new(&mut b[..]);
            // SAFETY: nothing outlives the allocator.
            let s: &'static Slice<'static> = unsafe { &*(&s as *const Slice<'_>).cast() };
            pick!(s, &'static Slice<'static>, Other)
        }
    };
    json!({"kind": "ops", "alloc": kind, "el": el, "steps": steps, "r": "ok", "made": 0, "held": [], "early": [], "late": []})
}
