//! Byte sources: what every reader delivers, operation by operation.
use crate::cx::{Cx, Failed, State};
use crate::guard;
use musli::reader::{IntoReader, Limit, Reader, SliceReader};
use serde_json::{json, Value};
use std::cell::RefCell;

/// What a reader says is left, where it says so.
trait Left {
    fn left(&self) -> usize;
}
impl Left for &[u8] {
    fn left(&self) -> usize {
        self.len()
    }
}
impl Left for SliceReader<'_> {
    fn left(&self) -> usize {
        self.remaining()
    }
}
impl<R> Left for Limit<R> {
    fn left(&self) -> usize {
        self.remaining()
    }
}
impl<R: Left> Left for &mut R {
    fn left(&self) -> usize {
        (**self).left()
    }
}

const TOP: u64 = 2_000_000_000;

/// Counts near `usize::MAX` are shown relative to two billion.
fn show(n: usize) -> Value {
    if n > usize::MAX / 2 {
        json!(TOP - (usize::MAX - n) as u64)
    } else {
        json!(n)
    }
}

fn count(v: &Value) -> usize {
    let n = v.as_u64().unwrap();
    if n > TOP / 2 {
        usize::MAX - (TOP - n) as usize
    } else {
        n as usize
    }
}

struct W<'a> {
    src: &'a [u8],
    st: State,
    out: RefCell<Vec<Value>>,
}

struct Take<'a>(&'a [u8]);

#[musli::de::unsized_visitor]
impl<'de, C> musli::de::UnsizedVisitor<'de, C, [u8]> for Take<'_>
where
    C: musli::Context,
{
    type Ok = (Vec<u8>, i64);

    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bytes")
    }

    fn visit_borrowed(self, _: C, bytes: &'de [u8]) -> Result<Self::Ok, C::Error> {
        let off = (bytes.as_ptr() as usize).wrapping_sub(self.0.as_ptr() as usize) as i64;
        Ok((bytes.to_vec(), off))
    }

    fn visit_ref(self, _: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
        Ok((bytes.to_vec(), -1))
    }
}

fn array<'de, R: Reader<'de>>(r: &mut R, cx: Cx<'_>, n: usize) -> Result<(Vec<u8>, i64), Failed> {
    macro_rules! go {
        ($($n:literal)*) => {
            match n { $($n => r.read_array::<_, $n>(cx).map(|a| (a.to_vec(), -1)),)* _ => r.read_array::<_, 64>(cx).map(|a| (a.to_vec(), -1)) }
        }
    }
    go!(0 1 2 3 4 5 6 7 8 9 16)
}

fn step<'de, R: Reader<'de>>(w: &W<'de>, r: &mut R, op: &str, n: usize, left: impl Fn(&R) -> Option<usize>) {
    let cx = Cx(&w.st);
    let before = w.st.adv.get();
    let res = guard(|| match op {
        "skip" => r.skip(cx, n).map(|()| (vec![], -1)),
        "read" => {
            let mut b = vec![0x55; n.min(4096)];
            r.read(cx, &mut b).map(|()| (b, -1))
        }
        "byte" => r.read_byte(cx).map(|b| (vec![b], -1)),
        "arr" => array(r, cx, n),
        "bytes" => r.read_bytes(cx, n, Take(w.src)),
        "uninit" => {
            let mut b = vec![0x55; n.min(4096)];
            // SAFETY: larger counts than the buffer never exist in the source.
            unsafe { r.read_bytes_uninit(cx, b.as_mut_ptr(), n) }.map(|()| (b, -1))
        }
        "peek" => Ok((r.peek().into_iter().collect(), -1)),
        _ => panic!("op {op}"),
    });
    let (k, v, off) = match res {
        Ok(Ok((v, off))) => ("ok", v, off),
        Ok(Err(Failed)) => ("err", vec![], -1),
        Err(_) => ("panic", vec![], -1),
    };
    let adv = w.st.adv.get().wrapping_sub(before);
    let l = left(r).map(show).unwrap_or(json!(-1));
    let eof = r.is_eof();
    let peek = r.peek().map(|b| b as i64).unwrap_or(-1);
    w.out.borrow_mut().push(json!({"op": op, "n": show(n), "r": k, "v": v, "off": off, "adv": show(adv), "eof": eof, "peek": peek, "left": l}));
}

fn mark(w: &W<'_>, op: &str, n: usize) {
    w.out.borrow_mut().push(json!({"op": op, "n": show(n), "r": "ok", "v": [], "off": -1, "adv": 0, "eof": false, "peek": -1, "left": -1}));
}

fn parts(op: &Value) -> (&str, usize, &[Value]) {
    (op[0].as_str().unwrap(), count(&op[1]), op.get(2).and_then(|x| x.as_array()).map(|x| &x[..]).unwrap_or(&[]))
}

fn leaf<'de, R: Reader<'de>>(w: &W<'de>, mut r: R, ops: &[Value]) {
    for op in ops {
        let (name, n, _) = parts(op);
        step(w, &mut r, name, n, |_| None);
    }
}

macro_rules! family {
    ($name:ident, $next:ident) => {
        fn $name<'de, R: Reader<'de> + Left>(w: &W<'de>, r: &mut R, ops: &[Value]) {
            for op in ops {
                let (name, n, sub) = parts(op);
                match name {
                    "push" => {
                        mark(w, "push", n);
                        $next(w, &mut (&mut *r).limit(n), sub);
                        mark(w, "pop", 0);
                    }
                    // The same through the reborrowing the trait offers.
                    "mut" => leaf(w, r.borrow_mut(), sub),
                    "mutpush" => {
                        mark(w, "push", n);
                        leaf(w, r.borrow_mut().limit(n), sub);
                        mark(w, "pop", 0);
                    }
                    "clone" => {
                        if let Some(c) = r.try_clone() {
                            mark(w, "clone", 0);
                            leaf(w, c, sub);
                            mark(w, "unclone", 0);
                        }
                    }
                    "clonepush" => {
                        if let Some(c) = r.try_clone() {
                            mark(w, "clone", 0);
                            mark(w, "push", n);
                            leaf(w, c.limit(n), sub);
                            mark(w, "pop", 0);
                            mark(w, "unclone", 0);
                        }
                    }
                    _ => step(w, r, name, n, |r| Some(r.left())),
                }
            }
        }
    };
}

fn go3<'de, R: Reader<'de> + Left>(w: &W<'de>, r: &mut R, ops: &[Value]) {
    for op in ops {
        let (name, n, _) = parts(op);
        step(w, r, name, n, |r| Some(r.left()));
    }
}
family!(go2, go3);
family!(go1, go2);
family!(go0, go1);

pub fn run(v: &Value) -> Value {
    let src = crate::bytes(&v["src"]);
    let w = W { src: &src, st: State::default(), out: RefCell::new(vec![]) };
    let ops = v["ops"].as_array().unwrap();
    let kind = v["kind"].as_str().unwrap();
    let mut slice = w.src;
    let mut sr = SliceReader::new(w.src);
    let rest = match kind {
        "slice" => {
            let mut r = slice.into_reader();
            go0(&w, &mut r, ops);
            r.to_vec()
        }
        "sr" => {
            go0(&w, &mut sr, ops);
            sr.as_slice().to_vec()
        }
        "mutslice" => {
            go0(&w, &mut (&mut slice).into_reader(), ops);
            slice.to_vec()
        }
        "mutsr" => {
            go0(&w, &mut (&mut sr).into_reader(), ops);
            sr.as_slice().to_vec()
        }
        _ => panic!("kind"),
    };
    json!({"src": v["src"], "kind": kind, "ev": w.out.into_inner(), "rest": rest, "errors": w.st.errors.get()})
}
