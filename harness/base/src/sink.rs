//! Output sinks: what they hold after every write.
use crate::cx::{Cx, Failed, State};
use crate::guard;
use musli::alloc::{Allocator, Slice, System};
use musli::writer::{BufWriter, IntoWriter, Writer};
use musli::FixedBytes;
use serde_json::{json, Value};
use std::io;

/// An I/O writer which takes at most `step` bytes at a time and `cap` in all.
pub struct Drip {
    pub data: Vec<u8>,
    pub cap: usize,
    pub step: usize,
    pub zero: bool,
    pub intr: bool,
}

impl io::Write for Drip {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.intr {
            self.intr = false;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.intr = self.step % 2 == 0;
        let n = b.len().min(self.step).min(self.cap - self.data.len());
        if n == 0 && !b.is_empty() {
            return if self.zero { Ok(0) } else { Err(io::Error::other("full")) };
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn put<W: Writer>(w: &mut W, cx: Cx<'_>, op: &str, data: &[u8]) -> Result<(), Failed> {
    match op {
        "b" => w.write_bytes(cx, data),
        "1" => w.write_byte(cx, data[0]),
        "e" => {
            let mut v = musli::alloc::Vec::with_capacity_in(data.len() + 3, System::new()).unwrap();
            v.extend_from_slice(data).unwrap();
            w.extend(cx, v)
        }
        // The same through the reborrow the trait offers.
        "mb" => w.borrow_mut().write_bytes(cx, data),
        "m1" => w.borrow_mut().write_byte(cx, data[0]),
        _ => panic!("op"),
    }
}

fn drive<W: Writer>(ops: &[Value], w: &mut W, ok: impl Fn(W::Ok) -> i64, seen: impl Fn(&mut W) -> Option<Vec<u8>>) -> Value {
    let st = State::default();
    let cx = Cx(&st);
    let mut out = vec![];
    for op in ops {
        let name = op[0].as_str().unwrap();
        let data = crate::bytes(&op[1]);
        let before = st.errors.get();
        let r = guard(|| put(w, cx, name, &data));
        let k = match r {
            Ok(Ok(())) => "ok",
            Ok(Err(Failed)) => "err",
            Err(_) => "panic",
        };
        let (known, have) = match seen(w) {
            Some(v) => (true, v),
            None => (false, vec![]),
        };
        out.push(json!({"op": name, "d": data, "r": k, "known": known, "have": have, "raised": st.errors.get() - before}));
    }
    let fin = match guard(|| w.finish(cx)) {
        Ok(Ok(v)) => ok(v),
        _ => -2,
    };
    json!({"ops": out, "fin": fin, "adv": st.adv.get()})
}

fn buf<A: Allocator>(ops: &[Value], a: A) -> (Value, Vec<u8>) {
    let mut w = BufWriter::new(a);
    let r = drive(ops, &mut w, |()| -1, |_| None);
    let v = w.into_inner().as_slice().to_vec();
    (r, v)
}

fn fixed<const N: usize>(v: &Value, ops: &[Value]) -> (Value, Vec<u8>) {
    let mut f = FixedBytes::<N>::new();
    let r = drive(ops, &mut f, |()| -1, |f| Some(f.as_slice().to_vec()));
    let have = f.as_slice().to_vec();
    let mut log = vec![];
    for op in v["own"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let data = crate::bytes(&op[1]);
        let r = guard(|| match name {
            "push" => f.push(data[0]),
            "ext" => f.extend_from_slice(&data),
            "clear" => {
                f.clear();
                true
            }
            "set" => {
                for (a, b) in f.as_mut_slice().iter_mut().zip(&data) {
                    *a = *b;
                }
                true
            }
            "cap" => {
                f = FixedBytes::with_capacity(data[0] as usize);
                true
            }
            _ => panic!("op"),
        });
        let k = match r {
            Ok(true) => "ok",
            Ok(false) => "err",
            Err(_) => "panic",
        };
        log.push(json!({"op": name, "d": data, "r": k, "have": f.as_slice().to_vec(), "len": f.len(), "rem": f.remaining(), "empty": f.is_empty()}));
    }
    let whole = f.into_bytes();
    let mut r = r;
    r["own"] = json!(log);
    r["whole"] = json!({"some": whole.is_some(), "v": whole.map(|x| x.to_vec()).unwrap_or_default()});
    (r, have)
}

pub fn run(v: &Value) -> Value {
    let kind = v["kind"].as_str().unwrap();
    let cap = v["cap"].as_u64().unwrap() as usize;
    let ops = v["ops"].as_array().unwrap();
    let pre = crate::bytes(&v["pre"]);
    let mut over = false;
    let (mut r, have) = match kind {
        "vec" => {
            let mut w = pre.clone();
            let r = drive(ops, &mut w, |()| -1, |w| Some(w.clone()));
            (r, w)
        }
        "mutvec" => {
            let mut w = pre.clone();
            let r = drive(ops, &mut (&mut w).into_writer(), |()| -1, |w| Some(w.to_vec()));
            (r, w)
        }
        "bufsys" => buf(ops, System::new()),
        "bufslice" => {
            let mut b = vec![0u8; cap];
            let a = Slice::new(&mut b[..]);
            buf(ops, &a)
        }
        "fixed" => match cap {
            0 => fixed::<0>(v, ops),
            1 => fixed::<1>(v, ops),
            2 => fixed::<2>(v, ops),
            3 => fixed::<3>(v, ops),
            4 => fixed::<4>(v, ops),
            5 => fixed::<5>(v, ops),
            8 => fixed::<8>(v, ops),
            _ => fixed::<16>(v, ops),
        },
        "slice" => {
            let mut b = vec![0xEEu8; cap + 64];
            let p = b.as_ptr() as usize;
            let r = {
                let mut w = (&mut b[..cap]).into_writer();
                let st = State::default();
                let at = |w: &mut musli::writer::SliceMutWriter<'_>| {
                    // What is held so far ends where the writer would go on.
                    let left = w.finish(Cx(&st)).unwrap();
                    let n = cap.wrapping_sub(left);
                    if n > cap {
                        return Some(vec![0xEE; cap + 1]);
                    }
                    // SAFETY: inside of the buffer.
                    Some(unsafe { std::slice::from_raw_parts(p as *const u8, n) }.to_vec())
                };
                drive(ops, &mut w, |n| n as i64, at)
            };
            over = b[cap..].iter().any(|x| *x != 0xEE);
            let n = (cap as i64 - r["fin"].as_i64().unwrap()).clamp(0, cap as i64) as usize;
            let h = b[..n].to_vec();
            (r, h)
        }
        "wrap" => {
            let mut d = Drip { data: vec![], cap, step: v["step"].as_u64().unwrap() as usize, zero: v["zero"].as_bool().unwrap(), intr: false };
            let r = drive(ops, &mut musli::wrap::wrap(&mut d).into_writer(), |()| -1, |_| None);
            (r, d.data)
        }
        _ => panic!("kind"),
    };
    r["kind"] = json!(kind);
    r["cap"] = json!(cap);
    r["pre"] = json!(if kind.ends_with("vec") { pre } else { vec![] });
    r["have"] = json!(have);
    r["over"] = json!(over);
    if r["own"].is_null() {
        r["own"] = json!([]);
        r["whole"] = json!({"some": false, "v": []});
    }
    r
}
