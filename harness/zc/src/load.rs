//! P19: loads of arbitrary references from arbitrary bytes.
use crate::types::*;
use crate::{guard, outcome, with_type};
use musli_zerocopy::{endian::{Big, Little}, Buf, Ref, ZeroCopy};
use serde_json::{json, Value};

#[repr(align(64))]
struct Al([u8; 1024]);

// {"t":type,"skew":n,"b":[bytes],"off":n,"neg":bool,"n":count,"nneg":bool}  neg: usize::MAX - off
pub fn run(s: &Value) -> Value {
    let mut out = s.clone();
    let b = bytes(&s["b"]);
    let skew = s["skew"].as_u64().unwrap() as usize;
    let mut mem = Box::new(Al([0; 1024]));
    mem.0[skew..skew + b.len()].copy_from_slice(&b);
    let num = |k: &str, neg: &str| {
        let v = s[k].as_u64().unwrap() as usize;
        if s[neg].as_bool().unwrap() { usize::MAX - v } else { v }
    };
    let off = num("off", "neg");
    let mut m2 = Box::new(Al([0; 1024]));
    m2.0 = mem.0;
    let buf = Buf::new(&mem.0[skew..skew + b.len()]);
    let mbuf = Buf::new_mut(&mut m2.0[skew..skew + b.len()]);
    let mut n = num("n", "nneg");
    with_type!(s["t"].as_str().unwrap(), T => {
        let sz = std::mem::size_of::<T>();
        // a count whose size in bytes wraps around to that of a small count
        if s["nneg"] == true && s["wrap"] == true && sz > 1 { n = (usize::MAX / sz + 1).wrapping_add(s["n"].as_u64().unwrap() as usize); }
        let arr = |x: &[T]| Value::Array(x.iter().map(|x| x.tree()).collect());
        out["load"] = outcome(guard(|| buf.load(Ref::<T, Little, usize>::new(off))), |x| x.tree());
        out["at"] = outcome(guard(|| buf.load_at::<T>(off)), |x| x.tree());
        out["un"] = outcome(guard(|| buf.load_at_unaligned::<T>(off)), |x| x.tree());
        out["mut"] = outcome(guard(|| mbuf.load_mut(Ref::<T, Little, usize>::new(off)).map(|x| x.tree())), |x| x);
        out["atmut"] = outcome(guard(|| mbuf.load_at_mut::<T>(off).map(|x| x.tree())), |x| x);
        out["sl"] = outcome(guard(|| buf.load(Ref::<[T], Little, usize>::with_metadata(off, n))), arr);
        out["slmut"] = outcome(guard(|| mbuf.load_mut(Ref::<[T], Little, usize>::with_metadata(off, n)).map(|x| arr(x))), |x| x);
        out["from"] = if off == 0 { outcome(guard(|| T::from_bytes(&mem.0[skew..skew + b.len()])), |x| x.tree()) } else { json!({"r": "na", "v": []}) };
    });
    let buf = Buf::new(&mem.0[skew..skew + b.len()]);
    out["str"] = outcome(guard(|| buf.load(Ref::<str, Little, usize>::with_metadata(off, n))), |x| json!(x.as_bytes()));
    out["strbe"] = if off < 1000 && n < 1000 { outcome(guard(|| buf.load(Ref::<str, Big, u32>::with_metadata(off, n))), |x| json!(x.as_bytes())) } else { json!({"r": "na", "v": []}) };
    out["swap"] = {
        let before = mbuf.get(..).map(|x| x.to_vec());
        let j = s["j"].as_u64().unwrap() as usize;
        let r = guard(|| mbuf.swap(Ref::<u32, Little, usize>::new(off), Ref::<u32, Little, usize>::new(j)));
        let _ = before;
        outcome(r, |_| json!(mbuf.get(..).unwrap()))
    };
    out
}
