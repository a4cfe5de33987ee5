//! The slice allocator: what every live allocation is, after every operation.
use crate::guard;
use musli::alloc::{Alloc, Allocator, Slice};
use serde_json::{json, Value};
use std::mem::{align_of, size_of};

macro_rules! elems {
    ($($v:ident $name:literal $align:literal $size:literal),* $(,)?) => {
        $(
            #[repr(C, align($align))]
            #[derive(Clone, Copy)]
            struct $v([u8; $size]);
        )*

        enum Any<'a> { $($v(<&'a Slice<'a> as Allocator>::Alloc<$v>),)* }

        struct Slot<'a> { any: Any<'a>, len: usize }

        macro_rules! each {
            ($any:expr, $s:ident, $t:ident, $body:expr) => { match $any { $(Any::$v($s) => { #[allow(dead_code)] type $t = $v; $body })* } }
        }

        fn make<'a>(a: &'a Slice<'a>, ty: &str, value: Option<u8>) -> Option<Any<'a>> {
            match ty {
                $($name => Some(match value {
                    None => Any::$v(a.alloc_empty::<$v>()),
                    Some(b) => Any::$v(a.alloc($v([b; $size])).ok()?),
                }),)*
                _ => panic!("type"),
            }
        }

        fn merge<'a>(a: &mut Any<'a>, al: usize, b: Any<'a>, bl: usize) -> Result<(), Option<Any<'a>>> {
            match (a, b) {
                $((Any::$v(x), Any::$v(y)) => x.try_merge(al, y, bl).map_err(|y| Some(Any::$v(y))),)*
                (_, b) => Err(Some(b)),
            }
        }
    }
}

elems! {
    Z "z" 1 0, E1 "1" 1 1, E2 "2" 2 2, E3 "3" 1 3, E4 "4" 4 4, E6 "6" 2 6, E8 "8" 8 8, E12 "12" 4 12, E16 "16" 16 16, E32 "32" 32 32,
}

fn show(base: usize, id: usize, s: &Slot<'_>) -> Value {
    each!(&s.any, a, T, {
        let (size, align) = (size_of::<T>(), align_of::<T>());
        let cap = a.capacity();
        let p = a.as_ptr() as usize;
        let off = p.wrapping_sub(base) as i64;
        let seen = if size == 0 || cap == 0 || s.len == 0 || !(0..1 << 20).contains(&off) {
            vec![]
        } else {
            // SAFETY: the script only runs in a buffer which is larger than any offset an allocation may have.
            unsafe { std::slice::from_raw_parts(p as *const u8, s.len * size) }.to_vec()
        };
        json!({"id": id, "es": size, "al": align, "off": if size == 0 || cap == 0 { -1 } else { off.clamp(-1, 1 << 20) }, "mis": p % align, "cap": cap.min(1_000_000_000), "len": s.len, "v": seen})
    })
}

fn script(v: &Value, buf: &mut [u8], base: usize) -> Vec<Value> {
    let mut out = vec![];
    let slice = if let Some(k) = v.get("kind").and_then(|x| x.as_str()) {
        // SAFETY: the buffer is suitably aligned for all of these.
        unsafe {
            let (p, n) = (buf.as_mut_ptr(), buf.len());
            match k {
                "u16" => Slice::new(std::slice::from_raw_parts_mut(p.cast::<u16>(), n / 2)),
                "u32" => Slice::new(std::slice::from_raw_parts_mut(p.cast::<u32>(), n / 4)),
                "u64" => Slice::new(std::slice::from_raw_parts_mut(p.cast::<u64>(), n / 8)),
                "u128" => Slice::new(std::slice::from_raw_parts_mut(p.cast::<u128>(), n / 16)),
                "m" => Slice::new(std::slice::from_raw_parts_mut(p.cast::<std::mem::MaybeUninit<u8>>(), n)),
                _ => Slice::new(buf),
            }
        }
    } else {
        Slice::new(buf)
    };
    // SAFETY: slots are dropped before the allocator is.
    let a: &'static Slice<'static> = unsafe { &*(&slice as *const Slice<'_>).cast() };
    let mut slots: Vec<Option<Slot<'static>>> = vec![];
    for op in v["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let id = op[1].as_u64().unwrap() as usize;
        while slots.len() <= id {
            slots.push(None);
        }
        let mut arg = json!(0);
        let arg2 = op.get(3).cloned().unwrap_or(json!(0));
        let r = guard(|| match name {
            "e" | "v" => {
                if slots[id].is_some() {
                    return "skip";
                }
                let value = (name == "v").then(|| op[3].as_u64().unwrap() as u8);
                match make(a, op[2].as_str().unwrap(), value) {
                    Some(any) => {
                        slots[id] = Some(Slot { any, len: usize::from(name == "v") });
                        "ok"
                    }
                    None => "err",
                }
            }
            "r" => {
                let Some(s) = &mut slots[id] else { return "skip" };
                arg = op[2].clone();
                let add = match arg.as_u64().unwrap() {
                    2_000_000_000 => usize::MAX,
                    1_999_999_999 => usize::MAX / 2,
                    1_999_999_998 => usize::MAX / 16 + 1,
                    n => n as usize,
                };
                let len = s.len;
                if each!(&mut s.any, x, T, x.resize(len, add).is_ok()) {
                    "ok"
                } else {
                    "err"
                }
            }
            "w" => {
                let Some(s) = &mut slots[id] else { return "skip" };
                let want = op[2].as_u64().unwrap() as usize;
                let b = op[3].as_u64().unwrap() as u8;
                each!(&mut s.any, x, T, {
                    let n = want.min(x.capacity());
                    let p = x.as_mut_ptr().cast::<u8>();
                    let inside = (p as usize).wrapping_sub(base) < 1 << 20;
                    for i in 0..n * size_of::<T>() {
                        if inside {
                            // SAFETY: within the capacity.
                            unsafe { p.add(i).write(b.wrapping_add(i as u8)) };
                        }
                    }
                    s.len = n;
                    arg = json!(n);
                });
                "ok"
            }
            "f" => {
                if slots[id].take().is_none() {
                    return "skip";
                }
                "ok"
            }
            "m" => {
                let other = op[2].as_u64().unwrap() as usize;
                arg = json!(other);
                if other == id || other >= slots.len() || slots[id].is_none() {
                    return "skip";
                }
                let Some(b) = slots[other].take() else { return "skip" };
                let s = slots[id].as_mut().unwrap();
                let bl = b.len;
                match merge(&mut s.any, s.len, b.any, bl) {
                    Ok(()) => {
                        s.len += bl;
                        "ok"
                    }
                    Err(any) => {
                        slots[other] = any.map(|any| Slot { any, len: bl });
                        "err"
                    }
                }
            }
            _ => panic!("op"),
        });
        let r = r.unwrap_or("panic");
        if r == "skip" {
            continue;
        }
        let ty = op.get(2).and_then(|x| x.as_str()).unwrap_or("");
        let live: Vec<Value> = slots.iter().enumerate().filter_map(|(i, s)| s.as_ref().map(|s| show(base, i, s))).collect();
        out.push(json!({"op": name, "id": id, "ty": ty, "n": arg, "b": arg2, "r": r, "live": live}));
        if r == "panic" {
            break;
        }
    }
    out
}

#[repr(align(64))]
struct Room([u8; 1 << 14]);

pub fn run(v: &Value) -> Value {
    let size = v["size"].as_u64().unwrap() as usize;
    let off = v["off"].as_u64().unwrap() as usize;
    let mut room = Box::new(Room([0xA5; 1 << 14]));
    let room = &mut room.0;
    let at = 4096 + off;
    let base = room.as_ptr() as usize + at;
    let steps = {
        // Slots left over by a panic may not be released in a broken allocator.
        let r = guard(|| script(v, &mut room[at..at + size], base));
        r.unwrap_or_else(|_| vec![json!({"op": "drop", "id": 0, "ty": "", "n": 0, "b": 0, "r": "panic", "live": []})])
    };
    let over = room[..at].iter().chain(&room[at + size..]).any(|x| *x != 0xA5);
    json!({"size": size, "off": off, "steps": steps, "over": over})
}
