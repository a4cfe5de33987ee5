//! Histories of the calls a context is given, on the tracing context.

use musli::alloc::{Allocator, ArrayBuffer, Slice, System};
use musli::context;
use musli::Context;
use serde_json::{json, Value};

use crate::guard;

fn name(s: &str) -> &'static str {
    match s {
        "a" => "a",
        "b" => "b",
        "Type" => "Type",
        "Other" => "Other",
        "E" => "E",
        "A" => "A",
        "B" => "B",
        _ => panic!("no name {s}"),
    }
}

#[derive(Debug)]
struct Text(String);
impl std::fmt::Display for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Text {}

fn history<A>(alloc: A, v: &Value) -> Value
where
    A: Allocator,
{
    let cx = context::new_in(alloc).with_trace();
    let cx = if v["typed"] == true { cx.with_type() } else { cx };
    let cx = cx.with_capture::<String>();
    let c = &cx;
    // The error which is returned right away.
    let ex = context::new().with_error::<String>();
    let x = &ex;
    let xm = x.mark();
    let mut marks = vec![];
    let mut open: Vec<String> = vec![];
    let mut saved = vec![];
    let mut out = vec![];
    for op in v["ops"].as_array().unwrap() {
        let s = |i: usize| op[i].as_str().unwrap();
        let n = |i: usize| op[i].as_u64().unwrap() as usize;
        let mut said = String::new();
        let mut asked = String::new();
        match s(0) {
            "enter" => {
                match s(1) {
                    "s" => c.enter_struct(name(s(2))),
                    "e" => c.enter_enum(name(s(2))),
                    "v" => c.enter_variant(name(s(2)), 7),
                    "f" => c.enter_named_field(name(s(2)), "other"),
                    "u" => c.enter_unnamed_field(s(2).parse().unwrap(), "other"),
                    "i" => c.enter_sequence_index(s(2).parse().unwrap()),
                    _ => c.enter_map_key(s(2)),
                }
                open.push(s(1).to_string());
            }
            "leave" => match open.pop().unwrap().as_str() {
                "s" => c.leave_struct(),
                "e" => c.leave_enum(),
                "v" => c.leave_variant(),
                "f" | "u" => c.leave_field(),
                "i" => c.leave_sequence_index(),
                _ => c.leave_map_key(),
            },
            "adv" => c.advance(n(1)),
            "mark" => {
                marks.push(c.mark());
                saved.push(open.len());
            }
            "restore" => {
                c.restore(&marks[n(1) - 1]);
                open.truncate(saved[n(1) - 1]);
            }
            "msg" => {
                _ = c.message(s(1));
                said = x.message(s(1));
            }
            "cust" => {
                _ = c.custom(Text(s(1).to_string()));
                said = x.custom(Text(s(1).to_string()));
            }
            "msgat" => {
                _ = c.message_at(&marks[n(2) - 1], s(1));
                said = x.message_at(&xm, s(1));
            }
            "custat" => {
                _ = c.custom_at(&marks[n(2) - 1], Text(s(1).to_string()));
                said = x.custom_at(&xm, Text(s(1).to_string()));
            }
            "clear" => {
                c.clear();
                open.clear();
            }
            "ask" => asked = cx.result().err().unwrap_or_default(),
            other => panic!("no op {other}"),
        }
        let errs: Vec<String> = cx.errors().map(|e| e.to_string()).collect();
        let report = cx.report().to_string();
        let lines: String = errs.iter().map(|e| format!("{e}\n")).collect();
        let split: Vec<Value> = errs.into_iter().map(crate::paths::split).collect();
        out.push(json!({"errs": split, "report": report == lines, "said": said, "asked": asked}));
    }
    json!(out)
}

pub(crate) fn run(v: &Value) -> Value {
    let r = guard(|| match v["room"].as_u64().unwrap() {
        0 => history(System::new(), v),
        room => {
            let mut buf = ArrayBuffer::<65536>::with_size();
            let slice = Slice::new(&mut buf[..room as usize]);
            history(&slice, v)
        }
    });
    match r {
        Ok(out) => json!({"r": "ok", "typed": v["typed"], "room": v["room"], "ops": v["ops"], "out": out}),
        Err(m) => json!({"r": "panic", "what": m, "typed": v["typed"], "room": v["room"], "ops": v["ops"], "out": []}),
    }
}
