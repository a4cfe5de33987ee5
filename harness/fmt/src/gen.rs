// Generated by checks/universe.py: do not edit.
pub use crate::prelude::*;

#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct P1 { pub a: u8, pub b: String, pub c: Option<u32>, }
impl DV for P1 { fn of(v: &Value) -> Self { let _ = v; P1 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct P2(pub u16, pub i32, );
impl DV for P2 { fn of(v: &Value) -> Self { let _ = v; P2(DV::of(&v[0]), DV::of(&v[1]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree(), self.1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct P3;
impl DV for P3 { fn of(v: &Value) -> Self { let _ = v; P3 } fn tree(&self) -> Value { Value::Array(vec![]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct P4 { }
impl DV for P4 { fn of(v: &Value) -> Self { let _ = v; P4 {  } } fn tree(&self) -> Value { Value::Array(vec![]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
pub struct P5 { pub a: u8, pub b: u32, pub c: i64, pub d: f32, }
impl DV for P5 { fn of(v: &Value) -> Self { let _ = v; P5 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), d: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree(), self.d.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
pub struct P6 { pub a: u8, pub b: String, pub c: Option<u16>, }
impl DV for P6 { fn of(v: &Value) -> Self { let _ = v; P6 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
pub struct P7(pub u32, pub i32, );
impl DV for P7 { fn of(v: &Value) -> Self { let _ = v; P7(DV::of(&v[0]), DV::of(&v[1]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree(), self.1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
#[repr(C)]
pub struct P8 { pub a: [u16; 2], pub b: u16, }
impl DV for P8 { fn of(v: &Value) -> Self { let _ = v; P8 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(transparent)]
pub struct P9(pub String, );
impl DV for P9 { fn of(v: &Value) -> Self { let _ = v; P9(DV::of(&v[0]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(transparent)]
pub struct P10 { pub x: u32, }
impl DV for P10 { fn of(v: &Value) -> Self { let _ = v; P10 { x: DV::of(&v[0]),  } } fn tree(&self) -> Value { Value::Array(vec![self.x.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
pub struct P11 { pub a: bool, pub b: char, pub c: (u8,u16,), }
impl DV for P11 { fn of(v: &Value) -> Self { let _ = v; P11 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, packed)]
pub struct P12 { pub one: u32, pub two: bool, }
impl DV for P12 { fn of(v: &Value) -> Self { let _ = v; P12 { one: DV::of(&v[0]), two: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.one.tree(), self.two.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, transparent)]
pub struct P13(pub u16, );
impl DV for P13 { fn of(v: &Value) -> Self { let _ = v; P13(DV::of(&v[0]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(transparent)]
pub struct P14(pub P1, );
impl DV for P14 { fn of(v: &Value) -> Self { let _ = v; P14(DV::of(&v[0]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct N1 { #[musli(Binary, name = 5)] #[musli(Text, name = "x")] pub a: u8, #[musli(Binary, name = 300)] #[musli(Text, name = "q\"\n")] pub b: u8, #[musli(Binary, name = 1)] #[musli(Text, name = "é")] pub c: bool, }
impl DV for N1 { fn of(v: &Value) -> Self { let _ = v; N1 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "index")]
pub struct NA0 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = 9)] pub x2_y: u16, }
impl DV for NA0 { fn of(v: &Value) -> Self { let _ = v; NA0 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "index")]
pub enum NE0 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "index")] HttpResponseCode { in_ner: u8, },
    #[musli(name = 77)] Kept,
}
impl DV for NE0 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE0::FooBar, 1 => NE0::B(DV::of(&v[1][0]), ), 2 => NE0::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE0::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE0::FooBar => json!([0, Value::Array(vec![])]), NE0::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE0::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE0::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "name")]
pub struct NA1 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = "kept_As")] pub x2_y: u16, }
impl DV for NA1 { fn of(v: &Value) -> Self { let _ = v; NA1 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "name")]
pub enum NE1 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "name")] HttpResponseCode { in_ner: u8, },
    #[musli(name = "stay")] Kept,
}
impl DV for NE1 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE1::FooBar, 1 => NE1::B(DV::of(&v[1][0]), ), 2 => NE1::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE1::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE1::FooBar => json!([0, Value::Array(vec![])]), NE1::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE1::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE1::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "PascalCase")]
pub struct NA2 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = "kept_As")] pub x2_y: u16, }
impl DV for NA2 { fn of(v: &Value) -> Self { let _ = v; NA2 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "PascalCase")]
pub enum NE2 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "PascalCase")] HttpResponseCode { in_ner: u8, },
    #[musli(name = "stay")] Kept,
}
impl DV for NE2 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE2::FooBar, 1 => NE2::B(DV::of(&v[1][0]), ), 2 => NE2::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE2::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE2::FooBar => json!([0, Value::Array(vec![])]), NE2::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE2::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE2::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "camelCase")]
pub struct NA3 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = "kept_As")] pub x2_y: u16, }
impl DV for NA3 { fn of(v: &Value) -> Self { let _ = v; NA3 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "camelCase")]
pub enum NE3 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "camelCase")] HttpResponseCode { in_ner: u8, },
    #[musli(name = "stay")] Kept,
}
impl DV for NE3 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE3::FooBar, 1 => NE3::B(DV::of(&v[1][0]), ), 2 => NE3::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE3::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE3::FooBar => json!([0, Value::Array(vec![])]), NE3::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE3::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE3::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "snake_case")]
pub struct NA4 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = "kept_As")] pub x2_y: u16, }
impl DV for NA4 { fn of(v: &Value) -> Self { let _ = v; NA4 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "snake_case")]
pub enum NE4 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "snake_case")] HttpResponseCode { in_ner: u8, },
    #[musli(name = "stay")] Kept,
}
impl DV for NE4 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE4::FooBar, 1 => NE4::B(DV::of(&v[1][0]), ), 2 => NE4::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE4::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE4::FooBar => json!([0, Value::Array(vec![])]), NE4::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE4::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE4::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct NA5 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = "kept_As")] pub x2_y: u16, }
impl DV for NA5 { fn of(v: &Value) -> Self { let _ = v; NA5 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub enum NE5 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "SCREAMING_SNAKE_CASE")] HttpResponseCode { in_ner: u8, },
    #[musli(name = "stay")] Kept,
}
impl DV for NE5 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE5::FooBar, 1 => NE5::B(DV::of(&v[1][0]), ), 2 => NE5::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE5::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE5::FooBar => json!([0, Value::Array(vec![])]), NE5::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE5::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE5::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "kebab-case")]
pub struct NA6 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = "kept_As")] pub x2_y: u16, }
impl DV for NA6 { fn of(v: &Value) -> Self { let _ = v; NA6 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "kebab-case")]
pub enum NE6 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "kebab-case")] HttpResponseCode { in_ner: u8, },
    #[musli(name = "stay")] Kept,
}
impl DV for NE6 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE6::FooBar, 1 => NE6::B(DV::of(&v[1][0]), ), 2 => NE6::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE6::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE6::FooBar => json!([0, Value::Array(vec![])]), NE6::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE6::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE6::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub struct NA7 { pub foo_bar: u8, pub b: bool, pub http_response_code: Option<u8>, #[musli(name = "kept_As")] pub x2_y: u16, }
impl DV for NA7 { fn of(v: &Value) -> Self { let _ = v; NA7 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), http_response_code: DV::of(&v[2]), x2_y: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.http_response_code.tree(), self.x2_y.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub enum NE7 {
     FooBar,
     B(u8, ),
    #[musli(name_all = "SCREAMING-KEBAB-CASE")] HttpResponseCode { in_ner: u8, },
    #[musli(name = "stay")] Kept,
}
impl DV for NE7 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NE7::FooBar, 1 => NE7::B(DV::of(&v[1][0]), ), 2 => NE7::HttpResponseCode { in_ner: DV::of(&v[1][0]),  }, 3 => NE7::Kept, _ => panic!() } } fn tree(&self) -> Value { match self { NE7::FooBar => json!([0, Value::Array(vec![])]), NE7::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), NE7::HttpResponseCode { in_ner: x0 } => json!([2, Value::Array(vec![x0.tree()])]), NE7::Kept => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, name_all = "snake_case")]
#[musli(Text, name_all = "SCREAMING_SNAKE_CASE")]
pub struct N9 { pub foo_bar: u8, pub baz: String, }
impl DV for N9 { fn of(v: &Value) -> Self { let _ = v; N9 { foo_bar: DV::of(&v[0]), baz: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.baz.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, name(type = str))]
#[musli(Text, name(type = usize))]
pub struct N10 { #[musli(Binary, name = "alpha")] #[musli(Text, name = 3)] pub a: u8, #[musli(Binary, name = "")] #[musli(Text, name = 1000)] pub b: u8, }
impl DV for N10 { fn of(v: &Value) -> Self { let _ = v; N10 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S1 { pub a: u8, #[musli(skip)] pub b: u32, #[musli(default)] pub c: Option<u16>, #[musli(default = crate::custom::dflt)] pub d: String, #[musli(default)] #[musli(skip_encoding_if = Option::is_none)] pub e: Option<u8>, #[musli(default)] #[musli(skip_encoding_if = crate::custom::is_seven)] pub f: u16, }
impl DV for S1 { fn of(v: &Value) -> Self { let _ = v; S1 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), d: DV::of(&v[3]), e: DV::of(&v[4]), f: DV::of(&v[5]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree(), self.d.tree(), self.e.tree(), self.f.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S2 { #[musli(Text, skip)] pub a: u8, #[musli(Binary, skip)] pub b: u8, #[musli(Binary, default)] #[musli(Text, default = crate::custom::nine)] pub c: u16, }
impl DV for S2 { fn of(v: &Value) -> Self { let _ = v; S2 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S3 { #[musli(bytes)] pub a: Vec<u8>, #[musli(bytes)] pub b: [u8; 4], #[musli(packed)] pub c: (u8,u32,), #[musli(packed)] pub d: [u16; 2], #[musli(bytes)] pub e: VecDeque<u8>, }
impl DV for S3 { fn of(v: &Value) -> Self { let _ = v; S3 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), d: DV::of(&v[3]), e: DV::of(&v[4]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree(), self.d.tree(), self.e.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(mode = crate::prelude::Third, name_all = "camelCase")]
pub struct H1 { #[musli(Text, name = "x")] pub foo_bar: u8, #[musli(mode = crate::prelude::Third, name = "bee")] pub b: u16, #[musli(mode = crate::prelude::Third, default)] #[musli(mode = crate::prelude::Third, skip_encoding_if = Option::is_none)] pub c: Option<u8>, }
impl DV for H1 { fn of(v: &Value) -> Self { let _ = v; H1 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(mode = crate::prelude::Third, packed)]
pub struct H2(pub u8, pub String, );
impl DV for H2 { fn of(v: &Value) -> Self { let _ = v; H2(DV::of(&v[0]), DV::of(&v[1]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree(), self.1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(mode = crate::prelude::Third, name(type = usize))]
pub struct H3 { pub a: u8, pub b: u16, pub t: Vec<H2>, }
impl DV for H3 { fn of(v: &Value) -> Self { let _ = v; H3 { a: DV::of(&v[0]), b: DV::of(&v[1]), t: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.t.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct H4 { #[musli(Text, name = "aa")] pub a: u8, #[musli(mode = crate::prelude::Third, skip)] pub b: u16, #[musli(mode = crate::prelude::Third, bytes)] pub c: Vec<u8>, }
impl DV for H4 { fn of(v: &Value) -> Self { let _ = v; H4 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "name")]
#[musli(mode = crate::prelude::Third, decode_only, name_all = "index")]
#[musli(mode = crate::prelude::Third, encode_only, transparent)]
pub struct H5 { pub x: u16, }
impl DV for H5 { fn of(v: &Value) -> Self { let _ = v; H5 { x: DV::of(&v[0]),  } } fn tree(&self) -> Value { Value::Array(vec![self.x.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(mode = crate::prelude::Third, tag = "t")]
#[musli(mode = crate::prelude::Third, name_all = "name")]
pub enum H6 {
    #[musli(mode = crate::prelude::Third, name_all = "name")] A { x: u8, h: H2, },
    #[musli(mode = crate::prelude::Third, name = "b")] #[musli(mode = crate::prelude::Third, name_all = "kebab-case")] B { y: Option<u8>, },
}
impl DV for H6 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => H6::A { x: DV::of(&v[1][0]), h: DV::of(&v[1][1]),  }, 1 => H6::B { y: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { H6::A { x: x0, h: x1 } => json!([0, Value::Array(vec![x0.tree(), x1.tree()])]), H6::B { y: x0 } => json!([1, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum H7 {
    #[musli(mode = crate::prelude::Third, name = 9)] A,
     B(u8, ),
    #[musli(mode = crate::prelude::Third, transparent)] C(H1, ),
    #[musli(mode = crate::prelude::Third, default)] D,
}
impl DV for H7 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => H7::A, 1 => H7::B(DV::of(&v[1][0]), ), 2 => H7::C(DV::of(&v[1][0]), ), 3 => H7::D, _ => panic!() } } fn tree(&self) -> Value { match self { H7::A => json!([0, Value::Array(vec![])]), H7::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), H7::C(x0) => json!([2, Value::Array(vec![x0.tree()])]), H7::D => json!([3, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S4 { #[musli(with = crate::custom::wide)] pub a: u32, #[musli(with = crate::custom::rev)] pub b: String, }
impl DV for S4 { fn of(v: &Value) -> Self { let _ = v; S4 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S5 { #[musli(skip)] #[musli(default = crate::custom::eleven)] pub a: u8, pub b: u8, }
impl DV for S5 { fn of(v: &Value) -> Self { let _ = v; S5 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S6 { #[musli(trace)] pub m: BTreeMap<String, u32>, pub r: P1, }
impl DV for S6 { fn of(v: &Value) -> Self { let _ = v; S6 { m: DV::of(&v[0]), r: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.m.tree(), self.r.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S9 { #[musli(bytes)] pub c: Box<[u8]>, #[musli(packed)] pub e: (u8,u16,bool,u32,String,i8,u8,u16,bool,u32,String,i8,), #[musli(packed)] pub f: (u16,u8,i64,u16,u8,i64,u16,), }
impl DV for S9 { fn of(v: &Value) -> Self { let _ = v; S9 { c: DV::of(&v[0]), e: DV::of(&v[1]), f: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.c.tree(), self.e.tree(), self.f.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct G1 { pub f0: u8, pub f1: u8, pub f2: u8, pub f3: u8, pub f4: u8, pub f5: u8, pub f6: u8, pub f7: u8, pub f8: u8, pub f9: u8, pub f10: u8, pub f11: u8, pub f12: u8, pub f13: u8, pub f14: u8, pub f15: u8, pub f16: u8, pub f17: u8, pub f18: u8, pub f19: u8, pub f20: u8, pub f21: u8, pub f22: u8, pub f23: u8, pub f24: u8, pub f25: u8, pub f26: u8, pub f27: u8, pub f28: u8, pub f29: u8, pub f30: u8, pub f31: u8, pub f32: u8, pub f33: u8, pub f34: u8, pub f35: u8, pub f36: u8, pub f37: u8, pub f38: u8, pub f39: u8, pub f40: u8, pub f41: u8, pub f42: u8, pub f43: u8, pub f44: u8, pub f45: u8, pub f46: u8, pub f47: u8, pub f48: u8, pub f49: u8, pub f50: u8, pub f51: u8, pub f52: u8, pub f53: u8, pub f54: u8, pub f55: u8, pub f56: u8, pub f57: u8, pub f58: u8, pub f59: u8, pub f60: u8, pub f61: u8, pub f62: u8, pub f63: u8, pub f64: u8, pub f65: u8, pub f66: u8, pub f67: u8, pub f68: u8, pub f69: u8, }
impl DV for G1 { fn of(v: &Value) -> Self { let _ = v; G1 { f0: DV::of(&v[0]), f1: DV::of(&v[1]), f2: DV::of(&v[2]), f3: DV::of(&v[3]), f4: DV::of(&v[4]), f5: DV::of(&v[5]), f6: DV::of(&v[6]), f7: DV::of(&v[7]), f8: DV::of(&v[8]), f9: DV::of(&v[9]), f10: DV::of(&v[10]), f11: DV::of(&v[11]), f12: DV::of(&v[12]), f13: DV::of(&v[13]), f14: DV::of(&v[14]), f15: DV::of(&v[15]), f16: DV::of(&v[16]), f17: DV::of(&v[17]), f18: DV::of(&v[18]), f19: DV::of(&v[19]), f20: DV::of(&v[20]), f21: DV::of(&v[21]), f22: DV::of(&v[22]), f23: DV::of(&v[23]), f24: DV::of(&v[24]), f25: DV::of(&v[25]), f26: DV::of(&v[26]), f27: DV::of(&v[27]), f28: DV::of(&v[28]), f29: DV::of(&v[29]), f30: DV::of(&v[30]), f31: DV::of(&v[31]), f32: DV::of(&v[32]), f33: DV::of(&v[33]), f34: DV::of(&v[34]), f35: DV::of(&v[35]), f36: DV::of(&v[36]), f37: DV::of(&v[37]), f38: DV::of(&v[38]), f39: DV::of(&v[39]), f40: DV::of(&v[40]), f41: DV::of(&v[41]), f42: DV::of(&v[42]), f43: DV::of(&v[43]), f44: DV::of(&v[44]), f45: DV::of(&v[45]), f46: DV::of(&v[46]), f47: DV::of(&v[47]), f48: DV::of(&v[48]), f49: DV::of(&v[49]), f50: DV::of(&v[50]), f51: DV::of(&v[51]), f52: DV::of(&v[52]), f53: DV::of(&v[53]), f54: DV::of(&v[54]), f55: DV::of(&v[55]), f56: DV::of(&v[56]), f57: DV::of(&v[57]), f58: DV::of(&v[58]), f59: DV::of(&v[59]), f60: DV::of(&v[60]), f61: DV::of(&v[61]), f62: DV::of(&v[62]), f63: DV::of(&v[63]), f64: DV::of(&v[64]), f65: DV::of(&v[65]), f66: DV::of(&v[66]), f67: DV::of(&v[67]), f68: DV::of(&v[68]), f69: DV::of(&v[69]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f0.tree(), self.f1.tree(), self.f2.tree(), self.f3.tree(), self.f4.tree(), self.f5.tree(), self.f6.tree(), self.f7.tree(), self.f8.tree(), self.f9.tree(), self.f10.tree(), self.f11.tree(), self.f12.tree(), self.f13.tree(), self.f14.tree(), self.f15.tree(), self.f16.tree(), self.f17.tree(), self.f18.tree(), self.f19.tree(), self.f20.tree(), self.f21.tree(), self.f22.tree(), self.f23.tree(), self.f24.tree(), self.f25.tree(), self.f26.tree(), self.f27.tree(), self.f28.tree(), self.f29.tree(), self.f30.tree(), self.f31.tree(), self.f32.tree(), self.f33.tree(), self.f34.tree(), self.f35.tree(), self.f36.tree(), self.f37.tree(), self.f38.tree(), self.f39.tree(), self.f40.tree(), self.f41.tree(), self.f42.tree(), self.f43.tree(), self.f44.tree(), self.f45.tree(), self.f46.tree(), self.f47.tree(), self.f48.tree(), self.f49.tree(), self.f50.tree(), self.f51.tree(), self.f52.tree(), self.f53.tree(), self.f54.tree(), self.f55.tree(), self.f56.tree(), self.f57.tree(), self.f58.tree(), self.f59.tree(), self.f60.tree(), self.f61.tree(), self.f62.tree(), self.f63.tree(), self.f64.tree(), self.f65.tree(), self.f66.tree(), self.f67.tree(), self.f68.tree(), self.f69.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum G2 {
     V0(u16, ),
     V1,
     V2,
     V3(u16, ),
     V4,
     V5,
     V6(u16, ),
     V7,
     V8,
     V9(u16, ),
     V10,
     V11,
     V12(u16, ),
     V13,
     V14,
     V15(u16, ),
     V16,
     V17,
     V18(u16, ),
     V19,
     V20,
     V21(u16, ),
     V22,
     V23,
     V24(u16, ),
     V25,
     V26,
     V27(u16, ),
     V28,
     V29,
     V30(u16, ),
     V31,
     V32,
     V33(u16, ),
     V34,
     V35,
     V36(u16, ),
     V37,
     V38,
     V39(u16, ),
     V40,
     V41,
     V42(u16, ),
     V43,
     V44,
     V45(u16, ),
     V46,
     V47,
     V48(u16, ),
     V49,
     V50,
     V51(u16, ),
     V52,
     V53,
     V54(u16, ),
     V55,
     V56,
     V57(u16, ),
     V58,
     V59,
     V60(u16, ),
     V61,
     V62,
     V63(u16, ),
     V64,
     V65,
     V66(u16, ),
     V67,
     V68,
     V69(u16, ),
     V70,
     V71,
     V72(u16, ),
     V73,
     V74,
     V75(u16, ),
     V76,
     V77,
     V78(u16, ),
     V79,
     V80,
     V81(u16, ),
     V82,
     V83,
     V84(u16, ),
     V85,
     V86,
     V87(u16, ),
     V88,
     V89,
     V90(u16, ),
     V91,
     V92,
     V93(u16, ),
     V94,
     V95,
     V96(u16, ),
     V97,
     V98,
     V99(u16, ),
     V100,
     V101,
     V102(u16, ),
     V103,
     V104,
     V105(u16, ),
     V106,
     V107,
     V108(u16, ),
     V109,
     V110,
     V111(u16, ),
     V112,
     V113,
     V114(u16, ),
     V115,
     V116,
     V117(u16, ),
     V118,
     V119,
     V120(u16, ),
     V121,
     V122,
     V123(u16, ),
     V124,
     V125,
     V126(u16, ),
     V127,
     V128,
     V129(u16, ),
     V130,
     V131,
     V132(u16, ),
     V133,
     V134,
     V135(u16, ),
     V136,
     V137,
     V138(u16, ),
     V139,
}
impl DV for G2 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => G2::V0(DV::of(&v[1][0]), ), 1 => G2::V1, 2 => G2::V2, 3 => G2::V3(DV::of(&v[1][0]), ), 4 => G2::V4, 5 => G2::V5, 6 => G2::V6(DV::of(&v[1][0]), ), 7 => G2::V7, 8 => G2::V8, 9 => G2::V9(DV::of(&v[1][0]), ), 10 => G2::V10, 11 => G2::V11, 12 => G2::V12(DV::of(&v[1][0]), ), 13 => G2::V13, 14 => G2::V14, 15 => G2::V15(DV::of(&v[1][0]), ), 16 => G2::V16, 17 => G2::V17, 18 => G2::V18(DV::of(&v[1][0]), ), 19 => G2::V19, 20 => G2::V20, 21 => G2::V21(DV::of(&v[1][0]), ), 22 => G2::V22, 23 => G2::V23, 24 => G2::V24(DV::of(&v[1][0]), ), 25 => G2::V25, 26 => G2::V26, 27 => G2::V27(DV::of(&v[1][0]), ), 28 => G2::V28, 29 => G2::V29, 30 => G2::V30(DV::of(&v[1][0]), ), 31 => G2::V31, 32 => G2::V32, 33 => G2::V33(DV::of(&v[1][0]), ), 34 => G2::V34, 35 => G2::V35, 36 => G2::V36(DV::of(&v[1][0]), ), 37 => G2::V37, 38 => G2::V38, 39 => G2::V39(DV::of(&v[1][0]), ), 40 => G2::V40, 41 => G2::V41, 42 => G2::V42(DV::of(&v[1][0]), ), 43 => G2::V43, 44 => G2::V44, 45 => G2::V45(DV::of(&v[1][0]), ), 46 => G2::V46, 47 => G2::V47, 48 => G2::V48(DV::of(&v[1][0]), ), 49 => G2::V49, 50 => G2::V50, 51 => G2::V51(DV::of(&v[1][0]), ), 52 => G2::V52, 53 => G2::V53, 54 => G2::V54(DV::of(&v[1][0]), ), 55 => G2::V55, 56 => G2::V56, 57 => G2::V57(DV::of(&v[1][0]), ), 58 => G2::V58, 59 => G2::V59, 60 => G2::V60(DV::of(&v[1][0]), ), 61 => G2::V61, 62 => G2::V62, 63 => G2::V63(DV::of(&v[1][0]), ), 64 => G2::V64, 65 => G2::V65, 66 => G2::V66(DV::of(&v[1][0]), ), 67 => G2::V67, 68 => G2::V68, 69 => G2::V69(DV::of(&v[1][0]), ), 70 => G2::V70, 71 => G2::V71, 72 => G2::V72(DV::of(&v[1][0]), ), 73 => G2::V73, 74 => G2::V74, 75 => G2::V75(DV::of(&v[1][0]), ), 76 => G2::V76, 77 => G2::V77, 78 => G2::V78(DV::of(&v[1][0]), ), 79 => G2::V79, 80 => G2::V80, 81 => G2::V81(DV::of(&v[1][0]), ), 82 => G2::V82, 83 => G2::V83, 84 => G2::V84(DV::of(&v[1][0]), ), 85 => G2::V85, 86 => G2::V86, 87 => G2::V87(DV::of(&v[1][0]), ), 88 => G2::V88, 89 => G2::V89, 90 => G2::V90(DV::of(&v[1][0]), ), 91 => G2::V91, 92 => G2::V92, 93 => G2::V93(DV::of(&v[1][0]), ), 94 => G2::V94, 95 => G2::V95, 96 => G2::V96(DV::of(&v[1][0]), ), 97 => G2::V97, 98 => G2::V98, 99 => G2::V99(DV::of(&v[1][0]), ), 100 => G2::V100, 101 => G2::V101, 102 => G2::V102(DV::of(&v[1][0]), ), 103 => G2::V103, 104 => G2::V104, 105 => G2::V105(DV::of(&v[1][0]), ), 106 => G2::V106, 107 => G2::V107, 108 => G2::V108(DV::of(&v[1][0]), ), 109 => G2::V109, 110 => G2::V110, 111 => G2::V111(DV::of(&v[1][0]), ), 112 => G2::V112, 113 => G2::V113, 114 => G2::V114(DV::of(&v[1][0]), ), 115 => G2::V115, 116 => G2::V116, 117 => G2::V117(DV::of(&v[1][0]), ), 118 => G2::V118, 119 => G2::V119, 120 => G2::V120(DV::of(&v[1][0]), ), 121 => G2::V121, 122 => G2::V122, 123 => G2::V123(DV::of(&v[1][0]), ), 124 => G2::V124, 125 => G2::V125, 126 => G2::V126(DV::of(&v[1][0]), ), 127 => G2::V127, 128 => G2::V128, 129 => G2::V129(DV::of(&v[1][0]), ), 130 => G2::V130, 131 => G2::V131, 132 => G2::V132(DV::of(&v[1][0]), ), 133 => G2::V133, 134 => G2::V134, 135 => G2::V135(DV::of(&v[1][0]), ), 136 => G2::V136, 137 => G2::V137, 138 => G2::V138(DV::of(&v[1][0]), ), 139 => G2::V139, _ => panic!() } } fn tree(&self) -> Value { match self { G2::V0(x0) => json!([0, Value::Array(vec![x0.tree()])]), G2::V1 => json!([1, Value::Array(vec![])]), G2::V2 => json!([2, Value::Array(vec![])]), G2::V3(x0) => json!([3, Value::Array(vec![x0.tree()])]), G2::V4 => json!([4, Value::Array(vec![])]), G2::V5 => json!([5, Value::Array(vec![])]), G2::V6(x0) => json!([6, Value::Array(vec![x0.tree()])]), G2::V7 => json!([7, Value::Array(vec![])]), G2::V8 => json!([8, Value::Array(vec![])]), G2::V9(x0) => json!([9, Value::Array(vec![x0.tree()])]), G2::V10 => json!([10, Value::Array(vec![])]), G2::V11 => json!([11, Value::Array(vec![])]), G2::V12(x0) => json!([12, Value::Array(vec![x0.tree()])]), G2::V13 => json!([13, Value::Array(vec![])]), G2::V14 => json!([14, Value::Array(vec![])]), G2::V15(x0) => json!([15, Value::Array(vec![x0.tree()])]), G2::V16 => json!([16, Value::Array(vec![])]), G2::V17 => json!([17, Value::Array(vec![])]), G2::V18(x0) => json!([18, Value::Array(vec![x0.tree()])]), G2::V19 => json!([19, Value::Array(vec![])]), G2::V20 => json!([20, Value::Array(vec![])]), G2::V21(x0) => json!([21, Value::Array(vec![x0.tree()])]), G2::V22 => json!([22, Value::Array(vec![])]), G2::V23 => json!([23, Value::Array(vec![])]), G2::V24(x0) => json!([24, Value::Array(vec![x0.tree()])]), G2::V25 => json!([25, Value::Array(vec![])]), G2::V26 => json!([26, Value::Array(vec![])]), G2::V27(x0) => json!([27, Value::Array(vec![x0.tree()])]), G2::V28 => json!([28, Value::Array(vec![])]), G2::V29 => json!([29, Value::Array(vec![])]), G2::V30(x0) => json!([30, Value::Array(vec![x0.tree()])]), G2::V31 => json!([31, Value::Array(vec![])]), G2::V32 => json!([32, Value::Array(vec![])]), G2::V33(x0) => json!([33, Value::Array(vec![x0.tree()])]), G2::V34 => json!([34, Value::Array(vec![])]), G2::V35 => json!([35, Value::Array(vec![])]), G2::V36(x0) => json!([36, Value::Array(vec![x0.tree()])]), G2::V37 => json!([37, Value::Array(vec![])]), G2::V38 => json!([38, Value::Array(vec![])]), G2::V39(x0) => json!([39, Value::Array(vec![x0.tree()])]), G2::V40 => json!([40, Value::Array(vec![])]), G2::V41 => json!([41, Value::Array(vec![])]), G2::V42(x0) => json!([42, Value::Array(vec![x0.tree()])]), G2::V43 => json!([43, Value::Array(vec![])]), G2::V44 => json!([44, Value::Array(vec![])]), G2::V45(x0) => json!([45, Value::Array(vec![x0.tree()])]), G2::V46 => json!([46, Value::Array(vec![])]), G2::V47 => json!([47, Value::Array(vec![])]), G2::V48(x0) => json!([48, Value::Array(vec![x0.tree()])]), G2::V49 => json!([49, Value::Array(vec![])]), G2::V50 => json!([50, Value::Array(vec![])]), G2::V51(x0) => json!([51, Value::Array(vec![x0.tree()])]), G2::V52 => json!([52, Value::Array(vec![])]), G2::V53 => json!([53, Value::Array(vec![])]), G2::V54(x0) => json!([54, Value::Array(vec![x0.tree()])]), G2::V55 => json!([55, Value::Array(vec![])]), G2::V56 => json!([56, Value::Array(vec![])]), G2::V57(x0) => json!([57, Value::Array(vec![x0.tree()])]), G2::V58 => json!([58, Value::Array(vec![])]), G2::V59 => json!([59, Value::Array(vec![])]), G2::V60(x0) => json!([60, Value::Array(vec![x0.tree()])]), G2::V61 => json!([61, Value::Array(vec![])]), G2::V62 => json!([62, Value::Array(vec![])]), G2::V63(x0) => json!([63, Value::Array(vec![x0.tree()])]), G2::V64 => json!([64, Value::Array(vec![])]), G2::V65 => json!([65, Value::Array(vec![])]), G2::V66(x0) => json!([66, Value::Array(vec![x0.tree()])]), G2::V67 => json!([67, Value::Array(vec![])]), G2::V68 => json!([68, Value::Array(vec![])]), G2::V69(x0) => json!([69, Value::Array(vec![x0.tree()])]), G2::V70 => json!([70, Value::Array(vec![])]), G2::V71 => json!([71, Value::Array(vec![])]), G2::V72(x0) => json!([72, Value::Array(vec![x0.tree()])]), G2::V73 => json!([73, Value::Array(vec![])]), G2::V74 => json!([74, Value::Array(vec![])]), G2::V75(x0) => json!([75, Value::Array(vec![x0.tree()])]), G2::V76 => json!([76, Value::Array(vec![])]), G2::V77 => json!([77, Value::Array(vec![])]), G2::V78(x0) => json!([78, Value::Array(vec![x0.tree()])]), G2::V79 => json!([79, Value::Array(vec![])]), G2::V80 => json!([80, Value::Array(vec![])]), G2::V81(x0) => json!([81, Value::Array(vec![x0.tree()])]), G2::V82 => json!([82, Value::Array(vec![])]), G2::V83 => json!([83, Value::Array(vec![])]), G2::V84(x0) => json!([84, Value::Array(vec![x0.tree()])]), G2::V85 => json!([85, Value::Array(vec![])]), G2::V86 => json!([86, Value::Array(vec![])]), G2::V87(x0) => json!([87, Value::Array(vec![x0.tree()])]), G2::V88 => json!([88, Value::Array(vec![])]), G2::V89 => json!([89, Value::Array(vec![])]), G2::V90(x0) => json!([90, Value::Array(vec![x0.tree()])]), G2::V91 => json!([91, Value::Array(vec![])]), G2::V92 => json!([92, Value::Array(vec![])]), G2::V93(x0) => json!([93, Value::Array(vec![x0.tree()])]), G2::V94 => json!([94, Value::Array(vec![])]), G2::V95 => json!([95, Value::Array(vec![])]), G2::V96(x0) => json!([96, Value::Array(vec![x0.tree()])]), G2::V97 => json!([97, Value::Array(vec![])]), G2::V98 => json!([98, Value::Array(vec![])]), G2::V99(x0) => json!([99, Value::Array(vec![x0.tree()])]), G2::V100 => json!([100, Value::Array(vec![])]), G2::V101 => json!([101, Value::Array(vec![])]), G2::V102(x0) => json!([102, Value::Array(vec![x0.tree()])]), G2::V103 => json!([103, Value::Array(vec![])]), G2::V104 => json!([104, Value::Array(vec![])]), G2::V105(x0) => json!([105, Value::Array(vec![x0.tree()])]), G2::V106 => json!([106, Value::Array(vec![])]), G2::V107 => json!([107, Value::Array(vec![])]), G2::V108(x0) => json!([108, Value::Array(vec![x0.tree()])]), G2::V109 => json!([109, Value::Array(vec![])]), G2::V110 => json!([110, Value::Array(vec![])]), G2::V111(x0) => json!([111, Value::Array(vec![x0.tree()])]), G2::V112 => json!([112, Value::Array(vec![])]), G2::V113 => json!([113, Value::Array(vec![])]), G2::V114(x0) => json!([114, Value::Array(vec![x0.tree()])]), G2::V115 => json!([115, Value::Array(vec![])]), G2::V116 => json!([116, Value::Array(vec![])]), G2::V117(x0) => json!([117, Value::Array(vec![x0.tree()])]), G2::V118 => json!([118, Value::Array(vec![])]), G2::V119 => json!([119, Value::Array(vec![])]), G2::V120(x0) => json!([120, Value::Array(vec![x0.tree()])]), G2::V121 => json!([121, Value::Array(vec![])]), G2::V122 => json!([122, Value::Array(vec![])]), G2::V123(x0) => json!([123, Value::Array(vec![x0.tree()])]), G2::V124 => json!([124, Value::Array(vec![])]), G2::V125 => json!([125, Value::Array(vec![])]), G2::V126(x0) => json!([126, Value::Array(vec![x0.tree()])]), G2::V127 => json!([127, Value::Array(vec![])]), G2::V128 => json!([128, Value::Array(vec![])]), G2::V129(x0) => json!([129, Value::Array(vec![x0.tree()])]), G2::V130 => json!([130, Value::Array(vec![])]), G2::V131 => json!([131, Value::Array(vec![])]), G2::V132(x0) => json!([132, Value::Array(vec![x0.tree()])]), G2::V133 => json!([133, Value::Array(vec![])]), G2::V134 => json!([134, Value::Array(vec![])]), G2::V135(x0) => json!([135, Value::Array(vec![x0.tree()])]), G2::V136 => json!([136, Value::Array(vec![])]), G2::V137 => json!([137, Value::Array(vec![])]), G2::V138(x0) => json!([138, Value::Array(vec![x0.tree()])]), G2::V139 => json!([139, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
pub struct S7 { pub b: u16, #[musli(bytes)] pub c: Vec<u8>, }
impl DV for S7 { fn of(v: &Value) -> Self { let _ = v; S7 { b: DV::of(&v[0]), c: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct S8 { #[musli(Binary, default)] #[musli(Binary, skip_encoding_if = crate::custom::is_seven)] pub a: u16, pub b: u8, }
impl DV for S8 { fn of(v: &Value) -> Self { let _ = v; S8 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct Tree { pub v: u8, pub kids: Vec<Tree>, }
impl DV for Tree { fn of(v: &Value) -> Self { let _ = v; Tree { v: DV::of(&v[0]), kids: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.v.tree(), self.kids.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum E1 {
     Unit,
     Tup(u32, String, ),
     Named { x: u8, y: Option<P1>, },
     Empty { },
     One(u8, ),
}
impl DV for E1 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E1::Unit, 1 => E1::Tup(DV::of(&v[1][0]), DV::of(&v[1][1]), ), 2 => E1::Named { x: DV::of(&v[1][0]), y: DV::of(&v[1][1]),  }, 3 => E1::Empty {  }, 4 => E1::One(DV::of(&v[1][0]), ), _ => panic!() } } fn tree(&self) -> Value { match self { E1::Unit => json!([0, Value::Array(vec![])]), E1::Tup(x0, x1) => json!([1, Value::Array(vec![x0.tree(), x1.tree()])]), E1::Named { x: x0, y: x1 } => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]), E1::Empty {  } => json!([3, Value::Array(vec![])]), E1::One(x0) => json!([4, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, name_all = "kebab-case")]
pub enum E2 {
    #[musli(Binary, name = 300)] FirstVariant,
    #[musli(Text, name = "2nd")] SecondOne(i32, ),
     Third { #[musli(Text, name = "sf")] some_field: u8, },
}
impl DV for E2 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E2::FirstVariant, 1 => E2::SecondOne(DV::of(&v[1][0]), ), 2 => E2::Third { some_field: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { E2::FirstVariant => json!([0, Value::Array(vec![])]), E2::SecondOne(x0) => json!([1, Value::Array(vec![x0.tree()])]), E2::Third { some_field: x0 } => json!([2, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, tag = "type")]
#[musli(Binary, name(type = usize))]
#[musli(Binary, tag = 10)]
pub enum E3 {
     A,
     Num { x: u32, y: Option<u8>, },
     Str { s: String, l: Vec<u16>, },
     In { p: P1, },
}
impl DV for E3 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E3::A, 1 => E3::Num { x: DV::of(&v[1][0]), y: DV::of(&v[1][1]),  }, 2 => E3::Str { s: DV::of(&v[1][0]), l: DV::of(&v[1][1]),  }, 3 => E3::In { p: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { E3::A => json!([0, Value::Array(vec![])]), E3::Num { x: x0, y: x1 } => json!([1, Value::Array(vec![x0.tree(), x1.tree()])]), E3::Str { s: x0, l: x1 } => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]), E3::In { p: x0 } => json!([3, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, tag = "t")]
#[musli(Text, content = "c")]
#[musli(Binary, name(type = usize))]
#[musli(Binary, tag = 10)]
#[musli(Binary, content = 11)]
pub enum E4 {
     A,
     Num(u32, ),
     Str { s: String, o: Option<i16>, },
}
impl DV for E4 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E4::A, 1 => E4::Num(DV::of(&v[1][0]), ), 2 => E4::Str { s: DV::of(&v[1][0]), o: DV::of(&v[1][1]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { E4::A => json!([0, Value::Array(vec![])]), E4::Num(x0) => json!([1, Value::Array(vec![x0.tree()])]), E4::Str { s: x0, o: x1 } => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(untagged)]
pub enum E5 {
     A { a: u8, b: String, },
     B { a: u8, },
     C { #[musli(Binary, name = 2)] c: bool, },
}
impl DV for E5 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E5::A { a: DV::of(&v[1][0]), b: DV::of(&v[1][1]),  }, 1 => E5::B { a: DV::of(&v[1][0]),  }, 2 => E5::C { c: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { E5::A { a: x0, b: x1 } => json!([0, Value::Array(vec![x0.tree(), x1.tree()])]), E5::B { a: x0 } => json!([1, Value::Array(vec![x0.tree()])]), E5::C { c: x0 } => json!([2, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum E6 {
     Known(u8, ),
    #[musli(default)] Other,
}
impl DV for E6 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E6::Known(DV::of(&v[1][0]), ), 1 => E6::Other, _ => panic!() } } fn tree(&self) -> Value { match self { E6::Known(x0) => json!([0, Value::Array(vec![x0.tree()])]), E6::Other => json!([1, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum E7 {
    #[musli(transparent)] N(u32, ),
    #[musli(transparent)] S(String, ),
    #[musli(packed)] P(u16, u8, ),
    #[musli(transparent)] L(Vec<u8>, ),
}
impl DV for E7 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E7::N(DV::of(&v[1][0]), ), 1 => E7::S(DV::of(&v[1][0]), ), 2 => E7::P(DV::of(&v[1][0]), DV::of(&v[1][1]), ), 3 => E7::L(DV::of(&v[1][0]), ), _ => panic!() } } fn tree(&self) -> Value { match self { E7::N(x0) => json!([0, Value::Array(vec![x0.tree()])]), E7::S(x0) => json!([1, Value::Array(vec![x0.tree()])]), E7::P(x0, x1) => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]), E7::L(x0) => json!([3, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, name(type = str))]
#[musli(Text, name(type = usize))]
pub enum E8 {
    #[musli(Binary, name = "alpha")] #[musli(Text, name = 7)] A,
    #[musli(Binary, name = "beta")] #[musli(Text, name = 300)] B(u8, ),
}
impl DV for E8 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E8::A, 1 => E8::B(DV::of(&v[1][0]), ), _ => panic!() } } fn tree(&self) -> Value { match self { E8::A => json!([0, Value::Array(vec![])]), E8::B(x0) => json!([1, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum E9 {
    #[musli(Binary, pattern = (0 | 4 | 5))] #[musli(Text, pattern = ("A" | "a"))] A(u8, ),
    #[musli(Binary, pattern = (1 | 9))] #[musli(Text, pattern = ("B" | "b"))] B,
}
impl DV for E9 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E9::A(DV::of(&v[1][0]), ), 1 => E9::B, _ => panic!() } } fn tree(&self) -> Value { match self { E9::A(x0) => json!([0, Value::Array(vec![x0.tree()])]), E9::B => json!([1, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum E10 {
     A,
    #[musli(Binary, name = 300)] #[musli(Text, name = "bee")] B,
     C,
}
impl DV for E10 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E10::A, 1 => E10::B, 2 => E10::C, _ => panic!() } } fn tree(&self) -> Value { match self { E10::A => json!([0, Value::Array(vec![])]), E10::B => json!([1, Value::Array(vec![])]), E10::C => json!([2, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum E11 {
     A,
    #[musli(default)] Z,
}
impl DV for E11 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => E11::A, 1 => E11::Z, _ => panic!() } } fn tree(&self) -> Value { match self { E11::A => json!([0, Value::Array(vec![])]), E11::Z => json!([1, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct U1 { pub l: Vec<E5>, pub e: E5, pub z: u8, }
impl DV for U1 { fn of(v: &Value) -> Self { let _ = v; U1 { l: DV::of(&v[0]), e: DV::of(&v[1]), z: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.l.tree(), self.e.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "index")]
pub struct NB0 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB0 { fn of(v: &Value) -> Self { let _ = v; NB0 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "index")]
pub enum NC0 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC0 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC0::HTTPServer, 1 => NC0::X1Y2(DV::of(&v[1][0]), ), 2 => NC0::Foo_Bar, 3 => NC0::lower_case, 4 => NC0::ABC { q: DV::of(&v[1][0]),  }, 5 => NC0::_Lead, 6 => NC0::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC0::HTTPServer => json!([0, Value::Array(vec![])]), NC0::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC0::Foo_Bar => json!([2, Value::Array(vec![])]), NC0::lower_case => json!([3, Value::Array(vec![])]), NC0::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC0::_Lead => json!([5, Value::Array(vec![])]), NC0::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "name")]
pub struct NB1 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB1 { fn of(v: &Value) -> Self { let _ = v; NB1 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "name")]
pub enum NC1 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC1 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC1::HTTPServer, 1 => NC1::X1Y2(DV::of(&v[1][0]), ), 2 => NC1::Foo_Bar, 3 => NC1::lower_case, 4 => NC1::ABC { q: DV::of(&v[1][0]),  }, 5 => NC1::_Lead, 6 => NC1::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC1::HTTPServer => json!([0, Value::Array(vec![])]), NC1::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC1::Foo_Bar => json!([2, Value::Array(vec![])]), NC1::lower_case => json!([3, Value::Array(vec![])]), NC1::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC1::_Lead => json!([5, Value::Array(vec![])]), NC1::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "PascalCase")]
pub struct NB2 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB2 { fn of(v: &Value) -> Self { let _ = v; NB2 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "PascalCase")]
pub enum NC2 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC2 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC2::HTTPServer, 1 => NC2::X1Y2(DV::of(&v[1][0]), ), 2 => NC2::Foo_Bar, 3 => NC2::lower_case, 4 => NC2::ABC { q: DV::of(&v[1][0]),  }, 5 => NC2::_Lead, 6 => NC2::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC2::HTTPServer => json!([0, Value::Array(vec![])]), NC2::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC2::Foo_Bar => json!([2, Value::Array(vec![])]), NC2::lower_case => json!([3, Value::Array(vec![])]), NC2::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC2::_Lead => json!([5, Value::Array(vec![])]), NC2::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "camelCase")]
pub struct NB3 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB3 { fn of(v: &Value) -> Self { let _ = v; NB3 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "camelCase")]
pub enum NC3 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC3 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC3::HTTPServer, 1 => NC3::X1Y2(DV::of(&v[1][0]), ), 2 => NC3::Foo_Bar, 3 => NC3::lower_case, 4 => NC3::ABC { q: DV::of(&v[1][0]),  }, 5 => NC3::_Lead, 6 => NC3::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC3::HTTPServer => json!([0, Value::Array(vec![])]), NC3::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC3::Foo_Bar => json!([2, Value::Array(vec![])]), NC3::lower_case => json!([3, Value::Array(vec![])]), NC3::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC3::_Lead => json!([5, Value::Array(vec![])]), NC3::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "snake_case")]
pub struct NB4 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB4 { fn of(v: &Value) -> Self { let _ = v; NB4 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "snake_case")]
pub enum NC4 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC4 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC4::HTTPServer, 1 => NC4::X1Y2(DV::of(&v[1][0]), ), 2 => NC4::Foo_Bar, 3 => NC4::lower_case, 4 => NC4::ABC { q: DV::of(&v[1][0]),  }, 5 => NC4::_Lead, 6 => NC4::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC4::HTTPServer => json!([0, Value::Array(vec![])]), NC4::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC4::Foo_Bar => json!([2, Value::Array(vec![])]), NC4::lower_case => json!([3, Value::Array(vec![])]), NC4::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC4::_Lead => json!([5, Value::Array(vec![])]), NC4::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub struct NB5 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB5 { fn of(v: &Value) -> Self { let _ = v; NB5 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING_SNAKE_CASE")]
pub enum NC5 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC5 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC5::HTTPServer, 1 => NC5::X1Y2(DV::of(&v[1][0]), ), 2 => NC5::Foo_Bar, 3 => NC5::lower_case, 4 => NC5::ABC { q: DV::of(&v[1][0]),  }, 5 => NC5::_Lead, 6 => NC5::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC5::HTTPServer => json!([0, Value::Array(vec![])]), NC5::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC5::Foo_Bar => json!([2, Value::Array(vec![])]), NC5::lower_case => json!([3, Value::Array(vec![])]), NC5::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC5::_Lead => json!([5, Value::Array(vec![])]), NC5::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "kebab-case")]
pub struct NB6 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB6 { fn of(v: &Value) -> Self { let _ = v; NB6 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "kebab-case")]
pub enum NC6 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC6 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC6::HTTPServer, 1 => NC6::X1Y2(DV::of(&v[1][0]), ), 2 => NC6::Foo_Bar, 3 => NC6::lower_case, 4 => NC6::ABC { q: DV::of(&v[1][0]),  }, 5 => NC6::_Lead, 6 => NC6::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC6::HTTPServer => json!([0, Value::Array(vec![])]), NC6::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC6::Foo_Bar => json!([2, Value::Array(vec![])]), NC6::lower_case => json!([3, Value::Array(vec![])]), NC6::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC6::_Lead => json!([5, Value::Array(vec![])]), NC6::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub struct NB7 { pub _lead: u8, pub trail_: u8, pub dou__ble: bool, pub a_1b: u8, pub x1y2: u8, pub camelCase: u8, pub URL: u8, pub HTTPServer: u8, pub _0: u8, pub z: u8, }
impl DV for NB7 { fn of(v: &Value) -> Self { let _ = v; NB7 { _lead: DV::of(&v[0]), trail_: DV::of(&v[1]), dou__ble: DV::of(&v[2]), a_1b: DV::of(&v[3]), x1y2: DV::of(&v[4]), camelCase: DV::of(&v[5]), URL: DV::of(&v[6]), HTTPServer: DV::of(&v[7]), _0: DV::of(&v[8]), z: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self._lead.tree(), self.trail_.tree(), self.dou__ble.tree(), self.a_1b.tree(), self.x1y2.tree(), self.camelCase.tree(), self.URL.tree(), self.HTTPServer.tree(), self._0.tree(), self.z.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(name_all = "SCREAMING-KEBAB-CASE")]
pub enum NC7 {
     HTTPServer,
     X1Y2(u8, ),
     Foo_Bar,
     lower_case,
     ABC { q: u8, },
     _Lead,
     V2Ray,
}
impl DV for NC7 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => NC7::HTTPServer, 1 => NC7::X1Y2(DV::of(&v[1][0]), ), 2 => NC7::Foo_Bar, 3 => NC7::lower_case, 4 => NC7::ABC { q: DV::of(&v[1][0]),  }, 5 => NC7::_Lead, 6 => NC7::V2Ray, _ => panic!() } } fn tree(&self) -> Value { match self { NC7::HTTPServer => json!([0, Value::Array(vec![])]), NC7::X1Y2(x0) => json!([1, Value::Array(vec![x0.tree()])]), NC7::Foo_Bar => json!([2, Value::Array(vec![])]), NC7::lower_case => json!([3, Value::Array(vec![])]), NC7::ABC { q: x0 } => json!([4, Value::Array(vec![x0.tree()])]), NC7::_Lead => json!([5, Value::Array(vec![])]), NC7::V2Ray => json!([6, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, name(type = str))]
#[musli(Text, name(type = usize))]
pub struct N11 { pub foo_bar: u8, pub b: String, }
impl DV for N11 { fn of(v: &Value) -> Self { let _ = v; N11 { foo_bar: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, name(type = str))]
#[musli(Text, name(type = usize))]
pub enum N12 {
     FooBar,
     Beta(u8, ),
}
impl DV for N12 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => N12::FooBar, 1 => N12::Beta(DV::of(&v[1][0]), ), _ => panic!() } } fn tree(&self) -> Value { match self { N12::FooBar => json!([0, Value::Array(vec![])]), N12::Beta(x0) => json!([1, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct N13(#[musli(Text, name = 7)] pub u8, pub String, );
impl DV for N13 { fn of(v: &Value) -> Self { let _ = v; N13(DV::of(&v[0]), DV::of(&v[1]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree(), self.1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct O1 { pub sur: u8, #[musli(Text, decode_only, name = "l")] #[musli(Binary, encode_only, name = 5)] pub last: String, #[musli(default)] pub opt: Option<u8>, }
impl DV for O1 { fn of(v: &Value) -> Self { let _ = v; O1 { sur: DV::of(&v[0]), last: DV::of(&v[1]), opt: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.sur.tree(), self.last.tree(), self.opt.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct O2 { #[musli(Binary, encode_only, name = 3)] #[musli(Binary, name = 4)] #[musli(Text, name = "aa")] #[musli(Text, decode_only, name = "bb")] pub a: u8, #[musli(default)] #[musli(Binary, encode_only, name = 0)] #[musli(Binary, decode_only, name = 3)] pub b: u16, }
impl DV for O2 { fn of(v: &Value) -> Self { let _ = v; O2 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, encode_only, name_all = "PascalCase")]
#[musli(Text, decode_only, name_all = "kebab-case")]
pub struct O3 { pub foo_bar: u8, #[musli(default)] pub baz: bool, }
impl DV for O3 { fn of(v: &Value) -> Self { let _ = v; O3 { foo_bar: DV::of(&v[0]), baz: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.foo_bar.tree(), self.baz.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct O4 { #[musli(encode_only, skip)] #[musli(default)] pub a: u8, #[musli(decode_only, skip)] pub b: u16, #[musli(Text, decode_only, default)] pub c: String, #[musli(Binary, encode_only, skip_encoding_if = crate::custom::is_eleven)] #[musli(Binary, decode_only, default = crate::custom::eleven)] pub d: u8, }
impl DV for O4 { fn of(v: &Value) -> Self { let _ = v; O4 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), d: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree(), self.d.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(encode_only, packed)]
pub struct O5 { pub a: u8, pub b: String, }
impl DV for O5 { fn of(v: &Value) -> Self { let _ = v; O5 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Binary, decode_only, packed)]
#[musli(Text, encode_only, packed)]
pub struct O6 { pub a: u8, pub b: u32, }
impl DV for O6 { fn of(v: &Value) -> Self { let _ = v; O6 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(encode_only, transparent)]
pub struct O7(pub u32, );
impl DV for O7 { fn of(v: &Value) -> Self { let _ = v; O7(DV::of(&v[0]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
#[musli(Binary, decode_only, transparent)]
pub struct O8(pub u32, );
impl DV for O8 { fn of(v: &Value) -> Self { let _ = v; O8(DV::of(&v[0]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct O9 { #[musli(encode_only, with = crate::custom::wide)] pub a: u32, #[musli(Text, decode_only, with = crate::custom::rev)] pub b: String, #[musli(Binary, encode_only, bytes)] pub c: Vec<u8>, }
impl DV for O9 { fn of(v: &Value) -> Self { let _ = v; O9 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum O10 {
    #[musli(Text, encode_only, name = "a")] A,
    #[musli(Binary, decode_only, name = 2)] B(u8, ),
    #[musli(Text, decode_only, pattern = ("A" | "a"))] #[musli(Binary, decode_only, pattern = (1 | 5))] C { x: u8, },
}
impl DV for O10 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => O10::A, 1 => O10::B(DV::of(&v[1][0]), ), 2 => O10::C { x: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { O10::A => json!([0, Value::Array(vec![])]), O10::B(x0) => json!([1, Value::Array(vec![x0.tree()])]), O10::C { x: x0 } => json!([2, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, encode_only, untagged)]
#[musli(Binary, encode_only, tag = 10)]
pub enum O11 {
     A { a: u8, },
     B { b: u8, },
}
impl DV for O11 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => O11::A { a: DV::of(&v[1][0]),  }, 1 => O11::B { b: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { O11::A { a: x0 } => json!([0, Value::Array(vec![x0.tree()])]), O11::B { b: x0 } => json!([1, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, decode_only, tag = "type")]
#[musli(Text, encode_only, tag = "t")]
#[musli(Text, encode_only, content = "c")]
pub enum O12 {
     A { #[musli(default)] a: u8, },
     B { b: u8, },
}
impl DV for O12 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => O12::A { a: DV::of(&v[1][0]),  }, 1 => O12::B { b: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { O12::A { a: x0 } => json!([0, Value::Array(vec![x0.tree()])]), O12::B { b: x0 } => json!([1, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum K1 {
     A { #[musli(skip)] a: u8, b: u16, #[musli(default)] #[musli(skip_encoding_if = Option::is_none)] c: Option<u8>, },
     B(#[musli(default)] u8, #[musli(skip)] #[musli(default = crate::custom::big)] u32, bool, ),
    #[musli(transparent)] C(#[musli(skip)] u8, String, ),
    #[musli(packed)] D { a: u8, #[musli(skip)] z: u16, b: String, },
    #[musli(Text, packed)] E(u8, #[musli(Binary, default)] String, ),
}
impl DV for K1 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => K1::A { a: DV::of(&v[1][0]), b: DV::of(&v[1][1]), c: DV::of(&v[1][2]),  }, 1 => K1::B(DV::of(&v[1][0]), DV::of(&v[1][1]), DV::of(&v[1][2]), ), 2 => K1::C(DV::of(&v[1][0]), DV::of(&v[1][1]), ), 3 => K1::D { a: DV::of(&v[1][0]), z: DV::of(&v[1][1]), b: DV::of(&v[1][2]),  }, 4 => K1::E(DV::of(&v[1][0]), DV::of(&v[1][1]), ), _ => panic!() } } fn tree(&self) -> Value { match self { K1::A { a: x0, b: x1, c: x2 } => json!([0, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), K1::B(x0, x1, x2) => json!([1, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), K1::C(x0, x1) => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]), K1::D { a: x0, z: x1, b: x2 } => json!([3, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), K1::E(x0, x1) => json!([4, Value::Array(vec![x0.tree(), x1.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, tag = "k")]
#[musli(Binary, tag = 10)]
#[musli(Binary, name(type = usize))]
pub enum K2 {
     A { #[musli(default)] a: u8, #[musli(skip)] b: u16, c: bool, },
    #[musli(Text, name_all = "SCREAMING_SNAKE_CASE")] B { #[musli(default)] #[musli(skip_encoding_if = crate::custom::is_eleven)] x_y: u8, },
     C,
}
impl DV for K2 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => K2::A { a: DV::of(&v[1][0]), b: DV::of(&v[1][1]), c: DV::of(&v[1][2]),  }, 1 => K2::B { x_y: DV::of(&v[1][0]),  }, 2 => K2::C, _ => panic!() } } fn tree(&self) -> Value { match self { K2::A { a: x0, b: x1, c: x2 } => json!([0, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), K2::B { x_y: x0 } => json!([1, Value::Array(vec![x0.tree()])]), K2::C => json!([2, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(transparent)]
pub struct K3 { #[musli(skip)] #[musli(default = crate::custom::eleven)] pub a: u8, pub b: Vec<u16>, #[musli(skip)] pub c: bool, }
impl DV for K3 { fn of(v: &Value) -> Self { let _ = v; K3 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(packed)]
pub struct K4 { #[musli(skip)] pub a: u8, pub b: u32, #[musli(skip)] pub c: String, pub d: u8, }
impl DV for K4 { fn of(v: &Value) -> Self { let _ = v; K4 { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), d: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree(), self.c.tree(), self.d.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct K5(#[musli(skip)] pub u8, #[musli(default)] pub u16, pub String, );
impl DV for K5 { fn of(v: &Value) -> Self { let _ = v; K5(DV::of(&v[0]), DV::of(&v[1]), DV::of(&v[2]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree(), self.1.tree(), self.2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V1 { #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] pub f2: String, }
impl DV for V1 { fn of(v: &Value) -> Self { let _ = v; V1 { f1: DV::of(&v[0]), f2: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f1.tree(), self.f2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V2 { #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] pub f2: String, #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, }
impl DV for V2 { fn of(v: &Value) -> Self { let _ = v; V2 { f2: DV::of(&v[0]), f1: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f2.tree(), self.f1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V3 { #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] #[musli(default)] pub f2: String, #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] #[musli(default)] pub f3: Option<Vec<u16>>, #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, }
impl DV for V3 { fn of(v: &Value) -> Self { let _ = v; V3 { f2: DV::of(&v[0]), f3: DV::of(&v[1]), f1: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f2.tree(), self.f3.tree(), self.f1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V4 { #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] pub f4: E1, #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, #[musli(Binary, name = 5)] #[musli(Text, name = "f5")] pub f5: P1, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] pub f2: String, }
impl DV for V4 { fn of(v: &Value) -> Self { let _ = v; V4 { f4: DV::of(&v[0]), f1: DV::of(&v[1]), f5: DV::of(&v[2]), f2: DV::of(&v[3]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f4.tree(), self.f1.tree(), self.f5.tree(), self.f2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V5 { #[musli(Binary, name = 6)] #[musli(Text, name = "f6")] pub f6: BTreeMap<String, Option<u8>>, #[musli(Binary, name = 7)] #[musli(Text, name = "f7")] pub f7: S7, #[musli(Binary, name = 8)] #[musli(Text, name = "f8")] pub f8: (f64,char,bool,), #[musli(Binary, name = 9)] #[musli(Text, name = "f9")] pub f9: (), #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] pub f2: String, #[musli(Binary, name = 70)] #[musli(Text, name = "f10")] pub f10: i128, }
impl DV for V5 { fn of(v: &Value) -> Self { let _ = v; V5 { f6: DV::of(&v[0]), f7: DV::of(&v[1]), f8: DV::of(&v[2]), f9: DV::of(&v[3]), f1: DV::of(&v[4]), f2: DV::of(&v[5]), f10: DV::of(&v[6]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f6.tree(), self.f7.tree(), self.f8.tree(), self.f9.tree(), self.f1.tree(), self.f2.tree(), self.f10.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V6 { #[musli(Binary, name = 700)] #[musli(Text, name = "f11")] pub f11: Result<u8, String>, #[musli(Binary, name = 11)] #[musli(Text, name = "f12")] pub f12: Vec<E7>, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] pub f2: String, #[musli(Binary, name = 13)] #[musli(Text, name = "f13")] #[musli(bytes)] pub f13: [u8; 4], #[musli(Binary, name = 14)] #[musli(Text, name = "f14")] pub f14: P3, #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, #[musli(Binary, name = 15)] #[musli(Text, name = "f15")] pub f15: Option<Option<u8>>, #[musli(Binary, name = 16)] #[musli(Text, name = "f16")] pub f16: Vec<()>, }
impl DV for V6 { fn of(v: &Value) -> Self { let _ = v; V6 { f11: DV::of(&v[0]), f12: DV::of(&v[1]), f2: DV::of(&v[2]), f13: DV::of(&v[3]), f14: DV::of(&v[4]), f1: DV::of(&v[5]), f15: DV::of(&v[6]), f16: DV::of(&v[7]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f11.tree(), self.f12.tree(), self.f2.tree(), self.f13.tree(), self.f14.tree(), self.f1.tree(), self.f15.tree(), self.f16.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V7 { #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] #[musli(default)] pub f1: u32, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] #[musli(default)] pub f2: String, #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] #[musli(default)] pub f3: Option<Vec<u16>>, #[musli(Binary, name = 70)] #[musli(Text, name = "f10")] #[musli(default)] pub f10: i128, #[musli(Binary, name = 9)] #[musli(Text, name = "f9")] #[musli(default)] pub f9: (), }
impl DV for V7 { fn of(v: &Value) -> Self { let _ = v; V7 { f1: DV::of(&v[0]), f2: DV::of(&v[1]), f3: DV::of(&v[2]), f10: DV::of(&v[3]), f9: DV::of(&v[4]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f1.tree(), self.f2.tree(), self.f3.tree(), self.f10.tree(), self.f9.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V8 { #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, }
impl DV for V8 { fn of(v: &Value) -> Self { let _ = v; V8 { f1: DV::of(&v[0]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V9 { #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] pub f3: Option<Vec<u16>>, #[musli(Binary, name = 15)] #[musli(Text, name = "f15")] pub f15: Option<Option<u8>>, #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, }
impl DV for V9 { fn of(v: &Value) -> Self { let _ = v; V9 { f3: DV::of(&v[0]), f15: DV::of(&v[1]), f1: DV::of(&v[2]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f3.tree(), self.f15.tree(), self.f1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V10 { }
impl DV for V10 { fn of(v: &Value) -> Self { let _ = v; V10 {  } } fn tree(&self) -> Value { Value::Array(vec![]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct V11 { #[musli(Binary, name = 16)] #[musli(Text, name = "f16")] pub f16: Vec<()>, #[musli(Binary, name = 11)] #[musli(Text, name = "f12")] pub f12: Vec<E7>, #[musli(Binary, name = 8)] #[musli(Text, name = "f8")] pub f8: (f64,char,bool,), #[musli(Binary, name = 7)] #[musli(Text, name = "f7")] pub f7: S7, #[musli(Binary, name = 6)] #[musli(Text, name = "f6")] pub f6: BTreeMap<String, Option<u8>>, #[musli(Binary, name = 5)] #[musli(Text, name = "f5")] pub f5: P1, #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] pub f4: E1, #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] pub f3: Option<Vec<u16>>, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] #[musli(default)] pub f2: String, #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] pub f1: u32, }
impl DV for V11 { fn of(v: &Value) -> Self { let _ = v; V11 { f16: DV::of(&v[0]), f12: DV::of(&v[1]), f8: DV::of(&v[2]), f7: DV::of(&v[3]), f6: DV::of(&v[4]), f5: DV::of(&v[5]), f4: DV::of(&v[6]), f3: DV::of(&v[7]), f2: DV::of(&v[8]), f1: DV::of(&v[9]),  } } fn tree(&self) -> Value { Value::Array(vec![self.f16.tree(), self.f12.tree(), self.f8.tree(), self.f7.tree(), self.f6.tree(), self.f5.tree(), self.f4.tree(), self.f3.tree(), self.f2.tree(), self.f1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum W1 {
    #[musli(Binary, name = 0)] #[musli(Text, name = "A")] A { #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] f1: u32, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] f2: String, },
    #[musli(Binary, name = 1)] #[musli(Text, name = "B")] B { #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] f4: E1, #[musli(Binary, name = 11)] #[musli(Text, name = "f12")] f12: Vec<E7>, #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] f3: Option<Vec<u16>>, },
    #[musli(Binary, name = 5)] #[musli(Text, name = "see")] C { #[musli(Binary, name = 7)] #[musli(Text, name = "f7")] f7: S7, },
}
impl DV for W1 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => W1::A { f1: DV::of(&v[1][0]), f2: DV::of(&v[1][1]),  }, 1 => W1::B { f4: DV::of(&v[1][0]), f12: DV::of(&v[1][1]), f3: DV::of(&v[1][2]),  }, 2 => W1::C { f7: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { W1::A { f1: x0, f2: x1 } => json!([0, Value::Array(vec![x0.tree(), x1.tree()])]), W1::B { f4: x0, f12: x1, f3: x2 } => json!([1, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W1::C { f7: x0 } => json!([2, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum W2 {
    #[musli(Binary, name = 5)] #[musli(Text, name = "see")] C { },
    #[musli(Binary, name = 1)] #[musli(Text, name = "B")] B { #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] f3: Option<Vec<u16>>, #[musli(Binary, name = 70)] #[musli(Text, name = "f10")] #[musli(default)] f10: i128, #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] f4: E1, },
    #[musli(Binary, name = 0)] #[musli(Text, name = "A")] A { #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] f2: String, #[musli(Binary, name = 9)] #[musli(Text, name = "f9")] #[musli(default)] f9: (), #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] f1: u32, },
    #[musli(Binary, name = 9)] #[musli(Text, name = "E")] E { #[musli(Binary, name = 6)] #[musli(Text, name = "f6")] f6: BTreeMap<String, Option<u8>>, },
}
impl DV for W2 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => W2::C {  }, 1 => W2::B { f3: DV::of(&v[1][0]), f10: DV::of(&v[1][1]), f4: DV::of(&v[1][2]),  }, 2 => W2::A { f2: DV::of(&v[1][0]), f9: DV::of(&v[1][1]), f1: DV::of(&v[1][2]),  }, 3 => W2::E { f6: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { W2::C {  } => json!([0, Value::Array(vec![])]), W2::B { f3: x0, f10: x1, f4: x2 } => json!([1, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W2::A { f2: x0, f9: x1, f1: x2 } => json!([2, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W2::E { f6: x0 } => json!([3, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, tag = "t")]
#[musli(Binary, tag = 10)]
#[musli(Binary, name(type = usize))]
pub enum W3 {
    #[musli(Binary, name = 0)] #[musli(Text, name = "A")] A { #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] f1: u32, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] f2: String, },
    #[musli(Binary, name = 1)] #[musli(Text, name = "B")] B { #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] f4: E1, #[musli(Binary, name = 11)] #[musli(Text, name = "f12")] f12: Vec<E7>, #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] f3: Option<Vec<u16>>, },
    #[musli(Binary, name = 5)] #[musli(Text, name = "see")] C { #[musli(Binary, name = 7)] #[musli(Text, name = "f7")] f7: S7, },
}
impl DV for W3 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => W3::A { f1: DV::of(&v[1][0]), f2: DV::of(&v[1][1]),  }, 1 => W3::B { f4: DV::of(&v[1][0]), f12: DV::of(&v[1][1]), f3: DV::of(&v[1][2]),  }, 2 => W3::C { f7: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { W3::A { f1: x0, f2: x1 } => json!([0, Value::Array(vec![x0.tree(), x1.tree()])]), W3::B { f4: x0, f12: x1, f3: x2 } => json!([1, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W3::C { f7: x0 } => json!([2, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, tag = "t")]
#[musli(Binary, tag = 10)]
#[musli(Binary, name(type = usize))]
pub enum W4 {
    #[musli(Binary, name = 5)] #[musli(Text, name = "see")] C { },
    #[musli(Binary, name = 1)] #[musli(Text, name = "B")] B { #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] f3: Option<Vec<u16>>, #[musli(Binary, name = 70)] #[musli(Text, name = "f10")] #[musli(default)] f10: i128, #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] f4: E1, },
    #[musli(Binary, name = 0)] #[musli(Text, name = "A")] A { #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] f2: String, #[musli(Binary, name = 9)] #[musli(Text, name = "f9")] #[musli(default)] f9: (), #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] f1: u32, },
    #[musli(Binary, name = 9)] #[musli(Text, name = "E")] E { #[musli(Binary, name = 6)] #[musli(Text, name = "f6")] f6: BTreeMap<String, Option<u8>>, },
}
impl DV for W4 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => W4::C {  }, 1 => W4::B { f3: DV::of(&v[1][0]), f10: DV::of(&v[1][1]), f4: DV::of(&v[1][2]),  }, 2 => W4::A { f2: DV::of(&v[1][0]), f9: DV::of(&v[1][1]), f1: DV::of(&v[1][2]),  }, 3 => W4::E { f6: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { W4::C {  } => json!([0, Value::Array(vec![])]), W4::B { f3: x0, f10: x1, f4: x2 } => json!([1, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W4::A { f2: x0, f9: x1, f1: x2 } => json!([2, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W4::E { f6: x0 } => json!([3, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, tag = "t")]
#[musli(Text, content = "c")]
#[musli(Binary, tag = 10)]
#[musli(Binary, content = 12)]
#[musli(Binary, name(type = usize))]
pub enum W5 {
    #[musli(Binary, name = 0)] #[musli(Text, name = "A")] A { #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] f1: u32, #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] f2: String, },
    #[musli(Binary, name = 1)] #[musli(Text, name = "B")] B { #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] f4: E1, #[musli(Binary, name = 11)] #[musli(Text, name = "f12")] f12: Vec<E7>, #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] f3: Option<Vec<u16>>, },
    #[musli(Binary, name = 5)] #[musli(Text, name = "see")] C { #[musli(Binary, name = 7)] #[musli(Text, name = "f7")] f7: S7, },
}
impl DV for W5 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => W5::A { f1: DV::of(&v[1][0]), f2: DV::of(&v[1][1]),  }, 1 => W5::B { f4: DV::of(&v[1][0]), f12: DV::of(&v[1][1]), f3: DV::of(&v[1][2]),  }, 2 => W5::C { f7: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { W5::A { f1: x0, f2: x1 } => json!([0, Value::Array(vec![x0.tree(), x1.tree()])]), W5::B { f4: x0, f12: x1, f3: x2 } => json!([1, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W5::C { f7: x0 } => json!([2, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(Text, tag = "t")]
#[musli(Text, content = "c")]
#[musli(Binary, tag = 10)]
#[musli(Binary, content = 12)]
#[musli(Binary, name(type = usize))]
pub enum W6 {
    #[musli(Binary, name = 5)] #[musli(Text, name = "see")] C { },
    #[musli(Binary, name = 1)] #[musli(Text, name = "B")] B { #[musli(Binary, name = 3)] #[musli(Text, name = "f3")] f3: Option<Vec<u16>>, #[musli(Binary, name = 70)] #[musli(Text, name = "f10")] #[musli(default)] f10: i128, #[musli(Binary, name = 4)] #[musli(Text, name = "f4")] f4: E1, },
    #[musli(Binary, name = 0)] #[musli(Text, name = "A")] A { #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] f2: String, #[musli(Binary, name = 9)] #[musli(Text, name = "f9")] #[musli(default)] f9: (), #[musli(Binary, name = 1)] #[musli(Text, name = "f1")] f1: u32, },
    #[musli(Binary, name = 9)] #[musli(Text, name = "E")] E { #[musli(Binary, name = 6)] #[musli(Text, name = "f6")] f6: BTreeMap<String, Option<u8>>, },
}
impl DV for W6 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => W6::C {  }, 1 => W6::B { f3: DV::of(&v[1][0]), f10: DV::of(&v[1][1]), f4: DV::of(&v[1][2]),  }, 2 => W6::A { f2: DV::of(&v[1][0]), f9: DV::of(&v[1][1]), f1: DV::of(&v[1][2]),  }, 3 => W6::E { f6: DV::of(&v[1][0]),  }, _ => panic!() } } fn tree(&self) -> Value { match self { W6::C {  } => json!([0, Value::Array(vec![])]), W6::B { f3: x0, f10: x1, f4: x2 } => json!([1, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W6::A { f2: x0, f9: x1, f1: x2 } => json!([2, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]), W6::E { f6: x0 } => json!([3, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub enum W7 {
    #[musli(Binary, name = 0)] #[musli(Text, name = "A")] A { #[musli(Binary, name = 2)] #[musli(Text, name = "f2")] f2: String, },
    #[musli(Binary, name = 400)] #[musli(Text, name = "X")] #[musli(default)] X,
}
impl DV for W7 { fn of(v: &Value) -> Self { match v[0].as_u64().unwrap() { 0 => W7::A { f2: DV::of(&v[1][0]),  }, 1 => W7::X, _ => panic!() } } fn tree(&self) -> Value { match self { W7::A { f2: x0 } => json!([0, Value::Array(vec![x0.tree()])]), W7::X => json!([1, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct Big1 { pub id: u64, pub name: String, pub tags: Vec<String>, pub kind: E1, pub opt: Option<P2>, pub map: BTreeMap<u8, Vec<i16>>, pub tup: (bool,char,f64,), pub inner: S1, pub pk: P6, }
impl DV for Big1 { fn of(v: &Value) -> Self { let _ = v; Big1 { id: DV::of(&v[0]), name: DV::of(&v[1]), tags: DV::of(&v[2]), kind: DV::of(&v[3]), opt: DV::of(&v[4]), map: DV::of(&v[5]), tup: DV::of(&v[6]), inner: DV::of(&v[7]), pk: DV::of(&v[8]),  } } fn tree(&self) -> Value { Value::Array(vec![self.id.tree(), self.name.tree(), self.tags.tree(), self.kind.tree(), self.opt.tree(), self.map.tree(), self.tup.tree(), self.inner.tree(), self.pk.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct I1 { pub a: u8, pub b: i64, }
impl DV for I1 { fn of(v: &Value) -> Self { let _ = v; I1 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct I2 { pub a: i32, pub b: u64, }
impl DV for I2 { fn of(v: &Value) -> Self { let _ = v; I2 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
pub struct I3 { pub a: u128, pub b: i8, }
impl DV for I3 { fn of(v: &Value) -> Self { let _ = v; I3 { a: DV::of(&v[0]), b: DV::of(&v[1]),  } } fn tree(&self) -> Value { Value::Array(vec![self.a.tree(), self.b.tree()]) } }
#[derive(Encode, Decode, Debug, Clone, PartialEq)]
#[musli(transparent)]
pub struct I4(pub i16, );
impl DV for I4 { fn of(v: &Value) -> Self { let _ = v; I4(DV::of(&v[0]), ) } fn tree(&self) -> Value { Value::Array(vec![self.0.tree()]) } }
#[macro_export]
macro_rules! with_type { ($n:expr, $T:ident => $body:expr) => { match $n {
    "u8" => { type $T = u8; $body }
    "u16" => { type $T = u16; $body }
    "u32" => { type $T = u32; $body }
    "u64" => { type $T = u64; $body }
    "u128" => { type $T = u128; $body }
    "i8" => { type $T = i8; $body }
    "i16" => { type $T = i16; $body }
    "i32" => { type $T = i32; $body }
    "i64" => { type $T = i64; $body }
    "i128" => { type $T = i128; $body }
    "usize" => { type $T = usize; $body }
    "isize" => { type $T = isize; $body }
    "f32" => { type $T = f32; $body }
    "f64" => { type $T = f64; $body }
    "bool" => { type $T = bool; $body }
    "char" => { type $T = char; $body }
    "unit" => { type $T = (); $body }
    "str" => { type $T = String; $body }
    "cstr" => { type $T = CString; $body }
    "phantom" => { type $T = PhantomData<u32>; $body }
    "nz8" => { type $T = NonZeroU8; $body }
    "nz16" => { type $T = NonZeroU16; $body }
    "nzi32" => { type $T = NonZeroI32; $body }
    "nz64" => { type $T = NonZeroU64; $body }
    "nz128" => { type $T = NonZeroU128; $body }
    "nzus" => { type $T = NonZeroUsize; $body }
    "ip4" => { type $T = Ipv4Addr; $body }
    "ip6" => { type $T = Ipv6Addr; $body }
    "ip" => { type $T = IpAddr; $body }
    "path" => { type $T = PathBuf; $body }
    "rfull" => { type $T = RangeFull; $body }
    "wu32" => { type $T = Wrapping<u32>; $body }
    "boxu16" => { type $T = Box<u16>; $body }
    "rcstr" => { type $T = Rc<String>; $body }
    "cow" => { type $T = Cow<'static, str>; $body }
    "arcv" => { type $T = Arc<Vec<u8>>; $body }
    "o_u8" => { type $T = Option<u8>; $body }
    "o_o_u16" => { type $T = Option<Option<u16>>; $body }
    "o_str" => { type $T = Option<String>; $body }
    "o_unit" => { type $T = Option<()>; $body }
    "o_v" => { type $T = Option<Vec<u16>>; $body }
    "o_p1" => { type $T = Option<P1>; $body }
    "v_u8" => { type $T = Vec<u8>; $body }
    "v_u16" => { type $T = Vec<u16>; $body }
    "v_i32" => { type $T = Vec<i32>; $body }
    "v_u128" => { type $T = Vec<u128>; $body }
    "v_str" => { type $T = Vec<String>; $body }
    "v_bool" => { type $T = Vec<bool>; $body }
    "v_char" => { type $T = Vec<char>; $body }
    "v_unit" => { type $T = Vec<()>; $body }
    "v_v_u16" => { type $T = Vec<Vec<u16>>; $body }
    "v_o_u32" => { type $T = Vec<Option<u32>>; $body }
    "v_f64" => { type $T = Vec<f64>; $body }
    "v_a_u16" => { type $T = Vec<[u16; 2]>; $body }
    "v_a_bool" => { type $T = Vec<[bool; 2]>; $body }
    "v_nz" => { type $T = Vec<NonZeroU16>; $body }
    "v_p5" => { type $T = Vec<P5>; $body }
    "v_p6" => { type $T = Vec<P6>; $body }
    "v_p7" => { type $T = Vec<P7>; $body }
    "v_t" => { type $T = Vec<(u8,u16,)>; $body }
    "v_usize" => { type $T = Vec<usize>; $body }
    "v_e1" => { type $T = Vec<E1>; $body }
    "v_e5" => { type $T = Vec<E5>; $body }
    "v_e10" => { type $T = Vec<E10>; $body }
    "v_p8" => { type $T = Vec<P8>; $body }
    "a2_p8" => { type $T = [P8; 2]; $body }
    "v_a_p8" => { type $T = Vec<[P8; 2]>; $body }
    "dq_u16" => { type $T = VecDeque<u16>; $body }
    "dq_str" => { type $T = VecDeque<String>; $body }
    "set_u16" => { type $T = BTreeSet<u16>; $body }
    "set_str" => { type $T = BTreeSet<String>; $body }
    "m_str_u32" => { type $T = BTreeMap<String, u32>; $body }
    "m_u8_v" => { type $T = BTreeMap<u8, Vec<u8>>; $body }
    "m_i64_str" => { type $T = BTreeMap<i64, String>; $body }
    "m_str_m" => { type $T = BTreeMap<String, BTreeMap<String, bool>>; $body }
    "m_u128_u8" => { type $T = BTreeMap<u128, u8>; $body }
    "m_i8_i8" => { type $T = BTreeMap<i8, i8>; $body }
    "m_us_o" => { type $T = BTreeMap<usize, Option<u8>>; $body }
    "t1" => { type $T = (u8,); $body }
    "t2" => { type $T = (u8,String,); $body }
    "t3" => { type $T = (u16,i32,bool,); $body }
    "t4" => { type $T = ((),char,f32,(u8,u8,),); $body }
    "a0" => { type $T = [u8; 0]; $body }
    "a4_u8" => { type $T = [u8; 4]; $body }
    "a3_u16" => { type $T = [u16; 3]; $body }
    "a3_a2" => { type $T = [[u16; 2]; 3]; $body }
    "a2_a2_bool" => { type $T = [[bool; 2]; 2]; $body }
    "a2_char" => { type $T = [char; 2]; $body }
    "a2_str" => { type $T = [String; 2]; $body }
    "a2_nz" => { type $T = [NonZeroU16; 2]; $body }
    "a2_unit" => { type $T = [(); 2]; $body }
    "a2_usize" => { type $T = [usize; 2]; $body }
    "res" => { type $T = Result<u8, String>; $body }
    "res_unit" => { type $T = Result<(), P1>; $body }
    "rng" => { type $T = Range<u32>; $body }
    "rngi" => { type $T = RangeInclusive<i8>; $body }
    "rngf" => { type $T = RangeFrom<u16>; $body }
    "rngt" => { type $T = RangeTo<u16>; $body }
    "rngti" => { type $T = RangeToInclusive<u64>; $body }
    "sock4" => { type $T = SocketAddrV4; $body }
    "sock6" => { type $T = SocketAddrV6; $body }
    "sock" => { type $T = SocketAddr; $body }
    "v_sock" => { type $T = Vec<SocketAddr>; $body }
    "rbytes" => { type $T = &'static [u8]; $body }
    "refstr" => { type $T = &'static str; $body }
    "boxstr" => { type $T = Box<str>; $body }
    "boxsl_u16" => { type $T = Box<[u16]>; $body }
    "boxsl_str" => { type $T = Box<[String]>; $body }
    "hm" => { type $T = HashMap<u16, String>; $body }
    "hset" => { type $T = HashSet<u16>; $body }
    "v_hset" => { type $T = Vec<HashSet<u16>>; $body }
    "heap" => { type $T = BinaryHeap<u16>; $body }
    "v_refstr" => { type $T = Vec<&'static str>; $body }
    "big_t" => { type $T = (u8,u16,u32,String,bool,Option<u8>,Vec<u8>,i8,); $body }
    "arcstr" => { type $T = Arc<String>; $body }
    "m_str_ref" => { type $T = BTreeMap<&'static str, u8>; $body }
    "t5" => { type $T = (u8,u16,bool,u32,Option<u8>,); $body }
    "t6" => { type $T = (u8,u16,bool,u32,Option<u8>,String,); $body }
    "t7" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,); $body }
    "t9" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,); $body }
    "t10" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,bool,); $body }
    "t11" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,bool,u32,); $body }
    "t12" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,bool,u32,Option<u8>,); $body }
    "t13" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,bool,u32,Option<u8>,String,); $body }
    "t14" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,bool,u32,Option<u8>,String,i8,); $body }
    "t15" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,bool,u32,Option<u8>,String,i8,u8,); $body }
    "t16" => { type $T = (u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,bool,u32,Option<u8>,String,i8,u8,u16,); $body }
    "osstr" => { type $T = OsString; $body }
    "rcos" => { type $T = Rc<OsStr>; $body }
    "boxos" => { type $T = Box<OsStr>; $body }
    "arcpath" => { type $T = Arc<Path>; $body }
    "boxpath" => { type $T = Box<Path>; $body }
    "boxcstr" => { type $T = Box<CStr>; $body }
    "rccstr" => { type $T = Rc<CStr>; $body }
    "cowcstr" => { type $T = Cow<'static, CStr>; $body }
    "refcstr" => { type $T = &'static CStr; $body }
    "P1" => { type $T = P1; $body }
    "P2" => { type $T = P2; $body }
    "P3" => { type $T = P3; $body }
    "P4" => { type $T = P4; $body }
    "P5" => { type $T = P5; $body }
    "P6" => { type $T = P6; $body }
    "P7" => { type $T = P7; $body }
    "P8" => { type $T = P8; $body }
    "P9" => { type $T = P9; $body }
    "P10" => { type $T = P10; $body }
    "P11" => { type $T = P11; $body }
    "P12" => { type $T = P12; $body }
    "P13" => { type $T = P13; $body }
    "P14" => { type $T = P14; $body }
    "N1" => { type $T = N1; $body }
    "NA0" => { type $T = NA0; $body }
    "NE0" => { type $T = NE0; $body }
    "NA1" => { type $T = NA1; $body }
    "NE1" => { type $T = NE1; $body }
    "NA2" => { type $T = NA2; $body }
    "NE2" => { type $T = NE2; $body }
    "NA3" => { type $T = NA3; $body }
    "NE3" => { type $T = NE3; $body }
    "NA4" => { type $T = NA4; $body }
    "NE4" => { type $T = NE4; $body }
    "NA5" => { type $T = NA5; $body }
    "NE5" => { type $T = NE5; $body }
    "NA6" => { type $T = NA6; $body }
    "NE6" => { type $T = NE6; $body }
    "NA7" => { type $T = NA7; $body }
    "NE7" => { type $T = NE7; $body }
    "N9" => { type $T = N9; $body }
    "N10" => { type $T = N10; $body }
    "S1" => { type $T = S1; $body }
    "S2" => { type $T = S2; $body }
    "S3" => { type $T = S3; $body }
    "H1" => { type $T = H1; $body }
    "H2" => { type $T = H2; $body }
    "H3" => { type $T = H3; $body }
    "H4" => { type $T = H4; $body }
    "H5" => { type $T = H5; $body }
    "H6" => { type $T = H6; $body }
    "H7" => { type $T = H7; $body }
    "S4" => { type $T = S4; $body }
    "S5" => { type $T = S5; $body }
    "S6" => { type $T = S6; $body }
    "S9" => { type $T = S9; $body }
    "G1" => { type $T = G1; $body }
    "G2" => { type $T = G2; $body }
    "S7" => { type $T = S7; $body }
    "S8" => { type $T = S8; $body }
    "Tree" => { type $T = Tree; $body }
    "E1" => { type $T = E1; $body }
    "E2" => { type $T = E2; $body }
    "E3" => { type $T = E3; $body }
    "E4" => { type $T = E4; $body }
    "E5" => { type $T = E5; $body }
    "E6" => { type $T = E6; $body }
    "E7" => { type $T = E7; $body }
    "E8" => { type $T = E8; $body }
    "E9" => { type $T = E9; $body }
    "E10" => { type $T = E10; $body }
    "E11" => { type $T = E11; $body }
    "U1" => { type $T = U1; $body }
    "NB0" => { type $T = NB0; $body }
    "NC0" => { type $T = NC0; $body }
    "NB1" => { type $T = NB1; $body }
    "NC1" => { type $T = NC1; $body }
    "NB2" => { type $T = NB2; $body }
    "NC2" => { type $T = NC2; $body }
    "NB3" => { type $T = NB3; $body }
    "NC3" => { type $T = NC3; $body }
    "NB4" => { type $T = NB4; $body }
    "NC4" => { type $T = NC4; $body }
    "NB5" => { type $T = NB5; $body }
    "NC5" => { type $T = NC5; $body }
    "NB6" => { type $T = NB6; $body }
    "NC6" => { type $T = NC6; $body }
    "NB7" => { type $T = NB7; $body }
    "NC7" => { type $T = NC7; $body }
    "N11" => { type $T = N11; $body }
    "N12" => { type $T = N12; $body }
    "N13" => { type $T = N13; $body }
    "O1" => { type $T = O1; $body }
    "O2" => { type $T = O2; $body }
    "O3" => { type $T = O3; $body }
    "O4" => { type $T = O4; $body }
    "O5" => { type $T = O5; $body }
    "O6" => { type $T = O6; $body }
    "O7" => { type $T = O7; $body }
    "O8" => { type $T = O8; $body }
    "O9" => { type $T = O9; $body }
    "O10" => { type $T = O10; $body }
    "O11" => { type $T = O11; $body }
    "O12" => { type $T = O12; $body }
    "K1" => { type $T = K1; $body }
    "K2" => { type $T = K2; $body }
    "K3" => { type $T = K3; $body }
    "K4" => { type $T = K4; $body }
    "K5" => { type $T = K5; $body }
    "V1" => { type $T = V1; $body }
    "V2" => { type $T = V2; $body }
    "V3" => { type $T = V3; $body }
    "V4" => { type $T = V4; $body }
    "V5" => { type $T = V5; $body }
    "V6" => { type $T = V6; $body }
    "V7" => { type $T = V7; $body }
    "V8" => { type $T = V8; $body }
    "V9" => { type $T = V9; $body }
    "V10" => { type $T = V10; $body }
    "V11" => { type $T = V11; $body }
    "W1" => { type $T = W1; $body }
    "W2" => { type $T = W2; $body }
    "W3" => { type $T = W3; $body }
    "W4" => { type $T = W4; $body }
    "W5" => { type $T = W5; $body }
    "W6" => { type $T = W6; $body }
    "W7" => { type $T = W7; $body }
    "Big1" => { type $T = Big1; $body }
    "vV1" => { type $T = Vec<V1>; $body }
    "vV3" => { type $T = Vec<V3>; $body }
    "vV4" => { type $T = Vec<V4>; $body }
    "vV6" => { type $T = Vec<V6>; $body }
    "vV7" => { type $T = Vec<V7>; $body }
    "vV8" => { type $T = Vec<V8>; $body }
    "vV10" => { type $T = Vec<V10>; $body }
    "mV1" => { type $T = BTreeMap<u8, V1>; $body }
    "mV5" => { type $T = BTreeMap<u8, V5>; $body }
    "mV8" => { type $T = BTreeMap<u8, V8>; $body }
    "oV1" => { type $T = Option<V1>; $body }
    "oV6" => { type $T = Option<V6>; $body }
    "oV8" => { type $T = Option<V8>; $body }
    "tV1" => { type $T = (V1,String,E1,BTreeMap<u16, String>,); $body }
    "tV8" => { type $T = (V8,String,E1,BTreeMap<u16, String>,); $body }
    "sV3" => { type $T = (V3,String,); $body }
    "sV8" => { type $T = (V8,String,); $body }
    "vW1" => { type $T = Vec<W1>; $body }
    "vW2" => { type $T = Vec<W2>; $body }
    "I1" => { type $T = I1; $body }
    "I2" => { type $T = I2; $body }
    "I3" => { type $T = I3; $body }
    "I4" => { type $T = I4; $body }
    "xu8" => { type $T = Vec<Option<u8>>; $body }
    "xi16" => { type $T = Vec<Option<i16>>; $body }
    "xu64" => { type $T = Vec<Option<u64>>; $body }
    "xi128" => { type $T = Vec<Option<i128>>; $body }
    "yu16" => { type $T = BTreeMap<u16, u16>; $body }
    "yi8" => { type $T = BTreeMap<i8, i8>; $body }
    "yi64" => { type $T = BTreeMap<i64, i64>; $body }
    "zu32" => { type $T = Result<u32, u32>; $body }
    "zi8" => { type $T = Result<i8, i8>; $body }
    "zi64" => { type $T = Result<i64, i64>; $body }
    other => panic!("unknown type {other}"),
} } }
#[macro_export]
macro_rules! with_opt_type { ($n:expr, $T:ident => $body:expr) => { match $n {
    "u8" => { type $T = u8; $body }
    "u16" => { type $T = u16; $body }
    "u32" => { type $T = u32; $body }
    "u64" => { type $T = u64; $body }
    "u128" => { type $T = u128; $body }
    "i8" => { type $T = i8; $body }
    "i16" => { type $T = i16; $body }
    "i32" => { type $T = i32; $body }
    "i64" => { type $T = i64; $body }
    "i128" => { type $T = i128; $body }
    "usize" => { type $T = usize; $body }
    "isize" => { type $T = isize; $body }
    "f32" => { type $T = f32; $body }
    "f64" => { type $T = f64; $body }
    "bool" => { type $T = bool; $body }
    "char" => { type $T = char; $body }
    "unit" => { type $T = (); $body }
    "str" => { type $T = String; $body }
    "nz16" => { type $T = NonZeroU16; $body }
    "o_u8" => { type $T = Option<u8>; $body }
    "v_u8" => { type $T = Vec<u8>; $body }
    "v_u16" => { type $T = Vec<u16>; $body }
    "v_i32" => { type $T = Vec<i32>; $body }
    "v_str" => { type $T = Vec<String>; $body }
    "v_bool" => { type $T = Vec<bool>; $body }
    "v_char" => { type $T = Vec<char>; $body }
    "v_unit" => { type $T = Vec<()>; $body }
    "v_a_u16" => { type $T = Vec<[u16; 2]>; $body }
    "v_a_bool" => { type $T = Vec<[bool; 2]>; $body }
    "v_nz" => { type $T = Vec<NonZeroU16>; $body }
    "v_p5" => { type $T = Vec<P5>; $body }
    "v_p7" => { type $T = Vec<P7>; $body }
    "v_usize" => { type $T = Vec<usize>; $body }
    "v_t" => { type $T = Vec<(u8,u16,)>; $body }
    "dq_u16" => { type $T = VecDeque<u16>; $body }
    "a3_u16" => { type $T = [u16; 3]; $body }
    "a3_a2" => { type $T = [[u16; 2]; 3]; $body }
    "a2_a2_bool" => { type $T = [[bool; 2]; 2]; $body }
    "a2_char" => { type $T = [char; 2]; $body }
    "a2_nz" => { type $T = [NonZeroU16; 2]; $body }
    "a2_unit" => { type $T = [(); 2]; $body }
    "a2_usize" => { type $T = [usize; 2]; $body }
    "t3" => { type $T = (u16,i32,bool,); $body }
    "t4" => { type $T = ((),char,f32,(u8,u8,),); $body }
    "m_u8_v" => { type $T = BTreeMap<u8, Vec<u8>>; $body }
    "res" => { type $T = Result<u8, String>; $body }
    "P1" => { type $T = P1; $body }
    "P2" => { type $T = P2; $body }
    "P5" => { type $T = P5; $body }
    "P6" => { type $T = P6; $body }
    "P7" => { type $T = P7; $body }
    "P8" => { type $T = P8; $body }
    "P11" => { type $T = P11; $body }
    "S3" => { type $T = S3; $body }
    "E1" => { type $T = E1; $body }
    "E7" => { type $T = E7; $body }
    "E10" => { type $T = E10; $body }
    "v_p8" => { type $T = Vec<P8>; $body }
    "v_a_p8" => { type $T = Vec<[P8; 2]>; $body }
    "Big1" => { type $T = Big1; $body }
    other => panic!("unknown type {other}"),
} } }
#[macro_export]
macro_rules! with_third_type { ($n:expr, $T:ident => $body:expr) => { match $n {
    "H1" => { type $T = H1; $body }
    "H2" => { type $T = H2; $body }
    "H3" => { type $T = H3; $body }
    "H4" => { type $T = H4; $body }
    "H5" => { type $T = H5; $body }
    "H6" => { type $T = H6; $body }
    "H7" => { type $T = H7; $body }
    other => panic!("unknown type {other}"),
} } }
