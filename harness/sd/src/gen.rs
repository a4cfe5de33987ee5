// Generated by checks/suniverse.py: do not edit.
use crate::prelude::*;
use crate::extra::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Unit;
impl DV for Unit { fn of(v: &Value) -> Self { let _ = v; Unit } fn tree(&self) -> Value { let Unit = self; Value::Array(vec![]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(transparent)]
pub struct UnitN(());
impl DV for UnitN { fn of(v: &Value) -> Self { let _ = v; UnitN(()) } fn tree(&self) -> Value { let UnitN(()) = self; Value::Array(vec![]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Empty { }
impl DV for Empty { fn of(v: &Value) -> Self { let _ = v; Empty { } } fn tree(&self) -> Value { let Empty {  } = self; Value::Array(vec![]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct EmptyN { }
impl DV for EmptyN { fn of(v: &Value) -> Self { let _ = v; EmptyN { } } fn tree(&self) -> Value { let EmptyN {  } = self; Value::Array(vec![]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct New(u32, );
impl DV for New { fn of(v: &Value) -> Self { let _ = v; New(DV::of(&v[0]), ) } fn tree(&self) -> Value { let New(x0) = self; Value::Array(vec![x0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(transparent)]
pub struct NewN(u32, );
impl DV for NewN { fn of(v: &Value) -> Self { let _ = v; NewN(DV::of(&v[0]), ) } fn tree(&self) -> Value { let NewN(x0) = self; Value::Array(vec![x0.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct NewStr(String, );
impl DV for NewStr { fn of(v: &Value) -> Self { let _ = v; NewStr(DV::of(&v[0]), ) } fn tree(&self) -> Value { let NewStr(x0) = self; Value::Array(vec![x0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(transparent)]
pub struct NewStrN(String, );
impl DV for NewStrN { fn of(v: &Value) -> Self { let _ = v; NewStrN(DV::of(&v[0]), ) } fn tree(&self) -> Value { let NewStrN(x0) = self; Value::Array(vec![x0.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Deep(New, );
impl DV for Deep { fn of(v: &Value) -> Self { let _ = v; Deep(DV::of(&v[0]), ) } fn tree(&self) -> Value { let Deep(x0) = self; Value::Array(vec![x0.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(transparent)]
pub struct DeepN(NewN, );
impl DV for DeepN { fn of(v: &Value) -> Self { let _ = v; DeepN(DV::of(&v[0]), ) } fn tree(&self) -> Value { let DeepN(x0) = self; Value::Array(vec![x0.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Pair(u8, String, );
impl DV for Pair { fn of(v: &Value) -> Self { let _ = v; Pair(DV::of(&v[0]), DV::of(&v[1]), ) } fn tree(&self) -> Value { let Pair(x0, x1) = self; Value::Array(vec![x0.tree(), x1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(transparent)]
pub struct PairN((u8, String, ));
impl DV for PairN { fn of(v: &Value) -> Self { let _ = v; PairN((DV::of(&v[0]),DV::of(&v[1]),)) } fn tree(&self) -> Value { let PairN((x0, x1,)) = self; Value::Array(vec![x0.tree(), x1.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Tri(Option<u16>, Unit, Vec<i32>, );
impl DV for Tri { fn of(v: &Value) -> Self { let _ = v; Tri(DV::of(&v[0]), DV::of(&v[1]), DV::of(&v[2]), ) } fn tree(&self) -> Value { let Tri(x0, x1, x2) = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(transparent)]
pub struct TriN((Option<u16>, UnitN, Vec<i32>, ));
impl DV for TriN { fn of(v: &Value) -> Self { let _ = v; TriN((DV::of(&v[0]),DV::of(&v[1]),DV::of(&v[2]),)) } fn tree(&self) -> Value { let TriN((x0, x1, x2,)) = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Rec { pub a: u8, pub b: String, pub c: Option<u32>, }
impl DV for Rec { fn of(v: &Value) -> Self { let _ = v; Rec { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), } } fn tree(&self) -> Value { let Rec { a: x0, b: x1, c: x2 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct RecN { pub a: u8, pub b: String, pub c: Option<u32>, }
impl DV for RecN { fn of(v: &Value) -> Self { let _ = v; RecN { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), } } fn tree(&self) -> Value { let RecN { a: x0, b: x1, c: x2 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Nest { pub r: Rec, pub v: Vec<Rec>, pub m: BTreeMap<String, Pair>, pub t: (u8,Unit,bool,), }
impl DV for Nest { fn of(v: &Value) -> Self { let _ = v; Nest { r: DV::of(&v[0]), v: DV::of(&v[1]), m: DV::of(&v[2]), t: DV::of(&v[3]), } } fn tree(&self) -> Value { let Nest { r: x0, v: x1, m: x2, t: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct NestN { pub r: RecN, pub v: Vec<RecN>, pub m: BTreeMap<String, PairN>, pub t: (u8,UnitN,bool,), }
impl DV for NestN { fn of(v: &Value) -> Self { let _ = v; NestN { r: DV::of(&v[0]), v: DV::of(&v[1]), m: DV::of(&v[2]), t: DV::of(&v[3]), } } fn tree(&self) -> Value { let NestN { r: x0, v: x1, m: x2, t: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Wide { pub field_0: u8, pub field_1: i8, pub field_2: u16, pub field_3: i16, pub field_4: u32, pub field_5: i32, pub field_6: u64, pub field_7: i64, pub field_8: bool, pub field_9: char, pub field_10: String, pub field_11: (), pub field_12: f32, pub field_13: f64, pub field_14: Option<bool>, pub field_15: Vec<u8>, }
impl DV for Wide { fn of(v: &Value) -> Self { let _ = v; Wide { field_0: DV::of(&v[0]), field_1: DV::of(&v[1]), field_2: DV::of(&v[2]), field_3: DV::of(&v[3]), field_4: DV::of(&v[4]), field_5: DV::of(&v[5]), field_6: DV::of(&v[6]), field_7: DV::of(&v[7]), field_8: DV::of(&v[8]), field_9: DV::of(&v[9]), field_10: DV::of(&v[10]), field_11: DV::of(&v[11]), field_12: DV::of(&v[12]), field_13: DV::of(&v[13]), field_14: DV::of(&v[14]), field_15: DV::of(&v[15]), } } fn tree(&self) -> Value { let Wide { field_0: x0, field_1: x1, field_2: x2, field_3: x3, field_4: x4, field_5: x5, field_6: x6, field_7: x7, field_8: x8, field_9: x9, field_10: x10, field_11: x11, field_12: x12, field_13: x13, field_14: x14, field_15: x15 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree(), x4.tree(), x5.tree(), x6.tree(), x7.tree(), x8.tree(), x9.tree(), x10.tree(), x11.tree(), x12.tree(), x13.tree(), x14.tree(), x15.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct WideN { pub field_0: u8, pub field_1: i8, pub field_2: u16, pub field_3: i16, pub field_4: u32, pub field_5: i32, pub field_6: u64, pub field_7: i64, pub field_8: bool, pub field_9: char, pub field_10: String, pub field_11: (), pub field_12: f32, pub field_13: f64, pub field_14: Option<bool>, pub field_15: Vec<u8>, }
impl DV for WideN { fn of(v: &Value) -> Self { let _ = v; WideN { field_0: DV::of(&v[0]), field_1: DV::of(&v[1]), field_2: DV::of(&v[2]), field_3: DV::of(&v[3]), field_4: DV::of(&v[4]), field_5: DV::of(&v[5]), field_6: DV::of(&v[6]), field_7: DV::of(&v[7]), field_8: DV::of(&v[8]), field_9: DV::of(&v[9]), field_10: DV::of(&v[10]), field_11: DV::of(&v[11]), field_12: DV::of(&v[12]), field_13: DV::of(&v[13]), field_14: DV::of(&v[14]), field_15: DV::of(&v[15]), } } fn tree(&self) -> Value { let WideN { field_0: x0, field_1: x1, field_2: x2, field_3: x3, field_4: x4, field_5: x5, field_6: x6, field_7: x7, field_8: x8, field_9: x9, field_10: x10, field_11: x11, field_12: x12, field_13: x13, field_14: x14, field_15: x15 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree(), x4.tree(), x5.tree(), x6.tree(), x7.tree(), x8.tree(), x9.tree(), x10.tree(), x11.tree(), x12.tree(), x13.tree(), x14.tree(), x15.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(rename_all = "camelCase")]
pub struct Ren { pub first_name: String, #[serde(rename = "other")] pub second: u32, #[serde(rename = "lasté")] pub third: bool, }
impl DV for Ren { fn of(v: &Value) -> Self { let _ = v; Ren { first_name: DV::of(&v[0]), second: DV::of(&v[1]), third: DV::of(&v[2]), } } fn tree(&self) -> Value { let Ren { first_name: x0, second: x1, third: x2 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "camelCase")]
pub struct RenN { pub first_name: String, #[musli(name = "other")] pub second: u32, #[musli(name = "lasté")] pub third: bool, }
impl DV for RenN { fn of(v: &Value) -> Self { let _ = v; RenN { first_name: DV::of(&v[0]), second: DV::of(&v[1]), third: DV::of(&v[2]), } } fn tree(&self) -> Value { let RenN { first_name: x0, second: x1, third: x2 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Skip { pub a: u8, #[serde(skip_serializing_if = "Option::is_none")] #[serde(default)] pub b: Option<String>, pub c: u16, #[serde(skip_serializing_if = "Option::is_none")] pub d: Option<u8>, }
impl DV for Skip { fn of(v: &Value) -> Self { let _ = v; Skip { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), d: DV::of(&v[3]), } } fn tree(&self) -> Value { let Skip { a: x0, b: x1, c: x2, d: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct SkipN { pub a: u8, #[musli(default, skip_encoding_if = Option::is_none)] pub b: Option<String>, pub c: u16, #[musli(default, skip_encoding_if = Option::is_none)] pub d: Option<u8>, }
impl DV for SkipN { fn of(v: &Value) -> Self { let _ = v; SkipN { a: DV::of(&v[0]), b: DV::of(&v[1]), c: DV::of(&v[2]), d: DV::of(&v[3]), } } fn tree(&self) -> Value { let SkipN { a: x0, b: x1, c: x2, d: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Bytes { pub n: u8, pub b: Blob, pub s: Vec<Blob>, }
impl DV for Bytes { fn of(v: &Value) -> Self { let _ = v; Bytes { n: DV::of(&v[0]), b: DV::of(&v[1]), s: DV::of(&v[2]), } } fn tree(&self) -> Value { let Bytes { n: x0, b: x1, s: x2 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct BytesN { pub n: u8, pub b: Blob, pub s: Vec<Blob>, }
impl DV for BytesN { fn of(v: &Value) -> Self { let _ = v; BytesN { n: DV::of(&v[0]), b: DV::of(&v[1]), s: DV::of(&v[2]), } } fn tree(&self) -> Value { let BytesN { n: x0, b: x1, s: x2 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct List { pub value: u16, pub next: Option<Box<List>>, }
impl DV for List { fn of(v: &Value) -> Self { let _ = v; List { value: DV::of(&v[0]), next: DV::of(&v[1]), } } fn tree(&self) -> Value { let List { value: x0, next: x1 } = self; Value::Array(vec![x0.tree(), x1.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct ListN { pub value: u16, pub next: Option<Box<ListN>>, }
impl DV for ListN { fn of(v: &Value) -> Self { let _ = v; ListN { value: DV::of(&v[0]), next: DV::of(&v[1]), } } fn tree(&self) -> Value { let ListN { value: x0, next: x1 } = self; Value::Array(vec![x0.tree(), x1.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    One,
    Two,
    #[serde(rename = "three")] Three,
}
impl DV for Kind { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => Kind::One, 1 => Kind::Two, 2 => Kind::Three, _ => panic!() } } fn tree(&self) -> Value { match self { Kind::One => json!([0, Value::Array(vec![])]), Kind::Two => json!([1, Value::Array(vec![])]), Kind::Three => json!([2, Value::Array(vec![])]) } } }
#[derive(Encode, Decode, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
#[musli(name_all = "name")]
pub enum KindN {
    #[musli(transparent)] #[musli(name = "One")] One(()),
    #[musli(transparent)] #[musli(name = "Two")] Two(()),
    #[musli(transparent)] #[musli(name = "three")] Three(()),
}
impl DV for KindN { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => KindN::One(()), 1 => KindN::Two(()), 2 => KindN::Three(()), _ => panic!() } } fn tree(&self) -> Value { match self { KindN::One(()) => json!([0, Value::Array(vec![])]), KindN::Two(()) => json!([1, Value::Array(vec![])]), KindN::Three(()) => json!([2, Value::Array(vec![])]) } } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Any {
    U,
    N(u32, ),
    T(u8, String, ),
    S { x: i16, y: Option<String>, },
    E { },
    V(Vec<Kind>, ),
    O(Option<u8>, ),
    R(Rec, ),
}
impl DV for Any { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => Any::U, 1 => Any::N(DV::of(&v[1][0]), ), 2 => Any::T(DV::of(&v[1][0]), DV::of(&v[1][1]), ), 3 => Any::S { x: DV::of(&v[1][0]), y: DV::of(&v[1][1]), }, 4 => Any::E { }, 5 => Any::V(DV::of(&v[1][0]), ), 6 => Any::O(DV::of(&v[1][0]), ), 7 => Any::R(DV::of(&v[1][0]), ), _ => panic!() } } fn tree(&self) -> Value { match self { Any::U => json!([0, Value::Array(vec![])]), Any::N(x0) => json!([1, Value::Array(vec![x0.tree()])]), Any::T(x0, x1) => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]), Any::S { x: x0, y: x1 } => json!([3, Value::Array(vec![x0.tree(), x1.tree()])]), Any::E {  } => json!([4, Value::Array(vec![])]), Any::V(x0) => json!([5, Value::Array(vec![x0.tree()])]), Any::O(x0) => json!([6, Value::Array(vec![x0.tree()])]), Any::R(x0) => json!([7, Value::Array(vec![x0.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub enum AnyN {
    #[musli(transparent)] #[musli(name = "U")] U(()),
    #[musli(transparent)] #[musli(name = "N")] N(u32, ),
    #[musli(transparent)] #[musli(name = "T")] T((u8, String, )),
    #[musli(name_all = "name")] #[musli(name = "S")] S { x: i16, y: Option<String>, },
    #[musli(name_all = "name")] #[musli(name = "E")] E { },
    #[musli(transparent)] #[musli(name = "V")] V(Vec<KindN>, ),
    #[musli(transparent)] #[musli(name = "O")] O(Option<u8>, ),
    #[musli(transparent)] #[musli(name = "R")] R(RecN, ),
}
impl DV for AnyN { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => AnyN::U(()), 1 => AnyN::N(DV::of(&v[1][0]), ), 2 => AnyN::T((DV::of(&v[1][0]),DV::of(&v[1][1]),)), 3 => AnyN::S { x: DV::of(&v[1][0]), y: DV::of(&v[1][1]), }, 4 => AnyN::E { }, 5 => AnyN::V(DV::of(&v[1][0]), ), 6 => AnyN::O(DV::of(&v[1][0]), ), 7 => AnyN::R(DV::of(&v[1][0]), ), _ => panic!() } } fn tree(&self) -> Value { match self { AnyN::U(()) => json!([0, Value::Array(vec![])]), AnyN::N(x0) => json!([1, Value::Array(vec![x0.tree()])]), AnyN::T((x0, x1,)) => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]), AnyN::S { x: x0, y: x1 } => json!([3, Value::Array(vec![x0.tree(), x1.tree()])]), AnyN::E {  } => json!([4, Value::Array(vec![])]), AnyN::V(x0) => json!([5, Value::Array(vec![x0.tree()])]), AnyN::O(x0) => json!([6, Value::Array(vec![x0.tree()])]), AnyN::R(x0) => json!([7, Value::Array(vec![x0.tree()])]) } } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Holds { pub k: Kind, pub a: Any, pub v: Vec<Any>, pub m: BTreeMap<u16, Any>, }
impl DV for Holds { fn of(v: &Value) -> Self { let _ = v; Holds { k: DV::of(&v[0]), a: DV::of(&v[1]), v: DV::of(&v[2]), m: DV::of(&v[3]), } } fn tree(&self) -> Value { let Holds { k: x0, a: x1, v: x2, m: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct HoldsN { pub k: KindN, pub a: AnyN, pub v: Vec<AnyN>, pub m: BTreeMap<u16, AnyN>, }
impl DV for HoldsN { fn of(v: &Value) -> Self { let _ = v; HoldsN { k: DV::of(&v[0]), a: DV::of(&v[1]), v: DV::of(&v[2]), m: DV::of(&v[3]), } } fn tree(&self) -> Value { let HoldsN { k: x0, a: x1, v: x2, m: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Tree {
    Leaf(i32, ),
    Node(Box<Tree>, Box<Tree>, ),
}
impl DV for Tree { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => Tree::Leaf(DV::of(&v[1][0]), ), 1 => Tree::Node(DV::of(&v[1][0]), DV::of(&v[1][1]), ), _ => panic!() } } fn tree(&self) -> Value { match self { Tree::Leaf(x0) => json!([0, Value::Array(vec![x0.tree()])]), Tree::Node(x0, x1) => json!([1, Value::Array(vec![x0.tree(), x1.tree()])]) } } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub enum TreeN {
    #[musli(transparent)] #[musli(name = "Leaf")] Leaf(i32, ),
    #[musli(transparent)] #[musli(name = "Node")] Node((Box<TreeN>, Box<TreeN>, )),
}
impl DV for TreeN { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => TreeN::Leaf(DV::of(&v[1][0]), ), 1 => TreeN::Node((DV::of(&v[1][0]),DV::of(&v[1][1]),)), _ => panic!() } } fn tree(&self) -> Value { match self { TreeN::Leaf(x0) => json!([0, Value::Array(vec![x0.tree()])]), TreeN::Node((x0, x1,)) => json!([1, Value::Array(vec![x0.tree(), x1.tree()])]) } } }
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(tag = "type")]
pub enum Internal {
    U,
    N(Rec, ),
    S { x: i16, y: Option<String>, z: Vec<u8>, },
}
impl DV for Internal { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => Internal::U, 1 => Internal::N(DV::of(&v[1][0]), ), 2 => Internal::S { x: DV::of(&v[1][0]), y: DV::of(&v[1][1]), z: DV::of(&v[1][2]), }, _ => panic!() } } fn tree(&self) -> Value { match self { Internal::U => json!([0, Value::Array(vec![])]), Internal::N(x0) => json!([1, Value::Array(vec![x0.tree()])]), Internal::S { x: x0, y: x1, z: x2 } => json!([2, Value::Array(vec![x0.tree(), x1.tree(), x2.tree()])]) } } }
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(tag = "t")]
#[serde(content = "c")]
pub enum Adjacent {
    U,
    N(u32, ),
    T(u8, String, ),
    S { x: i16, y: Option<String>, },
}
impl DV for Adjacent { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => Adjacent::U, 1 => Adjacent::N(DV::of(&v[1][0]), ), 2 => Adjacent::T(DV::of(&v[1][0]), DV::of(&v[1][1]), ), 3 => Adjacent::S { x: DV::of(&v[1][0]), y: DV::of(&v[1][1]), }, _ => panic!() } } fn tree(&self) -> Value { match self { Adjacent::U => json!([0, Value::Array(vec![])]), Adjacent::N(x0) => json!([1, Value::Array(vec![x0.tree()])]), Adjacent::T(x0, x1) => json!([2, Value::Array(vec![x0.tree(), x1.tree()])]), Adjacent::S { x: x0, y: x1 } => json!([3, Value::Array(vec![x0.tree(), x1.tree()])]) } } }
#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(untagged)]
pub enum Untagged {
    S { x: i16, y: String, },
    T(bool, String, ),
    B(bool, ),
    Q(String, ),
    U,
}
impl DV for Untagged { fn of(v: &Value) -> Self { let _ = v; match v[0].as_u64().unwrap() { 0 => Untagged::S { x: DV::of(&v[1][0]), y: DV::of(&v[1][1]), }, 1 => Untagged::T(DV::of(&v[1][0]), DV::of(&v[1][1]), ), 2 => Untagged::B(DV::of(&v[1][0]), ), 3 => Untagged::Q(DV::of(&v[1][0]), ), 4 => Untagged::U, _ => panic!() } } fn tree(&self) -> Value { match self { Untagged::S { x: x0, y: x1 } => json!([0, Value::Array(vec![x0.tree(), x1.tree()])]), Untagged::T(x0, x1) => json!([1, Value::Array(vec![x0.tree(), x1.tree()])]), Untagged::B(x0) => json!([2, Value::Array(vec![x0.tree()])]), Untagged::Q(x0) => json!([3, Value::Array(vec![x0.tree()])]), Untagged::U => json!([4, Value::Array(vec![])]) } } }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Mixed { pub i: Internal, pub l: Vec<Internal>, pub n: u8, }
impl DV for Mixed { fn of(v: &Value) -> Self { let _ = v; Mixed { i: DV::of(&v[0]), l: DV::of(&v[1]), n: DV::of(&v[2]), } } fn tree(&self) -> Value { let Mixed { i: x0, l: x1, n: x2 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct Person { pub name: String, #[musli(with = musli::serde)] pub address: Rec, #[musli(with = musli::serde)] pub kind: Any, pub age: u8, }
impl DV for Person { fn of(v: &Value) -> Self { let _ = v; Person { name: DV::of(&v[0]), address: DV::of(&v[1]), kind: DV::of(&v[2]), age: DV::of(&v[3]), } } fn tree(&self) -> Value { let Person { name: x0, address: x1, kind: x2, age: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[derive(Encode, Decode, Debug, Clone)]
#[musli(name_all = "name")]
pub struct PersonN { pub name: String, pub address: RecN, pub kind: AnyN, pub age: u8, }
impl DV for PersonN { fn of(v: &Value) -> Self { let _ = v; PersonN { name: DV::of(&v[0]), address: DV::of(&v[1]), kind: DV::of(&v[2]), age: DV::of(&v[3]), } } fn tree(&self) -> Value { let PersonN { name: x0, address: x1, kind: x2, age: x3 } = self; Value::Array(vec![x0.tree(), x1.tree(), x2.tree(), x3.tree()]) } }
#[macro_export]
macro_rules! with_bridged { ($n:expr, $T:ident => $body:expr) => { match $n {
    "u8" => { type $T = W<u8>; $body }
    "u16" => { type $T = W<u16>; $body }
    "u32" => { type $T = W<u32>; $body }
    "u64" => { type $T = W<u64>; $body }
    "u128" => { type $T = W<u128>; $body }
    "i8" => { type $T = W<i8>; $body }
    "i16" => { type $T = W<i16>; $body }
    "i32" => { type $T = W<i32>; $body }
    "i64" => { type $T = W<i64>; $body }
    "i128" => { type $T = W<i128>; $body }
    "f32" => { type $T = W<f32>; $body }
    "f64" => { type $T = W<f64>; $body }
    "us" => { type $T = W<usize>; $body }
    "is" => { type $T = W<isize>; $body }
    "bool" => { type $T = W<bool>; $body }
    "char" => { type $T = W<char>; $body }
    "str" => { type $T = W<String>; $body }
    "unit" => { type $T = W<()>; $body }
    "bytes" => { type $T = W<Blob>; $body }
    "o_u8" => { type $T = W<Option<u8>>; $body }
    "o_str" => { type $T = W<Option<String>>; $body }
    "o_o" => { type $T = W<Option<Option<u16>>>; $body }
    "o_unit" => { type $T = W<Option<()>>; $body }
    "v_o" => { type $T = W<Vec<Option<u8>>>; $body }
    "v_u8" => { type $T = W<Vec<u8>>; $body }
    "v_u32" => { type $T = W<Vec<u32>>; $body }
    "v_str" => { type $T = W<Vec<String>>; $body }
    "v_unit" => { type $T = W<Vec<()>>; $body }
    "v_v" => { type $T = W<Vec<Vec<u16>>>; $body }
    "v_bytes" => { type $T = W<Vec<Blob>>; $body }
    "set" => { type $T = W<BTreeSet<u32>>; $body }
    "deque" => { type $T = W<VecDeque<i64>>; $body }
    "boxsl" => { type $T = W<Box<[u16]>>; $body }
    "tup1" => { type $T = W<(u8,)>; $body }
    "tup2" => { type $T = W<(u8,String,)>; $body }
    "tup4" => { type $T = W<(u16,bool,i64,char,)>; $body }
    "tup8" => { type $T = W<(u8,String,f64,char,i8,(),Option<bool>,u64,)>; $body }
    "arr0" => { type $T = W<[u8; 0]>; $body }
    "arr3" => { type $T = W<[u32; 3]>; $body }
    "arr_s" => { type $T = W<[String; 2]>; $body }
    "m_u32" => { type $T = W<BTreeMap<u32, String>>; $body }
    "m_i8" => { type $T = W<BTreeMap<i8, Option<u8>>>; $body }
    "m_str" => { type $T = W<BTreeMap<String, Vec<u8>>>; $body }
    "m_m" => { type $T = W<BTreeMap<String, BTreeMap<u64, bool>>>; $body }
    "m_bool" => { type $T = W<BTreeMap<bool, u8>>; $body }
    "m_tup" => { type $T = W<BTreeMap<(u8,u8,), String>>; $body }
    "hm" => { type $T = W<HashMap<String, u32>>; $body }
    "v_m" => { type $T = W<Vec<BTreeMap<u8, (u8,i16,)>>>; $body }
    "ip4" => { type $T = W<Ipv4Addr>; $body }
    "ip6" => { type $T = W<Ipv6Addr>; $body }
    "ip" => { type $T = W<IpAddr>; $body }
    "sock4" => { type $T = W<SocketAddrV4>; $body }
    "sock6" => { type $T = W<SocketAddrV6>; $body }
    "sock" => { type $T = W<SocketAddr>; $body }
    "path" => { type $T = W<PathBuf>; $body }
    "cstr" => { type $T = W<CString>; $body }
    "dur" => { type $T = W<Duration>; $body }
    "range" => { type $T = W<Range<u16>>; $body }
    "rangei" => { type $T = W<RangeInclusive<i32>>; $body }
    "rangef" => { type $T = W<RangeFrom<u8>>; $body }
    "ranget" => { type $T = W<RangeTo<u64>>; $body }
    "res" => { type $T = W<Result<u32, String>>; $body }
    "nz" => { type $T = W<NonZeroU16>; $body }
    "wrap" => { type $T = W<Wrapping<u32>>; $body }
    "box" => { type $T = W<Box<String>>; $body }
    "ph" => { type $T = W<PhantomData<u8>>; $body }
    "cow" => { type $T = W<Cow<'static, str>>; $body }
    "refstr" => { type $T = W<&'static str>; $body }
    "jv" => { type $T = W<Value>; $body }
    "v_jv" => { type $T = W<Vec<Value>>; $body }
    "lazy" => { type $T = W<Lazy>; $body }
    "lazymap" => { type $T = W<LazyMap>; $body }
    "anyn" => { type $T = W<AnyNum>; $body }
    "v_anyn" => { type $T = W<Vec<AnyNum>>; $body }
    "boom" => { type $T = W<Boom>; $body }
    "v_boom" => { type $T = W<Vec<Boom>>; $body }
    "t_boom" => { type $T = W<(u8,Boom,u8,)>; $body }
    "Unit" => { type $T = W<Unit>; $body }
    "Empty" => { type $T = W<Empty>; $body }
    "New" => { type $T = W<New>; $body }
    "NewStr" => { type $T = W<NewStr>; $body }
    "Deep" => { type $T = W<Deep>; $body }
    "Pair" => { type $T = W<Pair>; $body }
    "Tri" => { type $T = W<Tri>; $body }
    "Rec" => { type $T = W<Rec>; $body }
    "Nest" => { type $T = W<Nest>; $body }
    "Wide" => { type $T = W<Wide>; $body }
    "Ren" => { type $T = W<Ren>; $body }
    "Skip" => { type $T = W<Skip>; $body }
    "Bytes" => { type $T = W<Bytes>; $body }
    "List" => { type $T = W<List>; $body }
    "Kind" => { type $T = W<Kind>; $body }
    "Any" => { type $T = W<Any>; $body }
    "Holds" => { type $T = W<Holds>; $body }
    "Tree" => { type $T = W<Tree>; $body }
    "Internal" => { type $T = W<Internal>; $body }
    "Adjacent" => { type $T = W<Adjacent>; $body }
    "Untagged" => { type $T = W<Untagged>; $body }
    "Mixed" => { type $T = W<Mixed>; $body }
    "Person" => { type $T = Person; $body }
    "v_Unit" => { type $T = W<Vec<Unit>>; $body }
    "v_New" => { type $T = W<Vec<New>>; $body }
    "v_Pair" => { type $T = W<Vec<Pair>>; $body }
    "v_Rec" => { type $T = W<Vec<Rec>>; $body }
    "v_Any" => { type $T = W<Vec<Any>>; $body }
    "v_Kind" => { type $T = W<Vec<Kind>>; $body }
    "v_Internal" => { type $T = W<Vec<Internal>>; $body }
    "v_Adjacent" => { type $T = W<Vec<Adjacent>>; $body }
    "v_Untagged" => { type $T = W<Vec<Untagged>>; $body }
    "o_Any" => { type $T = W<Option<Any>>; $body }
    "o_Unit" => { type $T = W<Option<Unit>>; $body }
    "m_Kind" => { type $T = W<BTreeMap<Kind, u8>>; $body }
    other => panic!("unknown type {other}"),
} } }
#[macro_export]
macro_rules! with_twin { ($n:expr, $T:ident => $body:expr, $none:expr) => { match $n {
    "u8" => { type $T = u8; $body }
    "u16" => { type $T = u16; $body }
    "u32" => { type $T = u32; $body }
    "u64" => { type $T = u64; $body }
    "u128" => { type $T = u128; $body }
    "i8" => { type $T = i8; $body }
    "i16" => { type $T = i16; $body }
    "i32" => { type $T = i32; $body }
    "i64" => { type $T = i64; $body }
    "i128" => { type $T = i128; $body }
    "f32" => { type $T = f32; $body }
    "f64" => { type $T = f64; $body }
    "us" => { type $T = u64; $body }
    "is" => { type $T = i64; $body }
    "bool" => { type $T = bool; $body }
    "char" => { type $T = char; $body }
    "str" => { type $T = String; $body }
    "unit" => { type $T = (); $body }
    "bytes" => { type $T = Blob; $body }
    "o_u8" => { type $T = Option<u8>; $body }
    "o_str" => { type $T = Option<String>; $body }
    "o_o" => { type $T = Option<Option<u16>>; $body }
    "o_unit" => { type $T = Option<()>; $body }
    "v_o" => { type $T = Vec<Option<u8>>; $body }
    "v_u8" => { type $T = Vec<u8>; $body }
    "v_u32" => { type $T = Vec<u32>; $body }
    "v_str" => { type $T = Vec<String>; $body }
    "v_unit" => { type $T = Vec<()>; $body }
    "v_v" => { type $T = Vec<Vec<u16>>; $body }
    "v_bytes" => { type $T = Vec<Blob>; $body }
    "set" => { type $T = BTreeSet<u32>; $body }
    "deque" => { type $T = VecDeque<i64>; $body }
    "tup1" => { type $T = (u8,); $body }
    "tup2" => { type $T = (u8,String,); $body }
    "tup4" => { type $T = (u16,bool,i64,char,); $body }
    "tup8" => { type $T = (u8,String,f64,char,i8,(),Option<bool>,u64,); $body }
    "arr0" => { type $T = [u8; 0]; $body }
    "arr3" => { type $T = [u32; 3]; $body }
    "arr_s" => { type $T = [String; 2]; $body }
    "m_u32" => { type $T = BTreeMap<u32, String>; $body }
    "m_i8" => { type $T = BTreeMap<i8, Option<u8>>; $body }
    "m_str" => { type $T = BTreeMap<String, Vec<u8>>; $body }
    "m_m" => { type $T = BTreeMap<String, BTreeMap<u64, bool>>; $body }
    "m_bool" => { type $T = BTreeMap<bool, u8>; $body }
    "m_tup" => { type $T = BTreeMap<(u8,u8,), String>; $body }
    "hm" => { type $T = HashMap<String, u32>; $body }
    "v_m" => { type $T = Vec<BTreeMap<u8, (u8,i16,)>>; $body }
    "nz" => { type $T = NonZeroU16; $body }
    "wrap" => { type $T = Wrapping<u32>; $body }
    "box" => { type $T = Box<String>; $body }
    "cow" => { type $T = Cow<'static, str>; $body }
    "refstr" => { type $T = &'static str; $body }
    "Unit" => { type $T = UnitN; $body }
    "Empty" => { type $T = EmptyN; $body }
    "New" => { type $T = NewN; $body }
    "NewStr" => { type $T = NewStrN; $body }
    "Deep" => { type $T = DeepN; $body }
    "Pair" => { type $T = PairN; $body }
    "Tri" => { type $T = TriN; $body }
    "Rec" => { type $T = RecN; $body }
    "Nest" => { type $T = NestN; $body }
    "Wide" => { type $T = WideN; $body }
    "Ren" => { type $T = RenN; $body }
    "Skip" => { type $T = SkipN; $body }
    "Bytes" => { type $T = BytesN; $body }
    "List" => { type $T = ListN; $body }
    "Kind" => { type $T = KindN; $body }
    "Any" => { type $T = AnyN; $body }
    "Holds" => { type $T = HoldsN; $body }
    "Tree" => { type $T = TreeN; $body }
    "Person" => { type $T = PersonN; $body }
    "v_Unit" => { type $T = Vec<UnitN>; $body }
    "v_New" => { type $T = Vec<NewN>; $body }
    "v_Pair" => { type $T = Vec<PairN>; $body }
    "v_Rec" => { type $T = Vec<RecN>; $body }
    "v_Any" => { type $T = Vec<AnyN>; $body }
    "v_Kind" => { type $T = Vec<KindN>; $body }
    "o_Any" => { type $T = Option<AnyN>; $body }
    "o_Unit" => { type $T = Option<UnitN>; $body }
    "m_Kind" => { type $T = BTreeMap<KindN, u8>; $body }
    _ => $none,
} } }
