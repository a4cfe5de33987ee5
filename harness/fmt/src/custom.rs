//! Functions named by field attributes.
pub fn dflt() -> String { "dflt".into() }
pub fn nine() -> u16 { 9 }
pub fn eleven() -> u8 { 11 }
pub fn is_seven(v: &u16) -> bool { *v == 7 }
pub fn is_eleven(v: &u8) -> bool { *v == 11 }
pub fn big() -> u32 { 65536 }
/// A u32 written as twice as wide a number.
pub mod wide {
    use musli::{Context, Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &u32, e: E) -> Result<(), E::Error> { e.encode_u64(u64::from(*v)) }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u32, D::Error> {
        let cx = d.cx();
        u32::try_from(d.decode_u64()?).map_err(cx.map())
    }
}
/// A string written as the sequence of its characters.
pub mod rev {
    use musli::{Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &String, e: E) -> Result<(), E::Error> { e.encode(v.chars().rev().collect::<Vec<char>>()) }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<String, D::Error> { Ok(d.decode::<Vec<char>>()?.into_iter().rev().collect()) }
}
