//! Byte strings that serialise as hex in plans and replay files.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
#[derive(Clone, PartialEq, Eq, Default, Hash)]
pub struct Hex(pub Vec<u8>);
pub fn enc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit(u32::from(x >> 4), 16).unwrap());
        s.push(char::from_digit(u32::from(x & 15), 16).unwrap());
    }
    s
}
pub fn dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2)
        .map(|c| Some(((c[0] as char).to_digit(16)? * 16 + (c[1] as char).to_digit(16)?) as u8))
        .collect()
}
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&enc(&self.0))
    }
}
impl Serialize for Hex {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&enc(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        dec(&s).map(Hex).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}
