# bytes of keys and values; the key of the boundaries
== text
/// the bytes of a key or value
trait Bytes {
    spec fn bytes(&self) -> Seq<u8>;
}
impl Bytes for Vec<u8> { spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Bytes for str { spec fn bytes(&self) -> Seq<u8> { self@.map_values(|c: char| c as u8) } }
spec fn bounds_key() -> Seq<u8> { "~BOUNDS"@.map_values(|c: char| c as u8) }
