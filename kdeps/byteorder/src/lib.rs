//! Kani build only: the part of `byteorder` that reads integers from byte slices and appends
//! them to byte vectors, with the documented contract (big/little endian, an error when the
//! input is too short) and without the std::io::Error machinery.
#[derive(Debug, Clone, Copy)]
pub struct ShortRead;
impl std::fmt::Display for ShortRead {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("failed to fill whole buffer")
    }
}
impl std::error::Error for ShortRead {}

pub trait ByteOrder {
    const BIG: bool;
    fn read_u16(b: &[u8]) -> u16 { int16::<Self>(b) }
    fn read_u32(b: &[u8]) -> u32 { int32::<Self>(b) }
    fn read_u64(b: &[u8]) -> u64 { int64::<Self>(b) }
    fn read_u128(b: &[u8]) -> u128 { int128::<Self>(b) }
    fn write_u16(b: &mut [u8], n: u16) { b[..2].copy_from_slice(&if Self::BIG { n.to_be_bytes() } else { n.to_le_bytes() }) }
    fn write_u32(b: &mut [u8], n: u32) { b[..4].copy_from_slice(&if Self::BIG { n.to_be_bytes() } else { n.to_le_bytes() }) }
    fn write_u64(b: &mut [u8], n: u64) { b[..8].copy_from_slice(&if Self::BIG { n.to_be_bytes() } else { n.to_le_bytes() }) }
    fn write_u128(b: &mut [u8], n: u128) { b[..16].copy_from_slice(&if Self::BIG { n.to_be_bytes() } else { n.to_le_bytes() }) }
}
pub enum BigEndian {}
pub enum LittleEndian {}
pub type BE = BigEndian;
pub type LE = LittleEndian;
pub type NetworkEndian = BigEndian;
impl ByteOrder for BigEndian { const BIG: bool = true; }
impl ByteOrder for LittleEndian { const BIG: bool = false; }

macro_rules! rd {
    ($name:ident, $t:ty, $n:expr) => {
        fn $name<B: ByteOrder + ?Sized>(b: &[u8]) -> $t {
            let mut a = [0u8; $n];
            a.copy_from_slice(&b[..$n]);
            if B::BIG { <$t>::from_be_bytes(a) } else { <$t>::from_le_bytes(a) }
        }
    };
}
rd!(int16, u16, 2);
rd!(int32, u32, 4);
rd!(int64, u64, 8);
rd!(int128, u128, 16);

pub trait ReadBytesExt {
    fn take_n(&mut self, n: usize) -> Result<&[u8], ShortRead>;
    fn read_u8(&mut self) -> Result<u8, ShortRead> { Ok(self.take_n(1)?[0]) }
    fn read_u16<B: ByteOrder>(&mut self) -> Result<u16, ShortRead> { Ok(int16::<B>(self.take_n(2)?)) }
    fn read_u32<B: ByteOrder>(&mut self) -> Result<u32, ShortRead> { Ok(int32::<B>(self.take_n(4)?)) }
    fn read_u64<B: ByteOrder>(&mut self) -> Result<u64, ShortRead> { Ok(int64::<B>(self.take_n(8)?)) }
    fn read_u128<B: ByteOrder>(&mut self) -> Result<u128, ShortRead> { Ok(int128::<B>(self.take_n(16)?)) }
}
impl<'a> ReadBytesExt for &'a [u8] {
    fn take_n(&mut self, n: usize) -> Result<&[u8], ShortRead> {
        if self.len() < n {
            return Err(ShortRead);
        }
        let (a, b) = self.split_at(n);
        *self = b;
        Ok(a)
    }
}
pub trait WriteBytesExt {
    fn put(&mut self, b: &[u8]);
    fn write_u8(&mut self, n: u8) -> Result<(), ShortRead> { self.put(&[n]); Ok(()) }
    fn write_u16<B: ByteOrder>(&mut self, n: u16) -> Result<(), ShortRead> {
        self.put(&if B::BIG { n.to_be_bytes() } else { n.to_le_bytes() }); Ok(())
    }
    fn write_u32<B: ByteOrder>(&mut self, n: u32) -> Result<(), ShortRead> {
        self.put(&if B::BIG { n.to_be_bytes() } else { n.to_le_bytes() }); Ok(())
    }
    fn write_u64<B: ByteOrder>(&mut self, n: u64) -> Result<(), ShortRead> {
        self.put(&if B::BIG { n.to_be_bytes() } else { n.to_le_bytes() }); Ok(())
    }
    fn write_u128<B: ByteOrder>(&mut self, n: u128) -> Result<(), ShortRead> {
        self.put(&if B::BIG { n.to_be_bytes() } else { n.to_le_bytes() }); Ok(())
    }
}
impl WriteBytesExt for Vec<u8> {
    fn put(&mut self, b: &[u8]) { self.extend_from_slice(b) }
}
