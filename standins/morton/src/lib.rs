//! Stand-in for the `morton` git dependency (not fetchable here).
//! Contract: bit i of `x` goes to bit 2i of the code, bit i of `y` to bit 2i+1.
#[inline]
fn spread(v: u16) -> u32 {
    let mut v = v as u32;
    v = (v | (v << 8)) & 0x00ff_00ff;
    v = (v | (v << 4)) & 0x0f0f_0f0f;
    v = (v | (v << 2)) & 0x3333_3333;
    v = (v | (v << 1)) & 0x5555_5555;
    v
}
#[inline]
fn squash(v: u32) -> u16 {
    let mut v = v & 0x5555_5555;
    v = (v | (v >> 1)) & 0x3333_3333;
    v = (v | (v >> 2)) & 0x0f0f_0f0f;
    v = (v | (v >> 4)) & 0x00ff_00ff;
    v = (v | (v >> 8)) & 0x0000_ffff;
    v as u16
}
#[inline]
pub fn interleave_morton(x: u16, y: u16) -> u32 {
    spread(x) | (spread(y) << 1)
}
#[inline]
pub fn deinterleave_morton(z: u32) -> (u16, u16) {
    (squash(z), squash(z >> 1))
}
