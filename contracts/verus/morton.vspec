# crate morton, bit by bit (trusted)
== text
// morton: bit i of x is bit 2i of the code, bit i of y is bit 2i+1
spec fn spread(v: u16) -> u32 {
    let a = v as u32;
    let b = (a | (a << 8)) & 0x00ff_00ff;
    let c = (b | (b << 4)) & 0x0f0f_0f0f;
    let d = (c | (c << 2)) & 0x3333_3333;
    (d | (d << 1)) & 0x5555_5555
}
#[verifier::truncate]
spec fn squash(v: u32) -> u16 {
    let a = v & 0x5555_5555;
    let b = (a | (a >> 1)) & 0x3333_3333;
    let c = (b | (b >> 2)) & 0x0f0f_0f0f;
    let d = (c | (c >> 4)) & 0x00ff_00ff;
    ((d | (d >> 8)) & 0x0000_ffff) as u16
}
spec fn tx(c: u32) -> u16 { squash(c) }
spec fn ty(c: u32) -> u16 { squash(c >> 1) }
spec fn z(x: u16, y: u16) -> u32 { spread(x) | (spread(y) << 1) }
#[verifier::external_body]
fn interleave_morton(x: u16, y: u16) -> (r: u32)
    ensures r == z(x, y)
{ unimplemented!() }
#[verifier::external_body]
fn deinterleave_morton(c: u32) -> (r: (u16, u16))
    ensures r == (tx(c), ty(c))
{ unimplemented!() }
/// the two halves of the code are inverse, and a larger box corner has a larger code
proof fn z_inv(c: u32)
    ensures z(tx(c), ty(c)) == c,
{
    assert(({
        let v0 = c & 0x5555_5555;
        let v1 = (v0 | (v0 >> 1)) & 0x3333_3333;
        let v2 = (v1 | (v1 >> 2)) & 0x0f0f_0f0f;
        let v3 = (v2 | (v2 >> 4)) & 0x00ff_00ff;
        let x = ((v3 | (v3 >> 8)) & 0x0000_ffff) as u16;
        let w0 = (c >> 1) & 0x5555_5555;
        let w1 = (w0 | (w0 >> 1)) & 0x3333_3333;
        let w2 = (w1 | (w1 >> 2)) & 0x0f0f_0f0f;
        let w3 = (w2 | (w2 >> 4)) & 0x00ff_00ff;
        let y = ((w3 | (w3 >> 8)) & 0x0000_ffff) as u16;
        let a = x as u32;
        let a1 = (a | (a << 8)) & 0x00ff_00ff;
        let a2 = (a1 | (a1 << 4)) & 0x0f0f_0f0f;
        let a3 = (a2 | (a2 << 2)) & 0x3333_3333;
        let p = (a3 | (a3 << 1)) & 0x5555_5555;
        let b = y as u32;
        let b1 = (b | (b << 8)) & 0x00ff_00ff;
        let b2 = (b1 | (b1 << 4)) & 0x0f0f_0f0f;
        let b3 = (b2 | (b2 << 2)) & 0x3333_3333;
        let q = (b3 | (b3 << 1)) & 0x5555_5555;
        p | (q << 1) == c
    })) by (bit_vector);
}
/// and the other way round
proof fn z_of(x: u16, y: u16)
    ensures tx(z(x, y)) == x, ty(z(x, y)) == y,
{
    assert(({
        let a = x as u32;
        let a1 = (a | (a << 8)) & 0x00ff_00ff;
        let a2 = (a1 | (a1 << 4)) & 0x0f0f_0f0f;
        let a3 = (a2 | (a2 << 2)) & 0x3333_3333;
        let p = (a3 | (a3 << 1)) & 0x5555_5555;
        let b = y as u32;
        let b1 = (b | (b << 8)) & 0x00ff_00ff;
        let b2 = (b1 | (b1 << 4)) & 0x0f0f_0f0f;
        let b3 = (b2 | (b2 << 2)) & 0x3333_3333;
        let q = (b3 | (b3 << 1)) & 0x5555_5555;
        let c = p | (q << 1);
        let v0 = c & 0x5555_5555;
        let v1 = (v0 | (v0 >> 1)) & 0x3333_3333;
        let v2 = (v1 | (v1 >> 2)) & 0x0f0f_0f0f;
        let v3 = (v2 | (v2 >> 4)) & 0x00ff_00ff;
        let w0 = (c >> 1) & 0x5555_5555;
        let w1 = (w0 | (w0 >> 1)) & 0x3333_3333;
        let w2 = (w1 | (w1 >> 2)) & 0x0f0f_0f0f;
        let w3 = (w2 | (w2 >> 4)) & 0x00ff_00ff;
        ((v3 | (v3 >> 8)) & 0x0000_ffff) as u16 == x && ((w3 | (w3 >> 8)) & 0x0000_ffff) as u16 == y
    })) by (bit_vector);
}
