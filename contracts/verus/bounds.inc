== text
spec fn le_all(bs: Seq<u32>) -> Seq<u8>
    decreases bs.len(),
{
    if bs.len() == 0 { Seq::empty() } else { le_all(bs.drop_last()) + le4(bs.last()) }
}
