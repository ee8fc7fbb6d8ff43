/// The infallible edit of growable storage (whose capacity suffices: a failed allocation aborts).
pub fn splice_outer<S: SysexInternal, D: Data<Item = S::Byte>, Rg: RangeBounds>(
    sysex: &mut S,
    data: D,
    range: Rg,
)
    requires
        0 <= from(&range) <= to(&range, old(sysex).bytes().len() as int) <= old(sysex).bytes().len(),
        data.rest().len() <= usize::MAX / 8,
        old(sysex).bytes().len() - (to(&range, old(sysex).bytes().len() as int) - from(&range)) + data.rest().len() <= old(sysex).cap(),
    ensures
        final(sysex).bytes() =~= spliced(old(sysex).bytes(), from(&range), to(&range, old(sysex).bytes().len() as int), data.rest()),
