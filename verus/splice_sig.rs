pub fn try_splice_sysex_data<S: SysexInternal, D: Data<Item = S::Byte>, Rg: RangeBounds>(
    sysex: &mut S,
    data_: D,
    range: Rg,
) -> (result: Result<(), BufferOverflow>)
    requires
        0 <= from(&range) <= to(&range, old(sysex).bytes().len() as int) <= old(sysex).bytes().len(),
        data_.rest().len() <= usize::MAX / 8,
    ensures
        final(sysex).cap() == old(sysex).cap(),
        // the edit acts like the same edit of a plain sequence
        result is Ok ==> final(sysex).bytes() =~= spliced(old(sysex).bytes(), from(&range), to(&range, old(sysex).bytes().len() as int), data_.rest()),
        // and succeeds exactly when the result fits
        result is Ok <==> old(sysex).bytes().len() - (to(&range, old(sysex).bytes().len() as int) - from(&range)) + data_.rest().len() <= old(sysex).cap(),
