/// The fallible edit: as above, and on overflow the message is left empty.
pub fn try_splice_outer<S: SysexInternal, D: Data<Item = S::Byte>, Rg: RangeBounds>(
    sysex: &mut S,
    data: D,
    range: Rg,
) -> (result: Result<(), BufferOverflow>)
    requires
        0 <= from(&range) <= to(&range, old(sysex).bytes().len() as int) <= old(sysex).bytes().len(),
        data.rest().len() <= usize::MAX / 8,
    ensures
        final(sysex).cap() == old(sysex).cap(),
        result is Ok ==> final(sysex).bytes() =~= spliced(old(sysex).bytes(), from(&range), to(&range, old(sysex).bytes().len() as int), data.rest()),
        result is Ok <==> old(sysex).bytes().len() - (to(&range, old(sysex).bytes().len() as int) - from(&range)) + data.rest().len() <= old(sysex).cap(),
        result is Err ==> final(sysex).bytes().len() == 0,
