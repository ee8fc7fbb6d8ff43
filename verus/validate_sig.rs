pub fn validate_sysex_group_statuses<
    IsComplete: Fn(&[u32]) -> bool,
    IsBegin: Fn(&[u32]) -> bool,
    IsContinue: Fn(&[u32]) -> bool,
    IsEnd: Fn(&[u32]) -> bool,
>(
    buffer: &[u32],
    is_complete: IsComplete,
    is_begin: IsBegin,
    is_continue: IsContinue,
    is_end: IsEnd,
    stride: usize,
    ump_type: u8,
    Ghost(complete): Ghost<spec_fn(Seq<u32>) -> bool>,
    Ghost(begin): Ghost<spec_fn(Seq<u32>) -> bool>,
    Ghost(cont): Ghost<spec_fn(Seq<u32>) -> bool>,
    Ghost(end): Ghost<spec_fn(Seq<u32>) -> bool>,
) -> (result: Result<(), InvalidData>)
    requires
        stride > 0,
        forall|c: &[u32]| #[trigger] is_complete.requires((c,)), forall|c: &[u32], r: bool| #[trigger] is_complete.ensures((c,), r) ==> r == complete(c@),
        forall|c: &[u32]| #[trigger] is_begin.requires((c,)), forall|c: &[u32], r: bool| #[trigger] is_begin.ensures((c,), r) ==> r == begin(c@),
        forall|c: &[u32]| #[trigger] is_continue.requires((c,)), forall|c: &[u32], r: bool| #[trigger] is_continue.ensures((c,), r) ==> r == cont(c@),
        forall|c: &[u32]| #[trigger] is_end.requires((c,)), forall|c: &[u32], r: bool| #[trigger] is_end.ensures((c,), r) ==> r == end(c@),
    ensures
        result is Ok <==> well_formed(buffer@, stride as int, run(buffer@, stride as int, ump_type as int), complete, begin, cont, end),
