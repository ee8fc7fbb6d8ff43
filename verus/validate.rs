// Contract for the acceptance of packet sequences (C17). The body of the function is copied from
// /repo/midi2/src/detail/helpers.rs on every run (bin/verus.py states what is replaced).
use vstd::prelude::*;
verus! {
pub struct InvalidData(pub &'static str);
pub const ERR_SYSEX_EXPECTED_COMPLETE: &'static str = "";
pub const ERR_SYSEX_EXPECTED_BEGIN: &'static str = "";
pub const ERR_SYSEX_EXPECTED_CONTINUE: &'static str = "";
pub const ERR_SYSEX_EXPECTED_END: &'static str = "";
pub const ERR_EMPTY_MESSAGE: &'static str = "";

/// Number of whole packets of the type at the start of `b`.
pub open spec fn run(b: Seq<u32>, stride: int, ty: int) -> int
    decreases b.len(),
{
    if stride > 0 && b.len() >= stride && b[0] >> 28 == ty { 1 + run(b.skip(stride), stride, ty) } else { 0 }
}
pub open spec fn packet(b: Seq<u32>, stride: int, k: int) -> Seq<u32> {
    b.subrange(k * stride, k * stride + stride)
}
/// `buffer.chunks_exact(stride).take_while(|chunk| chunk[0].nibble(0) == ump_type).peekable()`
#[verifier::external_body]
pub struct Iter<'a> { b: &'a [u32] }
impl<'a> Iter<'a> {
    pub uninterp spec fn b(&self) -> Seq<u32>;
    pub uninterp spec fn stride(&self) -> int;
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u32]>)
        ensures
            final(self).b() == old(self).b(), final(self).stride() == old(self).stride(), final(self).n() == old(self).n(),
            old(self).at() < old(self).n() ==> (r matches Some(p) && p@ == packet(old(self).b(), old(self).stride(), old(self).at())) && final(self).at() == old(self).at() + 1,
            old(self).at() >= old(self).n() ==> r is None && final(self).at() == old(self).at(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&&'a [u32]>)
        ensures
            final(self).b() == old(self).b(), final(self).stride() == old(self).stride(), final(self).n() == old(self).n(), final(self).at() == old(self).at(),
            r is None <==> old(self).at() >= old(self).n(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn packets<'a>(buffer: &'a [u32], stride: usize, ump_type: u8) -> (r: Iter<'a>)
    requires stride > 0,
    ensures r.b() == buffer@, r.stride() == stride, r.at() == 0, r.n() == run(buffer@, stride as int, ump_type as int), r.n() >= 0,
{ unimplemented!() }

pub open spec fn well_formed(b: Seq<u32>, stride: int, n: int, complete: spec_fn(Seq<u32>) -> bool, begin: spec_fn(Seq<u32>) -> bool, cont: spec_fn(Seq<u32>) -> bool, end: spec_fn(Seq<u32>) -> bool) -> bool {
    if n <= 1 { n == 1 && complete(packet(b, stride, 0)) } else {
        begin(packet(b, stride, 0)) && end(packet(b, stride, n - 1))
        && (forall|k: int| 0 < k < n - 1 ==> cont(#[trigger] packet(b, stride, k)))
    }
}
//@FUNCTION
fn main() {}
}
